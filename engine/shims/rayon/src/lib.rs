//! Stand-in for rayon: the parallel tasks of a terminal operation run one after another in an order chosen by the
//! engine (an input of the exploration), so that a schedule becomes an enumerated choice. Tasks are atomic here.
use std::rc::Rc;

/// Lazy parallel iterator: one thunk per task.
pub struct ParIter<T> {
    tasks: Vec<Box<dyn FnOnce() -> Vec<T>>>,
}

// Thunks borrow from the caller; they are run by a terminal operation inside that borrow.
unsafe fn erase<'a, T>(b: Box<dyn FnOnce() -> Vec<T> + 'a>) -> Box<dyn FnOnce() -> Vec<T>> {
    std::mem::transmute(b)
}

impl<T> ParIter<T> {
    pub fn from_items<'a, I: IntoIterator<Item = T>>(i: I) -> Self
    where
        T: 'a,
    {
        ParIter { tasks: i.into_iter().map(|x| unsafe { erase(Box::new(move || vec![x]) as Box<dyn FnOnce() -> Vec<T> + '_>) }).collect() }
    }
    /// run in the scheduled order; results come back in task order
    fn run(self) -> Vec<Vec<T>> {
        let n = self.tasks.len();
        let order = symrt::engine::schedule(n);
        let mut tasks: Vec<_> = self.tasks.into_iter().map(Some).collect();
        let mut res: Vec<Option<Vec<T>>> = (0..n).map(|_| None).collect();
        for i in order {
            res[i] = Some(tasks[i].take().unwrap()());
        }
        res.into_iter().map(|x| x.unwrap()).collect()
    }
    fn flat(self) -> Vec<T> {
        self.run().into_iter().flatten().collect()
    }
    fn then<'a, U, F: Fn(T) -> Vec<U> + 'a>(self, f: F) -> ParIter<U>
    where
        T: 'a,
        U: 'a,
    {
        let f = Rc::new(f);
        ParIter {
            tasks: self
                .tasks
                .into_iter()
                .map(|t| {
                    let f = f.clone();
                    unsafe { erase(Box::new(move || t().into_iter().flat_map(|x| f(x)).collect()) as Box<dyn FnOnce() -> Vec<U> + '_>) }
                })
                .collect(),
        }
    }
}

pub trait IntoParallelIterator {
    type Item;
    type Iter: ParallelIterator<Item = Self::Item>;
    fn into_par_iter(self) -> Self::Iter;
}
impl<T, I: IntoIterator<Item = T>> IntoParallelIterator for I {
    type Item = T;
    type Iter = ParIter<T>;
    fn into_par_iter(self) -> ParIter<T> {
        ParIter::from_items(self)
    }
}
impl<T> IntoIterator for ParIter<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    // reached when a ParIter is passed where IntoParallelIterator is expected
    fn into_iter(self) -> Self::IntoIter {
        self.flat().into_iter()
    }
}

pub trait ParallelIterator: Sized {
    type Item;
    fn pi(self) -> ParIter<Self::Item>;

    fn map<U, F: Fn(Self::Item) -> U>(self, f: F) -> ParIter<U> {
        self.pi().then(move |x| vec![f(x)])
    }
    fn filter<F: Fn(&Self::Item) -> bool>(self, f: F) -> ParIter<Self::Item> {
        self.pi().then(move |x| if f(&x) { vec![x] } else { vec![] })
    }
    fn filter_map<U, F: Fn(Self::Item) -> Option<U>>(self, f: F) -> ParIter<U> {
        self.pi().then(move |x| f(x).into_iter().collect())
    }
    fn flat_map<U: IntoIterator, F: Fn(Self::Item) -> U>(self, f: F) -> ParIter<U::Item> {
        self.pi().then(move |x| f(x).into_iter().collect())
    }
    fn flat_map_iter<U: IntoIterator, F: Fn(Self::Item) -> U>(self, f: F) -> ParIter<U::Item> {
        self.pi().then(move |x| f(x).into_iter().collect())
    }
    fn map_with<S: Clone, U, F: Fn(&mut S, Self::Item) -> U>(self, s: S, f: F) -> ParIter<U> {
        let s = std::cell::RefCell::new(s);
        self.pi().then(move |x| {
            let mut l = s.borrow().clone();
            vec![f(&mut l, x)]
        })
    }
    fn inspect<F: Fn(&Self::Item)>(self, f: F) -> ParIter<Self::Item> {
        self.pi().then(move |x| {
            f(&x);
            vec![x]
        })
    }
    fn cloned<'a, T: Clone + 'a>(self) -> ParIter<T>
    where
        Self: ParallelIterator<Item = &'a T>,
    {
        self.pi().then(|x| vec![x.clone()])
    }
    fn copied<'a, T: Copy + 'a>(self) -> ParIter<T>
    where
        Self: ParallelIterator<Item = &'a T>,
    {
        self.pi().then(|x| vec![*x])
    }
    fn enumerate(self) -> ParIter<(usize, Self::Item)> {
        let p = self.pi();
        ParIter {
            tasks: p
                .tasks
                .into_iter()
                .enumerate()
                .map(|(i, t)| unsafe { erase(Box::new(move || t().into_iter().map(|x| (i, x)).collect()) as Box<dyn FnOnce() -> Vec<(usize, Self::Item)> + '_>) })
                .collect(),
        }
    }
    fn zip<O: IntoParallelIterator>(self, o: O) -> ParIter<(Self::Item, O::Item)> {
        let a = self.pi().flat();
        let b = o.into_par_iter().pi().flat();
        ParIter::from_items(a.into_iter().zip(b).collect::<Vec<_>>())
    }
    fn chain<O: IntoParallelIterator<Item = Self::Item>>(self, o: O) -> ParIter<Self::Item> {
        let mut a = self.pi();
        a.tasks.extend(o.into_par_iter().pi().tasks);
        a
    }
    fn rev(self) -> ParIter<Self::Item> {
        let mut a = self.pi();
        a.tasks.reverse();
        a
    }
    fn for_each<F: Fn(Self::Item)>(self, f: F) {
        self.pi()
            .then(move |x| {
                f(x);
                Vec::<()>::new()
            })
            .run();
    }
    fn for_each_with<S: Clone, F: Fn(&mut S, Self::Item)>(self, s: S, f: F) {
        {
            let s = std::cell::RefCell::new(s);
            self.pi()
                .then(|x| {
                    let mut l = s.borrow().clone();
                    f(&mut l, x);
                    Vec::<()>::new()
                })
                .run();
        }
    }
    fn for_each_init<S, I: Fn() -> S, F: Fn(&mut S, Self::Item)>(self, i: I, f: F) {
        self.pi()
            .then(move |x| {
                f(&mut i(), x);
                Vec::<()>::new()
            })
            .run();
    }
    fn collect<C: FromIterator<Self::Item>>(self) -> C {
        self.pi().flat().into_iter().collect()
    }
    fn collect_into_vec(self, v: &mut Vec<Self::Item>) {
        *v = self.pi().flat();
    }
    fn unzip<A, B, FA: Default + Extend<A>, FB: Default + Extend<B>>(self) -> (FA, FB)
    where
        Self: ParallelIterator<Item = (A, B)>,
    {
        self.pi().flat().into_iter().unzip()
    }
    fn count(self) -> usize {
        self.pi().flat().len()
    }
    fn sum<S: std::iter::Sum<Self::Item>>(self) -> S {
        self.pi().flat().into_iter().sum()
    }
    fn any<F: Fn(Self::Item) -> bool>(self, f: F) -> bool {
        self.pi().flat().into_iter().any(f)
    }
    fn all<F: Fn(Self::Item) -> bool>(self, f: F) -> bool {
        self.pi().flat().into_iter().all(f)
    }
    fn max(self) -> Option<Self::Item>
    where
        Self::Item: Ord,
    {
        self.pi().flat().into_iter().max()
    }
    fn min(self) -> Option<Self::Item>
    where
        Self::Item: Ord,
    {
        self.pi().flat().into_iter().min()
    }
    fn reduce<I: Fn() -> Self::Item, F: Fn(Self::Item, Self::Item) -> Self::Item>(self, id: I, f: F) -> Self::Item {
        self.pi().flat().into_iter().fold(id(), f)
    }
    fn reduce_with<F: Fn(Self::Item, Self::Item) -> Self::Item>(self, f: F) -> Option<Self::Item> {
        self.pi().flat().into_iter().reduce(f)
    }
    /// one partial result per task, as with maximal splitting
    fn fold<S, I: Fn() -> S, F: Fn(S, Self::Item) -> S>(self, id: I, f: F) -> ParIter<S> {
        self.pi().then(move |x| vec![f(id(), x)])
    }
    fn max_by<F: Fn(&Self::Item, &Self::Item) -> std::cmp::Ordering>(self, f: F) -> Option<Self::Item> {
        self.pi().flat().into_iter().max_by(f)
    }
    fn min_by<F: Fn(&Self::Item, &Self::Item) -> std::cmp::Ordering>(self, f: F) -> Option<Self::Item> {
        self.pi().flat().into_iter().min_by(f)
    }
    fn max_by_key<K: Ord, F: Fn(&Self::Item) -> K>(self, f: F) -> Option<Self::Item> {
        self.pi().flat().into_iter().max_by_key(f)
    }
    fn min_by_key<K: Ord, F: Fn(&Self::Item) -> K>(self, f: F) -> Option<Self::Item> {
        self.pi().flat().into_iter().min_by_key(f)
    }
    fn product<S: std::iter::Product<Self::Item>>(self) -> S {
        self.pi().flat().into_iter().product()
    }
    fn partition<A: Default + Extend<Self::Item>, F: Fn(&Self::Item) -> bool>(self, f: F) -> (A, A) {
        self.pi().flat().into_iter().partition(f)
    }
    /// whichever task comes first in the schedule
    fn find_any<F: Fn(&Self::Item) -> bool>(self, f: F) -> Option<Self::Item> {
        let hits = self.filter(f).pi().flat();
        let k = symrt::engine::schedule(hits.len()).first().copied();
        k.and_then(|k| hits.into_iter().nth(k))
    }
    fn find_first<F: Fn(&Self::Item) -> bool>(self, f: F) -> Option<Self::Item> {
        self.filter(f).pi().flat().into_iter().next()
    }
    fn find_last<F: Fn(&Self::Item) -> bool>(self, f: F) -> Option<Self::Item> {
        self.filter(f).pi().flat().into_iter().last()
    }
    fn find_map_first<U, F: Fn(Self::Item) -> Option<U>>(self, f: F) -> Option<U> {
        self.filter_map(f).pi().flat().into_iter().next()
    }
    fn position_first<F: Fn(Self::Item) -> bool>(self, f: F) -> Option<usize> {
        self.map(f).pi().flat().into_iter().position(|b| b)
    }
    fn position_any<F: Fn(Self::Item) -> bool>(self, f: F) -> Option<usize> {
        self.map(f).enumerate().find_any(|x| x.1).map(|x| x.0)
    }
    fn flatten(self) -> ParIter<<Self::Item as IntoIterator>::Item>
    where
        Self::Item: IntoIterator,
    {
        self.pi().then(|x| x.into_iter().collect())
    }
    fn flatten_iter(self) -> ParIter<<Self::Item as IntoIterator>::Item>
    where
        Self::Item: IntoIterator,
    {
        self.pi().then(|x| x.into_iter().collect())
    }
    fn map_init<S, U, I: Fn() -> S, F: Fn(&mut S, Self::Item) -> U>(self, i: I, f: F) -> ParIter<U> {
        self.pi().then(move |x| vec![f(&mut i(), x)])
    }
    fn update<F: Fn(&mut Self::Item)>(self, f: F) -> ParIter<Self::Item> {
        self.pi().then(move |mut x| {
            f(&mut x);
            vec![x]
        })
    }
    fn fold_with<S: Clone, F: Fn(S, Self::Item) -> S>(self, s: S, f: F) -> ParIter<S> {
        self.pi().then(move |x| vec![f(s.clone(), x)])
    }
    fn take(self, n: usize) -> ParIter<Self::Item> {
        let mut p = self.pi();
        p.tasks.truncate(n);
        p
    }
    fn skip(self, n: usize) -> ParIter<Self::Item> {
        let mut p = self.pi();
        p.tasks.drain(..n.min(p.tasks.len()));
        p
    }
    fn step_by(self, n: usize) -> ParIter<Self::Item> {
        ParIter { tasks: self.pi().tasks.into_iter().step_by(n).collect() }
    }
    fn chunks(self, n: usize) -> ParIter<Vec<Self::Item>> {
        let mut left = self.pi().tasks.into_iter();
        let mut tasks = Vec::new();
        loop {
            let some: Vec<_> = left.by_ref().take(n).collect();
            if some.is_empty() {
                break;
            }
            tasks.push(unsafe { erase(Box::new(move || vec![some.into_iter().flat_map(|t| t()).collect()]) as Box<dyn FnOnce() -> Vec<Vec<Self::Item>> + '_>) });
        }
        ParIter { tasks }
    }
    fn zip_eq<O: IntoParallelIterator>(self, o: O) -> ParIter<(Self::Item, O::Item)> {
        self.zip(o)
    }
    fn try_reduce<T, E, I: Fn() -> T, F: Fn(T, T) -> Result<T, E>>(self, id: I, f: F) -> Result<T, E>
    where
        Self: ParallelIterator<Item = Result<T, E>>,
    {
        let mut a = id();
        for x in self.pi().flat() {
            a = f(a, x?)?;
        }
        Ok(a)
    }
    fn try_for_each<E, F: Fn(Self::Item) -> Result<(), E>>(self, f: F) -> Result<(), E> {
        for r in self.map(f).pi().flat() {
            r?;
        }
        Ok(())
    }
    fn with_min_len(self, _: usize) -> ParIter<Self::Item> {
        self.pi()
    }
    fn with_max_len(self, _: usize) -> ParIter<Self::Item> {
        self.pi()
    }
}
impl<T> ParallelIterator for ParIter<T> {
    type Item = T;
    fn pi(self) -> ParIter<T> {
        self
    }
}
pub trait IndexedParallelIterator: ParallelIterator {}
impl<T> IndexedParallelIterator for ParIter<T> {}

pub trait IntoParallelRefIterator<'a> {
    type Item: 'a;
    fn par_iter(&'a self) -> ParIter<Self::Item>;
}
impl<'a, C: ?Sized + 'a, T: 'a> IntoParallelRefIterator<'a> for C
where
    &'a C: IntoIterator<Item = T>,
{
    type Item = T;
    fn par_iter(&'a self) -> ParIter<T> {
        ParIter::from_items(self)
    }
}
pub trait IntoParallelRefMutIterator<'a> {
    type Item: 'a;
    fn par_iter_mut(&'a mut self) -> ParIter<Self::Item>;
}
impl<'a, C: ?Sized + 'a, T: 'a> IntoParallelRefMutIterator<'a> for C
where
    &'a mut C: IntoIterator<Item = T>,
{
    type Item = T;
    fn par_iter_mut(&'a mut self) -> ParIter<T> {
        ParIter::from_items(self)
    }
}
pub trait ParallelSlice<T> {
    fn par_chunks(&self, n: usize) -> ParIter<&[T]>;
    fn par_chunks_exact(&self, n: usize) -> ParIter<&[T]>;
    fn par_windows(&self, n: usize) -> ParIter<&[T]>;
}
impl<T> ParallelSlice<T> for [T] {
    fn par_chunks(&self, n: usize) -> ParIter<&[T]> {
        ParIter::from_items(self.chunks(n))
    }
    fn par_chunks_exact(&self, n: usize) -> ParIter<&[T]> {
        ParIter::from_items(self.chunks_exact(n))
    }
    fn par_windows(&self, n: usize) -> ParIter<&[T]> {
        ParIter::from_items(self.windows(n))
    }
}
/// sorting has one outcome whatever the schedule: equal elements keep the order std gives them
pub trait ParallelSliceMut<T> {
    fn items(&mut self) -> &mut [T];
    fn par_chunks_mut(&mut self, n: usize) -> ParIter<&mut [T]> {
        ParIter::from_items(self.items().chunks_mut(n).collect::<Vec<_>>())
    }
    fn par_sort(&mut self)
    where
        T: Ord,
    {
        self.items().sort()
    }
    fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
        self.items().sort_by(f)
    }
    fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
        self.items().sort_by_key(f)
    }
    fn par_sort_by_cached_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
        self.items().sort_by_cached_key(f)
    }
    fn par_sort_unstable(&mut self)
    where
        T: Ord,
    {
        self.items().sort_unstable()
    }
    fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
        self.items().sort_unstable_by(f)
    }
    fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
        self.items().sort_unstable_by_key(f)
    }
}
impl<T> ParallelSliceMut<T> for [T] {
    fn items(&mut self) -> &mut [T] {
        self
    }
}
pub trait ParallelBridge: Sized {
    type It;
    fn par_bridge(self) -> ParIter<Self::It>;
}
impl<I: Iterator> ParallelBridge for I {
    type It = I::Item;
    fn par_bridge(self) -> ParIter<I::Item> {
        ParIter::from_items(self)
    }
}
pub trait ParallelExtend<T> {
    fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I);
}
impl<T> ParallelExtend<T> for Vec<T> {
    fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) {
        self.extend(i.into_par_iter().pi().flat())
    }
}
pub trait FromParallelIterator<T> {
    fn from_par_iter<I: IntoParallelIterator<Item = T>>(i: I) -> Self;
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA,
    B: FnOnce() -> RB,
{
    if symrt::engine::schedule(2)[0] == 0 {
        let x = a();
        (x, b())
    } else {
        let y = b();
        (a(), y)
    }
}
pub fn current_num_threads() -> usize {
    4
}
pub struct Scope<'s>(std::cell::RefCell<Vec<Box<dyn FnOnce(&Scope<'s>) + 's>>>);
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + 's>(&self, f: F) {
        self.0.borrow_mut().push(Box::new(f))
    }
}
/// the tasks of a scope run in the scheduled order, those they spawn after them
pub fn scope<'s, R, F: FnOnce(&Scope<'s>) -> R>(f: F) -> R {
    let s = Scope(Default::default());
    let r = f(&s);
    loop {
        let mut t: Vec<_> = s.0.take().into_iter().map(Some).collect();
        if t.is_empty() {
            return r;
        }
        for i in symrt::engine::schedule(t.len()) {
            t[i].take().unwrap()(&s)
        }
    }
}
pub mod slice {
    pub use super::{ParallelSlice, ParallelSliceMut};
}
pub mod iter {
    pub use super::*;
}
pub mod prelude {
    pub use super::{
        FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge,
        ParallelExtend, ParallelIterator, ParallelSlice, ParallelSliceMut,
    };
}
