//! Harness interface over plain doubles: runs one recorded counterexample against the real crate.
//! Same names as `symrt::hx`.
use std::cell::RefCell;
use std::collections::HashMap;
pub type R = f64;
pub const SYMBOLIC: bool = false;
const NEG: u8 = 1;
const ZERO: u8 = 2;
const POS: u8 = 4;

#[derive(Clone, Debug)]
pub enum Prop {
    B(bool),
    /// (left, right, accepted signs of left-right)
    S(f64, f64, u8),
    And(Vec<Prop>),
    Or(Vec<Prop>),
}

#[derive(Default)]
struct Run {
    choices: Vec<(String, usize)>,
    at: usize,
    vars: HashMap<String, f64>,
    fails: Vec<String>,
}
thread_local! { static RUN: RefCell<Run> = RefCell::new(Run::default()); }
struct Stop(&'static str);

fn stop(m: &'static str) -> ! {
    std::panic::panic_any(Stop(m))
}
fn is_free(name: &str) -> bool {
    name == "schedule" || name == "eigen-order"
}

pub fn c(x: f64) -> R {
    x
}
pub fn var(name: &str, lo: f64, hi: f64) -> R {
    RUN.with(|r| r.borrow().vars.get(name).copied()).unwrap_or((lo + hi) / 2.0).clamp(lo, hi)
}
pub fn choice(name: &str, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        while r.at < r.choices.len() && is_free(&r.choices[r.at].0) {
            r.at += 1;
        }
        if r.at >= r.choices.len() || r.choices[r.at].0 != name || r.choices[r.at].1 >= n {
            drop(r);
            stop("choice list diverged");
        }
        r.at += 1;
        r.choices[r.at - 1].1
    })
}
pub fn pick<T: Clone>(name: &str, opts: &[T]) -> T {
    opts[choice(name, opts.len())].clone()
}
pub fn assume(p: Prop) {
    if !holds(&p) {
        stop("assumption does not hold")
    }
}
pub fn pb(b: bool) -> Prop {
    Prop::B(b)
}
pub fn and(v: Vec<Prop>) -> Prop {
    Prop::And(v)
}
pub fn or(v: Vec<Prop>) -> Prop {
    Prop::Or(v)
}
pub fn not(p: Prop) -> Prop {
    match p {
        Prop::B(b) => Prop::B(!b),
        Prop::S(a, b, m) => Prop::S(a, b, 7 & !m),
        Prop::And(v) => Prop::Or(v.into_iter().map(not).collect()),
        Prop::Or(v) => Prop::And(v.into_iter().map(not).collect()),
    }
}
fn holds(p: &Prop) -> bool {
    match p {
        Prop::B(b) => *b,
        Prop::S(a, b, m) => {
            if a.is_nan() || b.is_nan() {
                return false;
            }
            let raw = if a < b {
                NEG
            } else if a > b {
                POS
            } else {
                ZERO
            };
            // nearly equal doubles count as either
            let near = a.is_finite() && b.is_finite() && (a - b).abs() <= 1e-7 * a.abs().max(b.abs()) + 1e-9;
            let set = if near { raw | ZERO } else { raw };
            set & m != 0
        }
        Prop::And(v) => v.iter().all(holds),
        Prop::Or(v) => v.iter().any(holds),
    }
}
pub fn eq(a: R, b: R) -> Prop {
    Prop::S(a, b, ZERO)
}
pub fn ne(a: R, b: R) -> Prop {
    Prop::S(a, b, NEG | POS)
}
pub fn lt(a: R, b: R) -> Prop {
    Prop::S(a, b, NEG)
}
pub fn le(a: R, b: R) -> Prop {
    Prop::S(a, b, NEG | ZERO)
}
pub fn gt(a: R, b: R) -> Prop {
    Prop::S(a, b, POS)
}
pub fn ge(a: R, b: R) -> Prop {
    Prop::S(a, b, POS | ZERO)
}
pub fn check(label: &str, p: Prop) {
    if !holds(&p) {
        RUN.with(|r| r.borrow_mut().fails.push(format!("{} ({:?})", label, p)));
    }
}
pub fn check_b(label: &str, b: bool) {
    check(label, Prop::B(b))
}
pub fn check_eq(label: &str, a: R, b: R) {
    check(label, eq(a, b))
}
pub fn reach(_label: &str) {}
fn msg(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<Stop>() {
                std::panic::resume_unwind(p)
            }
            Err(msg(&*p))
        }
    }
}
pub fn sgn(x: R) -> i32 {
    (x > 0.0) as i32 - (x < 0.0) as i32
}
pub fn val(x: R) -> Option<f64> {
    Some(x)
}
pub fn show(x: R) -> String {
    format!("{}", x)
}
pub fn as_r(v: &json::JsonValue) -> Option<R> {
    v.as_f64()
}
pub fn parse_r(s: &str) -> Option<R> {
    s.parse().ok()
}
pub fn r_bytes(x: R) -> [u8; 8] {
    x.to_be_bytes()
}
pub fn bytes_r(b: [u8; 8]) -> R {
    f64::from_be_bytes(b)
}
pub fn scratch() -> String {
    let d = format!("{}/real{}", std::env::var("HX_SCRATCH").expect("HX_SCRATCH"), std::process::id());
    std::fs::create_dir_all(&d).unwrap();
    d
}
/// the order of parallel tasks is the real scheduler's
pub fn schedules(_explore: bool) {}
pub fn tier_thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}
pub fn pick_tier<T>(quick: T, thorough: T) -> T {
    if tier_thorough() {
        thorough
    } else {
        quick
    }
}

/// `prog <failure.json>`: exit 1 with FAIL lines when the failure shows on the real code,
/// 0 when everything holds, 3 when the recorded run does not apply
pub fn main(checks: &[(&str, fn())]) {
    let path = std::env::args().nth(1).expect("replay file");
    let j = json::parse(&std::fs::read_to_string(path).unwrap()).unwrap();
    let part = j["part"].as_str().unwrap().to_string();
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        for ch in j["choices"].members() {
            // a choice with one option is not asked again
            if ch[2].as_usize() != Some(1) {
                r.choices.push((ch[0].as_str().unwrap().into(), ch[1].as_usize().unwrap()));
            }
        }
        for (k, v) in j["vars"].entries() {
            r.vars.insert(k.into(), v.as_f64().unwrap());
        }
    });
    let f = checks.iter().find(|x| x.0 == part).expect("unknown part").1;
    std::panic::set_hook(Box::new(|_| {}));
    let end = std::panic::catch_unwind(f);
    let mut fails = RUN.with(|r| std::mem::take(&mut r.borrow_mut().fails));
    if let Err(p) = end {
        match p.downcast_ref::<Stop>() {
            Some(s) => {
                println!("STOP {}", s.0);
                if fails.is_empty() {
                    std::process::exit(3)
                }
            }
            None => fails.push(format!("no-panic: {}", msg(&*p))),
        }
    }
    for f in &fails {
        println!("FAIL {}", f.replace('\n', " "));
    }
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
