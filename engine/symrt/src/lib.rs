//! Run-time of the symbolic re-execution engine: `Sym` replaces `f64` in the code under test.
#[allow(dead_code)]
pub mod arena;
pub mod coef;
pub mod engine;
pub mod ext;
pub mod hx;
pub mod sym;
#[allow(dead_code)]
pub mod z3;
pub use ext::{coll, GetExt, JsonExt, PutExt};
pub use sym::{f64m, to_sym, As, Fp, Sym, ToSym};

/// stands in for a macro whose expansion the transformer has written out
#[macro_export]
macro_rules! same {
    ($e:expr) => {
        $e
    };
}

/// casts of a field-less enum, for the build in which every cast goes through `As`
#[macro_export]
macro_rules! enum_as {
    ($e:ty) => {
        $crate::enum_as!(@ $e: u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    };
    (@ $e:ty: $($t:ty)*) => { $( impl $crate::As<$t> for $e { fn as_(self) -> $t { self as $t } } )* };
}
