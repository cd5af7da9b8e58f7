//! num-complex with `Complex64` over the symbolic scalar.
pub use num_complex::{Complex, Complex32};
pub type Complex64 = Complex<symrt::Sym>;
