pub use symrt::hx;
#[path = "../../src/all.rs"]
mod all;
fn main() {
    hx::main(all::CHECKS)
}
