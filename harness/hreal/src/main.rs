pub use hxreal as hx;
#[path = "../../src/all.rs"]
mod all;
fn main() {
    hx::main(all::CHECKS)
}
