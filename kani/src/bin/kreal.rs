//! native replay: kreal <harness> <hex bytes of each drawn value>...
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let v: Vec<Vec<u8>> = a[2..].iter().map(|h| (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect()).collect();
    let f = kan::ALL.iter().find(|x| x.0 == a[1]).expect("unknown harness").1;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut kan::Rec(v.into_iter()))));
    std::process::exit(r.is_err() as i32);
}
