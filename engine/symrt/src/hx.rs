//! Harness interface, symbolic side. `hxreal` offers the same names over plain doubles for replay.
use crate::coef::Coef;
use crate::engine::{self, eng, Limits, PathEnd, NEG, POS, ZERO};
pub use crate::engine::Prop;
pub use crate::sym::Sym as R;
use std::io::Write;

pub const SYMBOLIC: bool = true;

pub fn c(x: f64) -> R {
    R::c(x)
}
/// input variable with inclusive bounds
pub fn var(name: &str, lo: f64, hi: f64) -> R {
    R::var(name, lo, hi)
}
/// enumerated input: every value in 0..n is explored
pub fn choice(name: &str, n: usize) -> usize {
    eng(|e| e.choice(name, n))
}
pub fn pick<T: Clone>(name: &str, opts: &[T]) -> T {
    opts[choice(name, opts.len())].clone()
}
pub fn assume(p: Prop) {
    eng(|e| e.assume(&p))
}
pub fn pb(b: bool) -> Prop {
    Prop::B(b)
}
pub fn and(v: Vec<Prop>) -> Prop {
    Prop::And(v)
}
pub fn or(v: Vec<Prop>) -> Prop {
    Prop::Or(v)
}
pub fn not(p: Prop) -> Prop {
    p.not()
}
fn sign(a: R, b: R, m: u8) -> Prop {
    match (a, b) {
        (R::C(x), R::C(y)) => {
            let tol = 1e-10 * x.abs().max(y.abs()) + 1e-13;
            if x.is_nan() || y.is_nan() {
                return Prop::B(false);
            }
            if x.is_infinite() || y.is_infinite() {
                let s = if x < y { NEG } else if x > y { POS } else { ZERO };
                return Prop::B(s & m != 0);
            }
            let s = if (x - y).abs() <= tol { ZERO } else if x < y { NEG } else { POS };
            Prop::B(s & m != 0)
        }
        (R::C(x), _) | (_, R::C(x)) if !x.is_finite() => {
            if x.is_nan() {
                return Prop::B(false);
            }
            let left = matches!(a, R::C(_));
            let s = if (x > 0.0) == left { POS } else { NEG };
            Prop::B(s & m != 0)
        }
        _ => {
            let (p, q) = (a.poly(), b.poly());
            let big = p.iter().chain(q.iter()).map(|x| x.1.f().abs()).fold(0.0, f64::max);
            let t = crate::arena::with(|ar| {
                let nq = ar.scale(&q, Coef::int(-1));
                let mut d = ar.add(&p, &nq);
                // residue of inexact coefficients
                d.retain(|x| x.1.exact() || x.1.f().abs() > (1e-10 * big).max(1e-12));
                ar.intern(d)
            });
            Prop::S(t, m)
        }
    }
}
pub fn eq(a: R, b: R) -> Prop {
    sign(a, b, ZERO)
}
pub fn ne(a: R, b: R) -> Prop {
    sign(a, b, NEG | POS)
}
pub fn lt(a: R, b: R) -> Prop {
    sign(a, b, NEG)
}
pub fn le(a: R, b: R) -> Prop {
    sign(a, b, NEG | ZERO)
}
pub fn gt(a: R, b: R) -> Prop {
    lt(b, a)
}
pub fn ge(a: R, b: R) -> Prop {
    le(b, a)
}
/// assert on the current path
pub fn check(label: &str, p: Prop) {
    eng(|e| e.check(label, &p))
}
pub fn check_b(label: &str, b: bool) {
    check(label, Prop::B(b))
}
pub fn check_eq(label: &str, a: R, b: R) {
    check(label, eq(a, b))
}
/// record that a label was reached (vacuity witness)
pub fn reach(label: &str) {
    eng(|e| e.reach(label))
}
/// run code that may panic; Err carries the message
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<PathEnd>() {
                std::panic::resume_unwind(p)
            }
            let m = eng(|e| e.last_panic.take()).unwrap_or_default();
            if m.starts_with("SYMRT-UNSUPPORTED") {
                panic!("{}", m);
            }
            Err(m)
        }
    }
}
/// decide the sign of a value (explores each feasible one)
pub fn sgn(x: R) -> i32 {
    x.sign3()
}
/// the value as a double where it is concrete on this path
pub fn val(x: R) -> Option<f64> {
    match x {
        R::C(a) => Some(a),
        _ => None,
    }
}
pub fn show(x: R) -> String {
    match x {
        R::C(a) => format!("{}", a),
        R::T(t) => crate::arena::with(|a| a.show_poly(&a.p(t))),
    }
}
pub fn as_r(v: &json::JsonValue) -> Option<R> {
    crate::ext::JsonExt::as_sym(v)
}
pub fn parse_r(s: &str) -> Option<R> {
    s.parse().ok()
}
pub fn r_bytes(x: R) -> [u8; 8] {
    x.to_be_bytes()
}
pub fn bytes_r(b: [u8; 8]) -> R {
    R::from_be_bytes(b)
}
/// private scratch directory of this exploration thread
pub fn scratch() -> String {
    let d = format!("{}/t{:?}", std::env::var("HX_SCRATCH").expect("HX_SCRATCH"), std::thread::current().id()).replace(['(', ')'], "_");
    std::fs::create_dir_all(&d).unwrap();
    d
}
/// explore the order of parallel tasks
pub fn schedules(explore: bool) {
    engine::set_schedule(explore as u8)
}
pub fn tier_thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}
pub fn pick_tier<T>(quick: T, thorough: T) -> T {
    if tier_thorough() {
        thorough
    } else {
        quick
    }
}

fn esc(s: &str) -> String {
    json::stringify(s)
}

/// `prog <check> <out.json>`, where vast parts run only when named in full; exit status is always 0 when the exploration ran
pub fn main(checks: &[(&str, fn())]) {
    let args: Vec<String> = std::env::args().collect();
    let (id, out) = (&args[1], &args[2]);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let seconds = std::env::var("HX_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(300.0);
    let threads = std::env::var("HX_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let max_paths = std::env::var("HX_PATHS").ok().and_then(|s| s.parse().ok()).unwrap_or(50_000_000);
    let num = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    engine::watchdog(num("HX_PATH_S", 150), num("HX_MB", 16000));
    let mut o = String::from("{\"parts\":[");
    let mut first = true;
    for (name, f) in checks.iter().filter(|c| c.0 == id || c.0.starts_with(&format!("{}.", id)) && !c.0.ends_with(".vast")) {
        let single = name.ends_with(".st");
        let _ = std::fs::write(format!("{}/part", std::env::var("HX_SCRATCH").unwrap_or_default()), name);
        let t = std::time::Instant::now();
        let st = engine::explore(&Limits { seconds, max_paths, threads: if single { 1 } else { threads }, seed }, &|| f());
        let wall = t.elapsed().as_secs_f64();
        eprintln!(
            "[{}] paths {} decisions {} forks {} feas {} (unknown {}) obligations {} (path {}, normal form {}, solver {}) queries {} solver {:.2}s wall {:.2}s fail {} inconcl {} trunc {}",
            name, st.paths, st.decisions, st.forks, st.feas_queries, st.feas_unknown, st.obligations, st.obl_path, st.obl_normal_form, st.obl_solver,
            st.obl_queries, st.solver_s, wall, st.failures.len(), st.inconclusive.len(), st.truncated
        );
        if !first {
            o += ",";
        }
        first = false;
        o += &format!(
            "{{\"part\":{},\"paths\":{},\"infeasible\":{},\"decisions\":{},\"forks\":{},\"feas_queries\":{},\"feas_unknown\":{},\"obligations\":{},\"obl_path\":{},\"obl_normal_form\":{},\"obl_solver\":{},\"obl_queries\":{},\"witness_sat\":{},\"solver_s\":{},\"wall_s\":{},\"truncated\":{},\"max_path_decisions\":{},",
            esc(name), st.paths, st.infeasible, st.decisions, st.forks, st.feas_queries, st.feas_unknown, st.obligations, st.obl_path, st.obl_normal_form,
            st.obl_solver, st.obl_queries, st.witness_sat, st.solver_s, wall, st.truncated, st.max_path_decisions
        );
        let m = |b: &std::collections::BTreeMap<String, u64>| b.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
        o += &format!("\"reach\":{{{}}},\"labels\":{{{}}},", m(&st.reach), m(&st.labels));
        o += &format!("\"inconclusive\":[{}],", st.inconclusive.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
        o += &format!("\"samples\":[{}],", st.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
        let fs: Vec<String> = st
            .failures
            .iter()
            .map(|f| {
                format!(
                    "{{\"part\":{},\"label\":{},\"how\":{},\"choices\":[{}],\"vars\":{{{}}}}}",
                    esc(name),
                    esc(&f.label),
                    esc(&f.how),
                    f.choices.iter().map(|c| format!("[{},{},{}]", esc(&c.0), c.1, c.2)).collect::<Vec<_>>().join(","),
                    f.vars.iter().map(|v| format!("{}:{:e}", esc(&v.0), v.1)).collect::<Vec<_>>().join(",")
                )
            })
            .collect();
        o += &format!("\"failures\":[{}]}}", fs.join(","));
        for i in &st.inconclusive {
            eprintln!("   inconclusive: {}", i);
        }
        for f in st.failures.iter().take(8) {
            eprintln!("   FAIL {} [{}] choices {:?} vars {:?}", f.label, f.how, f.choices, f.vars);
        }
    }
    o += &format!("],\"z3\":{}}}", esc(&crate::z3::version()));
    std::fs::File::create(out).unwrap().write_all(o.as_bytes()).unwrap();
}
