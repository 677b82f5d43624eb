//! What harnesses use.
use crate::engine::*;
use crate::f::*;
use crate::rugshim::Rational as Rat;
use std::fmt::Write as _;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

include!("q.rs");

pub const SYMBOLIC: bool = true;

#[derive(Clone, Copy)]
pub struct Harness {
    pub prop: &'static str,
    pub name: &'static str,
    /// 0: quick and thorough; 1: thorough only
    pub tier: u8,
    pub run: fn(),
    /// marks that must be reached
    pub reach: &'static [&'static str],
    pub bounds: &'static str,
    pub rounding: bool,
    pub panics: bool,
}

pub fn var(name: &str) -> Q {
    let e = eng();
    // small starting values; any value is possible
    let r = e.next_rand();
    let n = (r % 41) as i64 - 20;
    let w = ::rug::Rational::from((n, [1i64, 2, 4][(r >> 20) as usize % 3]));
    let id = e.new_var(name, Some(w), false);
    let v = e.var_val(id);
    Q(Rat::of(v))
}
/// Symbolic input with a preferred starting value.
pub fn var_at(name: &str, n: i32, d: i32) -> Q {
    let e = eng();
    let id = e.new_var(name, Some(::rug::Rational::from((n, d))), false);
    let v = e.var_val(id);
    Q(Rat::of(v))
}
/// Pick one of n alternatives; all are explored.
pub fn choose(name: &str, n: usize) -> usize {
    let e = eng();
    e.check_budget();
    sh().choices.fetch_add(1, SeqCst);
    let mut pick = n - 1;
    for i in 0..n - 1 {
        if e.fork() {
            pick = i;
            break;
        }
        e.check_budget();
    }
    e.choices.push((name.to_string(), pick));
    pick
}
pub fn assume(b: bool) {
    if !b {
        sh().assumed_away.fetch_add(1, SeqCst);
        eng().leave();
    }
}
pub fn assume_pos(x: &Q) {
    asm(x, POS)
}
pub fn assume_nonneg(x: &Q) {
    asm(x, POS | ZER)
}
pub fn assume_nonzero(x: &Q) {
    asm(x, POS | NEG)
}
pub fn assume_zero(x: &Q) {
    asm(x, ZER)
}
fn asm(x: &Q, m: u8) {
    match &x.0 {
        Rat::C(_) => assume(x.0.ask(m)),
        Rat::S(_) => {
            let v = x.0.val();
            eng().assume_sign(&v, m)
        }
    }
}
pub fn check(b: bool, msg: &str) {
    sh().checks.fetch_add(1, SeqCst);
    if !b {
        eng().report("check", msg);
        eng().leave();
    }
}
pub fn fail_path(msg: &str) -> ! {
    eng().report("check", msg);
    eng().leave()
}
pub fn reach(label: &str) {
    let e = eng();
    if let Some(i) = e.labels.iter().position(|l| l == label) {
        if !e.unsure {
            sh().reach[i].fetch_add(1, SeqCst);
        }
    } else {
        e.fail(&format!("undeclared mark {}", label));
    }
}
pub fn q_to_f(x: &Q) -> F {
    x.0.to_f64()
}
pub fn f_to_q(x: F) -> Q {
    match Rat::from_f64(x) {
        Some(r) => Q(r),
        None => eng().fail("non-finite value in an oracle"),
    }
}
pub fn f_finite(x: F) -> bool {
    x.is_finite()
}
/// A floating input: any real in Real mode.
pub fn fvar(name: &str) -> F {
    let x = var(name);
    match x.0 {
        Rat::S(i) => F::S(i),
        Rat::C(_) => unreachable!(),
    }
}
/// A file name for the library to write to; nothing is stored on disk here.
pub fn scratch(name: &str) -> std::path::PathBuf {
    std::path::Path::new("/scratch").join(name)
}
pub fn put_file(p: &std::path::Path, text: &str) {
    let _ = crate::memfs::write(p, text);
}
pub fn drop_file(p: &std::path::Path) {
    let _ = crate::memfs::remove_file(p);
}
pub fn fconst(x: f64) -> F {
    F::C(x)
}

static mut CURRENT: Option<(&'static Harness, Instant)> = None;

pub fn finish_root() -> ! {
    let s = sh();
    let (h, t0) = unsafe { (*std::ptr::addr_of!(CURRENT)).unwrap() };
    let mut o = String::new();
    let left = s.left.load(SeqCst);
    let forks = s.forks.load(SeqCst);
    let lost = (forks + 1).wrapping_sub(left);
    let _ = write!(
        o,
        "{{\"property\":{:?},\"harness\":{:?},\"bounds\":{:?},\"paths\":{},\"forks\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"violations\":{},\"incomplete\":{},\"assumed_away\":{},\"checks\":{},\"nowitness\":{},\"choices\":{},\"pinned\":{},\"max_depth\":{},\"max_terms\":{},\"slowest_ms\":{},\"by_facts\":{},\"guessed\":{},\"errors\":{},\"lost\":{},\"wall_s\":{:.3},\"reach\":{{",
        h.prop, h.name, h.bounds,
        s.paths.load(SeqCst), forks, s.sat.load(SeqCst), s.unsat.load(SeqCst), s.unknown.load(SeqCst),
        s.solver_us.load(SeqCst) as f64 / 1e6, s.violations.load(SeqCst), s.incomplete.load(SeqCst),
        s.assumed_away.load(SeqCst), s.checks.load(SeqCst), s.nowitness.load(SeqCst), s.choices.load(SeqCst),
        s.pinned.load(SeqCst), s.max_depth.load(SeqCst), s.max_terms.load(SeqCst), s.slow_ms.load(SeqCst),
        s.by_facts.load(SeqCst), s.by_witness.load(SeqCst), s.errors.load(SeqCst), lost, t0.elapsed().as_secs_f64()
    );
    for (i, l) in h.reach.iter().enumerate() {
        let _ = write!(o, "{}{:?}:{}", if i > 0 { "," } else { "" }, l, s.reach[i].load(SeqCst));
    }
    o.push_str("},\"fns\":[");
    let mut first = true;
    for (i, f) in s.fns.iter().enumerate() {
        if f.load(SeqCst) != 0 {
            let _ = write!(o, "{}{}", if first { "" } else { "," }, i);
            first = false;
        }
    }
    o.push_str("]}");
    println!("RESULT {}", o);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}

pub fn drive(all: &[Harness]) {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("list") {
        for h in all {
            println!("{} {} {}", h.prop, h.name, h.tier);
        }
        return;
    }
    let name = args.get(2).expect("usage: run <harness> <record file>");
    let h: &'static Harness = Box::leak(Box::new(*all.iter().find(|h| h.name == *name).expect("no such harness")));
    let env = |k: &str, d: u64| std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d);
    let cfg = Config {
        workers: env("SYMRT_WORKERS", 8) as i64,
        max_paths: env("SYMRT_MAX_PATHS", 2_000_000),
        deadline: Instant::now() + Duration::from_secs(env("SYMRT_DEADLINE", 600)),
        query_ms: env("SYMRT_QUERY_MS", 10_000),
        path_cpu_s: env("SYMRT_PATH_CPU", 60) as i64,
        out: args.get(3).cloned().unwrap_or("/dev/stderr".into()),
        max_violations: env("SYMRT_MAX_VIOL", 3),
        log: std::env::var("SYMRT_LOG").is_ok(),
        seed: env("VERIF_SEED", 1),
    };
    unsafe {
        CURRENT = Some((h, Instant::now()));
    }
    start(h.name, cfg);
    let e = eng();
    e.labels = h.reach.iter().map(|s| s.to_string()).collect();
    if h.rounding {
        e.rounding = Rounding::Relative;
    }
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let e = eng();
        e.notes.push(format!("{} at {}", msg, loc));
    }));
    let r = std::panic::catch_unwind(h.run);
    let e = eng();
    if r.is_err() {
        if !h.panics {
            let m = e.notes.last().cloned().unwrap_or_default();
            e.report("panic", &m);
        }
        sh().paths.fetch_add(1, SeqCst);
        e.leave();
    }
    sh().paths.fetch_add(1, SeqCst);
    if sh().samples.fetch_add(1, SeqCst) < 6 {
        let w = e.witness_json();
        e.write_record("sample", "", w);
    }
    e.leave()
}
