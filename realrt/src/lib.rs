//! Concrete twin of symrt: runs a harness on recorded values with the real number types.
#![allow(static_mut_refs)]
use rug::Rational as Rat;

include!("../../symrt/src/q.rs");

pub const SYMBOLIC: bool = false;
pub type F = f64;
pub type Float = f64;
pub use num_traits;
pub use rug;

#[derive(Clone, Copy)]
pub struct Harness {
    pub prop: &'static str,
    pub name: &'static str,
    pub tier: u8,
    pub run: fn(),
    pub reach: &'static [&'static str],
    pub bounds: &'static str,
    pub rounding: bool,
    pub panics: bool,
}

struct Input {
    vars: Vec<(String, Rat)>,
    choices: Vec<(String, usize)>,
    vi: usize,
    ci: usize,
}
static mut INPUT: Option<Input> = None;

fn inp() -> &'static mut Input {
    unsafe { INPUT.as_mut().unwrap() }
}
struct Stop(i32, String);
static mut SEARCH: bool = false;
fn stop(code: i32, msg: &str) -> ! {
    if unsafe { SEARCH } {
        std::panic::panic_any(Stop(code, msg.to_string()))
    }
    println!("REPLAY {} {}", code, msg);
    std::process::exit(code)
}
pub fn var(name: &str) -> Q {
    let i = inp();
    if i.vi < i.vars.len() && i.vars[i.vi].0 == name {
        i.vi += 1;
        return Q(i.vars[i.vi - 1].1.clone());
    }
    stop(4, &format!("no value for {}", name))
}
pub fn var_at(name: &str, _: i32, _: i32) -> Q {
    var(name)
}
pub fn choose(name: &str, n: usize) -> usize {
    let i = inp();
    if i.ci < i.choices.len() && i.choices[i.ci].0 == name && i.choices[i.ci].1 < n {
        i.ci += 1;
        return i.choices[i.ci - 1].1;
    }
    stop(4, &format!("no choice for {}", name))
}
pub fn assume(b: bool) {
    if !b {
        stop(3, "assumption not met")
    }
}
pub fn assume_pos(x: &Q) {
    assume(x.is_pos())
}
pub fn assume_nonneg(x: &Q) {
    assume(!x.is_neg())
}
pub fn assume_nonzero(x: &Q) {
    assume(!x.is_zero())
}
pub fn assume_zero(x: &Q) {
    assume(x.is_zero())
}
pub fn check(b: bool, msg: &str) {
    if !b {
        stop(10, msg)
    }
}
pub fn fail_path(msg: &str) -> ! {
    stop(10, msg)
}
pub fn reach(_: &str) {}
pub fn q_to_f(x: &Q) -> F {
    x.0.to_f64()
}
pub fn f_to_q(x: F) -> Q {
    Q(Rat::from_f64(x).expect("finite"))
}
pub fn f_finite(x: F) -> bool {
    x.is_finite()
}
pub fn fvar(name: &str) -> F {
    let x = var(name);
    let f = x.0.to_f64();
    f
}
/// A file name in a directory of this process.
pub fn scratch(name: &str) -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("cgar-check-{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d.join(name)
}
pub fn put_file(p: &std::path::Path, text: &str) {
    std::fs::write(p, text).expect("scratch file");
}
/// Removes the file and its directory once that is empty.
pub fn drop_file(p: &std::path::Path) {
    let _ = std::fs::remove_file(p);
    let _ = std::fs::remove_dir(p.parent().unwrap());
}
pub fn fconst(x: f64) -> F {
    x
}

/// Input file: lines `v <name> <rational>` and `c <name> <index>`.
pub fn drive(all: &[Harness]) {
    let a: Vec<String> = std::env::args().collect();
    let h = all.iter().find(|h| h.name == a[2]).expect("no such harness");
    let text = std::fs::read_to_string(&a[3]).expect("input file");
    let mut i = Input { vars: vec![], choices: vec![], vi: 0, ci: 0 };
    for l in text.lines() {
        let p: Vec<&str> = l.split_whitespace().collect();
        match p.as_slice() {
            ["v", n, x] => i.vars.push((n.to_string(), x.parse::<Rat>().expect("rational"))),
            ["c", n, x] => i.choices.push((n.to_string(), x.parse().unwrap())),
            _ => {}
        }
    }
    if h.rounding && std::env::var("REPLAY_SEARCH").is_ok() {
        concretise(h, &mut i, &text, &a[3]);
    }
    unsafe {
        INPUT = Some(i);
    }
    let run = h.run;
    let r = std::panic::catch_unwind(run);
    if r.is_err() && !h.panics {
        stop(11, "panic");
    }
    stop(0, "completed without failure")
}

/// A counterexample under the rounding model fixes the error terms only within their bounds: look
/// for doubles near the model's values that show the failure with the errors of the real hardware.
fn concretise(h: &Harness, i: &mut Input, text: &str, path: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        SEARCH = true;
    }
    let base = i.vars.clone();
    let mut rng: u64 = 0x9E3779B97F4A7C15;
    let mut next = move || {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        rng
    };
    let t0 = std::time::Instant::now();
    let mut n = 0u32;
    while t0.elapsed().as_secs() < 15 {
        let mut vars = base.clone();
        if n > 0 {
            for v in vars.iter_mut() {
                let d = v.1.to_f64();
                let r = next();
                let x = match r % 8 {
                    0 | 1 => continue,
                    2 => f64::from_bits((d.to_bits() as i64 + ((r >> 8) % 17) as i64 - 8) as u64),
                    3 | 4 => f64::from_bits(d.to_bits() & !0xfffffffffffff | (r >> 12)),
                    5 => f64::from_bits(d.to_bits() & !0xfffffffffffff | (r >> 12)) * 2f64.powi((r % 9) as i32 - 4),
                    6 => f64::from_bits(d.to_bits() & !0xfffffffffffff | (r >> 12)) * 2f64.powi(-((r % 120) as i32)),
                    _ => f64::from_bits(d.to_bits() & !0xfffffffffffff | ((r >> 12) & 0xfffff0000000f)),
                };
                if let Some(q) = Rat::from_f64(x) {
                    v.1 = q;
                }
            }
        }
        n += 1;
        unsafe {
            INPUT = Some(Input { vars: vars.clone(), choices: i.choices.clone(), vi: 0, ci: 0 });
        }
        let failed = match std::panic::catch_unwind(h.run) {
            Ok(()) => false,
            Err(p) => match p.downcast_ref::<Stop>() {
                Some(s) => s.0 == 10,
                None => !h.panics,
            },
        };
        if failed {
            i.vars = vars;
            let mut out = String::new();
            for l in text.lines().filter(|l| l.starts_with('#')) {
                out += &format!("{}\n", l);
            }
            for (k, v) in &i.vars {
                out += &format!("v {} {}\n", k, v);
            }
            for (k, v) in &i.choices {
                out += &format!("c {} {}\n", k, v);
            }
            std::fs::write(path, out).expect("replay file");
            break;
        }
    }
    unsafe {
        SEARCH = false;
    }
    let _ = std::panic::take_hook();
}
