//! Path exploration: values, path condition, solver, forking.
use crate::poly::*;
use rug::{Integer, Rational};
use smallvec::SmallVec;
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::time::Instant;

pub const NEG: u8 = 1;
pub const ZER: u8 = 2;
pub const POS: u8 = 4;
pub const ANY: u8 = 7;

pub type Factors = SmallVec<[(u32, i32); 2]>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Val {
    pub c: Rational,
    pub f: Factors,
}

/// Formula over sign conditions of polynomials.
#[derive(Clone, Debug)]
pub enum Fm {
    Atom(u32, u8),
    And(Vec<Fm>),
    Or(Vec<Fm>),
}

pub struct VarInfo {
    pub name: String,
    /// None for an input; Some(rule) for a variable defined by a constraint.
    pub defined: bool,
    pub int: bool,
}

#[repr(C)]
pub struct Shared {
    pub paths: AtomicU64,
    pub forks: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub solver_us: AtomicU64,
    pub undecided: AtomicU64,
    pub violations: AtomicU64,
    pub incomplete: AtomicU64,
    pub assumed_away: AtomicU64,
    pub checks: AtomicU64,
    pub sym_checks: AtomicU64,
    pub nowitness: AtomicU64,
    pub choices: AtomicU64,
    pub pinned: AtomicU64,
    pub max_depth: AtomicU64,
    pub max_terms: AtomicU64,
    pub slow_ms: AtomicU64,
    pub stop: AtomicU64,
    pub active: AtomicI64,
    pub by_witness: AtomicU64,
    pub by_facts: AtomicU64,
    pub errors: AtomicU64,
    pub samples: AtomicU64,
    pub left: AtomicU64,
    pub reach: [AtomicU64; 128],
    pub fns: [std::sync::atomic::AtomicU8; 8192],
}

pub struct Z3 {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

pub enum Sat {
    Sat(Vec<(u16, Option<Rational>)>),
    Unsat,
    Unknown,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rounding {
    /// Floating point operations are exact on reals.
    Real,
    /// Every operation returns a value within one half ulp (relative 2^-53) of the exact one.
    Relative,
}

pub struct Config {
    pub workers: i64,
    pub max_paths: u64,
    pub deadline: Instant,
    pub query_ms: u64,
    pub path_cpu_s: i64,
    pub out: String,
    pub max_violations: u64,
    pub log: bool,
    pub seed: u64,
}

pub struct Eng {
    pub polys: Vec<Poly>,
    pub poly_vars: Vec<SmallVec<[u16; 6]>>,
    index: HashMap<Poly, u32, ahash::RandomState>,
    pub vals: Vec<Val>,
    pub vars: Vec<VarInfo>,
    pub mask: Vec<u8>,
    pub path: Vec<(Fm, SmallVec<[u16; 6]>)>,
    pub wit: Vec<Option<Rational>>,
    wit_sign: HashMap<u32, u8, ahash::RandomState>,
    pub choices: Vec<(String, usize)>,
    pub labels: Vec<String>,
    pub depth: u64,
    pub is_root: bool,
    holds_token: bool,
    z3: Option<Z3>,
    pub cfg: Config,
    pub rounding: Rounding,
    pub harness: String,
    pub abs_of: HashMap<u32, (u32, u16), ahash::RandomState>, // var poly -> base poly
    pub abs_var: HashMap<u32, u16, ahash::RandomState>,
    /// absolute values (variable -> base polynomial and definition) nothing depends on so far
    pub pending: std::collections::BTreeMap<u16, (u32, Fm)>,
    /// Relative rounding: results by exact value, gaps, truncations, operands of sums
    pub fl_of: HashMap<Val, Val, ahash::RandomState>,
    pub ulp_of: HashMap<(Val, bool), Val, ahash::RandomState>,
    pub tr_of: HashMap<Val, Val, ahash::RandomState>,
    pub sum_of: HashMap<Val, (Val, Val), ahash::RandomState>,
    pub memo: HashMap<(u8, u32, u32), u32, ahash::RandomState>,
    pub rng: u64,
    pub notes: Vec<String>,
    /// poly id of each single variable
    pub var_poly: Vec<u32>,
    /// set once a path was entered without knowing that it is feasible
    pub unsure: bool,
}

pub struct Cell0(UnsafeCell<Option<Eng>>);
unsafe impl Sync for Cell0 {}
static ENG: Cell0 = Cell0(UnsafeCell::new(None));
static mut SHARED: *mut Shared = std::ptr::null_mut();

pub fn eng() -> &'static mut Eng {
    unsafe { (*ENG.0.get()).as_mut().expect("engine not started") }
}
pub fn started() -> bool {
    unsafe { (*ENG.0.get()).is_some() }
}
pub fn sh() -> &'static Shared {
    unsafe { &*SHARED }
}

static mut POOL: *const AtomicI64 = std::ptr::null();
fn active() -> &'static AtomicI64 {
    unsafe { &*POOL }
}

fn rs() -> ahash::RandomState {
    ahash::RandomState::with_seeds(11, 22, 33, 44)
}

pub fn start(harness: &str, cfg: Config) {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHARED = p as *mut Shared;
        libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1);
    }
    // running paths are counted over all harnesses that share the pool file
    unsafe {
        POOL = match std::env::var("SYMRT_POOL") {
            Ok(f) => {
                let fd = std::fs::OpenOptions::new().read(true).write(true).open(&f).expect("pool file");
                use std::os::fd::AsRawFd;
                let p = libc::mmap(std::ptr::null_mut(), 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd.as_raw_fd(), 0);
                assert!(p != libc::MAP_FAILED);
                p as *const AtomicI64
            }
            Err(_) => &sh().active,
        };
    }
    active().fetch_add(1, SeqCst);
    let seed = cfg.seed;
    let e = Eng {
        polys: vec![],
        poly_vars: vec![],
        index: HashMap::with_hasher(rs()),
        vals: vec![],
        vars: vec![],
        mask: vec![],
        path: vec![],
        wit: vec![],
        wit_sign: HashMap::with_hasher(rs()),
        choices: vec![],
        labels: vec![],
        depth: 0,
        is_root: true,
        holds_token: true,
        z3: None,
        cfg,
        rounding: Rounding::Real,
        harness: harness.to_string(),
        abs_of: HashMap::with_hasher(rs()),
        abs_var: HashMap::with_hasher(rs()),
        pending: Default::default(),
        fl_of: HashMap::with_hasher(rs()),
        ulp_of: HashMap::with_hasher(rs()),
        tr_of: HashMap::with_hasher(rs()),
        sum_of: HashMap::with_hasher(rs()),
        memo: HashMap::with_hasher(rs()),
        rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
        notes: vec![],
        var_poly: vec![],
        unsure: false,
    };
    unsafe {
        *ENG.0.get() = Some(e);
    }
    arm_timer();
    install_handlers();
}

extern "C" fn on_fatal(sig: libc::c_int) {
    unsafe {
        libc::alarm(10);
        libc::signal(libc::SIGSEGV, libc::SIG_DFL);
        libc::signal(libc::SIGVTALRM, libc::SIG_DFL);
        libc::signal(libc::SIGABRT, libc::SIG_DFL);
    }
    let kind = if sig == libc::SIGVTALRM { "hang" } else { "crash" };
    eng().report(kind, &format!("signal {}", sig));
    eng().leave();
}

fn install_handlers() {
    unsafe {
        const SZ: usize = 1 << 20;
        let stk = libc::mmap(
            std::ptr::null_mut(),
            SZ,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        let ss = libc::stack_t { ss_sp: stk, ss_flags: 0, ss_size: SZ };
        libc::sigaltstack(&ss, std::ptr::null_mut());
        for s in [libc::SIGSEGV, libc::SIGVTALRM, libc::SIGABRT, libc::SIGBUS, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_fatal as extern "C" fn(libc::c_int) as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}

fn arm_timer() {
    let s = eng().cfg.path_cpu_s;
    unsafe {
        let it = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: s, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_VIRTUAL, &it, std::ptr::null_mut());
    }
}

fn flip(m: u8) -> u8 {
    (m & ZER) | ((m & NEG) << 2) | ((m & POS) >> 2)
}

fn sgn_mask(r: &Rational) -> u8 {
    match r.cmp0() {
        std::cmp::Ordering::Less => NEG,
        std::cmp::Ordering::Equal => ZER,
        std::cmp::Ordering::Greater => POS,
    }
}

/// Possible signs of f^e given the possible signs of f.
fn pow_mask(m: u8, e: i32) -> u8 {
    if e % 2 != 0 {
        m
    } else {
        let mut r = 0;
        if m & ZER != 0 {
            r |= ZER;
        }
        if m & (NEG | POS) != 0 {
            r |= POS;
        }
        r
    }
}

fn mul_mask(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZER, POS] {
        if a & x == 0 {
            continue;
        }
        for y in [NEG, ZER, POS] {
            if b & y == 0 {
                continue;
            }
            r |= if x == ZER || y == ZER {
                ZER
            } else if x == y {
                POS
            } else {
                NEG
            };
        }
    }
    r
}

impl Fm {
    fn vars(&self, e: &Eng, out: &mut Vec<u16>) {
        match self {
            Fm::Atom(p, _) => {
                for v in &e.poly_vars[*p as usize] {
                    if !out.contains(v) {
                        out.push(*v);
                    }
                }
            }
            Fm::And(v) | Fm::Or(v) => v.iter().for_each(|f| f.vars(e, out)),
        }
    }
    fn smt(&self, e: &Eng, s: &mut String) {
        match self {
            Fm::Atom(p, m) => {
                let op = match *m {
                    NEG => "<",
                    ZER => "=",
                    POS => ">",
                    3 => "<=",
                    6 => ">=",
                    5 => "distinct",
                    7 => {
                        s.push_str("true");
                        return;
                    }
                    _ => {
                        s.push_str("false");
                        return;
                    }
                };
                if op == "distinct" {
                    s.push_str("(not (= ");
                } else {
                    let _ = write!(s, "({} ", op);
                }
                e.polys[*p as usize].smt(s);
                s.push_str(" 0)");
                if op == "distinct" {
                    s.push(')');
                }
            }
            Fm::And(v) => {
                s.push_str("(and true");
                for f in v {
                    s.push(' ');
                    f.smt(e, s);
                }
                s.push(')');
            }
            Fm::Or(v) => {
                s.push_str("(or false");
                for f in v {
                    s.push(' ');
                    f.smt(e, s);
                }
                s.push(')');
            }
        }
    }
    fn linear(&self, e: &Eng) -> bool {
        match self {
            Fm::Atom(p, _) => e.polys[*p as usize].degree() <= 1,
            Fm::And(v) | Fm::Or(v) => v.iter().all(|f| f.linear(e)),
        }
    }
    /// Truth at the witness; None if the witness does not determine it.
    fn at_witness(&self, e: &mut Eng) -> Option<bool> {
        match self {
            Fm::Atom(p, m) => e.wit_sign_of(*p).map(|s| s & m != 0),
            Fm::And(v) => {
                let mut u = false;
                for f in v {
                    match f.at_witness(e) {
                        Some(false) => return Some(false),
                        None => u = true,
                        _ => {}
                    }
                }
                if u {
                    None
                } else {
                    Some(true)
                }
            }
            Fm::Or(v) => {
                let mut u = false;
                for f in v {
                    match f.at_witness(e) {
                        Some(true) => return Some(true),
                        None => u = true,
                        _ => {}
                    }
                }
                if u {
                    None
                } else {
                    Some(false)
                }
            }
        }
    }
}

impl Eng {
    // ---------- values ----------
    pub fn intern(&mut self, p: Poly) -> u32 {
        if let Some(&i) = self.index.get(&p) {
            return i;
        }
        let i = self.polys.len() as u32;
        let mut v = vec![];
        p.vars_into(&mut v);
        v.sort();
        let n = p.t.len() as u64;
        sh().max_terms.fetch_max(n, SeqCst);
        self.poly_vars.push(SmallVec::from_vec(v));
        let mut m = ANY;
        if p.t.iter().all(|(m, c)| *c > 0 && m.iter().all(|x| x.1 % 2 == 0)) {
            m = if p.t.last().map_or(false, |x| x.0.is_empty()) { POS } else { POS | ZER };
        }
        self.polys.push(p.clone());
        self.index.insert(p, i);
        self.mask.push(m);
        i
    }
    pub fn push_val(&mut self, v: Val) -> u32 {
        self.vals.push(v);
        (self.vals.len() - 1) as u32
    }
    pub fn new_var(&mut self, name: &str, w: Option<Rational>, defined: bool) -> u16 {
        let id = self.vars.len();
        assert!(id < 65000, "too many symbolic variables");
        self.vars.push(VarInfo { name: name.to_string(), defined, int: false });
        self.wit.push(w);
        id as u16
    }
    pub fn var_val(&mut self, v: u16) -> Val {
        let p = self.intern(Poly::var(v));
        while self.var_poly.len() <= v as usize {
            self.var_poly.push(u32::MAX);
        }
        self.var_poly[v as usize] = p;
        let mut f = Factors::new();
        f.push((p, 1));
        Val { c: Rational::from(1), f }
    }
    pub fn next_rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    /// Product form of c * p.
    fn from_poly(&mut self, c: Rational, p: Poly) -> Val {
        if p.is_zero() || c.cmp0().is_eq() {
            return Val { c: Rational::new(), f: Factors::new() };
        }
        let (k, p) = p.primitive();
        let c = c * Rational::from(k);
        let g = p.mono_gcd();
        let mut f = Factors::new();
        let p = if g.is_empty() { p } else { p.div_mono(&g) };
        for &(v, e) in g.iter() {
            let i = self.intern(Poly::var(v));
            f.push((i, e as i32));
        }
        let mut c = c;
        if p.as_const().is_none() {
            if let Some(&i) = self.index.get(&p) {
                f.push((i, 1));
            } else if let Some(parts) = self.split(&p) {
                f.sort();
                let mut r = Val { c, f };
                for x in parts {
                    let mut y = self.from_poly(Rational::from(1), x);
                    std::mem::swap(&mut r, &mut y);
                    r = self.mul(&r, &y);
                }
                return r;
            } else {
                let i = self.intern(p);
                f.push((i, 1));
            }
        } else if let Some(k) = p.as_const() {
            c *= Rational::from(k);
        }
        f.sort();
        Val { c, f }
    }
    /// Try to write p as a product using polynomials met before.
    fn split(&mut self, p: &Poly) -> Option<Vec<Poly>> {
        let deg = p.degree();
        if p.t.len() < 2 || p.t.len() > 400 || deg < 2 {
            return None;
        }
        let mut vs = vec![];
        p.vars_into(&mut vs);
        let pts: [u64; 2] = [0x9E37_79B9_7F4A_7C15, 0xD1B5_4A32_D192_ED03];
        let mut ev: [Option<Integer>; 2] = [None, None];
        let n = self.polys.len();
        let lo = n.saturating_sub(400);
        for i in (lo..n).rev() {
            let d = &self.polys[i];
            if d.t.len() < 2 || d.t.len() > p.t.len() || d.degree() >= deg {
                continue;
            }
            if !self.poly_vars[i].iter().all(|v| vs.contains(v)) {
                continue;
            }
            let mut ok = true;
            for k in 0..2 {
                let dv = d.eval_int(pts[k]);
                if dv == 0 {
                    continue;
                }
                let pv = ev[k].get_or_insert_with(|| p.eval_int(pts[k]));
                if !pv.is_divisible(&dv) {
                    ok = false;
                    break;
                }
            }
            if !ok {
                continue;
            }
            if let Some(q) = p.div_exact(d) {
                let d = d.clone();
                return Some(vec![d, q]);
            }
        }
        None
    }
    pub fn mul(&mut self, a: &Val, b: &Val) -> Val {
        let c = Rational::from(&a.c * &b.c);
        if c.cmp0().is_eq() {
            return Val { c, f: Factors::new() };
        }
        let mut f = Factors::new();
        let (mut i, mut j) = (0, 0);
        while i < a.f.len() || j < b.f.len() {
            if j >= b.f.len() || (i < a.f.len() && a.f[i].0 < b.f[j].0) {
                f.push(a.f[i]);
                i += 1;
            } else if i >= a.f.len() || b.f[j].0 < a.f[i].0 {
                f.push(b.f[j]);
                j += 1;
            } else {
                let e = a.f[i].1 + b.f[j].1;
                if e != 0 {
                    f.push((a.f[i].0, e));
                }
                i += 1;
                j += 1;
            }
        }
        self.cancel(Val { c, f })
    }
    /// Divide numerator factors by denominator factors where that is exact.
    fn cancel(&mut self, v: Val) -> Val {
        if !v.f.iter().any(|x| x.1 < 0) || !v.f.iter().any(|x| x.1 > 0) {
            return v;
        }
        for &(d, de) in v.f.iter().filter(|x| x.1 < 0) {
            for &(n, ne) in v.f.iter().filter(|x| x.1 > 0) {
                let (pn, pd) = (&self.polys[n as usize], &self.polys[d as usize]);
                if pn.t.len() > 600 || pn.degree() < pd.degree() || !self.poly_vars[d as usize].iter().all(|x| self.poly_vars[n as usize].contains(x)) {
                    continue;
                }
                if let Some(q) = pn.div_exact(pd) {
                    let r = self.from_poly(Rational::from(1), q);
                    let mut f: Factors = v.f.clone();
                    for x in f.iter_mut() {
                        if x.0 == d {
                            x.1 = de + 1;
                        }
                        if x.0 == n {
                            x.1 = ne - 1;
                        }
                    }
                    f.retain(|x| x.1 != 0);
                    return self.mul(&Val { c: v.c.clone(), f }, &r);
                }
            }
        }
        v
    }
    pub fn inv(&mut self, a: &Val) -> Val {
        Val { c: Rational::from(a.c.recip_ref()), f: a.f.iter().map(|&(p, e)| (p, -e)).collect() }
    }
    fn expand(&self, f: &[(u32, i32)]) -> Poly {
        let mut r = Poly::constant(Integer::from(1));
        for &(p, e) in f {
            debug_assert!(e >= 0);
            r = r.mul(&self.polys[p as usize].pow(e as u32));
        }
        r
    }
    pub fn add(&mut self, a: &Val, b: &Val) -> Val {
        if a.c.cmp0().is_eq() {
            return b.clone();
        }
        if b.c.cmp0().is_eq() {
            return a.clone();
        }
        // common factor
        let mut g = Factors::new();
        let mut ra = Factors::new();
        let mut rb = Factors::new();
        let (mut i, mut j) = (0, 0);
        while i < a.f.len() || j < b.f.len() {
            let (p, ea, eb);
            if j >= b.f.len() || (i < a.f.len() && a.f[i].0 < b.f[j].0) {
                p = a.f[i].0;
                ea = a.f[i].1;
                eb = 0;
                i += 1;
            } else if i >= a.f.len() || b.f[j].0 < a.f[i].0 {
                p = b.f[j].0;
                ea = 0;
                eb = b.f[j].1;
                j += 1;
            } else {
                p = a.f[i].0;
                ea = a.f[i].1;
                eb = b.f[j].1;
                i += 1;
                j += 1;
            }
            let m = ea.min(eb);
            if m != 0 {
                g.push((p, m));
            }
            if ea > m {
                ra.push((p, ea - m));
            }
            if eb > m {
                rb.push((p, eb - m));
            }
        }
        if ra.is_empty() && rb.is_empty() {
            let c = Rational::from(&a.c + &b.c);
            if c.cmp0().is_eq() {
                return Val { c, f: Factors::new() };
            }
            return Val { c, f: g };
        }
        let pa = self.expand(&ra);
        let pb = self.expand(&rb);
        // ca*pa + cb*pb over common denominator
        let (na, da) = (a.c.numer(), a.c.denom());
        let (nb, db) = (b.c.numer(), b.c.denom());
        let l = Integer::from(da.lcm_ref(db));
        let ka = Integer::from(na * Integer::from(&l / da));
        let kb = Integer::from(nb * Integer::from(&l / db));
        let mut s = pa.lin(&ka, &pb, &kb);
        if s.is_zero() {
            return Val { c: Rational::new(), f: Factors::new() };
        }
        // cancel denominators
        if s.t.len() <= 600 {
            for x in g.iter_mut() {
                while x.1 < 0 {
                    match s.div_exact(&self.polys[x.0 as usize]) {
                        Some(q) => {
                            s = q;
                            x.1 += 1;
                        }
                        None => break,
                    }
                }
            }
            g.retain(|x| x.1 != 0);
        }
        let r = self.from_poly(Rational::from((Integer::from(1), l)), s);
        let gv = Val { c: Rational::from(1), f: g };
        self.mul(&r, &gv)
    }
    /// Equivalent value with a single expanded numerator (denominators kept factored).
    pub fn neg(&self, a: &Val) -> Val {
        Val { c: Rational::from(-&a.c), f: a.f.clone() }
    }

    // ---------- witness ----------
    pub fn eval_poly(&self, p: u32) -> Option<Rational> {
        let mut s = Rational::new();
        for (m, c) in &self.polys[p as usize].t {
            let mut x = Rational::from(c);
            for &(v, e) in m.iter() {
                let w = self.wit[v as usize].as_ref()?;
                for _ in 0..e {
                    x *= w;
                }
            }
            s += x;
        }
        Some(s)
    }
    pub fn eval_val(&self, v: &Val) -> Option<Rational> {
        let mut r = v.c.clone();
        for &(p, e) in &v.f {
            let x = self.eval_poly(p)?;
            if e < 0 && x.cmp0().is_eq() {
                return None;
            }
            for _ in 0..e.abs() {
                if e > 0 {
                    r *= &x;
                } else {
                    r /= &x;
                }
            }
        }
        Some(r)
    }
    fn wit_sign_of(&mut self, p: u32) -> Option<u8> {
        if let Some(&s) = self.wit_sign.get(&p) {
            return Some(s);
        }
        let s = sgn_mask(&self.eval_poly(p)?);
        self.wit_sign.insert(p, s);
        Some(s)
    }

    // ---------- path condition ----------
    pub fn add_constraint(&mut self, f: Fm) {
        self.materialise(&f);
        let mut v = vec![];
        f.vars(self, &mut v);
        self.path.push((f, SmallVec::from_vec(v)));
    }
    fn set_mask(&mut self, p: u32, m: u8) {
        self.mask[p as usize] = m;
        self.add_constraint(Fm::Atom(p, m));
    }

    fn possible(&self, v: &Val) -> u8 {
        let mut m = sgn_mask(&v.c);
        for &(p, e) in &v.f {
            m = mul_mask(m, pow_mask(self.mask[p as usize], e));
        }
        m
    }

    /// Is the sign of v in set s (bits NEG/ZER/POS)? Forks when both answers are feasible.
    pub fn ask(&mut self, v: &Val, s: u8) -> bool {
        self.tick();
        let zero_only = s == ZER || s == (NEG | POS);
        loop {
            let m = self.possible(v);
            if m & !s == 0 {
                sh().by_facts.fetch_add(1, SeqCst);
                return true;
            }
            if m & s == 0 {
                sh().by_facts.fetch_add(1, SeqCst);
                return false;
            }
            let und: Vec<(u32, i32)> = v
                .f
                .iter()
                .copied()
                .filter(|&(p, e)| pow_mask(self.mask[p as usize], e).count_ones() > 1)
                .filter(|&(p, _)| !zero_only || self.mask[p as usize] & ZER != 0)
                .collect();
            debug_assert!(!und.is_empty());
            if und.len() == 1 {
                let (p, e) = und[0];
                // sign of the remaining product is fixed
                let mut rest = sgn_mask(&v.c);
                for &(q, x) in &v.f {
                    if q != p {
                        rest = mul_mask(rest, pow_mask(self.mask[q as usize], x));
                    }
                }
                let mut sp = 0;
                for x in [NEG, ZER, POS] {
                    if mul_mask(rest, pow_mask(x, e)) & s != 0 {
                        sp |= x;
                    }
                }
                self.branch(p, sp);
                continue;
            }
            // several unknown factors: settle the simplest first
            let &(p, e) = und
                .iter()
                .min_by_key(|x| {
                    let q = &self.polys[x.0 as usize];
                    (q.degree(), q.t.len())
                })
                .unwrap();
            if zero_only {
                self.branch(p, ZER);
            } else {
                let mm = self.mask[p as usize];
                if e % 2 == 0 {
                    self.branch(p, ZER);
                } else if mm & ZER != 0 && mm & (NEG | POS) == (NEG | POS) {
                    if !self.branch(p, ZER) {
                        self.branch(p, POS);
                    }
                } else {
                    self.branch(p, mm & POS | if mm & POS == 0 { ZER } else { 0 });
                }
            }
        }
    }

    /// Signs p can take given the known signs of single variables.
    fn term_mask(&self, p: u32) -> u8 {
        let mut r = 0u8; // union of term signs
        let mut zero = true; // all terms can vanish
        for (m, c) in &self.polys[p as usize].t {
            let mut k = if *c > 0 { POS } else { NEG };
            for &(v, e) in m.iter() {
                let vm = match self.var_poly.get(v as usize) {
                    Some(&i) if i != u32::MAX => self.mask[i as usize],
                    _ => ANY,
                };
                k = mul_mask(k, pow_mask(vm, e as i32));
            }
            if k & ZER == 0 {
                zero = false;
            }
            r |= k;
            if r & NEG != 0 && r & POS != 0 {
                return ANY;
            }
        }
        r & !ZER | if zero { ZER } else { 0 }
    }

    /// Decide sign(poly p) in s, forking if both are feasible. Returns the decision on this path.
    /// A quadratic in one input whose zeros are irrational: inputs are rational
    /// numbers, so it does not vanish.
    fn no_rational_root(&self, p: u32) -> bool {
        let t = &self.polys[p as usize].t;
        let v = match t.first() {
            Some((m, _)) if m.len() == 1 && m[0].1 == 2 => m[0].0,
            _ => return false,
        };
        if self.vars[v as usize].defined {
            return false;
        }
        let mut c = [Integer::new(), Integer::new(), Integer::new()];
        for (m, k) in t {
            match m.len() {
                0 => c[0] = k.clone(),
                1 if m[0].0 == v => c[m[0].1 as usize] = k.clone(),
                _ => return false,
            }
        }
        let d = Integer::from(&c[1] * &c[1]) - Integer::from(4 * Integer::from(&c[0] * &c[2]));
        d < 0 || !d.is_perfect_square()
    }
    pub fn univariate(&self, p: u32) -> bool {
        let mut vs = vec![];
        self.polys[p as usize].vars_into(&mut vs);
        vs.sort();
        vs.dedup();
        vs.len() == 1 && !self.pending.contains_key(&vs[0])
    }
    /// Definitions of absolute values that turn out to be needed.
    fn materialise(&mut self, f: &Fm) {
        if self.pending.is_empty() {
            return;
        }
        let mut vs = vec![];
        f.vars(self, &mut vs);
        for v in vs {
            if let Some((_, def)) = self.pending.remove(&v) {
                self.add_constraint(def);
            }
        }
    }
    /// The sign of k|b| + c with constants k and c, asked through b itself.
    fn branch_abs(&mut self, p: u32, s: u8) -> Option<bool> {
        let q = &self.polys[p as usize];
        if q.t.len() != 2 || q.t[0].0.len() != 1 || q.t[0].0[0].1 != 1 || !q.t[1].0.is_empty() {
            return None;
        }
        let &(base, _) = self.pending.get(&q.t[0].0[0].0)?;
        let lim = -(Rational::from(q.t[1].1.clone()) / Rational::from(q.t[0].1.clone()));
        if lim <= 0 {
            return None;
        }
        let t = if q.t[0].1 > 0 { s } else { flip(s) };
        let b = Val { c: Rational::from(1), f: std::iter::once((base, 1)).collect() };
        let hi = self.add(&b, &Val { c: -lim.clone(), f: Factors::new() });
        let lo = self.add(&b, &Val { c: lim, f: Factors::new() });
        Some(match t {
            NEG => self.ask(&hi, NEG) && self.ask(&lo, POS),
            POS => !(self.ask(&hi, NEG | ZER) && self.ask(&lo, POS | ZER)),
            ZER => self.ask(&hi, ZER) || self.ask(&lo, ZER),
            x if x == NEG | ZER => self.ask(&hi, NEG | ZER) && self.ask(&lo, POS | ZER),
            x if x == POS | ZER => !(self.ask(&hi, NEG) && self.ask(&lo, POS)),
            _ => !(self.ask(&hi, ZER) || self.ask(&lo, ZER)),
        })
    }

    pub fn branch(&mut self, p: u32, s: u8) -> bool {
        if !self.abs_of.contains_key(&p) && self.polys[p as usize].t.len() > 1 {
            let t = self.term_mask(p) & self.mask[p as usize];
            if t != 0 {
                self.mask[p as usize] = t;
            }
        }
        if self.mask[p as usize] & ZER != 0 && self.no_rational_root(p) {
            self.mask[p as usize] &= !ZER;
        }
        let m = self.mask[p as usize];
        let a = m & s;
        let b = m & !s;
        if b == 0 {
            return true;
        }
        if a == 0 {
            return false;
        }
        if let Some(&(base, _)) = self.abs_of.get(&p) {
            // |base|: translate to the base polynomial
            let to_base = |x: u8| -> u8 {
                let mut r = 0;
                if x & ZER != 0 {
                    r |= ZER;
                }
                if x & POS != 0 {
                    r |= NEG | POS;
                }
                r
            };
            let r = self.branch(base, to_base(a));
            self.mask[p as usize] = if r { a } else { b };
            return r;
        }
        if let Some(r) = self.branch_abs(p, a) {
            self.mask[p as usize] = if r { a } else { b };
            return r;
        }
        match self.wit_sign_of(p) {
            Some(w) => {
                let (mine, other) = if w & a != 0 { (a, b) } else { (b, a) };
                debug_assert!(w & mine != 0, "witness contradicts facts");
                match self.solve(&Fm::Atom(p, other)) {
                    Sat::Unsat => {
                        self.mask[p as usize] = mine;
                    }
                    Sat::Sat(model) => {
                        if self.fork() {
                            self.apply_model(model);
                            self.set_mask(p, other);
                        } else {
                            self.set_mask(p, mine);
                        }
                    }
                    Sat::Unknown => {
                        sh().nowitness.fetch_add(1, SeqCst);
                        if self.fork() {
                            self.drop_witness(p);
                            self.set_mask(p, other);
                        } else {
                            self.set_mask(p, mine);
                        }
                    }
                }
            }
            None => {
                let ra = self.solve(&Fm::Atom(p, a));
                let rb = self.solve(&Fm::Atom(p, b));
                match (ra, rb) {
                    (Sat::Unsat, Sat::Unsat) => self.abandon(),
                    (Sat::Unsat, _) => {
                        self.mask[p as usize] = b;
                    }
                    (_, Sat::Unsat) => {
                        self.mask[p as usize] = a;
                    }
                    (ra, rb) => {
                        if self.fork() {
                            match rb {
                                Sat::Sat(m) => self.apply_model(m),
                                _ => self.drop_witness(p),
                            }
                            self.set_mask(p, b);
                        } else {
                            match ra {
                                Sat::Sat(m) => self.apply_model(m),
                                _ => self.drop_witness(p),
                            }
                            self.set_mask(p, a);
                        }
                    }
                }
            }
        }
        self.mask[p as usize] & s != 0
    }

    fn drop_witness(&mut self, p: u32) {
        self.unsure = true;
        let vs = self.cone(&Fm::Atom(p, ANY)).1;
        for v in vs {
            self.wit[v as usize] = None;
        }
        let again: Vec<u16> = self.pending.keys().copied().collect();
        for v in again {
            self.wit[v as usize] = None;
        }
        self.wit_sign.clear();
    }
    pub fn apply_model_pub(&mut self, m: Vec<(u16, Option<Rational>)>) {
        self.apply_model(m)
    }
    pub fn wit_ok(&mut self, f: &Fm) -> bool {
        f.at_witness(self) == Some(true)
    }
    fn apply_model(&mut self, m: Vec<(u16, Option<Rational>)>) {
        for (v, x) in m {
            self.wit[v as usize] = x;
        }
        let again: Vec<(u16, u32)> = self.pending.iter().map(|(v, x)| (*v, x.0)).collect();
        for (v, p) in again {
            self.wit[v as usize] = self.eval_poly(p).map(|q| q.abs());
        }
        self.wit_sign.clear();
    }

    /// Path infeasible after all (only reachable after an unknown solver answer).
    fn abandon(&mut self) -> ! {
        self.leave()
    }

    /// Add a constraint without exploring its negation. Ends the path if infeasible.
    pub fn assume_fm(&mut self, f: Fm) {
        match f.at_witness(self) {
            Some(true) => {}
            _ => match self.solve(&f) {
                Sat::Sat(m) => self.apply_model(m),
                Sat::Unsat => {
                    sh().assumed_away.fetch_add(1, SeqCst);
                    self.leave()
                }
                Sat::Unknown => {
                    sh().nowitness.fetch_add(1, SeqCst);
                    self.unsure = true;
                    let vs = self.cone(&f).1;
                    for v in vs {
                        self.wit[v as usize] = None;
                    }
                    self.wit_sign.clear();
                }
            },
        }
        if let Fm::Atom(p, m) = f {
            self.mask[p as usize] &= m;
        }
        self.add_constraint(f);
    }
    pub fn assume_sign(&mut self, v: &Val, s: u8) {
        let m = self.possible(v);
        if m & !s == 0 {
            return;
        }
        if m & s == 0 {
            sh().assumed_away.fetch_add(1, SeqCst);
            self.leave()
        }
        let und: Vec<(u32, i32)> = v
            .f
            .iter()
            .copied()
            .filter(|&(p, e)| pow_mask(self.mask[p as usize], e).count_ones() > 1)
            .collect();
        if und.len() == 1 {
            let (p, e) = und[0];
            let mut rest = sgn_mask(&v.c);
            for &(q, x) in &v.f {
                if q != p {
                    rest = mul_mask(rest, pow_mask(self.mask[q as usize], x));
                }
            }
            let mut sp = 0;
            for x in [NEG, ZER, POS] {
                if mul_mask(rest, pow_mask(x, e)) & s != 0 {
                    sp |= x;
                }
            }
            let sp = sp & self.mask[p as usize];
            self.assume_fm(Fm::Atom(p, sp));
            return;
        }
        if !self.ask(v, s) {
            sh().assumed_away.fetch_add(1, SeqCst);
            self.leave()
        }
    }

    // ---------- solver ----------
    fn cone(&self, f: &Fm) -> (Vec<usize>, Vec<u16>) {
        let mut vs = vec![];
        f.vars(self, &mut vs);
        let mut used = vec![false; self.path.len()];
        let mut inv = vec![false; self.vars.len()];
        for &v in &vs {
            inv[v as usize] = true;
        }
        loop {
            let mut ch = false;
            for (i, (_, pv)) in self.path.iter().enumerate() {
                if !used[i] && pv.iter().any(|v| inv[*v as usize]) {
                    used[i] = true;
                    ch = true;
                    for v in pv {
                        inv[*v as usize] = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        (
            (0..self.path.len()).filter(|&i| used[i]).collect(),
            (0..self.vars.len() as u16).filter(|&v| inv[v as usize]).collect(),
        )
    }

    fn z3(&mut self) -> &mut Z3 {
        if self.z3.is_none() {
            let bin = solver_bin();
            let mut c = Command::new(&bin);
            c.args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
            unsafe {
                use std::os::unix::process::CommandExt;
                c.pre_exec(|| {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    Ok(())
                });
            }
            let mut child = c.spawn().expect("cannot start the solver");
            let inp = child.stdin.take().unwrap();
            let out = BufReader::new(child.stdout.take().unwrap());
            self.z3 = Some(Z3 { child, inp, out });
        }
        self.z3.as_mut().unwrap()
    }

    /// Sends commands and collects the answer; a solver that does not keep to
    /// its time limit `ms` is ended and counts as having no answer.
    fn roundtrip(&mut self, txt: &str, ms: u64) -> String {
        let t0 = Instant::now();
        let limit = 3 * ms + 2000;
        let z = self.z3();
        let ok = z
            .inp
            .write_all(txt.as_bytes())
            .and_then(|_| z.inp.write_all(b"\n(echo \"@@end\")\n"))
            .and_then(|_| z.inp.flush());
        if ok.is_err() {
            self.fail("solver pipe closed");
        }
        let mut s = String::new();
        loop {
            let mut l = String::new();
            if self.z3().out.buffer().is_empty() {
                use std::os::fd::AsRawFd;
                let left = limit.saturating_sub(t0.elapsed().as_millis() as u64);
                let mut p = libc::pollfd { fd: self.z3().out.get_ref().as_raw_fd(), events: libc::POLLIN, revents: 0 };
                let r = unsafe { libc::poll(&mut p, 1, left as i32) };
                if r < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                    continue;
                }
                if r <= 0 {
                    if let Some(mut z) = self.z3.take() {
                        let _ = z.child.kill();
                        let _ = z.child.wait();
                    }
                    return "timeout".into();
                }
            }
            match self.z3().out.read_line(&mut l) {
                Ok(0) | Err(_) => self.fail("solver died"),
                Ok(_) => {}
            }
            if l.trim_end() == "@@end" {
                break;
            }
            s.push_str(&l);
        }
        s
    }

    pub fn fail(&mut self, msg: &str) -> ! {
        sh().errors.fetch_add(1, SeqCst);
        eprintln!("symrt error: {}", msg);
        self.write_record("error", msg, None);
        self.leave()
    }

    /// Satisfiability of path condition and f.
    pub fn solve(&mut self, f: &Fm) -> Sat {
        self.check_budget();
        self.materialise(f);
        let (cs, vs) = self.cone(f);
        let mut body = String::new();
        for v in &vs {
            let _ = writeln!(body, "(declare-fun v{} () {})", v, if self.vars[*v as usize].int { "Int" } else { "Real" });
        }
        let mut linear = f.linear(self);
        for &i in &cs {
            body.push_str("(assert ");
            self.path[i].0.smt(self, &mut body);
            body.push_str(")\n");
            linear = linear && self.path[i].0.linear(self);
        }
        body.push_str("(assert ");
        f.smt(self, &mut body);
        body.push_str(")\n");
        let has_int = vs.iter().any(|v| self.vars[*v as usize].int);
        let t0 = Instant::now();
        let ms = self.cfg.query_ms;
        let mut res = String::new();
        let mut out = String::new();
        let stages: Vec<(&str, u64)> = if linear && !has_int {
            vec![("smt", ms), ("qflra", ms)]
        } else if has_int {
            vec![("smt", ms), ("qfnia", ms)]
        } else {
            let n = "qfnra-nlsat";
            let e = "(then simplify solve-eqs elim-uncnstr simplify qfnra-nlsat)";
            vec![("guess", 2), ("linear", 300), (n, 150), (e, 150), ("guess", 60), ("smt", 400), (n, 1500), (e, 1500), ("guess", 500), (n, ms), (e, ms), ("smt", ms)]
        };
        for (tac, t) in stages {
            if tac == "guess" {
                if let Some(m) = self.guess(f, &cs, &vs, t) {
                    sh().by_witness.fetch_add(1, SeqCst);
                    if self.cfg.log {
                        eprintln!("[{}] guessed {} vars {} cons {} us", std::process::id(), vs.len(), cs.len(), t0.elapsed().as_micros());
                    }
                    return Sat::Sat(m);
                }
                continue;
            }
            self.check_budget();
            if tac == "linear" {
                // every nonlinear monomial becomes a fresh variable: unsat there is unsat here
                let q = self.linearised(f, &cs, t);
                let o = self.roundtrip(&q, t);
                if o.lines().next().unwrap_or("").trim() == "unsat" {
                    res = "unsat".into();
                    break;
                }
                continue;
            }
            let mut q = String::from("(reset)\n(set-option :pp.decimal false)\n");
            q.push_str(&body);
            let _ = writeln!(q, "(check-sat-using (try-for {} {}))", tac, t);
            if !vs.is_empty() {
                q.push_str("(get-value (");
                for v in &vs {
                    let _ = write!(q, " v{}", v);
                }
                q.push_str("))\n");
            }
            out = self.roundtrip(&q, t);
            res = out.lines().next().unwrap_or("").trim().to_string();
            if res == "sat" || res == "unsat" {
                break;
            }
        }
        let us = t0.elapsed().as_micros() as u64;
        sh().solver_us.fetch_add(us, SeqCst);
        sh().slow_ms.fetch_max(us / 1000, SeqCst);
        if self.cfg.log {
            eprintln!("[{}] query {} vars {} cons {} us linear={} -> {}", std::process::id(), vs.len(), cs.len(), us, linear, res);
            if us > 1_000_000 {
                eprintln!("SLOW\n{}", body);
            }
        }
        match res.as_str() {
            "unsat" => {
                sh().unsat.fetch_add(1, SeqCst);
                Sat::Unsat
            }
            "sat" => {
                sh().sat.fetch_add(1, SeqCst);
                let rest: String = out.splitn(2, '\n').nth(1).unwrap_or("").to_string();
                let m = parse_model(&rest);
                let mut model: Vec<(u16, Option<Rational>)> = vec![];
                let mut irr = vec![];
                for v in &vs {
                    match m.get(v) {
                        Some(MV::Rat(r)) => model.push((*v, Some(r.clone()))),
                        _ => {
                            model.push((*v, None));
                            irr.push(*v);
                        }
                    }
                }
                if !irr.is_empty() {
                    if let Some(better) = self.rationalise(&body, &vs, &m) {
                        model = better;
                    }
                }
                Sat::Sat(model)
            }
            _ => {
                sh().unknown.fetch_add(1, SeqCst);
                if std::env::var("SYMRT_DUMP").is_ok() {
                    eprintln!("UNKNOWN ({})\n{}", out.trim(), body);
                }
                Sat::Unknown
            }
        }
    }

    fn linearised(&self, f: &Fm, cs: &[usize], ms: u64) -> String {
        let mut names: HashMap<Mono, usize, ahash::RandomState> = HashMap::with_hasher(rs());
        let mut order: Vec<Mono> = vec![];
        let mut a = String::new();
        for &i in cs {
            a.push_str("(assert ");
            self.fm_lin(&self.path[i].0, &mut names, &mut order, &mut a);
            a.push_str(")\n");
        }
        a.push_str("(assert ");
        self.fm_lin(f, &mut names, &mut order, &mut a);
        a.push_str(")\n");
        let mut q = String::from("(reset)\n");
        for (i, m) in order.iter().enumerate() {
            let _ = writeln!(q, "(declare-fun m{} () Real)", i);
            let mut k = POS;
            for &(v, e) in m.iter() {
                let vm = match self.var_poly.get(v as usize) {
                    Some(&i) if i != u32::MAX => self.mask[i as usize],
                    _ => ANY,
                };
                k = mul_mask(k, pow_mask(vm, e as i32));
            }
            let op = match k {
                NEG => "<",
                ZER => "=",
                POS => ">",
                3 => "<=",
                6 => ">=",
                _ => continue,
            };
            let _ = writeln!(q, "(assert ({} m{} 0))", op, i);
        }
        q.push_str(&a);
        let _ = writeln!(q, "(check-sat-using (try-for smt {}))", ms);
        q
    }
    fn fm_lin(&self, f: &Fm, names: &mut HashMap<Mono, usize, ahash::RandomState>, order: &mut Vec<Mono>, s: &mut String) {
        match f {
            Fm::Atom(p, m) => {
                let (pre, post) = match *m {
                    NEG => ("(< ", " 0)"),
                    ZER => ("(= ", " 0)"),
                    POS => ("(> ", " 0)"),
                    3 => ("(<= ", " 0)"),
                    6 => ("(>= ", " 0)"),
                    5 => ("(not (= ", " 0))"),
                    7 => {
                        s.push_str("true");
                        return;
                    }
                    _ => {
                        s.push_str("false");
                        return;
                    }
                };
                s.push_str(pre);
                s.push_str("(+ 0");
                for (mo, c) in &self.polys[*p as usize].t {
                    let cs = smt_rat(&Rational::from(c));
                    if mo.is_empty() {
                        let _ = write!(s, " {}", cs);
                        continue;
                    }
                    let n = *names.entry(mo.clone()).or_insert_with(|| {
                        order.push(mo.clone());
                        order.len() - 1
                    });
                    let _ = write!(s, " (* {} m{})", cs, n);
                }
                s.push(')');
                s.push_str(post);
            }
            Fm::And(v) | Fm::Or(v) => {
                s.push_str(if matches!(f, Fm::And(_)) { "(and true" } else { "(or false" });
                for x in v {
                    s.push(' ');
                    self.fm_lin(x, names, order, s);
                }
                s.push(')');
            }
        }
    }

    /// Look for a model near the current witness. Finding one settles a query as satisfiable;
    /// finding none settles nothing.
    fn guess(&mut self, f: &Fm, cs: &[usize], vs: &[u16], ms: u64) -> Option<Vec<(u16, Option<Rational>)>> {
        let t0 = Instant::now();
        let mut w0: Vec<Rational> = Vec::with_capacity(self.wit.len());
        for i in 0..self.wit.len() {
            w0.push(self.wit[i].clone().unwrap_or_default());
        }
        let mut absv: Vec<(u16, u32)> = vec![];
        for (_, &(base, v)) in &self.abs_of {
            if vs.contains(&v) {
                absv.push((v, base));
            }
        }
        absv.sort();
        let free: Vec<u16> = vs.iter().copied().filter(|v| !absv.iter().any(|x| x.0 == *v)).collect();
        if free.is_empty() {
            return None;
        }
        let mut tv = vec![];
        f.vars(self, &mut tv);
        for &(v, b) in absv.iter().rev() {
            if tv.contains(&v) {
                for x in &self.poly_vars[b as usize] {
                    if !tv.contains(x) {
                        tv.push(*x);
                    }
                }
            }
        }
        tv.retain(|v| free.contains(v));
        if tv.is_empty() {
            tv = free.clone();
        }
        let mut fp = vec![];
        fm_polys(f, &mut fp);
        let eqs: Vec<u32> = cs
            .iter()
            .filter_map(|&i| match &self.path[i].0 {
                Fm::Atom(p, ZER) => Some(*p),
                _ => None,
            })
            .collect();
        let steps: [(i64, i64); 14] =
            [(1, 8), (-1, 8), (1, 2), (-1, 2), (1, 1), (-1, 1), (2, 1), (-2, 1), (5, 1), (-5, 1), (30, 1), (-30, 1), (1, 1000), (-1, 1000)];
        let mut k = 0u64;
        while k < 4 || t0.elapsed().as_millis() < ms as u128 {
            k += 1;
            let mut w = w0.clone();
            let r = self.next_rand();
            match r % 5 {
                0 => {
                    for &v in &free {
                        let x = self.next_rand();
                        w[v as usize] = Rational::from(((x % 13) as i64 - 6, [1i64, 1, 2, 4][(x >> 30) as usize % 4]));
                    }
                }
                1 => {
                    for &v in &tv {
                        let x = self.next_rand();
                        w[v as usize] = Rational::from(((x % 21) as i64 - 10, [1i64, 1, 2, 8][(x >> 30) as usize % 4]));
                    }
                }
                _ => {
                    let n = 1 + (r >> 8) % 3;
                    for _ in 0..n {
                        let x = self.next_rand();
                        let pool = if x & 3 == 0 { &free } else { &tv };
                        let v = pool[(x >> 2) as usize % pool.len()];
                        let y = self.next_rand();
                        let cur = w[v as usize].clone();
                        w[v as usize] = match y % 8 {
                            0 => Rational::new(),
                            1 => -cur,
                            2 => {
                                let o = pool[(y >> 20) as usize % pool.len()];
                                w[o as usize].clone()
                            }
                            3 => Rational::from(1),
                            _ => cur + Rational::from(steps[(y >> 10) as usize % steps.len()]),
                        };
                    }
                }
            }
            let z = self.next_rand();
            // put a target polynomial on, or next to, zero
            if z % 2 == 0 && !fp.is_empty() {
                let p = fp[(z >> 4) as usize % fp.len()];
                self.solve_lin(p, &tv, &mut w);
                if z & 2 != 0 {
                    let v = tv[(z >> 12) as usize % tv.len()];
                    w[v as usize] += Rational::from(steps[(z >> 24) as usize % steps.len()]);
                }
            }
            for _ in 0..3 {
                let mut bad = false;
                for &(v, b) in &absv {
                    w[v as usize] = self.polys[b as usize].eval(&w).abs();
                }
                for &p in &eqs {
                    if !self.polys[p as usize].eval(&w).cmp0().is_eq() {
                        bad = true;
                        let vv: Vec<u16> = self.poly_vars[p as usize].iter().copied().filter(|v| free.contains(v)).collect();
                        if !vv.is_empty() {
                            self.solve_lin(p, &vv, &mut w);
                        } else {
                            self.solve_abs(p, &absv, &free, &mut w);
                        }
                    }
                }
                if !bad {
                    break;
                }
            }
            for &(v, b) in &absv {
                w[v as usize] = self.polys[b as usize].eval(&w).abs();
            }
            if !fm_at(f, &self.polys, &w) {
                continue;
            }
            if cs.iter().all(|&i| fm_at(&self.path[i].0, &self.polys, &w)) {
                return Some(vs.iter().map(|&v| (v, Some(w[v as usize].clone()))).collect());
            }
        }
        None
    }
    /// The same through absolute values, by one secant step.
    fn solve_abs(&mut self, p: u32, absv: &[(u16, u32)], free: &[u16], w: &mut [Rational]) {
        let mut pool: Vec<u16> = vec![];
        for &(v, b) in absv {
            if self.poly_vars[p as usize].contains(&v) {
                pool.extend(self.poly_vars[b as usize].iter().copied().filter(|x| free.contains(x)));
            }
        }
        if pool.is_empty() {
            return;
        }
        let v = pool[self.next_rand() as usize % pool.len()] as usize;
        let d = if self.next_rand() & 1 == 0 { Rational::from((1, 64)) } else { Rational::from((-1, 64)) };
        let mut w2 = w.to_vec();
        let f0 = self.polys[p as usize].eval(&w2);
        w2[v] += &d;
        for &(x, b) in absv {
            w2[x as usize] = self.polys[b as usize].eval(&w2).abs();
        }
        let slope = (self.polys[p as usize].eval(&w2) - &f0) / d;
        if !slope.cmp0().is_eq() {
            w[v] -= f0 / slope;
        }
        for &(x, b) in absv {
            w[x as usize] = self.polys[b as usize].eval(w).abs();
        }
    }
    /// Change one of the variables, in which p is linear, so that p vanishes.
    fn solve_lin(&mut self, p: u32, pool: &[u16], w: &mut [Rational]) {
        let n = pool.len();
        let r = self.next_rand() as usize;
        for k in 0..n {
            let v = pool[(r + k) % n];
            let (mut a, mut b) = (Rational::new(), Rational::new());
            let mut lin = true;
            let mut has = false;
            for (m, c) in &self.polys[p as usize].t {
                let mut x = Rational::from(c);
                let mut mine = false;
                for &(u, e) in m.iter() {
                    if u == v {
                        has = true;
                        if e > 1 {
                            lin = false;
                        }
                        mine = true;
                    } else {
                        for _ in 0..e {
                            x *= &w[u as usize];
                        }
                    }
                }
                if !lin {
                    break;
                }
                if mine {
                    a += x;
                } else {
                    b += x;
                }
            }
            if has && lin && !a.cmp0().is_eq() {
                w[v as usize] = -b / a;
                return;
            }
        }
    }

    /// Try to find a model in which the input variables are rational.
    fn rationalise(&mut self, body: &str, vs: &[u16], m: &HashMap<u16, MV>) -> Option<Vec<(u16, Option<Rational>)>> {
        let t0 = Instant::now();
        let mut pins = String::new();
        let mut cur: HashMap<u16, MV> = m.clone();
        let mut tries = 0;
        loop {
            let irr: Vec<u16> = vs
                .iter()
                .copied()
                .filter(|v| !matches!(cur.get(v), Some(MV::Rat(_))) && !self.vars[*v as usize].defined)
                .collect();
            if irr.is_empty() || tries > 12 {
                break;
            }
            let mut progressed = false;
            for v in &irr {
                let approx = match cur.get(v) {
                    Some(MV::Approx(a)) => *a,
                    _ => continue,
                };
                for scale in [1.0, 8.0, 1024.0, 1048576.0, 1099511627776.0] {
                    tries += 1;
                    let r = match Rational::from_f64((approx * scale).round() / scale) {
                        Some(r) => r,
                        None => continue,
                    };
                    let pin = format!("(assert (= v{} {}))\n", v, smt_rat(&r));
                    let mut q = String::from("(reset)\n");
                    q.push_str(body);
                    q.push_str(&pins);
                    q.push_str(&pin);
                    let _ = writeln!(q, "(check-sat-using (try-for qfnra-nlsat {}))", 1000);
                    q.push_str("(get-value (");
                    for v in vs {
                        let _ = write!(q, " v{}", v);
                    }
                    q.push_str("))\n");
                    let out = self.roundtrip(&q, 1000);
                    if out.starts_with("sat") {
                        let rest: String = out.splitn(2, '\n').nth(1).unwrap_or("").to_string();
                        cur = parse_model(&rest);
                        pins.push_str(&pin);
                        progressed = true;
                        break;
                    }
                }
                if progressed {
                    break;
                }
            }
            if !progressed {
                break;
            }
        }
        sh().solver_us.fetch_add(t0.elapsed().as_micros() as u64, SeqCst);
        Some(
            vs.iter()
                .map(|v| {
                    (
                        *v,
                        match cur.get(v) {
                            Some(MV::Rat(r)) => Some(r.clone()),
                            _ => None,
                        },
                    )
                })
                .collect(),
        )
    }

    // ---------- processes ----------
    pub fn check_budget(&mut self) {
        if sh().stop.load(SeqCst) != 0 {
            self.leave();
        }
        if Instant::now() > self.cfg.deadline || sh().paths.load(SeqCst) > self.cfg.max_paths {
            sh().incomplete.store(1, SeqCst);
            sh().stop.store(1, SeqCst);
            self.leave();
        }
    }
    fn tick(&mut self) {}

    /// Returns true in the child.
    pub fn fork(&mut self) -> bool {
        sh().forks.fetch_add(1, SeqCst);
        self.depth += 1;
        sh().max_depth.fetch_max(self.depth, SeqCst);
        let _ = std::io::stdout().flush();
        // try to get a worker token
        let mut par = false;
        loop {
            let a = active().load(SeqCst);
            if a >= self.cfg.workers {
                break;
            }
            if active().compare_exchange(a, a + 1, SeqCst, SeqCst).is_ok() {
                par = true;
                break;
            }
        }
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            self.fail("fork failed");
        }
        if pid == 0 {
            self.is_root = false;
            self.holds_token = par;
            if par {
                if let Some(z) = self.z3.take() {
                    // belongs to the parent
                    std::mem::forget(z.child);
                    std::mem::forget(z.out);
                    std::mem::forget(z.inp);
                }
            }
            arm_timer();
            return true;
        }
        if !par {
            let mut st: libc::c_int = 0;
            loop {
                let r = unsafe { libc::waitpid(pid, &mut st, 0) };
                if r == pid {
                    break;
                }
                if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
                    break;
                }
            }
            if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
                sh().errors.fetch_add(1, SeqCst);
            }
        }
        arm_timer();
        false
    }

    /// End of this path.
    pub fn leave(&mut self) -> ! {
        sh().left.fetch_add(1, SeqCst);
        let _ = std::io::stdout().flush();
        if self.holds_token {
            active().fetch_sub(1, SeqCst);
        }
        if self.holds_token || self.is_root {
            if let Some(mut z) = self.z3.take() {
                let _ = z.child.kill();
                let _ = z.child.wait();
            }
        }
        if !self.is_root {
            unsafe { libc::_exit(0) }
        }
        // root: wait for every descendant
        loop {
            let mut st: libc::c_int = 0;
            let r = unsafe { libc::waitpid(-1, &mut st, 0) };
            if r < 0 {
                if std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {
                    continue;
                }
                break;
            }
            // adopted solvers end up here as well: paths that died are found by counting
        }
        crate::api::finish_root();
    }

    // ---------- reports ----------
    pub fn witness_json(&mut self) -> Option<String> {
        let mut s = String::from("{");
        let mut first = true;
        for (i, v) in self.vars.iter().enumerate() {
            if v.defined {
                continue;
            }
            let w = self.wit[i].as_ref()?;
            if !first {
                s.push(',');
            }
            first = false;
            let _ = write!(s, "{:?}:\"{}\"", v.name, w);
        }
        s.push('}');
        Some(s)
    }
    pub fn write_record(&mut self, kind: &str, msg: &str, vars: Option<String>) {
        let mut ch = String::from("[");
        for (i, (n, c)) in self.choices.iter().enumerate() {
            if i > 0 {
                ch.push(',');
            }
            let _ = write!(ch, "[{:?},{}]", n, c);
        }
        ch.push(']');
        let line = format!(
            "{{\"harness\":{:?},\"kind\":{:?},\"msg\":{:?},\"vars\":{},\"choices\":{}}}\n",
            self.harness,
            kind,
            msg.replace('\n', " ").replace(|c: char| c.is_control(), " "),
            vars.unwrap_or("null".into()),
            ch
        );
        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(&self.cfg.out) {
            let _ = f.write_all(line.as_bytes());
        }
    }
    /// Make sure the witness gives a rational value to every input.
    fn complete_witness(&mut self) -> bool {
        let missing: Vec<u16> = (0..self.vars.len() as u16)
            .filter(|v| self.wit[*v as usize].is_none() && !self.vars[*v as usize].defined)
            .collect();
        for v in missing {
            if self.wit[v as usize].is_some() {
                continue;
            }
            let p = self.intern(Poly::var(v));
            match self.solve(&Fm::Atom(p, ANY)) {
                Sat::Sat(m) => self.apply_model(m),
                _ => return false,
            }
            if self.wit[v as usize].is_none() {
                return false;
            }
        }
        true
    }
    pub fn report(&mut self, kind: &str, msg: &str) {
        if self.unsure {
            // entered without a model: the whole path condition decides
            let vars: Vec<u16> = (0..self.vars.len() as u16).filter(|&v| self.wit[v as usize].is_none()).collect();
            for v in vars {
                if self.wit[v as usize].is_none() {
                    let p = self.intern(Poly::var(v));
                    match self.solve(&Fm::Atom(p, ANY)) {
                        Sat::Unsat => {
                            sh().assumed_away.fetch_add(1, SeqCst);
                            self.leave()
                        }
                        Sat::Sat(m) => self.apply_model(m),
                        Sat::Unknown => {}
                    }
                }
            }
        }
        let n = sh().violations.fetch_add(1, SeqCst);
        if n >= self.cfg.max_violations {
            return;
        }
        self.complete_witness();
        let w = self.witness_json();
        self.write_record(kind, msg, w);
        if n + 1 >= self.cfg.max_violations {
            sh().stop.store(1, SeqCst);
        }
    }
}

fn fm_polys(f: &Fm, out: &mut Vec<u32>) {
    match f {
        Fm::Atom(p, _) => out.push(*p),
        Fm::And(v) | Fm::Or(v) => v.iter().for_each(|x| fm_polys(x, out)),
    }
}
fn fm_at(f: &Fm, polys: &[Poly], w: &[Rational]) -> bool {
    match f {
        Fm::Atom(p, m) => *m == ANY || sgn_mask(&polys[*p as usize].eval(w)) & m != 0,
        Fm::And(v) => v.iter().all(|x| fm_at(x, polys, w)),
        Fm::Or(v) => v.iter().any(|x| fm_at(x, polys, w)),
    }
}

fn solver_bin() -> String {
    if let Ok(b) = std::env::var("SYMRT_SOLVER") {
        return b;
    }
    for b in ["/usr/local/bin/z3-new", "/usr/bin/z3"] {
        if std::path::Path::new(b).exists() {
            return b.into();
        }
    }
    "z3".into()
}

pub fn smt_rat(r: &Rational) -> String {
    let n = r.numer();
    let s = if *n < 0 { format!("(- {})", Integer::from(-n)) } else { format!("{}", n) };
    if *r.denom() == 1 {
        s
    } else {
        format!("(/ {} {})", s, r.denom())
    }
}

#[derive(Clone, Debug)]
pub enum MV {
    Rat(Rational),
    Approx(f64),
}

#[derive(Debug, Clone)]
enum Sx {
    A(String),
    L(Vec<Sx>),
}

fn parse_sx(s: &str) -> Option<Sx> {
    let mut st: Vec<Vec<Sx>> = vec![vec![]];
    let mut tok = String::new();
    fn fl(tok: &mut String, st: &mut Vec<Vec<Sx>>) {
        if !tok.is_empty() {
            st.last_mut().unwrap().push(Sx::A(std::mem::take(tok)));
        }
    }
    for c in s.chars() {
        match c {
            '(' => {
                fl(&mut tok, &mut st);
                st.push(vec![]);
            }
            ')' => {
                fl(&mut tok, &mut st);
                let l = st.pop()?;
                st.last_mut()?.push(Sx::L(l));
            }
            c if c.is_whitespace() => fl(&mut tok, &mut st),
            c => tok.push(c),
        }
    }
    fl(&mut tok, &mut st);
    st.pop()?.into_iter().next()
}

fn sx_rat(x: &Sx) -> Option<Rational> {
    match x {
        Sx::A(a) => {
            let a = a.trim_end_matches(".0");
            if a.contains('.') {
                return None;
            }
            a.parse::<Integer>().ok().map(Rational::from)
        }
        Sx::L(l) => match l.first()? {
            Sx::A(op) if op == "-" && l.len() == 2 => Some(-sx_rat(&l[1])?),
            Sx::A(op) if op == "/" && l.len() == 3 => Some(sx_rat(&l[1])? / sx_rat(&l[2])?),
            _ => None,
        },
    }
}

fn sx_root(x: &Sx) -> Option<f64> {
    // (root-obj poly k): k-th real root, found by sampling and bisection
    let l = match x {
        Sx::L(l) => l,
        _ => return None,
    };
    match l.first()? {
        Sx::A(a) if a == "root-obj" => {}
        _ => return None,
    }
    let k = sx_rat(&l[2])?.to_f64() as usize;
    fn ev(p: &Sx, x: f64) -> Option<f64> {
        match p {
            Sx::A(a) if a == "x" => Some(x),
            Sx::A(_) => Some(sx_rat(p)?.to_f64()),
            Sx::L(l) => {
                let op = match l.first()? {
                    Sx::A(a) => a.as_str(),
                    _ => return None,
                };
                let a: Option<Vec<f64>> = l[1..].iter().map(|y| ev(y, x)).collect();
                let a = a?;
                Some(match op {
                    "+" => a.iter().sum(),
                    "*" => a.iter().product(),
                    "-" if a.len() == 1 => -a[0],
                    "-" => a[0] - a[1..].iter().sum::<f64>(),
                    "^" => a[0].powi(a[1] as i32),
                    "/" => a[0] / a[1],
                    _ => return None,
                })
            }
        }
    }
    let p = &l[1];
    let mut roots = vec![];
    let n = 40000;
    // nonuniform grid
    let xs: Vec<f64> = (0..=n)
        .map(|i| {
            let t = (i as f64 / n as f64) * 2.0 - 1.0;
            let a = t.abs();
            t.signum() * (a * 40.0 + (a * 28.0).exp() * 1e-3 - 1e-3)
        })
        .collect();
    let mut prev = (xs[0], ev(p, xs[0])?);
    for &x in &xs[1..] {
        let y = ev(p, x)?;
        if y == 0.0 {
            roots.push(x);
        } else if prev.1 != 0.0 && (y > 0.0) != (prev.1 > 0.0) {
            let (mut lo, mut hi) = (prev.0, x);
            let slo = prev.1 > 0.0;
            for _ in 0..200 {
                let mid = 0.5 * (lo + hi);
                if (ev(p, mid)? > 0.0) == slo {
                    lo = mid
                } else {
                    hi = mid
                }
            }
            roots.push(0.5 * (lo + hi));
        }
        prev = (x, y);
    }
    roots.get(k.checked_sub(1)?).copied()
}

fn parse_model(s: &str) -> HashMap<u16, MV> {
    let mut r = HashMap::new();
    if let Some(Sx::L(l)) = parse_sx(s) {
        for kv in l {
            if let Sx::L(kv) = kv {
                if let [Sx::A(n), v] = kv.as_slice() {
                    if let Some(id) = n.strip_prefix('v').and_then(|x| x.parse::<u16>().ok()) {
                        if let Some(q) = sx_rat(v) {
                            r.insert(id, MV::Rat(q));
                        } else if let Some(a) = sx_root(v) {
                            r.insert(id, MV::Approx(a));
                        }
                    }
                }
            }
        }
    }
    r
}
