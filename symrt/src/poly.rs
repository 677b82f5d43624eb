//! Sparse multivariate polynomials with integer coefficients.
use rug::{Integer, Rational};
use smallvec::SmallVec;
use std::cmp::Ordering;

/// (variable, exponent) sorted by variable.
pub type Mono = SmallVec<[(u16, u16); 4]>;

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly {
    /// Descending lexicographic order, no zero coefficients.
    pub t: Vec<(Mono, Integer)>,
}

pub fn mono_cmp(a: &Mono, b: &Mono) -> Ordering {
    let mut i = 0;
    loop {
        match (a.get(i), b.get(i)) {
            (None, None) => return Ordering::Equal,
            (Some(_), None) => return Ordering::Greater,
            (None, Some(_)) => return Ordering::Less,
            (Some(x), Some(y)) => {
                if x.0 != y.0 {
                    return if x.0 < y.0 { Ordering::Greater } else { Ordering::Less };
                }
                if x.1 != y.1 {
                    return x.1.cmp(&y.1);
                }
            }
        }
        i += 1;
    }
}

pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Mono::new();
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].0 == b[j].0 {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        } else if a[i].0 < b[j].0 {
            r.push(a[i]);
            i += 1;
        } else {
            r.push(b[j]);
            j += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}

/// a / b if b divides a.
pub fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut r = Mono::new();
    let mut j = 0;
    for &(v, e) in a.iter() {
        if j < b.len() && b[j].0 < v {
            return None;
        }
        if j < b.len() && b[j].0 == v {
            if b[j].1 > e {
                return None;
            }
            if e > b[j].1 {
                r.push((v, e - b[j].1));
            }
            j += 1;
        } else {
            r.push((v, e));
        }
    }
    if j < b.len() {
        return None;
    }
    Some(r)
}

impl Poly {
    pub fn constant(c: Integer) -> Poly {
        if c == 0 {
            Poly { t: vec![] }
        } else {
            Poly { t: vec![(Mono::new(), c)] }
        }
    }
    pub fn var(v: u16) -> Poly {
        let mut m = Mono::new();
        m.push((v, 1));
        Poly { t: vec![(m, Integer::from(1))] }
    }
    pub fn is_zero(&self) -> bool {
        self.t.is_empty()
    }
    pub fn as_const(&self) -> Option<Integer> {
        if self.t.is_empty() {
            Some(Integer::new())
        } else if self.t.len() == 1 && self.t[0].0.is_empty() {
            Some(self.t[0].1.clone())
        } else {
            None
        }
    }
    /// self * k + other * l
    pub fn lin(&self, k: &Integer, other: &Poly, l: &Integer) -> Poly {
        let mut r = Vec::with_capacity(self.t.len() + other.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() && j < other.t.len() {
            match mono_cmp(&self.t[i].0, &other.t[j].0) {
                Ordering::Greater => {
                    r.push((self.t[i].0.clone(), Integer::from(&self.t[i].1 * k)));
                    i += 1;
                }
                Ordering::Less => {
                    r.push((other.t[j].0.clone(), Integer::from(&other.t[j].1 * l)));
                    j += 1;
                }
                Ordering::Equal => {
                    let c = Integer::from(&self.t[i].1 * k) + Integer::from(&other.t[j].1 * l);
                    if c != 0 {
                        r.push((self.t[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        while i < self.t.len() {
            r.push((self.t[i].0.clone(), Integer::from(&self.t[i].1 * k)));
            i += 1;
        }
        while j < other.t.len() {
            r.push((other.t[j].0.clone(), Integer::from(&other.t[j].1 * l)));
            j += 1;
        }
        r.retain(|x| x.1 != 0);
        Poly { t: r }
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut acc: std::collections::HashMap<Mono, Integer, ahash::RandomState> =
            std::collections::HashMap::with_hasher(ahash::RandomState::with_seeds(1, 2, 3, 4));
        for (ma, ca) in &self.t {
            for (mb, cb) in &o.t {
                let m = mono_mul(ma, mb);
                *acc.entry(m).or_default() += Integer::from(ca * cb);
            }
        }
        let mut t: Vec<(Mono, Integer)> = acc.into_iter().filter(|x| x.1 != 0).collect();
        t.sort_by(|a, b| mono_cmp(&b.0, &a.0));
        Poly { t }
    }
    pub fn pow(&self, e: u32) -> Poly {
        let mut r = Poly::constant(Integer::from(1));
        for _ in 0..e {
            r = r.mul(self);
        }
        r
    }
    /// Returns (content, primitive part with positive leading coefficient).
    pub fn primitive(mut self) -> (Integer, Poly) {
        if self.t.is_empty() {
            return (Integer::new(), self);
        }
        let mut g = Integer::new();
        for (_, c) in &self.t {
            g.gcd_mut(c);
            if g == 1 {
                break;
            }
        }
        if self.t[0].1 < 0 {
            g = -g;
        }
        if g != 1 {
            for (_, c) in self.t.iter_mut() {
                c.div_exact_mut(&g);
            }
        }
        (g, self)
    }
    /// Greatest monomial dividing all terms.
    pub fn mono_gcd(&self) -> Mono {
        let mut it = self.t.iter();
        let mut g = match it.next() {
            None => return Mono::new(),
            Some(x) => x.0.clone(),
        };
        for (m, _) in it {
            if g.is_empty() {
                break;
            }
            let mut r = Mono::new();
            for &(v, e) in g.iter() {
                if let Some(x) = m.iter().find(|x| x.0 == v) {
                    r.push((v, e.min(x.1)));
                }
            }
            g = r;
        }
        g
    }
    pub fn div_mono(&self, m: &Mono) -> Poly {
        Poly { t: self.t.iter().map(|(a, c)| (mono_div(a, m).unwrap(), c.clone())).collect() }
    }
    /// Exact division over the rationals for primitive divisor; None if it does not divide.
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        if d.is_zero() || self.t.len() > 4000 {
            return None;
        }
        let (dm, dc) = (&d.t[0].0, &d.t[0].1);
        // trailing term quick test
        if let (Some(a), Some(b)) = (self.t.last(), d.t.last()) {
            mono_div(&a.0, &b.0)?;
            if !a.1.is_divisible(&b.1) {
                return None;
            }
        }
        use std::collections::BTreeMap;
        #[derive(PartialEq, Eq)]
        struct K(Mono);
        impl PartialOrd for K {
            fn partial_cmp(&self, o: &K) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for K {
            fn cmp(&self, o: &K) -> Ordering {
                mono_cmp(&self.0, &o.0)
            }
        }
        let mut r: BTreeMap<K, Integer> = self.t.iter().map(|(m, c)| (K(m.clone()), c.clone())).collect();
        let mut q = Vec::new();
        while let Some((k, c)) = r.pop_last() {
            let qm = mono_div(&k.0, dm)?;
            if !c.is_divisible(dc) {
                return None;
            }
            let qc = c.div_exact(dc);
            for (m, e) in d.t.iter().skip(1) {
                let mm = mono_mul(m, &qm);
                let sub = Integer::from(e * &qc);
                use std::collections::btree_map::Entry;
                match r.entry(K(mm)) {
                    Entry::Vacant(v) => {
                        v.insert(-sub);
                    }
                    Entry::Occupied(mut o) => {
                        *o.get_mut() -= sub;
                        if *o.get() == 0 {
                            o.remove();
                        }
                    }
                }
            }
            q.push((qm, qc));
            if q.len() > 4000 {
                return None;
            }
        }
        Some(Poly { t: q })
    }
    pub fn eval(&self, w: &[Rational]) -> Rational {
        let mut s = Rational::new();
        for (m, c) in &self.t {
            let mut x = Rational::from(c);
            for &(v, e) in m.iter() {
                for _ in 0..e {
                    x *= &w[v as usize];
                }
            }
            s += x;
        }
        s
    }
    /// Value at an integer point determined by the seed.
    pub fn eval_int(&self, seed: u64) -> Integer {
        let mut s = Integer::new();
        for (m, c) in &self.t {
            let mut x = c.clone();
            for &(v, e) in m.iter() {
                let mut h = seed ^ (v as u64 + 1).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                h ^= h >> 31;
                h = h.wrapping_mul(0x94D0_49BB_1331_11EB);
                h ^= h >> 29;
                let k = (h % 100_003) as i64 + 2;
                for _ in 0..e {
                    x *= k;
                }
            }
            s += x;
        }
        s
    }
    pub fn degree(&self) -> u32 {
        self.t.iter().map(|(m, _)| m.iter().map(|x| x.1 as u32).sum()).max().unwrap_or(0)
    }
    pub fn vars_into(&self, out: &mut Vec<u16>) {
        for (m, _) in &self.t {
            for &(v, _) in m.iter() {
                if !out.contains(&v) {
                    out.push(v);
                }
            }
        }
    }
    pub fn smt(&self, s: &mut String) {
        use std::fmt::Write;
        fn num(s: &mut String, c: &Integer) {
            if *c < 0 {
                let _ = write!(s, "(- {})", Integer::from(-c));
            } else {
                let _ = write!(s, "{}", c);
            }
        }
        if self.t.is_empty() {
            s.push('0');
            return;
        }
        if self.t.len() > 1 {
            s.push_str("(+");
        }
        for (m, c) in &self.t {
            if self.t.len() > 1 {
                s.push(' ');
            }
            let nf: u32 = m.iter().map(|x| x.1 as u32).sum::<u32>() + if *c == 1 { 0 } else { 1 };
            if nf == 0 {
                s.push('1');
                continue;
            }
            if nf > 1 {
                s.push_str("(*");
            }
            if *c != 1 {
                if nf > 1 {
                    s.push(' ');
                }
                num(s, c);
            }
            for &(v, e) in m.iter() {
                for _ in 0..e {
                    if nf > 1 {
                        s.push(' ');
                    }
                    let _ = write!(s, "v{}", v);
                }
            }
            if nf > 1 {
                s.push(')');
            }
        }
        if self.t.len() > 1 {
            s.push(')');
        }
    }
}
