//! Exact dyadic coefficients, expanded polynomials over atoms, rational functions.
//! This is the encoding step from term DAGs to the polynomial constraints handed to the solver.
use crate::ir::FOp;
use crate::term::{Terms, Tm, T};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Dy { pub neg: bool, pub mag: Vec<u32>, pub exp: i32 }

/// the time budget of the whole run (--time)
pub static DEADLINE: std::sync::Mutex<Option<std::time::Instant>> = std::sync::Mutex::new(None);
pub fn late() -> bool { DEADLINE.lock().unwrap().map_or(false, |d| std::time::Instant::now() > d) }
fn mag_trim(m: &mut Vec<u32>) { while let Some(0) = m.last() { m.pop(); } }
fn mag_cmp(a: &[u32], b: &[u32]) -> std::cmp::Ordering {
    if a.len() != b.len() { return a.len().cmp(&b.len()); }
    for i in (0..a.len()).rev() { if a[i] != b[i] { return a[i].cmp(&b[i]); } }
    std::cmp::Ordering::Equal
}
fn mag_add(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len().max(b.len()) + 1);
    let mut c = 0u64;
    for i in 0..a.len().max(b.len()) {
        let s = c + *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
        r.push(s as u32); c = s >> 32;
    }
    if c > 0 { r.push(c as u32); }
    r
}
fn mag_sub(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - br;
        if s < 0 { s += 1 << 32; br = 1; } else { br = 0; }
        r.push(s as u32);
    }
    mag_trim(&mut r);
    r
}
fn mag_mul(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let s = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = s as u32; c = s >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    mag_trim(&mut r);
    r
}
fn mag_shl(a: &[u32], n: u32) -> Vec<u32> {
    if a.is_empty() { return vec![]; }
    let w = (n / 32) as usize; let s = n % 32;
    let mut r = vec![0u32; w];
    let mut c = 0u64;
    for x in a { let v = ((*x as u64) << s) | c; r.push(v as u32); c = v >> 32; }
    if c > 0 { r.push(c as u32); }
    r
}
fn mag_dec(a: &[u32]) -> String {
    if a.is_empty() { return "0".into(); }
    let mut v = a.to_vec();
    let mut parts = vec![];
    while !v.is_empty() {
        let mut rem = 0u64;
        for i in (0..v.len()).rev() { let cur = (rem << 32) | v[i] as u64; v[i] = (cur / 1_000_000_000) as u32; rem = cur % 1_000_000_000; }
        mag_trim(&mut v);
        parts.push(rem as u32);
    }
    let mut s = parts.pop().unwrap().to_string();
    while let Some(p) = parts.pop() { s.push_str(&format!("{:09}", p)); }
    s
}
impl Dy {
    pub fn zero() -> Dy { Dy { neg: false, mag: vec![], exp: 0 } }
    pub fn one() -> Dy { Dy { neg: false, mag: vec![1], exp: 0 } }
    pub fn is_zero(&self) -> bool { self.mag.is_empty() }
    pub fn is_one(&self) -> bool { !self.neg && self.exp == 0 && self.mag.len() == 1 && self.mag[0] == 1 }
    fn norm(mut self) -> Dy {
        mag_trim(&mut self.mag);
        if self.mag.is_empty() { return Dy::zero(); }
        let mut w = 0; while self.mag[w] == 0 { w += 1; }
        let s = self.mag[w].trailing_zeros();
        if w == 0 && s == 0 { return self; }
        let mut r = Vec::with_capacity(self.mag.len() - w);
        for i in w..self.mag.len() {
            let lo = self.mag[i] >> s;
            let hi = if s > 0 && i + 1 < self.mag.len() { self.mag[i + 1] << (32 - s) } else { 0 };
            r.push(lo | hi);
        }
        mag_trim(&mut r);
        Dy { neg: self.neg, mag: r, exp: self.exp + (w as i32) * 32 + s as i32 }
    }
    pub fn from_f64(x: f64) -> Dy {
        assert!(x.is_finite());
        if x == 0.0 { return Dy::zero(); }
        let b = x.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = b & ((1u64 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | (1u64 << 52), e - 1075) };
        Dy { neg: x < 0.0, mag: vec![m as u32, (m >> 32) as u32], exp: e }.norm()
    }
    pub fn neg(&self) -> Dy { let mut r = self.clone(); if !r.is_zero() { r.neg = !r.neg; } r }
    pub fn mul(&self, o: &Dy) -> Dy {
        if self.is_zero() || o.is_zero() { return Dy::zero(); }
        if self.is_one() { return o.clone(); }
        if o.is_one() { return self.clone(); }
        Dy { neg: self.neg ^ o.neg, mag: mag_mul(&self.mag, &o.mag), exp: self.exp + o.exp }.norm()
    }
    pub fn add(&self, o: &Dy) -> Dy {
        if self.is_zero() { return o.clone(); }
        if o.is_zero() { return self.clone(); }
        let e = self.exp.min(o.exp);
        let a = mag_shl(&self.mag, (self.exp - e) as u32);
        let b = mag_shl(&o.mag, (o.exp - e) as u32);
        let (neg, mag) = if self.neg == o.neg { (self.neg, mag_add(&a, &b)) } else {
            match mag_cmp(&a, &b) {
                std::cmp::Ordering::Equal => return Dy::zero(),
                std::cmp::Ordering::Greater => (self.neg, mag_sub(&a, &b)),
                std::cmp::Ordering::Less => (o.neg, mag_sub(&b, &a)),
            }
        };
        let r = Dy { neg, mag, exp: e }.norm();
        // in the sweeping prover, sums that cancel down to the rounding of literal constants count as zero
        if self.neg != o.neg && RELAX.with(|x| x.get()) && r.log2() < self.log2().max(o.log2()) - 40 { RELAXED.with(|x| x.set(x.get() + 1)); return Dy::zero(); }
        r
    }
    pub fn smt(&self) -> String {
        if self.is_zero() { return "0.0".into(); }
        let s = if self.exp >= 0 { format!("{}.0", mag_dec(&mag_shl(&self.mag, self.exp as u32))) }
        else { format!("(/ {}.0 {}.0)", mag_dec(&self.mag), mag_dec(&mag_shl(&[1], (-self.exp) as u32))) };
        if self.neg { format!("(- {})", s) } else { s }
    }
    /// exponent of the leading bit (log2 magnitude), for scaling
    pub fn log2(&self) -> i32 { if self.is_zero() { i32::MIN } else { self.exp + (self.mag.len() as i32) * 32 - self.mag.last().unwrap().leading_zeros() as i32 } }
}
pub fn f64_smt(x: f64) -> String { Dy::from_f64(x).smt() }

pub type Mono = Vec<(u32, u32)>;
fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) { r.push(a[i]); i += 1; }
        else if i >= a.len() || b[j].0 < a[i].0 { r.push(b[j]); j += 1; }
        else { r.push((a[i].0, a[i].1 + b[j].1)); i += 1; j += 1; }
    }
    r
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Poly(pub BTreeMap<Mono, Dy>);

#[derive(Debug)]
pub enum PErr { TooBig, NonFinite, DivZero }
pub type R<X> = Result<X, PErr>;

thread_local! { pub static RELAX: std::cell::Cell<bool> = std::cell::Cell::new(false); pub static RELAXED: std::cell::Cell<usize> = std::cell::Cell::new(0); }
impl Poly {
    pub fn zero() -> Poly { Poly(BTreeMap::new()) }
    pub fn c(d: Dy) -> Poly { let mut m = BTreeMap::new(); if !d.is_zero() { m.insert(vec![], d); } Poly(m) }
    pub fn atom(a: u32) -> Poly { let mut m = BTreeMap::new(); m.insert(vec![(a, 1)], Dy::one()); Poly(m) }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn as_const(&self) -> Option<Dy> {
        if self.0.is_empty() { return Some(Dy::zero()); }
        if self.0.len() == 1 { if let Some(d) = self.0.get(&vec![]) { return Some(d.clone()); } }
        None
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let (mut big, small) = if self.0.len() >= o.0.len() { (self.0.clone(), &o.0) } else { (o.0.clone(), &self.0) };
        for (m, c) in small {
            match big.get_mut(m) {
                Some(x) => { let s = x.add(c); if s.is_zero() { big.remove(m); } else { *x = s; } }
                None => { big.insert(m.clone(), c.clone()); }
            }
        }
        Poly(big)
    }
    pub fn neg(&self) -> Poly { Poly(self.0.iter().map(|(m, c)| (m.clone(), c.neg())).collect()) }
    pub fn scale(&self, d: &Dy) -> Poly { if d.is_zero() { return Poly::zero(); } if d.is_one() { return self.clone(); } Poly(self.0.iter().map(|(m, c)| (m.clone(), c.mul(d))).collect()) }
    fn addto(map: &mut BTreeMap<Mono, Dy>, m: Mono, c: Dy) {
        match map.get_mut(&m) {
            Some(x) => { let s = x.add(&c); if s.is_zero() { map.remove(&m); } else { *x = s; } }
            None => { if !c.is_zero() { map.insert(m, c); } }
        }
    }
    pub fn size(&self) -> usize { self.0.len() }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RF { pub num: Poly, pub dc: Dy, pub den: BTreeMap<u32, u32> } // den: factor id -> power

#[derive(Clone, Debug)]
pub enum Atom { Var(u32), Root(u32, Poly), Fun(String, Vec<RF>), Opaque(Tm) }

pub struct Enc {
    pub atoms: Vec<Atom>,
    aix: HashMap<String, u32>,
    pub rules: HashMap<u32, (u32, Poly)>,
    pub factors: Vec<Poly>,
    fix: HashMap<Poly, u32>,
    rootargs: HashMap<Poly, (u32, u32)>, // poly -> (atom, k)
    memo: HashMap<Tm, RF>,
    pub cap: usize,
    pub posassume: Vec<Poly>, // polynomials assumed positive when extracting roots
    pub pos_atoms: HashMap<u32, bool>,
    pub rep: HashMap<Tm, Tm>,      // proved equalities: node -> representative
    pub cut: std::collections::HashSet<Tm>, // representatives that are abstracted to atoms
    pub exempt: Vec<Tm>,           // roots of the current query: never abstracted
    pub ival: HashMap<Tm, (f64, f64)>,
}

impl Enc {
    pub fn new(cap: usize) -> Enc { Enc { atoms: vec![], aix: HashMap::new(), rules: HashMap::new(), factors: vec![], fix: HashMap::new(), rootargs: HashMap::new(), memo: HashMap::new(), cap, posassume: vec![], pos_atoms: HashMap::new(), rep: HashMap::new(), cut: Default::default(), exempt: vec![], ival: HashMap::new() } }
    fn intern_atom(&mut self, key: String, a: Atom) -> (u32, bool) {
        if let Some(i) = self.aix.get(&key) { return (*i, false); }
        let i = self.atoms.len() as u32;
        self.atoms.push(a);
        self.aix.insert(key, i);
        (i, true)
    }
    fn factor(&mut self, p: Poly) -> u32 {
        if let Some(i) = self.fix.get(&p) { return *i; }
        let i = self.factors.len() as u32;
        self.factors.push(p.clone());
        self.fix.insert(p, i);
        i
    }
    pub fn pmul(&self, a: &Poly, b: &Poly) -> R<Poly> {
        if late() { return Err(PErr::TooBig); }
        if a.is_zero() || b.is_zero() { return Ok(Poly::zero()); }
        if let Some(c) = a.as_const() { return Ok(b.scale(&c)); }
        if let Some(c) = b.as_const() { return Ok(a.scale(&c)); }
        if a.size().saturating_mul(b.size()) > self.cap * 40 { return Err(PErr::TooBig); }
        let mut r: HashMap<Mono, Dy> = HashMap::with_capacity(a.size() * b.size() / 2);
        for (ma, ca) in &a.0 { for (mb, cb) in &b.0 {
            let m = mono_mul(ma, mb);
            let c = ca.mul(cb);
            match r.get_mut(&m) { Some(x) => { *x = x.add(&c); } None => { r.insert(m, c); } }
        } }
        let p = Poly(r.into_iter().filter(|(_, c)| !c.is_zero()).collect());
        if p.size() > self.cap { return Err(PErr::TooBig); }
        self.reduce(p)
    }
    fn reduce(&self, p: Poly) -> R<Poly> {
        if self.rules.is_empty() { return Ok(p); }
        let needs = |m: &Mono| m.iter().any(|(a, e)| self.rules.get(a).map_or(false, |(k, _)| e >= k));
        if !p.0.keys().any(|m| needs(m)) { return Ok(p); }
        let mut cur = p;
        for _ in 0..200 {
            let mut out: BTreeMap<Mono, Dy> = BTreeMap::new();
            let mut groups: HashMap<(u32, u32), Poly> = HashMap::new();
            let mut any = false;
            for (m, c) in cur.0 {
                // reduce the highest-numbered reducible atom first
                if let Some(&(a, e)) = m.iter().rev().find(|(a, e)| self.rules.get(a).map_or(false, |(k, _)| e >= k)) {
                    any = true;
                    let k = self.rules[&a].0;
                    let q = e / k;
                    let m2: Mono = m.iter().filter_map(|(x, y)| if *x == a { if e % k > 0 { Some((a, e % k)) } else { None } } else { Some((*x, *y)) }).collect();
                    let g = groups.entry((a, q)).or_insert_with(Poly::zero);
                    Poly::addto(&mut g.0, m2, c);
                } else { Poly::addto(&mut out, m, c); }
            }
            for ((a, q), g) in groups {
                let arg = self.rules[&a].1.clone();
                let mut pw = arg.clone();
                for _ in 1..q { pw = self.pmul(&pw, &arg)?; }
                // plain product (may still need reduction; loop handles it)
                if g.size().saturating_mul(pw.size()) > self.cap * 40 { return Err(PErr::TooBig); }
                for (ma, ca) in &g.0 { for (mb, cb) in &pw.0 { Poly::addto(&mut out, mono_mul(ma, mb), ca.mul(cb)); } }
            }
            if out.len() > self.cap { return Err(PErr::TooBig); }
            cur = Poly(out);
            if !any { return Ok(cur); }
        }
        Err(PErr::TooBig)
    }
    fn rf(num: Poly) -> RF { RF { num, dc: Dy::one(), den: BTreeMap::new() } }
    /// cancel common monomial content between numerator and atomic denominator factors, and identical factors
    fn simp(&mut self, mut r: RF) -> RF {
        if r.num.is_zero() { return RF { num: Poly::zero(), dc: Dy::one(), den: BTreeMap::new() }; }
        let ids: Vec<u32> = r.den.keys().copied().collect();
        for f in ids {
            let fp = self.factors[f as usize].clone();
            if fp.size() == 1 {
                let (m, c) = fp.0.iter().next().unwrap();
                if m.len() == 1 && m[0].1 == 1 && c.is_one() {
                    let a = m[0].0;
                    let mn = r.num.0.keys().map(|m| m.iter().find(|(x, _)| *x == a).map_or(0, |(_, e)| *e)).min().unwrap();
                    let k = mn.min(r.den[&f]);
                    if k > 0 {
                        r.num = Poly(r.num.0.into_iter().map(|(m, c)| (m.into_iter().filter_map(|(x, e)| if x == a { if e > k { Some((x, e - k)) } else { None } } else { Some((x, e)) }).collect(), c)).collect());
                        let e = r.den.get_mut(&f).unwrap(); *e -= k; if *e == 0 { r.den.remove(&f); }
                    }
                }
            } else {
                while r.den.get(&f).copied().unwrap_or(0) > 0 {
                    if let Some(q) = self.exact_div(&r.num, &fp) { r.num = q; let e = r.den.get_mut(&f).unwrap(); *e -= 1; if *e == 0 { r.den.remove(&f); } } else { break; }
                }
            }
        }
        r
    }
    /// exact polynomial division by a factor whose leading coefficient is +-2^k (otherwise not attempted)
    fn exact_div(&self, n: &Poly, d: &Poly) -> Option<Poly> {
        if d.size() > 12 || n.size() > 4000 { return None; }
        // only for factors without reducible atoms
        if d.0.keys().any(|m| m.iter().any(|(a, _)| self.rules.contains_key(a))) { return None; }
        if n.size() < d.size() { return None; }
        let (lm, lc) = d.0.iter().next_back()?;
        if lc.mag != vec![1] { return None; }
        let inv = Dy { neg: lc.neg, mag: vec![1], exp: -lc.exp };
        let mut rem = n.clone();
        let mut q: BTreeMap<Mono, Dy> = BTreeMap::new();
        let mut steps = 0;
        // lexicographic order by Vec<(atom,exp)> is not a monomial order; use graded comparison through explicit search
        let key = |m: &Mono| -> Vec<i64> { let mut v: Vec<i64> = vec![m.iter().map(|x| x.1 as i64).sum()]; for (a, e) in m { v.push(-(*a as i64)); v.push(*e as i64); } v };
        let _ = key;
        let cmp = |a: &Mono, b: &Mono| -> std::cmp::Ordering {
            let da: u32 = a.iter().map(|x| x.1).sum(); let db: u32 = b.iter().map(|x| x.1).sum();
            if da != db { return da.cmp(&db); }
            let (mut i, mut j) = (0, 0);
            loop {
                match (a.get(i), b.get(j)) {
                    (None, None) => return std::cmp::Ordering::Equal,
                    (Some(_), None) => return std::cmp::Ordering::Greater,
                    (None, Some(_)) => return std::cmp::Ordering::Less,
                    (Some(x), Some(y)) => {
                        if x.0 < y.0 { return std::cmp::Ordering::Greater; }
                        if x.0 > y.0 { return std::cmp::Ordering::Less; }
                        if x.1 != y.1 { return x.1.cmp(&y.1); }
                        i += 1; j += 1;
                    }
                }
            }
        };
        let (lm, lc, inv) = { let _ = (lm, lc, inv); let (m, c) = d.0.iter().max_by(|a, b| cmp(a.0, b.0))?; if c.mag != vec![1] { return None; } (m.clone(), c.clone(), Dy { neg: c.neg, mag: vec![1], exp: -c.exp }) };
        let _ = lc;
        while !rem.is_zero() {
            steps += 1; if steps > 4000 { return None; }
            let (m, c) = rem.0.iter().max_by(|a, b| cmp(a.0, b.0)).map(|(m, c)| (m.clone(), c.clone()))?;
            // m / lm
            let mut qm: Mono = vec![];
            let mut li = 0;
            for (a, e) in &m {
                let le = if li < lm.len() && lm[li].0 == *a { let v = lm[li].1; li += 1; v } else { 0 };
                if li < lm.len() && lm[li].0 < *a { return None; }
                if le > *e { return None; }
                if e - le > 0 { qm.push((*a, e - le)); }
            }
            if li < lm.len() { return None; }
            let qc = c.mul(&inv);
            for (dm, dcf) in &d.0 { Poly::addto(&mut rem.0, mono_mul(dm, &qm), dcf.mul(&qc).neg()); }
            q.insert(qm, qc);
        }
        Some(Poly(q))
    }
    pub fn rmul(&mut self, a: &RF, b: &RF) -> R<RF> {
        let mut den = a.den.clone();
        for (f, e) in &b.den { *den.entry(*f).or_insert(0) += e; }
        // cancel before multiplying where a numerator is exactly a denominator factor
        let num = self.pmul(&a.num, &b.num)?;
        let r = RF { num, dc: a.dc.mul(&b.dc), den };
        Ok(self.simp(r))
    }
    fn den_cofactor(&mut self, have: &BTreeMap<u32, u32>, want: &BTreeMap<u32, u32>) -> R<Poly> {
        let mut p = Poly::c(Dy::one());
        for (f, e) in want {
            let h = have.get(f).copied().unwrap_or(0);
            for _ in h..*e { let fp = self.factors[*f as usize].clone(); p = self.pmul(&p, &fp)?; }
        }
        Ok(p)
    }
    fn lcm(a: &BTreeMap<u32, u32>, b: &BTreeMap<u32, u32>) -> BTreeMap<u32, u32> {
        let mut l = a.clone();
        for (f, e) in b { let x = l.entry(*f).or_insert(0); *x = (*x).max(*e); }
        l
    }
    /// numerators over the common denominator
    pub fn common(&mut self, a: &RF, b: &RF) -> R<(Poly, Poly, Dy, BTreeMap<u32, u32>)> {
        let l = Self::lcm(&a.den, &b.den);
        let ca = self.den_cofactor(&a.den, &l)?; let cb = self.den_cofactor(&b.den, &l)?;
        let mut pa = self.pmul(&a.num, &ca)?; let mut pb = self.pmul(&b.num, &cb)?;
        let dc = if a.dc == b.dc { a.dc.clone() } else { pa = pa.scale(&b.dc); pb = pb.scale(&a.dc); a.dc.mul(&b.dc) };
        Ok((pa, pb, dc, l))
    }
    pub fn radd(&mut self, a: &RF, b: &RF) -> R<RF> {
        if a.num.is_zero() { return Ok(b.clone()); }
        if b.num.is_zero() { return Ok(a.clone()); }
        let (pa, pb, dc, den) = self.common(a, b)?;
        let s = pa.add(&pb);
        if s.size() > self.cap { return Err(PErr::TooBig); }
        let r = RF { num: s, dc, den };
        Ok(self.simp(r))
    }
    fn add_den(&mut self, den: &mut BTreeMap<u32, u32>, p: Poly, e: u32) {
        if let Some(&(a, k)) = self.rootargs.get(&p) {
            let f = self.factor(Poly::atom(a));
            *den.entry(f).or_insert(0) += k * e;
            return;
        }
        let f = self.factor(p);
        *den.entry(f).or_insert(0) += e;
    }
    pub fn rinv(&mut self, y: &RF) -> R<RF> {
        if y.num.is_zero() { return Err(PErr::DivZero); }
        let mut num = Poly::c(y.dc.clone());
        for (f, e) in &y.den { for _ in 0..*e { let fp = self.factors[*f as usize].clone(); num = self.pmul(&num, &fp)?; } }
        let mut den = BTreeMap::new();
        let mut p = y.num.clone();
        // monomial content
        let first = p.0.keys().next().unwrap().clone();
        for (a, e0) in first {
            let mn = p.0.keys().map(|m| m.iter().find(|(x, _)| *x == a).map_or(0, |(_, e)| *e)).min().unwrap().min(e0);
            if mn > 0 {
                p = Poly(p.0.into_iter().map(|(m, c)| (m.into_iter().filter_map(|(x, e)| if x == a { if e > mn { Some((x, e - mn)) } else { None } } else { Some((x, e)) }).collect(), c)).collect());
                let f = self.factor(Poly::atom(a));
                *den.entry(f).or_insert(0) += mn;
            }
        }
        let mut dc = Dy::one();
        if let Some(c) = p.as_const() { dc = c; }
        else {
            // scalar content: if all coefficients share the same value pull it out
            let c0 = p.0.values().next().unwrap().clone();
            if !c0.is_one() && p.0.values().all(|c| c.mag == c0.mag && c.exp == c0.exp) {
                p = Poly(p.0.into_iter().map(|(m, c)| (m, Dy { neg: c.neg ^ c0.neg, mag: vec![1], exp: 0 })).collect());
                dc = c0;
            } else if c0.neg { p = p.neg(); dc = Dy::one().neg(); }
            self.add_den(&mut den, p, 1);
        }
        let r = RF { num, dc, den };
        Ok(self.simp(r))
    }
    pub fn positive_poly(&self, p: &Poly, ts: &Terms) -> bool {
        // syntactic positivity: all coefficients positive and every monomial a product of nonnegative atoms or even powers
        !p.is_zero() && p.0.iter().all(|(m, c)| !c.neg && m.iter().all(|(a, e)| e % 2 == 0 || self.nonneg_atom(*a, ts)))
    }
    fn nonneg_atom(&self, a: u32, ts: &Terms) -> bool {
        match &self.atoms[a as usize] {
            Atom::Var(v) => ts.vars[*v as usize].lo >= 0.0,
            Atom::Root(k, _) => k % 2 == 0,
            Atom::Fun(n, _) => n == "exp" || n == "cosh" || n == "acos" || n == "fabs",
            Atom::Opaque(t) => self.ival.get(t).map_or(false, |(l, _)| *l >= 0.0),
        }
    }
    pub fn root(&mut self, k: u32, x: &RF, ts: &Terms) -> R<RF> {
        // (n/d)^(1/k) = (n * d^(k-1))^(1/k) / d   for d > 0
        if x.num.is_zero() { return Ok(Self::rf(Poly::zero())); }
        let mut outden: BTreeMap<u32, u32> = BTreeMap::new();
        let mut mulin: BTreeMap<u32, u32> = BTreeMap::new();
        for (f, e) in &x.den {
            let fp = self.factors[*f as usize].clone();
            if !self.positive_poly(&fp, ts) { self.posassume.push(fp.clone()); }
            let q = (e + k - 1) / k;
            outden.insert(*f, q);
            if q * k > *e { mulin.insert(*f, q * k - e); }
        }
        let mut p = self.den_cofactor(&BTreeMap::new(), &mulin)?;
        p = self.pmul(&p, &x.num)?;
        // constant denominator: dc > 0 assumed; p * dc^(k-1) / dc
        let mut dc = Dy::one();
        let mut p2 = p;
        if !x.dc.is_one() {
            let mut d = x.dc.clone();
            if d.neg { d = d.neg(); p2 = p2.neg(); }
            for _ in 1..k { p2 = p2.scale(&d); }
            dc = d;
        }
        // pull out monomial content with power >= k from nonnegative atoms
        let mut outside = Poly::c(Dy::one());
        let first = p2.0.keys().next().unwrap().clone();
        for (a, _) in first {
            if !(self.nonneg_atom(a, ts)) { continue; }
            let mn = p2.0.keys().map(|m| m.iter().find(|(x, _)| *x == a).map_or(0, |(_, e)| *e)).min().unwrap();
            let q = mn / k;
            if q > 0 {
                p2 = Poly(p2.0.into_iter().map(|(m, c)| (m.into_iter().filter_map(|(x, e)| if x == a { if e > q * k { Some((x, e - q * k)) } else { None } } else { Some((x, e)) }).collect(), c)).collect());
                for _ in 0..q { outside = self.pmul(&outside, &Poly::atom(a))?; }
            }
        }
        // scale by 4^j to normalise the exponent of the first coefficient (k = 2 only, exact)
        if let Some(c) = p2.as_const() { if c.is_one() { let r = RF { num: outside, dc, den: outden }; return Ok(self.simp(r)); } }
        let (a, fresh) = { let key = format!("root{}:{:?}", k, p2); self.intern_atom(key, Atom::Root(k, p2.clone())) };
        if fresh { self.rules.insert(a, (k, p2.clone())); self.rootargs.insert(p2, (a, k)); }
        let num = self.pmul(&outside, &Poly::atom(a))?;
        let r = RF { num, dc, den: outden };
        Ok(self.simp(r))
    }
    pub fn conv(&mut self, t: Tm, ts: &Terms) -> R<RF> {
        if let Some(r) = self.memo.get(&t) { return Ok(r.clone()); }
        let mut st = vec![t];
        while let Some(&k) = st.last() {
            if self.memo.contains_key(&k) { st.pop(); continue; }
            if !self.cut.is_empty() && !self.exempt.contains(&k) {
                let r = self.rep.get(&k).copied().unwrap_or(k);
                if let Some(c) = ts.as_c(r) { if c.is_finite() { self.memo.insert(k, Self::rf(Poly::c(Dy::from_f64(c)))); st.pop(); continue; } }
                if self.cut.contains(&r) {
                    self.interval(r, ts);
                    let (a, _) = self.intern_atom(format!("op{}", r), Atom::Opaque(r));
                    self.memo.insert(k, Self::rf(Poly::atom(a)));
                    st.pop(); continue;
                }
            }
            let kids: Vec<Tm> = match &ts.t[k as usize] { T::C(_) | T::Var(_) => vec![], T::Bin(_, a, b) => vec![*a, *b], T::Neg(a) | T::Sqrt(a) => vec![*a], T::Fun(_, v) => v.clone() };
            let pend: Vec<Tm> = kids.iter().copied().filter(|x| !self.memo.contains_key(x)).collect();
            if !pend.is_empty() { st.extend(pend); continue; }
            let r = self.conv1(k, ts)?;
            self.memo.insert(k, r);
            st.pop();
        }
        Ok(self.memo[&t].clone())
    }
    pub fn clear_memo(&mut self) { self.memo.clear(); }
    /// enclosure of a term over the input boxes; used for signs only
    pub fn interval(&mut self, t: Tm, ts: &Terms) -> (f64, f64) {
        if let Some(r) = self.ival.get(&t) { return *r; }
        let all = (f64::NEG_INFINITY, f64::INFINITY);
        let mut st = vec![t];
        while let Some(&k) = st.last() {
            if self.ival.contains_key(&k) { st.pop(); continue; }
            let kids: Vec<Tm> = match &ts.t[k as usize] { T::C(_) | T::Var(_) => vec![], T::Bin(_, a, b) => vec![*a, *b], T::Neg(a) | T::Sqrt(a) => vec![*a], T::Fun(_, v) => v.clone() };
            let pend: Vec<Tm> = kids.iter().copied().filter(|x| !self.ival.contains_key(x)).collect();
            if !pend.is_empty() { st.extend(pend); continue; }
            let g = |x: &Tm| self.ival[x];
            let r = match &ts.t[k as usize] {
                T::C(b) => { let x = f64::from_bits(*b); (x, x) }
                T::Var(v) => (ts.vars[*v as usize].lo, ts.vars[*v as usize].hi),
                T::Neg(a) => { let (l, h) = g(a); (-h, -l) }
                T::Sqrt(a) => { let (l, h) = g(a); (if l > 0.0 { l.sqrt() } else { 0.0 }, if h > 0.0 { h.sqrt() } else { 0.0 }) }
                T::Bin(op, a, b) => {
                    let (x, y) = (g(a), g(b));
                    let pr = |x: f64, y: f64| { let p = x * y; if p.is_nan() { 0.0 } else { p } };
                    match op {
                        FOp::Add => (x.0 + y.0, x.1 + y.1),
                        FOp::Sub => (x.0 - y.1, x.1 - y.0),
                        FOp::Mul => {
                            let c = [pr(x.0, y.0), pr(x.0, y.1), pr(x.1, y.0), pr(x.1, y.1)];
                            let l = c.iter().cloned().fold(f64::INFINITY, f64::min); let h = c.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                            if a == b { (if x.0 > 0.0 || x.1 < 0.0 { l.max(0.0) } else { 0.0 }, h) } else { (l, h) }
                        }
                        FOp::Div => if y.0 >= 0.0 || y.1 <= 0.0 {
                            let inv = if y.0 >= 0.0 { (1.0 / y.1.abs(), if y.0 == 0.0 { f64::INFINITY } else { 1.0 / y.0 }) } else { (if y.1 == 0.0 { f64::NEG_INFINITY } else { 1.0 / y.1 }, -1.0 / y.0.abs()) };
                            let c = [pr(x.0, inv.0), pr(x.0, inv.1), pr(x.1, inv.0), pr(x.1, inv.1)];
                            (c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
                        } else { all },
                        FOp::Rem => all,
                    }
                }
                T::Fun(n, v) => match n.as_str() { "exp" => { let (l, h) = g(&v[0]); (l.exp(), h.exp()) } "cosh" => (1.0, f64::INFINITY), "fabs" => (0.0, f64::INFINITY), "acos" => (0.0, 3.15), "sin" | "cos" => (-1.0, 1.0), "pow" => if g(&v[0]).0 >= 0.0 { (0.0, f64::INFINITY) } else { all }, _ => all },
            };
            let r = if r.0.is_nan() || r.1.is_nan() { all } else { r };
            self.ival.insert(k, r);
            st.pop();
        }
        self.ival[&t]
    }
    fn conv1(&mut self, t: Tm, ts: &Terms) -> R<RF> {
        match &ts.t[t as usize] {
            T::C(b) => { let x = f64::from_bits(*b); if !x.is_finite() { return Err(PErr::NonFinite); } Ok(Self::rf(Poly::c(Dy::from_f64(x)))) }
            T::Var(v) => { let (a, _) = self.intern_atom(format!("v{}", v), Atom::Var(*v)); Ok(Self::rf(Poly::atom(a))) }
            T::Neg(a) => { let mut r = self.memo[a].clone(); r.num = r.num.neg(); Ok(r) }
            T::Bin(op, a, b) => {
                let x = self.memo[a].clone(); let y = self.memo[b].clone();
                match op {
                    FOp::Add => self.radd(&x, &y),
                    FOp::Sub => { let mut y = y; y.num = y.num.neg(); self.radd(&x, &y) }
                    FOp::Mul => self.rmul(&x, &y),
                    FOp::Div => { let iy = self.rinv(&y)?; self.rmul(&x, &iy) }
                    FOp::Rem => { let key = format!("rem{:?}{:?}", x, y); let (a, _) = self.intern_atom(key, Atom::Opaque(t)); Ok(Self::rf(Poly::atom(a))) }
                }
            }
            T::Sqrt(a) => { let x = self.memo[a].clone(); self.root(2, &x, ts) }
            T::Fun(n, args) => {
                let n = n.clone();
                let rs: Vec<RF> = args.iter().map(|a| self.memo[a].clone()).collect();
                if n == "cbrt" { return self.root(3, &rs[0], ts); }
                if n == "pow" {
                    if let Some(y) = ts.as_c(args[1]) {
                        for k in [2u32, 3, 4, 6] {
                            let q = y * k as f64;
                            if (q - q.round()).abs() < 1e-14 && q.abs() <= 40.0 && q.round() != 0.0 {
                                let q = q.round() as i32;
                                let r = self.root(k, &rs[0], ts)?;
                                let mut acc = r.clone();
                                for _ in 1..q.abs() { acc = self.rmul(&acc, &r)?; }
                                if q < 0 { acc = self.rinv(&acc)?; }
                                return Ok(acc);
                            }
                        }
                    }
                }
                if n == "tan" {
                    let s = self.trig("sin", &rs[0]); let c = self.trig("cos", &rs[0]);
                    let ic = self.rinv(&Self::rf(c))?;
                    return self.rmul(&Self::rf(s), &ic);
                }
                if n == "sin" || n == "cos" || n == "sinh" || n == "cosh" {
                    return Ok(Self::rf(self.trig(&n, &rs[0])));
                }
                let key = format!("{}{:?}", n, rs);
                let (a, _) = self.intern_atom(key, Atom::Fun(n, rs));
                Ok(Self::rf(Poly::atom(a)))
            }
        }
    }
    fn trig(&mut self, n: &str, x: &RF) -> Poly {
        // normalise sign of the argument
        let mut x = x.clone();
        let mut flip = false;
        if let Some(c) = x.num.0.values().next() { if c.neg != x.dc.neg { x.num = x.num.neg(); flip = true; } if x.dc.neg { x.num = x.num.neg(); x.dc = x.dc.neg(); } }
        let hyp = n.ends_with('h');
        let (sn, cn) = if hyp { ("sinh", "cosh") } else { ("sin", "cos") };
        let (c, _) = self.intern_atom(format!("{}{:?}", cn, x), Atom::Fun(cn.into(), vec![x.clone()]));
        let (s, fresh) = self.intern_atom(format!("{}{:?}", sn, x), Atom::Fun(sn.into(), vec![x.clone()]));
        if fresh {
            let one = Poly::c(Dy::one());
            let mut c2 = BTreeMap::new(); c2.insert(vec![(c, 2)], Dy::one()); let c2 = Poly(c2);
            let rule = if hyp { c2.add(&one.neg()) } else { one.add(&c2.neg()) };
            self.rules.insert(s, (2, rule));
        }
        if n == sn { let p = Poly::atom(s); if flip { p.neg() } else { p } } else { Poly::atom(c) }
    }
    pub fn smt_poly(&self, p: &Poly) -> String {
        if p.is_zero() { return "0.0".into(); }
        let mut parts: Vec<String> = vec![];
        for (m, c) in &p.0 {
            let mut fs: Vec<String> = vec![];
            if !c.is_one() || m.is_empty() { fs.push(c.smt()); }
            for (a, e) in m { for _ in 0..*e { fs.push(format!("a{}", a)); } }
            parts.push(if fs.len() == 1 { fs.pop().unwrap() } else { format!("(* {})", fs.join(" ")) });
        }
        if parts.len() == 1 { parts.pop().unwrap() } else { format!("(+ {})", parts.join(" ")) }
    }
    pub fn smt_den(&self, den: &BTreeMap<u32, u32>, dc: &Dy) -> String {
        let mut fs = vec![];
        if !dc.is_one() { fs.push(dc.smt()); }
        for (f, e) in den { for _ in 0..*e { fs.push(self.smt_poly(&self.factors[*f as usize])); } }
        match fs.len() { 0 => "1.0".into(), 1 => fs.pop().unwrap(), _ => format!("(* {})", fs.join(" ")) }
    }
    /// declarations and defining constraints of the atoms reachable from the given set
    pub fn atom_closure(&self, seed: &[u32]) -> Vec<u32> {
        let mut seen = std::collections::BTreeSet::new();
        let mut st: Vec<u32> = seed.to_vec();
        while let Some(a) = st.pop() {
            if !seen.insert(a) { continue; }
            if let Some((_, p)) = self.rules.get(&a) { for m in p.0.keys() { for (x, _) in m { st.push(*x); } } }
        }
        seen.into_iter().collect()
    }
    pub fn atoms_of(&self, p: &Poly, out: &mut Vec<u32>) { for m in p.0.keys() { for (a, _) in m { out.push(*a); } } }
    pub fn decls(&self, atoms: &[u32], ts: &Terms, boxes: bool, defs: bool) -> String {
        let mut s = String::new();
        for a in atoms { s.push_str(&format!("(declare-const a{} Real)\n", a)); }
        for a in atoms {
            match &self.atoms[*a as usize] {
                Atom::Var(v) => {
                    if boxes {
                        let vi = &ts.vars[*v as usize];
                        if vi.lo.is_finite() { s.push_str(&format!("(assert (>= a{} {}))\n", a, f64_smt(vi.lo))); }
                        if vi.hi.is_finite() { s.push_str(&format!("(assert (<= a{} {}))\n", a, f64_smt(vi.hi))); }
                    }
                }
                Atom::Root(k, _) => { if defs && k % 2 == 0 { s.push_str(&format!("(assert (>= a{} 0.0))\n", a)); } }
                Atom::Fun(n, _) => {
                    if defs {
                        if n == "sin" || n == "cos" { s.push_str(&format!("(assert (and (<= (- 1.0) a{a}) (<= a{a} 1.0)))\n", a = a)); }
                        if n == "exp" { s.push_str(&format!("(assert (> a{} 0.0))\n", a)); }
                        if n == "cosh" { s.push_str(&format!("(assert (>= a{} 1.0))\n", a)); }
                        if n == "acos" { s.push_str(&format!("(assert (and (<= 0.0 a{a}) (<= a{a} 3.1415926535897936)))\n", a = a)); }
                    }
                }
                Atom::Opaque(t) => { if defs { if let Some((l, _)) = self.ival.get(t) { if *l >= 0.0 { s.push_str(&format!("(assert (>= a{} 0.0))\n", a)); } } } }
            }
            if defs {
                if let Some((k, p)) = self.rules.get(a) {
                    s.push_str(&format!("(assert (= (* {}) {}))\n", vec![format!("a{}", a); *k as usize].join(" "), self.smt_poly(p)));
                }
            }
        }
        s
    }
}
