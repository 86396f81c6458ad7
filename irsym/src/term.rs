//! Hash-consed terms over symbolic f64 inputs, and boolean terms over them.
use crate::ir::{FOp, FPred};
use std::collections::HashMap;

pub type Tm = u32;
pub type Bo = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
    C(u64),
    Var(u32),
    Bin(FOp, Tm, Tm),
    Neg(Tm),
    Sqrt(Tm),
    Fun(String, Vec<Tm>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum B {
    K(bool),
    Cmp(FPred, Tm, Tm),
    Not(Bo),
    And(Bo, Bo),
    Or(Bo, Bo),
    Xor(Bo, Bo),
}
#[derive(Clone, Debug)]
pub struct VarInfo { pub name: String, pub lo: f64, pub hi: f64 }

pub struct Terms {
    pub t: Vec<T>,
    ix: HashMap<T, Tm>,
    pub b: Vec<B>,
    bix: HashMap<B, Bo>,
    pub vars: Vec<VarInfo>,
    pub varix: HashMap<String, u32>,
    pub real: bool,
    /// keep sums that are affine in the inputs in the form c + k1 v1 + ..., with rounded coefficients: what cancels is gone
    pub affine: bool,
    aff: HashMap<Tm, (f64, Vec<(u32, f64)>)>,
}

pub fn libm(name: &str, a: &[f64]) -> Option<f64> {
    Some(match name {
        "sin" => a[0].sin(), "cos" => a[0].cos(), "tan" => a[0].tan(),
        "asin" => a[0].asin(), "acos" => a[0].acos(), "atan" => a[0].atan(), "atan2" => a[0].atan2(a[1]),
        "sinh" => a[0].sinh(), "cosh" => a[0].cosh(), "tanh" => a[0].tanh(),
        "exp" => a[0].exp(), "exp2" => a[0].exp2(), "log" => a[0].ln(), "log10" => a[0].log10(), "log2" => a[0].log2(), "log1p" => a[0].ln_1p(), "expm1" => a[0].exp_m1(),
        "pow" => a[0].powf(a[1]), "cbrt" => a[0].cbrt(), "hypot" => a[0].hypot(a[1]),
        "floor" => a[0].floor(), "ceil" => a[0].ceil(), "trunc" => a[0].trunc(), "round" => a[0].round(), "rint" => a[0].round_ties_even(),
        "fabs" => a[0].abs(), "fmod" => a[0] % a[1],
        _ => return None,
    })
}

impl Terms {
    pub fn new(real: bool) -> Terms {
        Terms { t: vec![], ix: HashMap::new(), b: vec![], bix: HashMap::new(), vars: vec![], varix: HashMap::new(), real, affine: false, aff: HashMap::new() }
    }
    pub fn mk(&mut self, t: T) -> Tm {
        if let Some(&i) = self.ix.get(&t) { return i; }
        let i = self.t.len() as Tm;
        self.t.push(t.clone());
        self.ix.insert(t, i);
        i
    }
    pub fn var(&mut self, name: &str, lo: f64, hi: f64) -> Tm {
        let key = format!("{}|{:x}|{:x}", name, lo.to_bits(), hi.to_bits());
        if let Some(&v) = self.varix.get(&key) { return self.mk(T::Var(v)); }
        let v = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), lo, hi });
        self.varix.insert(key, v);
        let t = self.mk(T::Var(v));
        self.aff.insert(t, (0.0, vec![(v, 1.0)]));
        t
    }
    pub fn c(&mut self, x: f64) -> Tm { self.mk(T::C(x.to_bits())) }
    pub fn as_c(&self, t: Tm) -> Option<f64> { if let T::C(b) = self.t[t as usize] { Some(f64::from_bits(b)) } else { None } }
    pub fn bin(&mut self, op: FOp, a: Tm, b: Tm) -> Tm {
        let (ca, cb) = (self.as_c(a), self.as_c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y };
            return self.c(r);
        }
        if self.real {
            if ca.map_or(false, |x| x.is_nan()) || cb.map_or(false, |x| x.is_nan()) { return self.c(f64::NAN); }
            // operands that are not constants stand for finite values
            if ca.map_or(false, |x| x.is_infinite()) && matches!(op, FOp::Add | FOp::Sub) { return a; }
            if let Some(y) = cb { if y.is_infinite() { match op { FOp::Add => return b, FOp::Sub => return self.c(-y), FOp::Div => return self.c(0.0), _ => {} } } }
        }
        if self.affine {
            let (x, y) = (self.aff_of(a), self.aff_of(b));
            let r = match (op, x, y) {
                (FOp::Add, Some(x), Some(y)) => Some(comb(&x, 1.0, &y)),
                (FOp::Sub, Some(x), Some(y)) => Some(comb(&x, -1.0, &y)),
                (FOp::Mul, Some(x), Some(y)) if x.1.is_empty() => Some((x.0 * y.0, y.1.iter().map(|(v, k)| (*v, x.0 * k)).collect())),
                (FOp::Mul, Some(x), Some(y)) if y.1.is_empty() => Some((x.0 * y.0, x.1.iter().map(|(v, k)| (*v, y.0 * k)).collect())),
                (FOp::Div, Some(x), Some(y)) if y.1.is_empty() && y.0 != 0.0 => Some((x.0 / y.0, x.1.iter().map(|(v, k)| (*v, k / y.0)).collect())),
                _ => None,
            };
            if let Some((c, ks)) = r { if c.is_finite() && ks.iter().all(|k| k.1.is_finite()) && ks.len() <= 16 { return self.mk_aff(c, ks); } }
        }
        match op {
            FOp::Mul => {
                if ca == Some(1.0) { return b; }
                if cb == Some(1.0) { return a; }
                if self.real && (ca == Some(0.0) || cb == Some(0.0)) { return self.c(0.0); }
                if ca == Some(-1.0) { return self.neg(b); }
                if cb == Some(-1.0) { return self.neg(a); }
            }
            FOp::Div => {
                if cb == Some(1.0) { return a; }
                if self.real && ca == Some(0.0) { return self.c(0.0); }
            }
            FOp::Add if self.real => { if ca == Some(0.0) { return b; } if cb == Some(0.0) { return a; } }
            FOp::Sub if self.real => { if cb == Some(0.0) { return a; } if ca == Some(0.0) { return self.neg(b); } if a == b { return self.c(0.0); } }
            _ => {}
        }
        let (a, b) = if matches!(op, FOp::Add | FOp::Mul) && a > b { (b, a) } else { (a, b) };
        self.mk(T::Bin(op, a, b))
    }
    fn aff_of(&self, t: Tm) -> Option<(f64, Vec<(u32, f64)>)> { if let Some(c) = self.as_c(t) { return Some((c, vec![])); } self.aff.get(&t).cloned() }
    fn mk_aff(&mut self, c: f64, mut ks: Vec<(u32, f64)>) -> Tm {
        ks.retain(|k| k.1 != 0.0);
        if ks.is_empty() { return self.c(c); }
        let mut r: Option<Tm> = if c == 0.0 { None } else { Some(self.c(c)) };
        for (v, k) in &ks {
            let x = self.mk(T::Var(*v));
            let x = if *k == 1.0 { x } else { let k = self.c(*k); let (a, b) = (k.min(x), k.max(x)); self.mk(T::Bin(FOp::Mul, a, b)) };
            r = Some(match r { None => x, Some(y) => { let (a, b) = (x.min(y), x.max(y)); self.mk(T::Bin(FOp::Add, a, b)) } });
        }
        let r = r.unwrap();
        self.aff.insert(r, (c, ks));
        r
    }
    pub fn neg(&mut self, a: Tm) -> Tm {
        if let Some(x) = self.as_c(a) { return self.c(-x); }
        if self.affine { if let Some((c, ks)) = self.aff_of(a) { return self.mk_aff(-c, ks.into_iter().map(|(v, k)| (v, -k)).collect()); } }
        if let T::Neg(x) = self.t[a as usize] { return x; }
        self.mk(T::Neg(a))
    }
    pub fn sqrt(&mut self, a: Tm) -> Tm {
        if let Some(x) = self.as_c(a) { return self.c(x.sqrt()); }
        self.mk(T::Sqrt(a))
    }
    pub fn fun(&mut self, n: &str, args: Vec<Tm>) -> Tm {
        let cs: Option<Vec<f64>> = args.iter().map(|a| self.as_c(*a)).collect();
        if let Some(cs) = cs { if let Some(r) = libm(n, &cs) { return self.c(r); } }
        if n == "pow" {
            if let Some(y) = self.as_c(args[1]) {
                if y == 0.0 { return self.c(1.0); }
                if y == 1.0 { return args[0]; }
                if self.real {
                    if y == 0.5 { return self.sqrt(args[0]); }
                    if y.fract() == 0.0 && y.abs() <= 32.0 {
                        let mut r = args[0];
                        for _ in 1..(y.abs() as i32) { r = self.bin(FOp::Mul, r, args[0]); }
                        if y < 0.0 { let one = self.c(1.0); r = self.bin(FOp::Div, one, r); }
                        return r;
                    }
                }
            }
        }
        self.mk(T::Fun(n.to_string(), args))
    }
    pub fn mkb(&mut self, b: B) -> Bo {
        if let Some(&i) = self.bix.get(&b) { return i; }
        let i = self.b.len() as Bo;
        self.b.push(b.clone());
        self.bix.insert(b, i);
        i
    }
    pub fn bk(&mut self, k: bool) -> Bo { self.mkb(B::K(k)) }
    pub fn as_bk(&self, b: Bo) -> Option<bool> { if let B::K(k) = self.b[b as usize] { Some(k) } else { None } }
    pub fn cmp(&mut self, p: FPred, a: Tm, b: Tm) -> Bo {
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) { let r = fcmp(p, x, y); return self.bk(r); }
        if self.real {
            match p {
                FPred::Ord => return self.bk(true),
                FPred::Uno => return self.bk(false),
                FPred::True => return self.bk(true),
                FPred::False => return self.bk(false),
                _ => {}
            }
            let p2 = match p { FPred::Ueq => FPred::Oeq, FPred::Ugt => FPred::Ogt, FPred::Uge => FPred::Oge, FPred::Ult => FPred::Olt, FPred::Ule => FPred::Ole, FPred::Une => FPred::One, x => x };
            // infinities on one side
            for (k, other_first) in [(self.as_c(b), true), (self.as_c(a), false)] {
                if let Some(k) = k { if k.is_nan() { let un = matches!(p, FPred::Ueq | FPred::Ugt | FPred::Uge | FPred::Ult | FPred::Ule | FPred::Une); return self.bk(un); } if k.is_infinite() {
                    let (x, y) = if other_first { (0.0, k) } else { (k, 0.0) };
                    let r = fcmp(p2, x, y); return self.bk(r);
                } }
            }
            if a == b { return self.bk(matches!(p2, FPred::Oeq | FPred::Oge | FPred::Ole)); }
            // normal form: Olt, Ole, Oeq only
            let (p3, x, y, n) = match p2 {
                FPred::Olt => (FPred::Olt, a, b, false),
                FPred::Ole => (FPred::Olt, b, a, true),
                FPred::Ogt => (FPred::Olt, b, a, false),
                FPred::Oge => (FPred::Olt, a, b, true),
                FPred::Oeq => (FPred::Oeq, a.min(b), a.max(b), false),
                FPred::One => (FPred::Oeq, a.min(b), a.max(b), true),
                _ => unreachable!(),
            };
            let r = self.mkb(B::Cmp(p3, x, y));
            return if n { self.not(r) } else { r };
        }
        self.mkb(B::Cmp(p, a, b))
    }
    pub fn not(&mut self, a: Bo) -> Bo {
        match self.b[a as usize] { B::K(k) => self.bk(!k), B::Not(x) => x, _ => self.mkb(B::Not(a)) }
    }
    pub fn and(&mut self, a: Bo, b: Bo) -> Bo {
        match (self.as_bk(a), self.as_bk(b)) { (Some(false), _) | (_, Some(false)) => return self.bk(false), (Some(true), _) => return b, (_, Some(true)) => return a, _ => {} }
        if a == b { return a; }
        self.mkb(B::And(a.min(b), a.max(b)))
    }
    pub fn or(&mut self, a: Bo, b: Bo) -> Bo {
        match (self.as_bk(a), self.as_bk(b)) { (Some(true), _) | (_, Some(true)) => return self.bk(true), (Some(false), _) => return b, (_, Some(false)) => return a, _ => {} }
        if a == b { return a; }
        self.mkb(B::Or(a.min(b), a.max(b)))
    }
    pub fn xor(&mut self, a: Bo, b: Bo) -> Bo {
        match (self.as_bk(a), self.as_bk(b)) { (Some(x), Some(y)) => return self.bk(x ^ y), (Some(false), _) => return b, (_, Some(false)) => return a, (Some(true), _) => return self.not(b), (_, Some(true)) => return self.not(a), _ => {} }
        if a == b { return self.bk(false); }
        self.mkb(B::Xor(a.min(b), a.max(b)))
    }
}

/// x + s y; what is left of a coefficient after cancellation below the rounding of its parts is nothing
fn comb(x: &(f64, Vec<(u32, f64)>), s: f64, y: &(f64, Vec<(u32, f64)>)) -> (f64, Vec<(u32, f64)>) {
    let mut ks: Vec<(u32, f64)> = vec![];
    let (mut i, mut j) = (0, 0);
    while i < x.1.len() || j < y.1.len() {
        if j == y.1.len() || i < x.1.len() && x.1[i].0 < y.1[j].0 { ks.push(x.1[i]); i += 1; }
        else if i == x.1.len() || y.1[j].0 < x.1[i].0 { ks.push((y.1[j].0, s * y.1[j].1)); j += 1; }
        else { let (a, b) = (x.1[i].1, s * y.1[j].1); let k = a + b; if k.abs() > 1e-13 * a.abs().max(b.abs()) { ks.push((x.1[i].0, k)); } i += 1; j += 1; }
    }
    (x.0 + s * y.0, ks)
}
pub fn fcmp(p: FPred, x: f64, y: f64) -> bool {
    let un = x.is_nan() || y.is_nan();
    match p {
        FPred::False => false,
        FPred::True => true,
        FPred::Ord => !un,
        FPred::Uno => un,
        FPred::Oeq => x == y,
        FPred::Ogt => x > y,
        FPred::Oge => x >= y,
        FPred::Olt => x < y,
        FPred::Ole => x <= y,
        FPred::One => !un && x != y,
        FPred::Ueq => un || x == y,
        FPred::Ugt => !(x <= y),
        FPred::Uge => !(x < y),
        FPred::Ult => !(x >= y),
        FPred::Ule => !(x > y),
        FPred::Une => x != y,
    }
}

/// Numeric evaluation of the DAG at a point.
pub struct Eval<'a> { pub ts: &'a Terms, pub pt: &'a [f64], pub cache: HashMap<Tm, f64>, pub bcache: HashMap<Bo, bool> }
impl<'a> Eval<'a> {
    pub fn new(ts: &'a Terms, pt: &'a [f64]) -> Self { Eval { ts, pt, cache: HashMap::new(), bcache: HashMap::new() } }
    pub fn t(&mut self, t: Tm) -> f64 {
        if let Some(x) = self.cache.get(&t) { return *x; }
        // iterative to survive deep DAGs
        let mut st = vec![t];
        while let Some(&k) = st.last() {
            if self.cache.contains_key(&k) { st.pop(); continue; }
            let kids: Vec<Tm> = match &self.ts.t[k as usize] { T::C(_) | T::Var(_) => vec![], T::Bin(_, a, b) => vec![*a, *b], T::Neg(a) | T::Sqrt(a) => vec![*a], T::Fun(_, v) => v.clone() };
            let pend: Vec<Tm> = kids.iter().copied().filter(|x| !self.cache.contains_key(x)).collect();
            if !pend.is_empty() { st.extend(pend); continue; }
            let g = |x: Tm| self.cache[&x];
            let v = match &self.ts.t[k as usize] {
                T::C(b) => f64::from_bits(*b),
                T::Var(v) => self.pt.get(*v as usize).copied().unwrap_or(f64::NAN),
                T::Bin(op, a, b) => { let (x, y) = (g(*a), g(*b)); match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y } }
                T::Neg(a) => -g(*a),
                T::Sqrt(a) => g(*a).sqrt(),
                T::Fun(n, v) => { let a: Vec<f64> = v.iter().map(|x| g(*x)).collect(); libm(n, &a).unwrap_or(f64::NAN) }
            };
            self.cache.insert(k, v);
            st.pop();
        }
        self.cache[&t]
    }
    pub fn b(&mut self, b: Bo) -> bool {
        if let Some(x) = self.bcache.get(&b) { return *x; }
        let v = match self.ts.b[b as usize].clone() {
            B::K(k) => k,
            B::Cmp(p, x, y) => { let (x, y) = (self.t(x), self.t(y)); fcmp(p, x, y) }
            B::Not(a) => !self.b(a),
            B::And(x, y) => self.b(x) && self.b(y),
            B::Or(x, y) => self.b(x) || self.b(y),
            B::Xor(x, y) => self.b(x) ^ self.b(y),
        };
        self.bcache.insert(b, v);
        v
    }
}
