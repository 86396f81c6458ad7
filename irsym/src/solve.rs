//! SMT encodings of path conditions and obligations, and the solver processes.
use crate::exec::{default_val, round_nice};
use crate::ir::{FOp, FPred};
use crate::poly::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Sat { Sat(Vec<f64>), Unsat, Unknown }

pub struct Solver {
    pub enc: Enc,
    pub real: bool,
    pub feas_ms: u64,
    pub eq_ms: u64,
    pub last: String,
    pub queries: BTreeMap<String, (usize, usize, usize, usize)>, // kind -> (unsat, sat, unknown, sampled)
    pub time: f64,
    pub biggest: usize,
    pub poscache: HashMap<Poly, bool>,
    rng: u64,
    pub dump: Option<String>,
    pub ndump: usize,
    pub solvers: Vec<String>,
    varcache: HashMap<Bo, Vec<u32>>,
    pub tol_used: usize,
    pub tol: f64,
    pub errors: Vec<String>,
    cenc: Enc,
    cpos: HashMap<Poly, bool>,
    sig: HashMap<i64, Vec<Tm>>,
    swept: HashMap<Tm, Vec<f64>>,
    cong: HashMap<T, Tm>,
    pub merges: usize,
    pub sweep_s: f64,
    pub big: usize,
    retry: bool,
    tried: HashSet<(Tm, Tm)>,
    lastq: String,
    pub verbose: bool,
}

impl Solver {
    pub fn new(real: bool, cap: usize, feas_ms: u64, eq_ms: u64) -> Solver {
        Solver { enc: Enc::new(cap), real, feas_ms, eq_ms, last: String::new(), queries: BTreeMap::new(), time: 0.0, biggest: 0, poscache: HashMap::new(), rng: 0x1234567, dump: None, ndump: 0, solvers: vec!["z3-new".into(), "z3".into()], varcache: HashMap::new(), tol_used: 0, tol: 1e-11, errors: vec![], cenc: Enc::new(1500), cpos: HashMap::new(), sig: HashMap::new(), swept: HashMap::new(), cong: HashMap::new(), merges: 0, sweep_s: 0.0, big: 150, retry: true, tried: HashSet::new(), lastq: String::new(), verbose: std::env::var("IRSYM_V").is_ok() }
    }
    fn rnd(&mut self) -> f64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; (self.rng >> 11) as f64 / (1u64 << 53) as f64 }
    fn count(&mut self, kind: &str, which: usize) {
        let e = self.queries.entry(kind.to_string()).or_insert((0, 0, 0, 0));
        match which { 0 => e.0 += 1, 1 => e.1 += 1, 2 => e.2 += 1, _ => e.3 += 1 }
    }

    /// run one query; returns (answer, model text)
    fn run(&mut self, text: &str, ms: u64, which: usize) -> (Option<bool>, String) {
        if crate::poly::late() { return (None, String::new()); }
        let t0 = Instant::now();
        self.biggest = self.biggest.max(text.len());
        let solver = self.solvers[which.min(self.solvers.len() - 1)].clone();
        if let Some(d) = &self.dump { let _ = std::fs::write(format!("{}/q{:05}.smt2", d, self.ndump), text); self.ndump += 1; }
        if self.verbose { self.lastq = text.chars().take(3000).collect(); }
        let secs = (ms + 999) / 1000;
        let mut cmd = Command::new(&solver);
        if solver.contains("cvc5") { cmd.args(["--lang=smt2", &format!("--tlimit={}", ms), "--produce-models", "-"]); }
        else { cmd.args(["-in", "-smt2", &format!("-T:{}", secs.max(1)), "-memory:6000"]); }
        let child = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
        let mut child = match child { Ok(c) => c, Err(e) => { self.errors.push(format!("{}: {}", solver, e)); return (None, String::new()); } };
        let mut si = child.stdin.take().unwrap();
        let txt = text.to_string();
        let wr = std::thread::spawn(move || { let _ = si.write_all(txt.as_bytes()); });
        let mut so = child.stdout.take().unwrap();
        let rd = std::thread::spawn(move || { let mut s = String::new(); let _ = so.read_to_string(&mut s); s });
        let deadline = Instant::now() + Duration::from_millis(ms + 3000);
        loop {
            match child.try_wait() { Ok(Some(_)) => break, Ok(None) => { if Instant::now() > deadline { let _ = child.kill(); let _ = child.wait(); break; } std::thread::sleep(Duration::from_micros(if t0.elapsed().as_millis() < 50 { 300 } else { 5000 })); } Err(_) => break }
        }
        let _ = wr.join();
        let out = rd.join().unwrap_or_default();
        self.time += t0.elapsed().as_secs_f64();
        let first = out.lines().next().unwrap_or("").trim().to_string();
        let ans = match first.as_str() { "sat" => Some(true), "unsat" => Some(false), _ => None };
        if out.contains("(error") && ans != Some(false) && ans != Some(true) { self.errors.push(out.lines().take(2).collect::<Vec<_>>().join(" ")); return (None, out); }
        if ans == Some(false) && out.lines().next().unwrap_or("").contains("error") { return (None, out); }
        (ans, out)
    }

    fn vars_of_term(ts: &Terms, t: Tm, out: &mut BTreeSet<u32>, seen: &mut HashSet<Tm>) {
        let mut st = vec![t];
        while let Some(k) = st.pop() {
            if !seen.insert(k) { continue; }
            match &ts.t[k as usize] { T::C(_) => {} T::Var(v) => { out.insert(*v); } T::Bin(_, a, b) => { st.push(*a); st.push(*b); } T::Neg(a) | T::Sqrt(a) => st.push(*a), T::Fun(_, v) => st.extend(v) }
        }
    }
    fn vars_of_bool(&mut self, ts: &Terms, b: Bo) -> Vec<u32> {
        if let Some(v) = self.varcache.get(&b) { return v.clone(); }
        let mut out = BTreeSet::new(); let mut seen = HashSet::new();
        let mut st = vec![b];
        while let Some(k) = st.pop() { match &ts.b[k as usize] { B::K(_) => {} B::Cmp(_, x, y) => { Self::vars_of_term(ts, *x, &mut out, &mut seen); Self::vars_of_term(ts, *y, &mut out, &mut seen); } B::Not(a) => st.push(*a), B::And(x, y) | B::Or(x, y) | B::Xor(x, y) => { st.push(*x); st.push(*y); } } }
        let v: Vec<u32> = out.into_iter().collect();
        self.varcache.insert(b, v.clone());
        v
    }
    /// constraints of the path condition connected to the literal through shared variables
    fn slice(&mut self, ts: &Terms, pc: &[Bo], seed: Vec<u32>) -> Vec<Bo> {
        let mut vars: BTreeSet<u32> = seed.into_iter().collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut any = false;
            for i in 0..pc.len() {
                if used[i] { continue; }
                let v = self.vars_of_bool(ts, pc[i]);
                if v.iter().any(|x| vars.contains(x)) { used[i] = true; any = true; vars.extend(v); }
            }
            if !any { break; }
        }
        pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, b)| *b).collect()
    }

    pub fn samples(&mut self, ts: &Terms, pc: &[Bo], lit: Option<Bo>, want: usize, hint: Option<&[f64]>) -> Vec<Vec<f64>> {
        let n = ts.vars.len();
        let mut out = vec![];
        let base: Vec<f64> = (0..n).map(|i| hint.and_then(|h| h.get(i).copied()).filter(|x| !x.is_nan()).unwrap_or_else(|| default_val(i, &ts.vars[i]))).collect();
        let tries = if ts.t.len() > 200_000 { 20 } else if ts.t.len() > 20_000 { 80 } else { 250 };
        let order: Vec<Bo> = lit.into_iter().chain(pc.iter().rev().copied()).collect();
        for k in 0..tries {
            let mut p = base.clone();
            let frac = match k % 4 { 0 => 1.0, 1 => 0.5, 2 => 0.2, _ => 1.5 / (n.max(1) as f64) };
            if k > 0 { for i in 0..n { if self.rnd() < frac { let u = self.rnd(); let vi = &ts.vars[i]; let u = match k % 3 { 0 => u, 1 => u * u * u, _ => 1.0 - u * u * u }; p[i] = round_nice(vi.lo + (vi.hi - vi.lo) * u).clamp(vi.lo, vi.hi); } } }
            let mut ev = Eval::new(ts, &p);
            if order.iter().all(|b| ev.b(*b)) { out.push(p); if out.len() >= want { break; } }
        }
        out
    }

    pub fn feasible(&mut self, ts: &mut Terms, pc: &[Bo], lit: Option<Bo>) -> Sat { self.feasible_hint(ts, pc, lit, None) }

    pub fn feasible_hint(&mut self, ts: &mut Terms, pc: &[Bo], lit: Option<Bo>, hint: Option<&[f64]>) -> Sat {
        if let Some(l) = lit { if ts.as_bk(l) == Some(false) { return Sat::Unsat; } }
        if lit.is_none() && pc.is_empty() { return Sat::Sat((0..ts.vars.len()).map(|i| default_val(i, &ts.vars[i])).collect()); }
        let s = self.samples(ts, pc, lit, 1, hint);
        if let Some(p) = s.into_iter().next() { self.count("feasibility", 3); self.last = "witness".into(); return Sat::Sat(p); }
        let seed = match lit { Some(l) => self.vars_of_bool(ts, l), None => (0..ts.vars.len() as u32).collect() };
        let mut cs = self.slice(ts, pc, seed);
        if let Some(l) = lit { cs.push(l); }
        let r = self.query(ts, &cs, self.feas_ms, "feasibility", hint);
        r
    }

    pub fn query(&mut self, ts: &mut Terms, cs: &[Bo], ms: u64, kind: &str, hint: Option<&[f64]>) -> Sat {
        let text = if self.real { match self.real_text(ts, cs) { Ok(t) => t, Err(_) => { self.count(kind, 2); self.last = "encoding too large".into(); return Sat::Unknown; } } } else { self.fp_text(ts, cs) };
        let n = if self.real { self.solvers.len() } else { 1 };
        for w in 0..n {
            let (ans, out) = self.run(&text, ms, w);
            match ans {
                Some(false) => { self.count(kind, 0); self.last = format!("{} unsat", self.solvers[w]); return Sat::Unsat; }
                Some(true) => { self.count(kind, 1); self.last = format!("{} sat", self.solvers[w]); let m = self.model(ts, &out, hint); return Sat::Sat(m); }
                None => {}
            }
        }
        self.count(kind, 2);
        self.last = "unknown".into();
        Sat::Unknown
    }

    // ------------------------------------------------------------ real arithmetic
    fn real_text(&mut self, ts: &Terms, cs: &[Bo]) -> R<String> {
        let mut atoms = vec![];
        let mut asserts = String::new();
        for c in cs { let s = self.rb(ts, *c, &mut atoms)?; asserts.push_str(&format!("(assert {})\n", s)); }
        let cl = self.enc.atom_closure(&atoms);
        let mut t = String::from("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n(set-logic QF_NRA)\n");
        t.push_str(&self.enc.decls(&cl, ts, true, true));
        t.push_str(&asserts);
        t.push_str("(check-sat)\n");
        t.push_str(&self.getvals(&cl));
        Ok(t)
    }
    fn getvals(&self, cl: &[u32]) -> String {
        let vs: Vec<String> = cl.iter().filter(|a| matches!(self.enc.atoms[**a as usize], Atom::Var(_))).map(|a| format!("a{}", a)).collect();
        if vs.is_empty() { String::new() } else { format!("(get-value ({}))\n", vs.join(" ")) }
    }
    fn rb(&mut self, ts: &Terms, b: Bo, atoms: &mut Vec<u32>) -> R<String> {
        Ok(match ts.b[b as usize].clone() {
            B::K(k) => if k { "true".into() } else { "false".into() },
            B::Not(a) => format!("(not {})", self.rb(ts, a, atoms)?),
            B::And(x, y) => format!("(and {} {})", self.rb(ts, x, atoms)?, self.rb(ts, y, atoms)?),
            B::Or(x, y) => format!("(or {} {})", self.rb(ts, x, atoms)?, self.rb(ts, y, atoms)?),
            B::Xor(x, y) => format!("(xor {} {})", self.rb(ts, x, atoms)?, self.rb(ts, y, atoms)?),
            B::Cmp(p, x, y) => {
                let a = self.enc.conv(x, ts)?; let mut bb = self.enc.conv(y, ts)?;
                bb.num = bb.num.neg();
                let d = self.enc.radd(&a, &bb)?;
                self.enc.atoms_of(&d.num, atoms);
                let num = self.enc.smt_poly(&d.num);
                if p == FPred::Oeq { return Ok(format!("(= {} 0.0)", num)); }
                // sign of num/den
                let mut fs = vec![num];
                if d.dc.neg { fs.push("(- 1.0)".into()); }
                for (f, e) in &d.den {
                    if e % 2 == 0 { continue; }
                    let fp = self.enc.factors[*f as usize].clone();
                    if self.enc.positive_poly(&fp, ts) { continue; }
                    self.enc.atoms_of(&fp, atoms);
                    fs.push(self.enc.smt_poly(&fp));
                }
                let e = if fs.len() == 1 { fs.pop().unwrap() } else { format!("(* {})", fs.join(" ")) };
                match p { FPred::Olt => format!("(< {} 0.0)", e), FPred::Ole => format!("(<= {} 0.0)", e), _ => format!("(< {} 0.0)", e) }
            }
        })
    }
    fn model(&mut self, ts: &Terms, out: &str, hint: Option<&[f64]>) -> Vec<f64> {
        let mut m: Vec<f64> = (0..ts.vars.len()).map(|i| hint.and_then(|h| h.get(i).copied()).filter(|x| !x.is_nan()).unwrap_or_else(|| default_val(i, &ts.vars[i]))).collect();
        let vals = parse_values(out);
        for (n, v) in vals {
            if let Some(k) = n.strip_prefix('a').and_then(|k| k.parse::<usize>().ok()) { if let Some(Atom::Var(x)) = self.enc.atoms.get(k) { m[*x as usize] = v; } }
            if let Some(k) = n.strip_prefix('x').and_then(|k| k.parse::<usize>().ok()) { if k < m.len() { m[k] = v; } }
        }
        m
    }

    pub fn equal(&mut self, ts: &mut Terms, x: Tm, y: Tm, sc: Tm, pc: &[Bo], wit: &[f64]) -> (Sat, String) {
        let _ = sc;
        if x == y { self.last = "identical terms".into(); self.count("equality", 0); return (Sat::Unsat, String::new()); }
        if let (Some(a), Some(b)) = (ts.as_c(x), ts.as_c(y)) {
            let s = ts.as_c(sc).unwrap_or(0.0).abs().max(a.abs()).max(b.abs());
            let ok = a == b || (self.real && (a - b).abs() <= 1e-9 * s) || (a.is_nan() && b.is_nan());
            self.last = "constants".into();
            if ok { return (Sat::Unsat, String::new()); }
            // false on this path: is the path feasible?
            return match self.feasible_hint(ts, pc, None, Some(wit)) { Sat::Unsat => (Sat::Unsat, String::new()), Sat::Sat(m) => (Sat::Sat(m), format!("{} vs {}", a, b)), Sat::Unknown => (Sat::Sat(wit.to_vec()), format!("{} vs {}", a, b)) };
        }
        if !self.real {
            // floating-point equality: same value or both NaN
            let text = self.fp_eq_text(ts, pc, x, y);
            for w in 0..1 {
                let (ans, out) = self.run(&text, self.eq_ms, w);
                match ans { Some(false) => { self.count("equality", 0); self.last = "fp unsat".into(); return (Sat::Unsat, String::new()); } Some(true) => { self.count("equality", 1); self.last = "fp sat".into(); let m = self.model(ts, &out, Some(wit)); return (Sat::Sat(m), "fp".into()); } None => {} }
            }
            self.count("equality", 2);
            return (Sat::Unknown, "fp unknown".into());
        }
        let mut why = String::new();
        if self.verbose { eprintln!("equal {} {} cone {}", x, y, cone(ts, &[x, y]).len()); }
        let big = cone(ts, &[x, y]).len() > self.big;
        if big {
            let mut ev = Eval::new(ts, wit); let (a, b) = (ev.t(x), ev.t(y));
            if !((a - b).abs() > 1e-8 * a.abs().max(b.abs()).max(ev.t(sc).abs())) && self.sweep_equal(ts, x, y) { return (Sat::Unsat, String::new()); }
        }
        match self.eq_real(ts, x, y, pc) {
            Ok(Some(true)) => { self.count("equality", 0); return (Sat::Unsat, String::new()); }
            Ok(Some(false)) => { why = "solver: sides differ".into(); }
            Ok(None) => { why = "solver: unknown".into(); }
            Err(PErr::TooBig) => { why = "polynomial too large".into(); }
            Err(PErr::NonFinite) => { why = "non-finite constant".into(); }
            Err(PErr::DivZero) => { why = "division by constant zero".into(); }
        }
        // concrete counterexample on this path
        let rel = |ts: &Terms, p: &[f64]| -> f64 { let mut ev = Eval::new(ts, p); let (a, b, s) = (ev.t(x), ev.t(y), ev.t(sc)); if a.is_nan() || b.is_nan() { return if a.is_nan() && b.is_nan() { 0.0 } else { f64::INFINITY }; } let m = a.abs().max(b.abs()).max(s.abs()); if m == 0.0 { 0.0 } else { (a - b).abs() / m } };
        let mut cands: Vec<Vec<f64>> = vec![];
        { let mut ev = Eval::new(ts, wit); if pc.iter().all(|b| ev.b(*b)) { cands.push(wit.to_vec()); } }
        cands.extend(self.samples(ts, pc, None, 30, Some(wit)));
        let mut best = (0.0, None);
        for c in cands { let r = rel(ts, &c); if r > best.0 { best = (r, Some(c)); } }
        if best.0 > 1e-7 {
            self.count("equality", 1);
            let b = best.1.unwrap();
            // the verdict is the solver's: the sides differ at this (rational) point of the path
            return (Sat::Sat(b), format!("{}; relative difference {:.3e}", why, best.0));
        }
        if !big && self.sweep_equal(ts, x, y) { return (Sat::Unsat, String::new()); }
        // equality decided under the path condition
        if self.real {
            if let Ok(t) = self.eq_under_pc(ts, x, y, pc, false) {
                for w in 0..self.solvers.len() {
                    let (ans, out) = self.run(&t, self.eq_ms, w);
                    match ans {
                        Some(false) => { self.count("equality", 0); self.last = "NRA with path condition unsat".into(); return (Sat::Unsat, String::new()); }
                        Some(true) => {
                            let m = self.model(ts, &out, Some(wit));
                            let r = rel(ts, &m);
                            self.count("equality", 1);
                            if r > 1e-7 || r.is_nan() { return (Sat::Sat(m), format!("{}; model relative difference {:.3e}", why, r)); }
                            if let Ok(t) = self.eq_under_pc(ts, x, y, pc, true) {
                                let (ans, out) = self.run(&t, self.eq_ms, w);
                                if ans == Some(false) { self.tol_used += 1; self.last = "NRA relaxed with path condition unsat".into(); return (Sat::Unsat, String::new()); }
                                if ans == Some(true) { let m = self.model(ts, &out, Some(wit)); let r = rel(ts, &m); if r > 1e-7 || r.is_nan() { return (Sat::Sat(m), format!("{}; model relative difference {:.3e}", why, r)); } }
                            }
                            return (Sat::Unknown, format!("{}; model differs by only {:.3e}", why, r));
                        }
                        None => {}
                    }
                }
            }
        }
        self.count("equality", 2);
        self.last = "unknown".into();
        (Sat::Unknown, format!("{} (best numeric difference {:.3e})", why, best.0))
    }

    fn positivity(&mut self, ts: &Terms, pc: &[Bo]) -> R<bool> {
        let ps = std::mem::take(&mut self.enc.posassume);
        let mut ok = true;
        let mut keep = vec![];
        for p in ps {
            if self.poscache.get(&p) == Some(&true) { continue; }
            let mut at = vec![]; self.enc.atoms_of(&p, &mut at);
            let mut asserts = String::new();
            let mut cl_at = at.clone();
            for c in pc { let s = self.rb(ts, *c, &mut cl_at)?; asserts.push_str(&format!("(assert {})\n", s)); }
            let mut proved = false;
            for with_pc in [false, true] {
                let cl = self.enc.atom_closure(if with_pc { &cl_at } else { &at });
                let mut t = String::from("(set-logic QF_NRA)\n");
                t.push_str(&self.enc.decls(&cl, ts, true, true));
                if with_pc { t.push_str(&asserts); }
                t.push_str(&format!("(assert (<= {} 0.0))\n(check-sat)\n", self.enc.smt_poly(&p)));
                let (a, _) = self.run(&t, self.feas_ms, 0);
                if a == Some(false) { proved = true; if !with_pc { self.poscache.insert(p.clone(), true); } self.count("positivity", 0); break; }
            }
            if !proved { ok = false; self.count("positivity", 2); }
            keep.push(p);
        }
        self.enc.posassume = keep.into_iter().filter(|p| self.poscache.get(p) != Some(&true)).collect();
        Ok(ok)
    }

    fn eq_real(&mut self, ts: &Terms, x: Tm, y: Tm, pc: &[Bo]) -> R<Option<bool>> {
        let a = self.enc.conv(x, ts)?; let b = self.enc.conv(y, ts)?;
        let (p1, p2, _dc, _den) = self.enc.common(&a, &b)?;
        let relax = RELAX.with(|x| x.replace(false));
        let r = self.eq_polys(ts, p1, p2, pc);
        RELAX.with(|x| x.set(relax));
        r
    }
    fn eq_polys(&mut self, ts: &Terms, p1: Poly, p2: Poly, pc: &[Bo]) -> R<Option<bool>> {
        if !self.enc.posassume.is_empty() { if !self.positivity(ts, pc)? { return Ok(None); } }
        let mut at = vec![]; self.enc.atoms_of(&p1, &mut at); self.enc.atoms_of(&p2, &mut at);
        at.sort(); at.dedup();
        let mut t = String::from("(set-logic QF_NRA)\n");
        for a in &at { t.push_str(&format!("(declare-const a{} Real)\n", a)); }
        t.push_str(&format!("(assert (not (= {} {})))\n(check-sat)\n", self.enc.smt_poly(&p1), self.enc.smt_poly(&p2)));
        // monomials that z3 has to cancel exactly
        let d = p1.add(&p2.neg());
        if d.is_zero() || t.len() < 200_000 {
            let ms = self.eq_ms;
            let (ans, _) = if d.is_zero() { self.run(&t, ms, 0) } else { (Some(true), String::new()) };
            if ans == Some(false) { self.last = "NRA identity unsat".into(); return Ok(Some(true)); }
            if d.is_zero() { // solver could not confirm a polynomial identity in time
                let (ans, _) = self.run(&t, ms, 1);
                if ans == Some(false) { self.last = "NRA identity unsat".into(); return Ok(Some(true)); }
                return Ok(None);
            }
        }
        // rounding of literal constants: |sum d_k m_k| <= tol * sum |c_k| |m_k| for arbitrary monomial values m_k; since the
        // m_k range independently this is exactly |d_k| <= tol * |c_k| for every k (ground linear arithmetic)
        let mut s = String::from("(set-logic QF_LRA)\n");
        let mut ds = vec![];
        let keys: BTreeSet<&Mono> = p1.0.keys().chain(p2.0.keys()).collect();
        let z = Dy::zero();
        for m in keys {
            let c1 = p1.0.get(m).unwrap_or(&z); let c2 = p2.0.get(m).unwrap_or(&z);
            let mut l = if c1.log2() >= c2.log2() { c1.clone() } else { c2.clone() };
            l.neg = false;
            let mut dd = c1.add(&c2.neg());
            if dd.is_zero() { continue; }
            dd.neg = false;
            ds.push(format!("(> {} (* {} {}))", dd.smt(), f64_smt(self.tol), l.smt()));
        }
        s.push_str(&format!("(assert {})\n(check-sat)\n", if ds.len() == 1 { ds[0].clone() } else { format!("(or {})", ds.join("\n ")) }));
        let (ans, _) = self.run(&s, self.eq_ms, 0);
        match ans {
            Some(false) => { self.tol_used += 1; self.last = "LRA relaxed identity unsat".into(); Ok(Some(true)) }
            Some(true) => Ok(Some(false)),
            None => Ok(None),
        }
    }
    /// equality by sweeping: subterms that agree numerically at a few points are proved equal bottom-up (each by
    /// congruence or by its own query, with the already merged subterms as atoms) until the roots meet
    fn sweep_equal(&mut self, ts: &mut Terms, x: Tm, y: Tm) -> bool {
        let t0 = Instant::now();
        let nodes = cone(ts, &[x, y]);
        let npts = 4;
        let mut vals: Vec<Vec<f64>> = vec![];
        {
            let fresh: Vec<Tm> = nodes.iter().copied().filter(|k| !self.swept.contains_key(k)).collect();
            for j in 0..npts {
                let p: Vec<f64> = (0..ts.vars.len()).map(|i| { let u = (((i * 7 + j * 131 + 3) as f64) * 0.618033988749895).fract() * 0.9 + 0.05; let v = &ts.vars[i]; v.lo + (v.hi - v.lo) * u }).collect();
                let mut ev = Eval::new(ts, &p);
                vals.push(fresh.iter().map(|k| ev.t(*k)).collect());
            }
            std::mem::swap(&mut self.enc, &mut self.cenc); std::mem::swap(&mut self.poscache, &mut self.cpos);
            let save = (self.eq_ms, self.feas_ms, std::mem::take(&mut self.dump));
            self.feas_ms = 1000;
            RELAX.with(|x| x.set(true));
            for (n, k) in fresh.iter().enumerate() {
                let v: Vec<f64> = (0..npts).map(|j| vals[j][n]).collect();
                self.eq_ms = 3000;
                let root = *k == x || *k == y;
                let t1 = Instant::now();
                self.sweep_node(ts, *k, v, root);
                if self.verbose && t1.elapsed().as_millis() > 300 { eprintln!("sweep node {} {:?} root={} rep={} {} ms", k, ts.t[*k as usize], root, self.find(*k), t1.elapsed().as_millis()); }
            }
            self.enc.clear_memo();
            let r = (self.find(x), self.find(y));
            let mut ok = r.0 == r.1;
            if !ok { self.eq_ms = save.0; ok = self.prove_cut(ts, x, y, 20000); }
            if !ok && self.retry {
                // second pass over the numerically equal pairs left open, with the large budget
                for k in nodes.iter().copied() {
                    if self.find(k) != k { continue; }
                    if matches!(ts.t[k as usize], T::C(_) | T::Var(_)) { continue; }
                    let v = match self.swept.get(&k) { Some(v) => v.clone(), None => continue };
                    if v.iter().any(|x| !x.is_finite() || *x == 0.0) { continue; }
                    let q = quant(v[0]);
                    let mut cand = vec![];
                    for d in [-1, 0, 1] { if let Some(l) = self.sig.get(&(q + d)) { for r in l { if *r < k && self.find(*r) != k { let w = &self.swept[r]; if (0..v.len()).all(|j| (v[j] - w[j]).abs() <= 1e-10 * v[j].abs().max(w[j].abs())) { cand.push(*r); } } } } }
                    for r in cand.into_iter().take(2) { if self.tried.insert((k, r)) && self.prove_cut(ts, k, r, 20000) { self.merge(k, r); if self.verbose { eprintln!("second pass merged {} {}", k, r); } break; } }
                }
                ok = self.find(x) == self.find(y) || self.prove_cut(ts, x, y, 20000);
            }
            if !ok { if let (Some(a), Some(b)) = (ts.as_c(r.0), ts.as_c(r.1)) { ok = a == b; } }
            RELAX.with(|x| x.set(false));
            self.eq_ms = save.0; self.feas_ms = save.1; self.dump = save.2;
            std::mem::swap(&mut self.enc, &mut self.cenc); std::mem::swap(&mut self.poscache, &mut self.cpos);
            self.sweep_s += t0.elapsed().as_secs_f64();
            if ok { self.count("equality", 0); self.last = "NRA sweep unsat".into(); }
            ok
        }
    }
    pub fn cone_size(&self, ts: &Terms, x: Tm, y: Tm) -> usize { cone(ts, &[x, y]).len() }
    pub fn same_terms(&mut self, ts: &mut Terms, x: Tm, y: Tm) -> bool {
        if x == y { return true; }
        for j in 0..3usize {
            let p: Vec<f64> = (0..ts.vars.len()).map(|i| { let u = (((i * 5 + j * 97 + 11) as f64) * 0.618033988749895).fract() * 0.9 + 0.05; let v = &ts.vars[i]; v.lo + (v.hi - v.lo) * u }).collect();
            let mut ev = Eval::new(ts, &p);
            let (a, b) = (ev.t(x), ev.t(y));
            if !((a - b).abs() <= 1e-9 * a.abs().max(b.abs())) { return false; }
        }
        self.sweep_equal(ts, x, y)
    }
    fn find(&self, t: Tm) -> Tm { self.enc.rep.get(&t).copied().unwrap_or(t) }
    fn merge(&mut self, k: Tm, r: Tm) { let r = self.find(r); self.enc.rep.insert(k, r); self.enc.cut.insert(r); self.merges += 1; self.enc.clear_memo(); }
    fn sweep_node(&mut self, ts: &mut Terms, k: Tm, v: Vec<f64>, root: bool) {
        let node = ts.t[k as usize].clone();
        self.swept.insert(k, v.clone());
        if matches!(node, T::C(_) | T::Var(_)) { self.put(k, &v); return; }
        // congruence
        let cn = match &node { T::Bin(op, a, b) => { let (a, b) = (self.find(*a), self.find(*b)); let (a, b) = if matches!(op, FOp::Add | FOp::Mul) && a > b { (b, a) } else { (a, b) }; T::Bin(*op, a, b) } T::Neg(a) => T::Neg(self.find(*a)), T::Sqrt(a) => T::Sqrt(self.find(*a)), T::Fun(n, w) => T::Fun(n.clone(), w.iter().map(|a| self.find(*a)).collect()), o => o.clone() };
        if let Some(&r) = self.cong.get(&cn) { if r != k { self.merge(k, r); return; } } else { self.cong.insert(cn, k); }
        if v.iter().any(|x| !x.is_finite()) { return; }
        // numerically zero sums
        if let T::Bin(FOp::Add | FOp::Sub, a, b) = node {
            let z = (0..v.len()).all(|j| { let m = self.swept.get(&a).map_or(0.0, |w| w[j].abs()).max(self.swept.get(&b).map_or(0.0, |w| w[j].abs())); v[j].abs() <= 1e-11 * m });
            if z { let zero = ts.c(0.0); if self.prove_cut(ts, k, zero, if root { 20000 } else { 1500 }) { self.merge(k, zero); return; } }
        }
        let q = quant(v[0]);
        let mut cand = vec![];
        for d in [-1, 0, 1] { if let Some(l) = self.sig.get(&(q + d)) { for r in l { let w = &self.swept[r]; if (0..v.len()).all(|j| (v[j] - w[j]).abs() <= 1e-10 * v[j].abs().max(w[j].abs())) { cand.push(*r); } } } }
        for r in cand.into_iter().take(3) {
            if self.find(r) == self.find(k) { return; }
            if self.prove_cut(ts, k, r, if root { 20000 } else { 1500 }) { self.merge(k, r); return; }
        }
        self.put(k, &v);
    }
    fn put(&mut self, k: Tm, v: &Vec<f64>) { if v[0].is_finite() { self.sig.entry(quant(v[0])).or_default().push(k); } }
    fn prove_cut(&mut self, ts: &Terms, x: Tm, y: Tm, cap: usize) -> bool {
        self.enc.exempt = vec![x, y];
        self.enc.cap = cap;
        let full = self.enc.cut.clone();
        let mut ok = false;
        // large subterms that both sides share, as atoms
        {
            let rooted = |r: Tm| -> HashSet<Tm> { let mut seen = HashSet::new(); let mut st = vec![r]; while let Some(k) = st.pop() { if !seen.insert(k) { continue; } let mut push = |a: Tm| st.push(self.enc.rep.get(&a).copied().unwrap_or(a)); match &ts.t[k as usize] { T::C(_) | T::Var(_) => {} T::Bin(_, a, b) => { push(*a); push(*b); } T::Neg(a) | T::Sqrt(a) => push(*a), T::Fun(_, v) => for a in v { push(*a) } } } seen };
            let (cx, cy) = (rooted(x), rooted(y));
            if cx.len() + cy.len() > 60 {
                let small = |t: Tm| -> bool { let mut seen = HashSet::new(); let mut st = vec![t]; while let Some(k) = st.pop() { if !seen.insert(k) { continue; } if seen.len() > 15 { return false; } match &ts.t[k as usize] { T::C(_) | T::Var(_) => {} T::Bin(_, a, b) => { st.push(*a); st.push(*b); } T::Neg(a) | T::Sqrt(a) => st.push(*a), T::Fun(_, v) => st.extend(v) } } true };
                let sel: HashSet<Tm> = cx.intersection(&cy).copied().filter(|t| *t != x && *t != y && !small(*t)).collect();
                if !sel.is_empty() {
                    self.enc.cut = sel;
                    self.enc.clear_memo();
                    self.enc.posassume.clear();
                    if let Ok(Some(true)) = self.eq_real(ts, x, y, &[]) { ok = true; }
                }
            }
        }
        for level in 0..3 {
            if ok { break; }
            let sel: HashSet<Tm> = full.iter().copied().filter(|t| match (&ts.t[*t as usize], level) { (_, 2) => false, (T::C(_) | T::Var(_), _) => false, (T::Bin(FOp::Mul, _, _) | T::Neg(_), _) => false, (T::Bin(FOp::Add | FOp::Sub, _, _), 1) => false, _ => true }).collect();
            let same = level > 0 && sel.len() == self.enc.cut.len();
            if same { continue; }
            self.enc.cut = sel;
            self.enc.clear_memo();
            self.enc.posassume.clear();
            let t1 = Instant::now();
            let r = self.eq_real(ts, x, y, &[]);
            if self.verbose && t1.elapsed().as_millis() > 200 { eprintln!("  cut level {} {:?} {} ms, last query {}", level, r, t1.elapsed().as_millis(), self.lastq); }
            if let Ok(Some(true)) = r { ok = true; break; }
        }
        self.enc.posassume.clear();
        self.enc.cut = full;
        self.enc.clear_memo();
        self.enc.exempt.clear();
        ok
    }
    fn eq_under_pc(&mut self, ts: &Terms, x: Tm, y: Tm, pc: &[Bo], relaxed: bool) -> R<String> {
        let a = self.enc.conv(x, ts)?; let b = self.enc.conv(y, ts)?;
        let (p1, p2, _dc, den) = self.enc.common(&a, &b)?;
        let mut at = vec![]; self.enc.atoms_of(&p1, &mut at); self.enc.atoms_of(&p2, &mut at);
        let mut asserts = String::new();
        for (f, _) in &den { let fp = self.enc.factors[*f as usize].clone(); self.enc.atoms_of(&fp, &mut at); asserts.push_str(&format!("(assert (not (= {} 0.0)))\n", self.enc.smt_poly(&fp))); }
        for c in pc { let s = self.rb(ts, *c, &mut at)?; asserts.push_str(&format!("(assert {})\n", s)); }
        let cl = self.enc.atom_closure(&at);
        let mut t = String::from("(set-option :pp.decimal true)\n(set-logic QF_NRA)\n");
        t.push_str(&self.enc.decls(&cl, ts, true, true));
        t.push_str(&asserts);
        if relaxed {
            // both sides over the same denominator: the relative difference is that of the numerators
            let (a, b) = (self.enc.smt_poly(&p1), self.enc.smt_poly(&p2));
            t.push_str(&format!("(define-fun p1 () Real {})\n(define-fun p2 () Real {})\n(define-fun m () Real (* 1e-9 (ite (>= p1 0.0) p1 (- p1))))\n(assert (or (> (- p1 p2) m) (> (- p2 p1) m)))\n(check-sat)\n", a, b).replace("1e-9", "(/ 1.0 1000000000.0)"));
        } else {
            t.push_str(&format!("(assert (not (= {} {})))\n(check-sat)\n", self.enc.smt_poly(&p1), self.enc.smt_poly(&p2)));
        }
        t.push_str(&self.getvals(&cl));
        Ok(t)
    }

    // ------------------------------------------------------------ floating point
    fn fp_head(&self, ts: &Terms, terms: &[Tm]) -> String {
        let mut s = String::from("(set-logic QF_FP)\n(define-sort D () (_ FloatingPoint 11 53))\n");
        // collect subterms in index order (children have smaller indexes)
        let mut seen = BTreeSet::new(); let mut st: Vec<Tm> = terms.to_vec();
        while let Some(k) = st.pop() { if !seen.insert(k) { continue; } match &ts.t[k as usize] { T::C(_) | T::Var(_) => {} T::Bin(_, a, b) => { st.push(*a); st.push(*b); } T::Neg(a) | T::Sqrt(a) => st.push(*a), T::Fun(_, v) => st.extend(v) } }
        for k in &seen { if let T::Var(v) = &ts.t[*k as usize] {
            let vi = &ts.vars[*v as usize];
            s.push_str(&format!("(declare-const x{} D)\n", v));
            if vi.lo > f64::MIN || vi.hi < f64::MAX || true { s.push_str(&format!("(assert (and (fp.leq {} x{v}) (fp.leq x{v} {})))\n", fpc(vi.lo), fpc(vi.hi), v = v)); }
        } }
        for k in &seen {
            let e = match &ts.t[*k as usize] {
                T::C(b) => fpc(f64::from_bits(*b)),
                T::Var(v) => format!("x{}", v),
                T::Bin(op, a, b) => match op { FOp::Add => format!("(fp.add RNE t{} t{})", a, b), FOp::Sub => format!("(fp.sub RNE t{} t{})", a, b), FOp::Mul => format!("(fp.mul RNE t{} t{})", a, b), FOp::Div => format!("(fp.div RNE t{} t{})", a, b), FOp::Rem => { s.push_str(&format!("(declare-const t{} D)\n", k)); continue; } },
                T::Neg(a) => format!("(fp.neg t{})", a),
                T::Sqrt(a) => format!("(fp.sqrt RNE t{})", a),
                T::Fun(n, v) => match n.as_str() {
                    "fabs" => format!("(fp.abs t{})", v[0]),
                    "floor" => format!("(fp.roundToIntegral RTN t{})", v[0]),
                    "ceil" => format!("(fp.roundToIntegral RTP t{})", v[0]),
                    "trunc" => format!("(fp.roundToIntegral RTZ t{})", v[0]),
                    _ => { s.push_str(&format!("(declare-const t{} D)\n", k)); continue; }
                },
            };
            s.push_str(&format!("(define-fun t{} () D {})\n", k, e));
        }
        s
    }
    fn fb(&self, ts: &Terms, b: Bo) -> String {
        match &ts.b[b as usize] {
            B::K(k) => if *k { "true".into() } else { "false".into() },
            B::Not(a) => format!("(not {})", self.fb(ts, *a)),
            B::And(x, y) => format!("(and {} {})", self.fb(ts, *x), self.fb(ts, *y)),
            B::Or(x, y) => format!("(or {} {})", self.fb(ts, *x), self.fb(ts, *y)),
            B::Xor(x, y) => format!("(xor {} {})", self.fb(ts, *x), self.fb(ts, *y)),
            B::Cmp(p, x, y) => {
                let (a, b) = (format!("t{}", x), format!("t{}", y));
                match p {
                    FPred::False => "false".into(), FPred::True => "true".into(),
                    FPred::Oeq => format!("(fp.eq {} {})", a, b), FPred::Olt => format!("(fp.lt {} {})", a, b), FPred::Ole => format!("(fp.leq {} {})", a, b), FPred::Ogt => format!("(fp.gt {} {})", a, b), FPred::Oge => format!("(fp.geq {} {})", a, b),
                    FPred::Une => format!("(not (fp.eq {} {}))", a, b), FPred::Ult => format!("(not (fp.geq {} {}))", a, b), FPred::Ule => format!("(not (fp.gt {} {}))", a, b), FPred::Ugt => format!("(not (fp.leq {} {}))", a, b), FPred::Uge => format!("(not (fp.lt {} {}))", a, b),
                    FPred::One => format!("(or (fp.lt {a} {b}) (fp.gt {a} {b}))", a = a, b = b), FPred::Ueq => format!("(not (or (fp.lt {a} {b}) (fp.gt {a} {b})))", a = a, b = b),
                    FPred::Ord => format!("(not (or (fp.isNaN {}) (fp.isNaN {})))", a, b), FPred::Uno => format!("(or (fp.isNaN {}) (fp.isNaN {}))", a, b),
                }
            }
        }
    }
    fn bool_terms(&self, ts: &Terms, b: Bo, out: &mut Vec<Tm>) { match &ts.b[b as usize] { B::K(_) => {} B::Cmp(_, x, y) => { out.push(*x); out.push(*y); } B::Not(a) => self.bool_terms(ts, *a, out), B::And(x, y) | B::Or(x, y) | B::Xor(x, y) => { self.bool_terms(ts, *x, out); self.bool_terms(ts, *y, out); } } }
    fn fp_text(&self, ts: &Terms, cs: &[Bo]) -> String {
        let mut terms = vec![]; for c in cs { self.bool_terms(ts, *c, &mut terms); }
        let mut s = self.fp_head(ts, &terms);
        for c in cs { s.push_str(&format!("(assert {})\n", self.fb(ts, *c))); }
        s.push_str("(check-sat)\n");
        s.push_str(&self.fp_vals(ts, &terms));
        s
    }
    fn fp_vals(&self, ts: &Terms, terms: &[Tm]) -> String {
        let mut v = BTreeSet::new(); let mut seen = HashSet::new();
        for t in terms { Self::vars_of_term(ts, *t, &mut v, &mut seen); }
        if v.is_empty() { return String::new(); }
        format!("(get-value ({}))\n", v.iter().map(|x| format!("x{}", x)).collect::<Vec<_>>().join(" "))
    }
    fn fp_eq_text(&self, ts: &Terms, pc: &[Bo], x: Tm, y: Tm) -> String {
        let mut terms = vec![x, y]; for c in pc { self.bool_terms(ts, *c, &mut terms); }
        let mut s = self.fp_head(ts, &terms);
        for c in pc { s.push_str(&format!("(assert {})\n", self.fb(ts, *c))); }
        s.push_str(&format!("(assert (not (= t{} t{})))\n(check-sat)\n", x, y));
        s.push_str(&self.fp_vals(ts, &terms));
        s
    }
}
fn quant(x: f64) -> i64 { if x == 0.0 { return i64::MIN / 2; } let b = x.to_bits(); ((b >> 22) as i64) }
fn cone(ts: &Terms, roots: &[Tm]) -> Vec<Tm> {
    let mut seen = HashSet::new(); let mut st = roots.to_vec();
    while let Some(k) = st.pop() { if !seen.insert(k) { continue; } match &ts.t[k as usize] { T::C(_) | T::Var(_) => {} T::Bin(_, a, b) => { st.push(*a); st.push(*b); } T::Neg(a) | T::Sqrt(a) => st.push(*a), T::Fun(_, v) => st.extend(v) } }
    let mut v: Vec<Tm> = seen.into_iter().collect();
    v.sort();
    v
}
fn fpc(x: f64) -> String {
    if x.is_nan() { return "(_ NaN 11 53)".into(); }
    let b = x.to_bits();
    format!("(fp #b{} #b{:011b} #b{:052b})", b >> 63, (b >> 52) & 0x7ff, b & ((1u64 << 52) - 1))
}

/// parse `((a0 1.5) (a1 (- 2.0)) ...)`
pub fn parse_values(out: &str) -> Vec<(String, f64)> {
    let mut res = vec![];
    let s = match out.find("((") { Some(k) => &out[k..], None => return res };
    let toks = tokens(s);
    let mut i = 1; // skip first (
    while i < toks.len() && toks[i] == "(" {
        let name = toks[i + 1].clone();
        let mut j = i + 2;
        let v = sexp_val(&toks, &mut j);
        if let Some(v) = v { res.push((name, v)); }
        // advance to closing
        while j < toks.len() && toks[j] != ")" { j += 1; }
        i = j + 1;
    }
    res
}
fn tokens(s: &str) -> Vec<String> {
    let mut v = vec![]; let mut cur = String::new();
    for c in s.chars() { match c { '(' | ')' => { if !cur.is_empty() { v.push(std::mem::take(&mut cur)); } v.push(c.to_string()); } c if c.is_whitespace() => { if !cur.is_empty() { v.push(std::mem::take(&mut cur)); } } c => cur.push(c) } }
    if !cur.is_empty() { v.push(cur); }
    v
}
fn num(t: &str) -> Option<f64> { t.trim_end_matches('?').parse().ok() }
fn bits(t: &str) -> (u64, u32) { if let Some(b) = t.strip_prefix("#b") { (u64::from_str_radix(b, 2).unwrap_or(0), b.len() as u32) } else if let Some(h) = t.strip_prefix("#x") { (u64::from_str_radix(h, 16).unwrap_or(0), 4 * h.len() as u32) } else { (0, 0) } }
fn sexp_val(t: &[String], j: &mut usize) -> Option<f64> {
    if *j >= t.len() { return None; }
    if t[*j] != "(" { let r = num(&t[*j]); *j += 1; return r; }
    *j += 1;
    let op = t[*j].clone(); *j += 1;
    let r = match op.as_str() {
        "-" => { let a = sexp_val(t, j)?; if *j < t.len() && t[*j] != ")" { let b = sexp_val(t, j)?; Some(a - b) } else { Some(-a) } }
        "/" => { let a = sexp_val(t, j)?; let b = sexp_val(t, j)?; Some(a / b) }
        "+" => { let a = sexp_val(t, j)?; let b = sexp_val(t, j)?; Some(a + b) }
        "*" => { let a = sexp_val(t, j)?; let b = sexp_val(t, j)?; Some(a * b) }
        "fp" => { let (s, _) = bits(&t[*j]); let (e, _) = bits(&t[*j + 1]); let (m, _) = bits(&t[*j + 2]); *j += 3; Some(f64::from_bits((s << 63) | (e << 52) | m)) }
        "_" => { let k = t[*j].clone(); while *j < t.len() && t[*j] != ")" { *j += 1; } match k.as_str() { "+zero" => Some(0.0), "-zero" => Some(-0.0), "+oo" => Some(f64::INFINITY), "-oo" => Some(f64::NEG_INFINITY), "NaN" => Some(f64::NAN), _ => None } }
        _ => None,
    };
    // skip to matching close
    let mut d = 1;
    while *j < t.len() { if t[*j] == "(" { d += 1; } else if t[*j] == ")" { d -= 1; if d == 0 { *j += 1; break; } } *j += 1; }
    r
}
