//! The symbolic interpreter: integers, pointers and memory are concrete, f64 values may be symbolic terms.
use crate::ir::*;
use crate::mem::*;
use crate::solve::{Sat, Solver};
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    F(f64),
    T(Tm),
    B(Bo),
    F32(f32),
    W(u128),
    Agg(Rc<Vec<V>>),
}
impl V {
    pub fn as_u(&self) -> u64 { match self { V::I(x) => *x, V::W(x) => *x as u64, V::F(f) => f.to_bits(), V::F32(f) => f.to_bits() as u64, v => panic!("as_u on {:?}", v) } }
}

pub struct Frame {
    f: Rc<Func>,
    regs: Vec<V>,
    bb: u32,
    ip: usize,
    ret_dst: Option<u32>,
    ret_ty: TyId,
    normal: Option<u32>,
    sp: u64,
    catch: bool,
}

#[derive(Clone, Debug)]
pub enum Stop {
    Done,
    Dead(String),          // path infeasible (assume failed)
    Unsupported(String),   // engine limitation
    Panic(String),
    Limit(String),
}
type X<T> = Result<T, Stop>;
fn un<T>(s: impl Into<String>) -> X<T> { Err(Stop::Unsupported(s.into())) }

#[derive(Clone, Debug)]
pub struct Obligation { pub id: String, pub kind: String, pub verdict: String, pub method: String, pub path: usize, pub point: Option<Vec<(String, f64)>>, pub extra: Vec<Vec<(String, f64)>>, pub detail: String }

#[derive(Clone, Default)]
struct INode { data: Vec<u8>, sh: BTreeMap<usize, Tm> }
#[derive(Clone)]
struct Fd { ino: usize, pos: usize, append: bool, dir: bool }

#[derive(Clone)]
pub struct Item { pub prefix: Vec<u64>, pub witness: Option<Vec<f64>> }

pub struct Stats { pub paths: usize, pub dead: usize, pub ins: u64, pub forks: usize, pub pruned: usize, pub unknown_feas: usize, pub skipped: usize, pub congruent: usize, pub max_depth: usize }

pub struct Exec {
    pub m: Module,
    pub mem: Mem,
    pub ts: Terms,
    pub sol: Solver,
    frames: Vec<Frame>,
    // path state
    prefix: Vec<u64>,
    trail: Vec<u64>,
    pub pc: Vec<Bo>,
    decided: HashMap<Bo, bool>,
    pub witness: Option<Vec<f64>>,
    pub work: Vec<Item>,
    pub obls: Vec<Obligation>,
    pub reached: BTreeMap<String, usize>,
    pub stats: Stats,
    pub choices: Vec<(String, u64)>,
    pub events: Vec<String>,
    // vfs
    inodes: Vec<INode>,
    names: BTreeMap<String, usize>,
    dirs: BTreeSet<String>,
    fds: HashMap<u64, Fd>,
    next_fd: u64,
    clock_step: u64,
    dirlists: HashMap<u64, Vec<String>>,
    crash_at: u64,
    pub slices: bool, // parts of a symbolic double read as integers are no valid tag, flag or length (see DESIGN.md)
    fs_ops: u64,
    clock: u64,
    errno_addr: u64,
    icept: HashMap<u32, u8>,
    pub hitdbg: HashSet<u32>,
    pub hitfn: HashSet<u32>,
    pub max_ins: u64,
    pub max_paths: usize,
    pub max_viol: usize,
    ins0: u64,
    pub trace: bool,
    pub env_args: Vec<String>,
    pub calls_uf: BTreeSet<String>,
    path_vars: BTreeSet<u32>,
    pub skip_unknown: bool,
    branchcache: HashMap<(Tm, Tm, Tm, Tm), bool>,
    pub witnesses: Vec<Vec<(String, f64)>>,
}

fn k_const(o: &Op) -> Option<&V> { if let Op::K(v) = o { Some(v) } else { None } }

impl Exec {
    pub fn new(m: Module, real: bool, sol: Solver) -> Exec {
        let mut mem = Mem::new();
        let gend = (m.gend + 4095) / 4096 * 4096;
        mem.heap = gend; mem.heap0 = gend;
        Exec { m, mem, ts: Terms::new(real), sol, frames: vec![], prefix: vec![], trail: vec![], pc: vec![], decided: HashMap::new(), witness: None, work: vec![], obls: vec![], reached: BTreeMap::new(), stats: Stats { paths: 0, dead: 0, ins: 0, forks: 0, pruned: 0, unknown_feas: 0, skipped: 0, congruent: 0, max_depth: 0 }, choices: vec![], events: vec![], inodes: vec![], names: BTreeMap::new(), dirs: BTreeSet::new(), fds: HashMap::new(), next_fd: 3, crash_at: u64::MAX, fs_ops: 0, clock: 0, errno_addr: 0, icept: HashMap::new(), hitdbg: HashSet::new(), hitfn: HashSet::new(), max_ins: 2_000_000_000, max_paths: 20000, max_viol: 12, ins0: 0, trace: false, env_args: vec![], calls_uf: BTreeSet::new(), path_vars: BTreeSet::new(), witnesses: vec![], dirlists: HashMap::new(), clock_step: 1000, skip_unknown: false, slices: false, branchcache: HashMap::new() }
    }

    fn init_globals(&mut self) {
        let g = std::mem::take(&mut self.m.ginit);
        // zero globals first
        let (a, b) = (G_BASE as usize, self.m.gend as usize);
        self.mem.b[a..b].fill(0);
        for (a, t, c) in &g { self.put_const(*a, *t, c); }
        self.m.ginit = g;
    }
    fn put_const(&mut self, a: u64, t: TyId, c: &C) {
        match c {
            C::I(x) => { let n = self.m.size_align(t).0 as usize; self.mem.wr(a, *x, n.min(8)); }
            C::W(x) => { let n = self.m.size_align(t).0 as usize; self.mem.b[a as usize..a as usize + n].copy_from_slice(&x.to_le_bytes()[..n]); }
            C::F(x) => self.mem.wr(a, x.to_bits(), 8),
            C::F32(x) => self.mem.wr(a, x.to_bits() as u64, 4),
            C::Undef | C::Zero => {}
            C::Str(s) => self.mem.b[a as usize..a as usize + s.len()].copy_from_slice(s),
            C::Agg(v) => { for (i, (et, c)) in v.iter().enumerate() { let (o, _) = self.m.field_off(t, i as u64); self.put_const(a + o, *et, c); } }
        }
    }

    pub fn explore(&mut self, harness: &str) -> Result<(), String> {
        let f = *self.m.fidx.get(harness).ok_or(format!("no harness {}", harness))?;
        self.work.push(Item { prefix: vec![], witness: None });
        while let Some(it) = self.work.pop() {
            if self.stats.paths >= self.max_paths { return Err(format!("path limit {} exceeded", self.max_paths)); }
            if crate::poly::late() { return Err(format!("time limit with {} branches waiting", self.work.len() + 1)); }
            if self.obls.iter().filter(|o| o.verdict == "violated").count() >= self.max_viol { return Ok(()); }
            self.start_path(it);
            let r = self.run_fn(f);
            self.stats.paths += 1;
            self.stats.max_depth = self.stats.max_depth.max(self.trail.len());
            match r {
                Ok(()) | Err(Stop::Done) => {
                    if self.witnesses.len() < 8 {
                        let w = self.wit();
                        let pc = self.pc.clone();
                        let mut ev = Eval::new(&self.ts, &w);
                        if pc.iter().all(|b| ev.b(*b)) { let p = self.point(&w); self.witnesses.push(p); }
                    }
                }
                Err(Stop::Dead(_)) => { self.stats.dead += 1; }
                Err(Stop::Panic(msg)) => {
                    // an uncaught panic on a feasible path is a violation of the implicit no-panic obligation
                    self.violation("no-panic", "panic", &msg);
                }
                Err(Stop::Unsupported(s)) => {
                    let st: Vec<String> = self.frames.iter().rev().take(6).map(|f| f.f.name.clone()).collect();
                    return Err(format!("unsupported: {} in {:?}", s, st));
                }
                Err(Stop::Limit(s)) => return Err(format!("limit: {}", s)),
            }
        }
        Ok(())
    }
    fn violation(&mut self, id: &str, kind: &str, detail: &str) {
        let mut pt = self.witness.clone();
        let mut verdict = "violated";
        match self.sol.feasible(&mut self.ts, &self.pc.clone(), None) {
            Sat::Sat(m) => pt = Some(m),
            Sat::Unsat => { self.stats.dead += 1; return; }
            Sat::Unknown => { if pt.is_none() { verdict = "inconclusive"; } }
        }
        let point = pt.map(|p| self.point(&p));
        let mut extra = vec![];
        if let Some(w) = &self.witness { extra.push(self.point(w)); }
        let path = self.stats.paths;
        let ch = format!("{} choices={:?}", detail, self.choices);
        self.obls.push(Obligation { id: id.into(), kind: kind.into(), verdict: verdict.into(), method: "path feasibility".into(), path, point, extra, detail: ch });
    }
    pub fn point(&self, p: &[f64]) -> Vec<(String, f64)> {
        let mut v: Vec<(String, f64)> = self.ts.vars.iter().enumerate().filter(|(i, _)| self.path_vars.contains(&(*i as u32))).map(|(i, vi)| (vi.name.clone(), p.get(i).copied().unwrap_or(default_val(i, vi)))).collect();
        for (n, k) in &self.choices { v.push((n.clone(), *k as f64)); }
        v
    }
    fn start_path(&mut self, it: Item) {
        self.mem.reset();
        self.init_globals();
        self.frames.clear();
        self.prefix = it.prefix;
        self.trail.clear();
        self.pc.clear();
        self.decided.clear();
        self.witness = it.witness;
        self.choices.clear();
        self.path_vars.clear();
        self.events.clear();
        self.inodes.clear();
        self.names.clear();
        self.dirs = [".".to_string(), "/".to_string(), "input".to_string()].into_iter().collect();
        self.fds.clear();
        self.next_fd = 10;
        self.crash_at = u64::MAX;
        self.fs_ops = 0;
        self.clock = 1_700_000_000_000_000_000;
        self.clock_step = 1000;
        self.dirlists.clear();
        self.inodes.push(INode::default());
        self.names.insert("input/empty.dat".into(), 0);
        self.errno_addr = self.mem.malloc(16, 16);
        self.ins0 = self.stats.ins;
    }

    // ---------------------------------------------------------------- decisions
    fn wit(&mut self) -> Vec<f64> {
        let n = self.ts.vars.len();
        let mut w = self.witness.take().unwrap_or_default();
        while w.len() < n { let i = w.len(); w.push(default_val(i, &self.ts.vars[i])); }
        for i in 0..n { if w[i].is_nan() { w[i] = default_val(i, &self.ts.vars[i]); } }
        self.witness = Some(w.clone());
        w
    }
    pub fn decide(&mut self, b: Bo) -> X<bool> {
        if let Some(k) = self.ts.as_bk(b) { return Ok(k); }
        let nb = self.ts.not(b);
        if let Some(v) = self.decided.get(&b) { return Ok(*v); }
        if let Some(v) = self.decided.get(&nb) { return Ok(!*v); }
        if let Some(v) = self.same_branch(b, nb) { self.decided.insert(b, v); self.stats.congruent += 1; return Ok(v); }
        let k = self.trail.len();
        let v;
        if k < self.prefix.len() { v = self.prefix[k] == 1; }
        else {
            self.stats.forks += 1;
            if self.trace { let f = self.frames.last().unwrap(); let st: Vec<String> = self.frames.iter().rev().take(3).map(|f| f.f.name.chars().take(110).collect()).collect(); let _ = f; eprintln!("[fork] {:?}", st); }
            let had = self.witness.is_some() || self.pc.is_empty();
            let w = self.wit();
            let mut side = Eval::new(&self.ts, &w).b(b);
            if !had { // no witness known to satisfy the path condition: probe
                match self.feas_with(if side { b } else { nb }) { Sat::Unsat => { side = !side; } Sat::Sat(m) => { self.witness = Some(m); } _ => {} }
            }
            let other = if side { nb } else { b };
            match self.feas_with(other) {
                Sat::Unsat => { self.stats.pruned += 1; }
                Sat::Sat(m) => { let mut p = self.trail.clone(); p.push(!side as u64); self.work.push(Item { prefix: p, witness: Some(m) }); }
                Sat::Unknown if self.skip_unknown => { self.stats.skipped += 1; }
                Sat::Unknown => { self.stats.unknown_feas += 1; let mut p = self.trail.clone(); p.push(!side as u64); self.work.push(Item { prefix: p, witness: None }); }
            }
            v = side;
        }
        self.trail.push(v as u64);
        self.decided.insert(b, v);
        let lit = if v { b } else { nb };
        self.pc.push(lit);
        Ok(v)
    }
    /// a comparison whose two sides are provably those of one already decided on this path has its outcome
    fn same_branch(&mut self, b: Bo, nb: Bo) -> Option<bool> {
        if !self.ts.real { return None; }
        let (cmp, flip) = match (&self.ts.b[b as usize], &self.ts.b[nb as usize]) { (B::Cmp(p, x, y), _) => ((*p, *x, *y), false), (_, B::Cmp(p, x, y)) => ((*p, *x, *y), true), _ => return None };
        let size = self.sol.cone_size(&self.ts, cmp.1, cmp.2);
        if size < 60 { return None; }
        let dl: Vec<Bo> = self.pc.clone();
        for lit in dl {
            let (c2, neg) = match &self.ts.b[lit as usize] { B::Cmp(p, x, y) => ((*p, *x, *y), false), B::Not(a) => match &self.ts.b[*a as usize] { B::Cmp(p, x, y) => ((*p, *x, *y), true), _ => continue }, _ => continue };
            if c2.0 != cmp.0 { continue; }
            let key = (cmp.1, cmp.2, c2.1, c2.2);
            let same = match self.branchcache.get(&key) { Some(v) => *v, None => { let v = self.sol.same_terms(&mut self.ts, cmp.1, c2.1) && self.sol.same_terms(&mut self.ts, cmp.2, c2.2); self.branchcache.insert(key, v); v } };
            if same { return Some(!neg ^ flip); }
        }
        None
    }
    fn feas_with(&mut self, lit: Bo) -> Sat {
        let pc = self.pc.clone();
        self.sol.feasible_hint(&mut self.ts, &pc, Some(lit), self.witness.as_deref())
    }
    fn choose(&mut self, name: &str, n: u64) -> X<u64> {
        let k = self.trail.len();
        let v;
        if k < self.prefix.len() { v = self.prefix[k]; }
        else {
            for alt in (1..n).rev() { let mut p = self.trail.clone(); p.push(alt); let w = self.witness.clone(); self.work.push(Item { prefix: p, witness: w }); }
            v = 0;
        }
        self.trail.push(v);
        if !name.is_empty() { self.choices.push((name.to_string(), v)); }
        Ok(v)
    }
    fn assume(&mut self, b: Bo) -> X<()> {
        if let Some(k) = self.ts.as_bk(b) { return if k { Ok(()) } else { Err(Stop::Dead("assume".into())) }; }
        if let Some(v) = self.decided.get(&b) { return if *v { Ok(()) } else { Err(Stop::Dead("assume".into())) }; }
        let replay = self.trail.len() < self.prefix.len();
        self.decided.insert(b, true);
        if replay { self.pc.push(b); return Ok(()); }
        let w = self.wit();
        if !Eval::new(&self.ts, &w).b(b) {
            match self.feas_with(b) {
                Sat::Unsat => return Err(Stop::Dead("assume unsat".into())),
                Sat::Sat(m) => self.witness = Some(m),
                Sat::Unknown => { self.witness = None; }
            }
        }
        self.pc.push(b);
        Ok(())
    }
    fn conc_bool(&mut self, v: &V) -> X<bool> {
        match v { V::I(x) => Ok(x & 1 == 1), V::B(b) => self.decide(*b), v => un(format!("bool {:?}", v)) }
    }
    /// concretise a value (forks on symbolic booleans)
    fn conc(&mut self, v: V) -> X<V> {
        match v {
            V::B(b) => Ok(V::I(self.decide(b)? as u64)),
            v => Ok(v),
        }
    }
    fn ci(&mut self, v: V) -> X<u64> {
        match v {
            V::I(x) => Ok(x),
            V::B(b) => Ok(self.decide(b)? as u64),
            V::F(f) => Ok(f.to_bits()),
            V::F32(f) => Ok(f.to_bits() as u64),
            V::W(x) => Ok(x as u64),
            V::T(t) => { if let Some(c) = self.ts.as_c(t) { Ok(c.to_bits()) } else { { if std::env::var("IRSYM_V").is_ok() { let f = self.frames.last().unwrap(); eprintln!("{:?}", f.f.blocks[f.bb as usize].ins.get(f.ip.saturating_sub(1))); eprintln!("{:?}", f.f.blocks[f.bb as usize].ins.get(f.ip)); } if self.slices { return Ok(0xd00d_feed_d00d_feed); } un("integer operation on a symbolic double") } } }
            V::Agg(_) => un("integer operation on aggregate"),
        }
    }
    fn tm(&mut self, v: &V) -> X<Tm> {
        match v { V::F(f) => Ok(self.ts.c(*f)), V::T(t) => self.resolve(*t), V::I(x) => Ok(self.ts.c(f64::from_bits(*x))), v => un(format!("term of {:?}", v)) }
    }
    /// an absolute value stays a term while it is only stored and compared; arithmetic on it splits on the sign
    fn abs_arg(&self, t: Tm) -> Option<Tm> { if !self.ts.real { return None; } if let T::Fun(n, v) = &self.ts.t[t as usize] { if n == "fabs" { return Some(v[0]); } } None }
    fn resolve(&mut self, t: Tm) -> X<Tm> {
        if let Some(x) = self.abs_arg(t) {
            let z = self.ts.c(0.0); let c = self.ts.cmp(FPred::Olt, x, z);
            return Ok(if self.decide(c)? { self.ts.neg(x) } else { x });
        }
        Ok(t)
    }
    fn from_tm(&self, t: Tm) -> V { if let Some(c) = self.ts.as_c(t) { V::F(c) } else { V::T(t) } }

    // ---------------------------------------------------------------- memory
    fn load(&mut self, a: u64, ty: TyId) -> X<V> {
        let t = self.m.tys[ty as usize].clone();
        match t {
            Ty::F64 => {
                self.mem.check(a, 8).map_err(Stop::Unsupported)?;
                if let Some(t) = self.mem.get_sh(a) { return Ok(V::T(t)); }
                if self.mem.has_sh(a, 8) { if self.slices { return Ok(V::F(f64::from_bits(0xd00d_feed_d00d_feed))); } return un("partial load of a symbolic double"); }
                Ok(V::F(f64::from_bits(self.mem.rd(a, 8))))
            }
            Ty::Int(n) => {
                let b = ((n + 7) / 8) as usize;
                self.mem.check(a, b as u64).map_err(Stop::Unsupported)?;
                if b == 8 { if let Some(t) = self.mem.get_sh(a) { return Ok(V::T(t)); } }
                if self.mem.has_sh(a, b as u64) { if self.slices { return Ok(V::I(mask(0xd00d_feed_d00d_feed, n.min(64)))); } return un(format!("partial load (i{}) of a symbolic double", n)); }
                if n <= 64 { Ok(V::I(mask(self.mem.rd(a, b), n))) }
                else { let mut v = [0u8; 16]; v[..b].copy_from_slice(&self.mem.b[a as usize..a as usize + b]); Ok(V::W(mask128(u128::from_le_bytes(v), n))) }
            }
            Ty::Ptr => { self.mem.check(a, 8).map_err(Stop::Unsupported)?; if let Some(t) = self.mem.get_sh(a) { return Ok(V::T(t)); } if self.mem.has_sh(a, 8) { return un("pointer load of a symbolic double"); } Ok(V::I(self.mem.rd(a, 8))) }
            Ty::F32 => { self.mem.check(a, 4).map_err(Stop::Unsupported)?; Ok(V::F32(f32::from_bits(self.mem.rd(a, 4) as u32))) }
            Ty::Arr(n, e) => { let s = self.m.size_align(e).0; let mut v = vec![]; for i in 0..n { v.push(self.load(a + i * s, e)?); } Ok(V::Agg(Rc::new(v))) }
            Ty::Vec(n, e) => {
                if let Ty::Int(1) = self.m.tys[e as usize] { return un("load of <n x i1>"); }
                let s = self.m.size_align(e).0; let mut v = vec![]; for i in 0..n as u64 { v.push(self.load(a + i * s, e)?); } Ok(V::Agg(Rc::new(v)))
            }
            Ty::Struct(fs, _) => { let mut v = vec![]; for (i, f) in fs.iter().enumerate() { let (o, _) = self.m.field_off(ty, i as u64); v.push(self.load(a + o, *f)?); } Ok(V::Agg(Rc::new(v))) }
            t => un(format!("load {:?}", t)),
        }
    }
    fn store(&mut self, a: u64, ty: TyId, v: V) -> X<()> {
        let t = self.m.tys[ty as usize].clone();
        match t {
            Ty::F64 | Ty::Ptr | Ty::Int(64) => {
                self.mem.check(a, 8).map_err(Stop::Unsupported)?;
                match v {
                    V::T(t) => { if let Some(c) = self.ts.as_c(t) { self.mem.clear_sh(a, 8); self.mem.wr(a, c.to_bits(), 8); } else { self.clear_checked(a, 8)?; self.mem.put_sh(a, t); } }
                    v => { let x = self.ci(v)?; self.clear_checked(a, 8)?; self.mem.wr(a, x, 8); }
                }
                Ok(())
            }
            Ty::F32 => { self.mem.check(a, 4).map_err(Stop::Unsupported)?; let x = self.ci(v)?; self.clear_checked(a, 4)?; self.mem.wr(a, x, 4); Ok(()) }
            Ty::Int(n) => {
                let b = ((n + 7) / 8) as usize;
                self.mem.check(a, b as u64).map_err(Stop::Unsupported)?;
                self.clear_checked(a, b as u64)?;
                if n <= 64 { let x = self.ci(v)?; self.mem.wr(a, x, b); }
                else { let x = match v { V::W(x) => x, V::I(x) => x as u128, _ => return un("store wide") }; self.mem.b[a as usize..a as usize + b].copy_from_slice(&x.to_le_bytes()[..b]); }
                Ok(())
            }
            Ty::Arr(_, e) => { let s = self.m.size_align(e).0; if let V::Agg(vs) = v { for (i, x) in vs.iter().enumerate() { self.store(a + i as u64 * s, e, x.clone())?; } Ok(()) } else { un("store arr") } }
            Ty::Vec(_, e) => { if let Ty::Int(1) = self.m.tys[e as usize] { return un("store <n x i1>"); } let s = self.m.size_align(e).0; if let V::Agg(vs) = v { for (i, x) in vs.iter().enumerate() { self.store(a + i as u64 * s, e, x.clone())?; } Ok(()) } else { un("store vec") } }
            Ty::Struct(fs, _) => { if let V::Agg(vs) = v { for (i, f) in fs.iter().enumerate() { let (o, _) = self.m.field_off(ty, i as u64); self.store(a + o, *f, vs[i].clone())?; } Ok(()) } else { un("store struct") } }
            t => un(format!("store {:?}", t)),
        }
    }
    fn clear_checked(&mut self, a: u64, n: u64) -> X<()> {
        if self.mem.has_sh(a, n) {
            for (x, _) in self.mem.shadows(a, n) { if x < a || x + 8 > a + n {
                // partially overwritten symbolic value: its remaining bytes become unknown. Stack slots get reused, so drop it;
                // a later read of the stale bytes would be a read of uninitialised memory, which safe code cannot do.
                self.mem.sh.remove(&x);
            } }
            self.mem.clear_sh(a, n);
        }
        Ok(())
    }

    // ---------------------------------------------------------------- running
    fn val(&self, fr: &Frame, o: &Op) -> V { match o { Op::Reg(r) => fr.regs[*r as usize].clone(), Op::K(v) => (**v).clone() } }
    fn v(&self, o: &Op) -> V { self.val(self.frames.last().unwrap(), o) }
    fn set(&mut self, r: u32, v: V) { self.frames.last_mut().unwrap().regs[r as usize] = v; }

    fn push_frame(&mut self, fi: u32, args: Vec<V>, ret_dst: Option<u32>, ret_ty: TyId, normal: Option<u32>, catch: bool) -> X<()> {
        if self.frames.len() > 4000 { return Err(Stop::Limit("call depth".into())); }
        let f = self.m.func(fi);
        self.hitfn.insert(fi);
        let mut regs = vec![V::I(0); f.nregs as usize];
        for ((r, _), a) in f.params.iter().zip(args.into_iter()) { regs[*r as usize] = a; }
        let sp = self.mem.sp;
        self.frames.push(Frame { f, regs, bb: 0, ip: 0, ret_dst, ret_ty, normal, sp, catch });
        Ok(())
    }
    fn run_fn(&mut self, fi: u32) -> X<()> {
        let void = self.m.ty(Ty::Void);
        self.push_frame(fi, vec![], None, void, None, false)?;
        loop {
            match self.step() {
                Ok(true) => {}
                Ok(false) => return Ok(()),
                Err(Stop::Panic(m)) => { let code = if m == "__crash__" { 2 } else if let Some(c) = m.strip_prefix("__exit__") { 16 + c.parse::<i32>().unwrap_or(255) as u8 as u64 } else { 1 }; if code != 1 { self.fds.clear(); self.crash_at = u64::MAX; } if !self.unwind_to_catch(code, &m) { return Err(Stop::Panic(m)); } }
                Err(e) => return Err(e),
            }
        }
    }
    fn unwind_to_catch(&mut self, code: u64, msg: &str) -> bool {
        while let Some(fr) = self.frames.pop() {
            self.mem.sp = fr.sp;
            if fr.catch {
                self.events.push(msg.to_string());
                if let Some(d) = fr.ret_dst { self.set(d, V::I(code)); }
                if let Some(nb) = fr.normal { let _ = self.jump(nb); }
                return true;
            }
        }
        false
    }
    fn jump(&mut self, to: u32) -> X<()> {
        let fr = self.frames.last_mut().unwrap();
        let from = fr.bb;
        let f = fr.f.clone();
        let blk = &f.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (d, inc) in &blk.phis {
                let o = match inc.iter().find(|(b, _)| *b == from) { Some((_, o)) => o, None => return un("phi edge") };
                vals.push((*d, match o { Op::Reg(r) => fr.regs[*r as usize].clone(), Op::K(v) => (**v).clone() }));
            }
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        fr.bb = to;
        fr.ip = 0;
        Ok(())
    }
    fn bits(&self, t: TyId) -> u32 { match &self.m.tys[t as usize] { Ty::Int(n) => *n, Ty::Ptr => 64, Ty::F64 => 64, Ty::F32 => 32, _ => 64 } }

    /// one basic block's worth of straight-line execution
    fn step(&mut self) -> X<bool> {
        let (f, bb, mut ip) = { let fr = self.frames.last().unwrap(); (fr.f.clone(), fr.bb, fr.ip) };
        let blk = &f.blocks[bb as usize];
        loop {
            self.stats.ins += 1;
            if self.stats.ins & 0xfffff == 0 && crate::poly::late() { return Err(Stop::Limit("time".into())); }
            if self.stats.ins - self.ins0 > self.max_ins { return Err(Stop::Limit("instruction budget of one path".into())); }
            let ins = &blk.ins[ip];
            let d = blk.dbg[ip];
            if d != 0 { self.hitdbg.insert(d); }
            ip += 1;
            match ins {
                Ins::Alloca { dst, size, align } => {
                    let al = (*align).max(16);
                    self.mem.sp = (self.mem.sp - size) / al * al;
                    if self.mem.sp < STACK_BOT { return Err(Stop::Limit("stack".into())); }
                    self.mem.sp_min = self.mem.sp_min.min(self.mem.sp);
                    let a = self.mem.sp;
                    self.mem.clear_sh(a, *size);
                    self.set(*dst, V::I(a));
                }
                Ins::Load { dst, ty, p } => { let pv = self.v(p); let a = self.ci(pv)?; let v = self.load(a, *ty)?; self.set(*dst, v); }
                Ins::Store { ty, v, p } => { let pv = self.v(p); let a = self.ci(pv)?; let x = self.v(v); self.store(a, *ty, x)?; }
                Ins::Gep { dst, base, off, dynm } => {
                    let bv = self.v(base);
                    let mut a = self.ci(bv)?.wrapping_add(*off as u64);
                    for (o, bits, sc) in dynm { let iv = self.v(o); let i = sext(self.ci(iv)?, *bits); a = a.wrapping_add((i.wrapping_mul(*sc)) as u64); }
                    self.set(*dst, V::I(a));
                }
                Ins::Bin { dst, op, ty, a, b } => { let (x, y) = (self.v(a), self.v(b)); let r = self.binop(*op, *ty, x, y)?; self.set(*dst, r); }
                Ins::FBin { dst, op, ty, a, b } => { let (x, y) = (self.v(a), self.v(b)); let r = self.fbin(*op, *ty, x, y)?; self.set(*dst, r); }
                Ins::FNeg { dst, ty: _, a } => { let x = self.v(a); let r = self.fneg(x)?; self.set(*dst, r); }
                Ins::ICmp { dst, p, ty, a, b } => { let (x, y) = (self.v(a), self.v(b)); let r = self.icmp(*p, *ty, x, y)?; self.set(*dst, r); }
                Ins::FCmp { dst, p, ty: _, a, b } => { let (x, y) = (self.v(a), self.v(b)); let r = self.fcmpv(*p, x, y)?; self.set(*dst, r); }
                Ins::Cast { dst, op, from, to, a } => { let x = self.v(a); let r = self.cast(*op, *from, *to, x)?; self.set(*dst, r); }
                Ins::Select { dst, cty: _, ty, c, a, b } => {
                    let cv = self.v(c);
                    let r = match cv {
                        V::Agg(cs) => {
                            let (x, y) = (self.v(a), self.v(b));
                            match (x, y) { (V::Agg(xs), V::Agg(ys)) => { let mut o = vec![]; for i in 0..cs.len() { o.push(if self.conc_bool(&cs[i])? { xs[i].clone() } else { ys[i].clone() }); } V::Agg(Rc::new(o)) } _ => return un("vector select") }
                        }
                        V::I(k) => if k & 1 == 1 { self.v(a) } else { self.v(b) },
                        V::B(cb) => {
                            let (x, y) = (self.v(a), self.v(b));
                            if let Ty::Int(1) = self.m.tys[*ty as usize] {
                                let xb = self.tob(&x)?; let yb = self.tob(&y)?;
                                let t1 = self.ts.and(cb, xb); let nc = self.ts.not(cb); let t2 = self.ts.and(nc, yb); let r = self.ts.or(t1, t2); self.fromb(r)
                            } else if self.decide(cb)? { x } else { y }
                        }
                        v => return un(format!("select cond {:?}", v)),
                    };
                    self.set(*dst, r);
                }
                Ins::Br { to } => { self.jump(*to)?; return Ok(true); }
                Ins::CondBr { c, t, f } => {
                    let cv = self.v(c);
                    let k = self.conc_bool(&cv)?;
                    self.jump(if k { *t } else { *f })?;
                    return Ok(true);
                }
                Ins::Switch { ty, v, def, cases } => {
                    let x = self.v(v);
                    let x = mask(self.ci(x)?, self.bits(*ty));
                    let to = cases.iter().find(|(k, _)| *k == x).map(|(_, b)| *b).unwrap_or(*def);
                    self.jump(to)?;
                    return Ok(true);
                }
                Ins::Ret { v } => {
                    let r = v.as_ref().map(|o| self.v(o));
                    let fr = self.frames.pop().unwrap();
                    self.mem.sp = fr.sp;
                    if self.frames.is_empty() { return Ok(false); }
                    if let Some(d) = fr.ret_dst {
                        let r = if fr.catch { V::I(0) } else { r.unwrap_or(V::I(0)) };
                        self.set(d, r);
                    }
                    if let Some(nb) = fr.normal { self.jump(nb)?; }
                    return Ok(true);
                }
                Ins::Unreachable => return Err(Stop::Panic("unreachable executed".into())),
                Ins::Call { dst, callee, name, args, ret, normal } => {
                    self.frames.last_mut().unwrap().ip = ip;
                    let fi = match name { Some(f) => *f, None => {
                        let cv = self.v(callee); let a = self.ci(cv)?;
                        if a < FN_BASE { return un(format!("call through {:#x}", a)); }
                        ((a - FN_BASE) / 16) as u32
                    } };
                    let av: Vec<V> = args.iter().map(|(_, o)| self.v(o)).collect();
                    let depth = self.frames.len();
                    let r = self.call(fi, av, args, *dst, *ret, *normal)?;
                    match r {
                        Some(v) => { if let Some(d) = dst { self.set(*d, v); } if let Some(nb) = normal { self.jump(*nb)?; return Ok(true); } }
                        None => { if self.frames.len() != depth { return Ok(true); } else if let Some(nb) = normal { self.jump(*nb)?; return Ok(true); } }
                    }
                }
                Ins::Extract { dst, a, ty: _, idx } => { let mut x = self.v(a); for i in idx { x = match x { V::Agg(v) => v[*i as usize].clone(), _ => return un("extractvalue") }; } self.set(*dst, x); }
                Ins::Insert { dst, a, ty: _, v, idx } => { let x = self.v(a); let y = self.v(v); let r = ins_val(x, &idx[..], y)?; self.set(*dst, r); }
                Ins::ExtractEl { dst, ty: _, a, i } => { let x = self.v(a); let iv = self.v(i); let k = self.ci(iv)?; if let V::Agg(v) = x { self.set(*dst, v[k as usize].clone()); } else { return un("extractelement"); } }
                Ins::InsertEl { dst, ty: _, a, v, i } => { let x = self.v(a); let y = self.v(v); let iv = self.v(i); let k = self.ci(iv)?; let r = ins_val(x, &[k as u32], y)?; self.set(*dst, r); }
                Ins::Shuffle { dst, ty, a, b, mask } => {
                    let n = match self.m.tys[*ty as usize] { Ty::Vec(n, _) => n as i32, _ => return un("shuffle") };
                    let (x, y) = (self.v(a), self.v(b));
                    if let (V::Agg(x), V::Agg(y)) = (x, y) {
                        let r: Vec<V> = mask.iter().map(|k| if *k < 0 { x[0].clone() } else if *k < n { x[*k as usize].clone() } else { y[(*k - n) as usize].clone() }).collect();
                        self.set(*dst, V::Agg(Rc::new(r)));
                    } else { return un("shuffle"); }
                }
                Ins::Rmw { dst, op, ty, p, v } => {
                    let pv = self.v(p); let a = self.ci(pv)?; let n = self.bits(*ty);
                    let old = self.load(a, *ty)?; let o = self.ci(old)?; let xv = self.v(v); let x = self.ci(xv)?;
                    let r = match op { RmwOp::Xchg => x, RmwOp::Add => o.wrapping_add(x), RmwOp::Sub => o.wrapping_sub(x), RmwOp::And => o & x, RmwOp::Nand => !(o & x), RmwOp::Or => o | x, RmwOp::Xor => o ^ x, RmwOp::Max => if sext(o, n) > sext(x, n) { o } else { x }, RmwOp::Min => if sext(o, n) < sext(x, n) { o } else { x }, RmwOp::UMax => o.max(x), RmwOp::UMin => o.min(x) };
                    self.store(a, *ty, V::I(mask(r, n)))?;
                    self.set(*dst, V::I(o));
                }
                Ins::CmpXchg { dst, ty, p, c, n } => {
                    let pv = self.v(p); let a = self.ci(pv)?;
                    let old = self.load(a, *ty)?; let o = self.ci(old)?; let cv = self.v(c); let cc = self.ci(cv)?;
                    let ok = o == cc;
                    if ok { let nv = self.v(n); self.store(a, *ty, nv)?; }
                    self.set(*dst, V::Agg(Rc::new(vec![V::I(o), V::I(ok as u64)])));
                }
                Ins::Fence => {}
                Ins::Freeze { dst, a } => { let x = self.v(a); self.set(*dst, x); }
                Ins::Bad(s) => {
                    if s.starts_with("asm") { continue; } // optimisation barriers
                    return un(s.clone());
                }
            }
        }
    }

    fn tob(&mut self, v: &V) -> X<Bo> { match v { V::B(b) => Ok(*b), V::I(x) => Ok(self.ts.bk(x & 1 == 1)), v => un(format!("tob {:?}", v)) } }
    fn fromb(&self, b: Bo) -> V { if let Some(k) = self.ts.as_bk(b) { V::I(k as u64) } else { V::B(b) } }

    fn binop(&mut self, op: BinOp, ty: TyId, a: V, b: V) -> X<V> {
        if let (V::Agg(x), V::Agg(y)) = (&a, &b) {
            let et = match self.m.tys[ty as usize] { Ty::Vec(_, e) => e, _ => return un("vec bin") };
            let mut o = vec![];
            for i in 0..x.len() { o.push(self.binop(op, et, x[i].clone(), y[i].clone())?); }
            return Ok(V::Agg(Rc::new(o)));
        }
        let n = self.bits(ty);
        if n == 1 && (matches!(a, V::B(_)) || matches!(b, V::B(_))) {
            let x = self.tob(&a)?; let y = self.tob(&b)?;
            let r = match op { BinOp::And | BinOp::Mul => self.ts.and(x, y), BinOp::Or => self.ts.or(x, y), BinOp::Xor | BinOp::Add | BinOp::Sub => self.ts.xor(x, y), _ => return un("bool op") };
            return Ok(self.fromb(r));
        }
        if n == 64 {
            if let (V::T(t), V::I(k)) = (&a, &b) {
                match (op, *k) {
                    (BinOp::And, 0x7fff_ffff_ffff_ffff) => { let v = self.fabs(V::T(*t))?; return Ok(v); }
                    (BinOp::Xor, 0x8000_0000_0000_0000) => { let r = self.ts.neg(*t); return Ok(self.from_tm(r)); }
                    (BinOp::LShr, 63) => { let z = self.ts.c(0.0); let c = self.ts.cmp(FPred::Olt, *t, z); return Ok(V::I(self.decide(c)? as u64)); }
                    _ => {}
                }
            }
        }
        if n > 64 {
            let w = |v: V| -> X<u128> { match v { V::W(x) => Ok(x), V::I(x) => Ok(x as u128), _ => un("wide op") } };
            let (x, y) = (w(a)?, w(b)?);
            let sx = |v: u128| -> i128 { if n >= 128 { v as i128 } else { let s = 128 - n; ((v << s) as i128) >> s } };
            if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && y == 0 { return un("wide div by zero"); }
            let r = match op { BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y), BinOp::UDiv => x / y, BinOp::URem => x % y, BinOp::SDiv => sx(x).wrapping_div(sx(y)) as u128, BinOp::SRem => sx(x).wrapping_rem(sx(y)) as u128, BinOp::Shl => if y >= n as u128 { 0 } else { x << y }, BinOp::LShr => if y >= n as u128 { 0 } else { x >> y }, BinOp::AShr => (sx(x) >> y.min(127)) as u128, BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y };
            return Ok(V::W(mask128(r, n)));
        }
        let (x, y) = (self.ci(a)?, self.ci(b)?);
        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && y == 0 { return un("div by zero"); }
        let r = match op {
            BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
            BinOp::UDiv => x / y, BinOp::URem => x % y,
            BinOp::SDiv => sext(x, n).wrapping_div(sext(y, n)) as u64, BinOp::SRem => sext(x, n).wrapping_rem(sext(y, n)) as u64,
            BinOp::Shl => if y >= n as u64 { 0 } else { x << y }, BinOp::LShr => if y >= n as u64 { 0 } else { x >> y },
            BinOp::AShr => (sext(x, n) >> y.min(63)) as u64,
            BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
        };
        Ok(V::I(mask(r, n)))
    }
    fn fbin(&mut self, op: FOp, ty: TyId, a: V, b: V) -> X<V> {
        match (&a, &b) {
            (V::F(x), V::F(y)) => { return Ok(V::F(match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y })); }
            (V::F32(x), V::F32(y)) => { return Ok(V::F32(match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y })); }
            (V::Agg(x), V::Agg(y)) => {
                let et = match self.m.tys[ty as usize] { Ty::Vec(_, e) => e, _ => return un("vec fbin") };
                let mut o = vec![];
                for i in 0..x.len() { o.push(self.fbin(op, et, x[i].clone(), y[i].clone())?); }
                return Ok(V::Agg(Rc::new(o)));
            }
            _ => {}
        }
        let x = self.tm(&a)?; let y = self.tm(&b)?;
        if self.ts.real {
            // IEEE results that are not real numbers: x/0, x*inf, inf/x (the sign of a zero is not tracked)
            let (cx, cy) = (self.ts.as_c(x), self.ts.as_c(y));
            let inf = |c: Option<f64>| c.map_or(false, |v| v.is_infinite());
            let (sy, other) = match op {
                FOp::Div if cy == Some(0.0) && cx.is_none() => (f64::INFINITY, Some(x)),
                FOp::Div if inf(cx) && cy.is_none() => (cx.unwrap(), Some(y)),
                FOp::Mul if inf(cx) && cy.is_none() => (cx.unwrap(), Some(y)),
                FOp::Mul if inf(cy) && cx.is_none() => (cy.unwrap(), Some(x)),
                _ => (0.0, None),
            };
            if let Some(o) = other {
                let z = self.ts.c(0.0);
                let c = self.ts.cmp(FPred::Oeq, o, z);
                if self.decide(c)? { return Ok(V::F(if op == FOp::Div && inf(cx) { sy } else { f64::NAN })); }
                let c = self.ts.cmp(FPred::Olt, o, z);
                return Ok(V::F(if self.decide(c)? { -sy } else { sy }));
            }
        }
        let r = self.ts.bin(op, x, y);
        Ok(self.from_tm(r))
    }
    fn fneg(&mut self, x: V) -> X<V> {
        Ok(match x { V::F(x) => V::F(-x), V::F32(x) => V::F32(-x), V::T(t) => { let t = self.resolve(t)?; let r = self.ts.neg(t); self.from_tm(r) } V::Agg(v) => { let mut o = vec![]; for e in v.iter() { o.push(self.fneg(e.clone())?); } V::Agg(Rc::new(o)) } v => return un(format!("fneg {:?}", v)) })
    }
    fn fabs(&mut self, x: V) -> X<V> {
        Ok(match x {
            V::F(x) => V::F(x.abs()), V::F32(x) => V::F32(x.abs()),
            V::T(t) => {
                if self.abs_arg(t).is_some() { return Ok(V::T(t)); }
                if let T::Neg(u) = self.ts.t[t as usize] { if self.ts.real { let r = self.ts.fun("fabs", vec![u]); return Ok(self.from_tm(r)); } }
                let r = self.ts.fun("fabs", vec![t]);
                self.from_tm(r)
            }
            V::Agg(v) => { let mut o = vec![]; for e in v.iter() { o.push(self.fabs(e.clone())?); } V::Agg(Rc::new(o)) }
            v => return un(format!("fabs {:?}", v)),
        })
    }
    fn icmp(&mut self, p: IPred, ty: TyId, a: V, b: V) -> X<V> {
        if let (V::Agg(x), V::Agg(y)) = (&a, &b) {
            let et = match self.m.tys[ty as usize] { Ty::Vec(_, e) => e, _ => return un("vec icmp") };
            let mut o = vec![];
            for i in 0..x.len() { o.push(self.icmp(p, et, x[i].clone(), y[i].clone())?); }
            return Ok(V::Agg(Rc::new(o)));
        }
        let n = self.bits(ty);
        if n == 1 && (matches!(a, V::B(_)) || matches!(b, V::B(_))) && matches!(p, IPred::Eq | IPred::Ne) {
            let x = self.tob(&a)?; let y = self.tob(&b)?;
            let r = self.ts.xor(x, y);
            let r = if p == IPred::Eq { self.ts.not(r) } else { r };
            return Ok(self.fromb(r));
        }
        // sign tests and bit equality on symbolic doubles
        if let V::T(t) = a {
            if let V::I(k) = b {
                let z = self.ts.c(0.0);
                if p == IPred::Slt && k == 0 { let c = self.ts.cmp(FPred::Olt, t, z); return Ok(self.fromb(c)); }
                if p == IPred::Sgt && k == u64::MAX { let c = self.ts.cmp(FPred::Oge, t, z); return Ok(self.fromb(c)); }
                if p == IPred::Eq || p == IPred::Ne { let y = self.ts.c(f64::from_bits(k)); let c = self.ts.cmp(FPred::Oeq, t, y); let c = if p == IPred::Ne { self.ts.not(c) } else { c }; return Ok(self.fromb(c)); }
            }
            if let V::T(u) = b { if p == IPred::Eq || p == IPred::Ne { let c = self.ts.cmp(FPred::Oeq, t, u); let c = if p == IPred::Ne { self.ts.not(c) } else { c }; return Ok(self.fromb(c)); } }
        }
        if n > 64 {
            let w = |v: V| -> X<u128> { match v { V::W(x) => Ok(x), V::I(x) => Ok(x as u128), _ => un("wide cmp") } };
            let (x, y) = (w(a)?, w(b)?);
            let sx = |v: u128| -> i128 { if n >= 128 { v as i128 } else { let s = 128 - n; ((v << s) as i128) >> s } };
            let r = match p { IPred::Eq => x == y, IPred::Ne => x != y, IPred::Ugt => x > y, IPred::Uge => x >= y, IPred::Ult => x < y, IPred::Ule => x <= y, IPred::Sgt => sx(x) > sx(y), IPred::Sge => sx(x) >= sx(y), IPred::Slt => sx(x) < sx(y), IPred::Sle => sx(x) <= sx(y) };
            return Ok(V::I(r as u64));
        }
        let (x, y) = (self.ci(a)?, self.ci(b)?);
        let r = match p { IPred::Eq => x == y, IPred::Ne => x != y, IPred::Ugt => x > y, IPred::Uge => x >= y, IPred::Ult => x < y, IPred::Ule => x <= y, IPred::Sgt => sext(x, n) > sext(y, n), IPred::Sge => sext(x, n) >= sext(y, n), IPred::Slt => sext(x, n) < sext(y, n), IPred::Sle => sext(x, n) <= sext(y, n) };
        Ok(V::I(r as u64))
    }
    fn fcmpv(&mut self, p: FPred, a: V, b: V) -> X<V> {
        match (&a, &b) {
            (V::F(x), V::F(y)) => return Ok(V::I(fcmp(p, *x, *y) as u64)),
            (V::F32(x), V::F32(y)) => return Ok(V::I(fcmp(p, *x as f64, *y as f64) as u64)),
            (V::Agg(x), V::Agg(y)) => { let mut o = vec![]; for i in 0..x.len() { o.push(self.fcmpv(p, x[i].clone(), y[i].clone())?); } return Ok(V::Agg(Rc::new(o))); }
            _ => {}
        }
        let raw = |s: &mut Self, v: &V| match v { V::T(t) => Ok(*t), v => s.tm(v) };
        let x = raw(self, &a)?; let y = raw(self, &b)?;
        let c = self.cmp_abs(p, x, y)?;
        Ok(self.fromb(c))
    }
    fn cmp_abs(&mut self, p: FPred, x: Tm, y: Tm) -> X<Bo> {
        let (ax, ay) = (self.abs_arg(x), self.abs_arg(y));
        if ax.is_none() && ay.is_none() { return Ok(self.ts.cmp(p, x, y)); }
        let less = matches!(p, FPred::Olt | FPred::Ole | FPred::Ult | FPred::Ule);
        let more = matches!(p, FPred::Ogt | FPred::Oge | FPred::Ugt | FPred::Uge);
        if !less && !more { let (x, y) = (self.resolve(x)?, self.resolve(y)?); return Ok(self.ts.cmp(p, x, y)); }
        if let Some(u) = ax {
            let n = self.ts.neg(u);
            let (l, r) = (self.cmp_abs(p, u, y)?, self.cmp_abs(p, n, y)?);
            return Ok(if less { self.ts.and(l, r) } else { self.ts.or(l, r) });
        }
        let u = ay.unwrap();
        let n = self.ts.neg(u);
        let (l, r) = (self.cmp_abs(p, x, u)?, self.cmp_abs(p, x, n)?);
        Ok(if less { self.ts.or(l, r) } else { self.ts.and(l, r) })
    }
    fn cast(&mut self, op: CastOp, from: TyId, to: TyId, a: V) -> X<V> {
        if let (Ty::Vec(n, fe), Ty::Vec(n2, te)) = (self.m.tys[from as usize].clone(), self.m.tys[to as usize].clone()) {
            if n == n2 && op != CastOp::BitCast || (op == CastOp::BitCast && n == n2) {
                if let V::Agg(v) = a { let mut o = vec![]; for e in v.iter() { o.push(self.cast(op, fe, te, e.clone())?); } return Ok(V::Agg(Rc::new(o))); }
                return un("vec cast");
            }
        }
        let fnb = self.bits(from); let tnb = self.bits(to);
        match op {
            CastOp::BitCast => {
                match (self.m.tys[from as usize].clone(), self.m.tys[to as usize].clone()) {
                    (Ty::Vec(_, e), Ty::Int(n)) => {
                        let eb = self.bits(e);
                        if let V::Agg(v) = a {
                            let mut acc: u128 = 0;
                            for (i, x) in v.iter().enumerate() { let k = self.ci(x.clone())?; acc |= (mask(k, eb) as u128) << (i as u32 * eb); }
                            return Ok(if n > 64 { V::W(acc) } else { V::I(acc as u64) });
                        }
                        un("bitcast vec->int")
                    }
                    (Ty::Int(_), Ty::Vec(n, e)) => {
                        let eb = self.bits(e);
                        let x = match a { V::W(x) => x, a => self.ci(a)? as u128 };
                        Ok(V::Agg(Rc::new((0..n).map(|i| V::I(mask((x >> (i * eb)) as u64, eb))).collect())))
                    }
                    (Ty::Vec(n1, e1), Ty::Vec(n2, e2)) => {
                        let (b1, b2) = (self.bits(e1), self.bits(e2));
                        if b1 * n1 > 128 { return un("bitcast wide vec"); }
                        if let V::Agg(v) = a {
                            let mut acc: u128 = 0;
                            for (i, x) in v.iter().enumerate() { let k = self.ci(x.clone())?; acc |= (mask(k, b1) as u128) << (i as u32 * b1); }
                            return Ok(V::Agg(Rc::new((0..n2).map(|i| V::I(mask((acc >> (i * b2)) as u64, b2))).collect())));
                        }
                        un("bitcast vec")
                    }
                    (Ty::Int(64), Ty::F64) => Ok(match a { V::T(t) => V::T(t), a => V::F(f64::from_bits(self.ci(a)?)) }),
                    (Ty::F64, Ty::Int(64)) => Ok(match a { V::T(t) => V::T(t), a => V::I(self.ci(a)?) }),
                    (Ty::Int(32), Ty::F32) => Ok(V::F32(f32::from_bits(self.ci(a)? as u32))),
                    (Ty::F32, Ty::Int(32)) => Ok(V::I(self.ci(a)?)),
                    _ => Ok(a),
                }
            }
            CastOp::PtrToInt | CastOp::IntToPtr | CastOp::AddrSpace => { if let V::T(_) = a { if tnb == 64 { return Ok(a); } } let x = self.ci(a)?; Ok(V::I(mask(x, tnb))) }
            CastOp::Trunc => {
                if let V::B(b) = a { return Ok(V::B(b)); }
                if fnb > 64 { let x = match a { V::W(x) => x, V::I(x) => x as u128, _ => return un("trunc") }; return Ok(if tnb > 64 { V::W(mask128(x, tnb)) } else { V::I(mask(x as u64, tnb)) }); }
                let x = self.ci(a)?; Ok(V::I(mask(x, tnb)))
            }
            CastOp::Zext => {
                if fnb > 64 { return Ok(a); }
                let x = self.ci(a)?; Ok(if tnb > 64 { V::W(x as u128) } else { V::I(x) })
            }
            CastOp::Sext => {
                if fnb > 64 { return un("sext wide"); }
                let x = sext(self.ci(a)?, fnb); Ok(if tnb > 64 { V::W(mask128(x as i128 as u128, tnb)) } else { V::I(mask(x as u64, tnb)) })
            }
            CastOp::FpTrunc => match a { V::F(x) => Ok(V::F32(x as f32)), _ => un("fptrunc symbolic") },
            CastOp::FpExt => match a { V::F32(x) => Ok(V::F(x as f64)), a => Ok(a) },
            CastOp::UiToFp | CastOp::SiToFp => {
                let x = match a { V::W(x) => return Ok(V::F(if op == CastOp::UiToFp { x as f64 } else { x as i128 as f64 })), a => self.ci(a)? };
                let f32t = self.m.tys[to as usize] == Ty::F32;
                let f = if op == CastOp::UiToFp { x as f64 } else { sext(x, fnb) as f64 };
                Ok(if f32t { V::F32(if op == CastOp::UiToFp { x as f32 } else { sext(x, fnb) as f32 }) } else { V::F(f) })
            }
            CastOp::FpToUi | CastOp::FpToSi => self.fp2i(a, tnb, op == CastOp::FpToSi),
        }
    }
    /// saturating conversion; a symbolic operand is concretised by forking over its integer part
    fn fp2i(&mut self, a: V, n: u32, signed: bool) -> X<V> {
        let f = match a {
            V::F(x) => x,
            V::F32(x) => x as f64,
            V::T(t) => {
                for _ in 0..64 {
                    // current witness suggests k; fork on k <= t < k+1 (trunc towards zero: handle negatives)
                    let w = self.wit();
                    let x = Eval::new(&self.ts, &w).t(t);
                    let k = x.trunc();
                    if !k.is_finite() || k.abs() > 1e15 { return un("float to int of a large symbolic value"); }
                    let (lo, hi, lo_open, hi_open) = if k > 0.0 { (k, k + 1.0, false, true) } else if k < 0.0 { (k - 1.0, k, true, false) } else { (-1.0, 1.0, true, true) };
                    let l = self.ts.c(lo); let h = self.ts.c(hi);
                    let c1 = self.ts.cmp(if lo_open { FPred::Ogt } else { FPred::Oge }, t, l);
                    let c2 = self.ts.cmp(if hi_open { FPred::Olt } else { FPred::Ole }, t, h);
                    let c = self.ts.and(c1, c2);
                    // the chosen integer must be recorded for replays of the prefix
                    let idx = self.trail.len();
                    let kk;
                    if idx < self.prefix.len() { kk = self.prefix[idx] as i64 as f64; self.trail.push(self.prefix[idx]); } else { kk = k; self.trail.push(k as i64 as u64); }
                    let c = if kk == k { c } else {
                        let (lo, hi, lo_open, hi_open) = if kk > 0.0 { (kk, kk + 1.0, false, true) } else if kk < 0.0 { (kk - 1.0, kk, true, false) } else { (-1.0, 1.0, true, true) };
                        let l = self.ts.c(lo); let h = self.ts.c(hi);
                        let c1 = self.ts.cmp(if lo_open { FPred::Ogt } else { FPred::Oge }, t, l);
                        let c2 = self.ts.cmp(if hi_open { FPred::Olt } else { FPred::Ole }, t, h);
                        self.ts.and(c1, c2)
                    };
                    if self.decide(c)? { return self.fp2i(V::F(kk), n, signed); }
                }
                return Err(Stop::Limit("float to int fork".into()));
            }
            v => return un(format!("fp2i {:?}", v)),
        };
        if f.is_nan() { return Ok(V::I(0)); }
        if n > 64 { return Ok(V::W(if signed { f as i128 as u128 } else { f as u128 })); }
        if signed {
            let max = if n >= 64 { i64::MAX } else { (1i64 << (n - 1)) - 1 }; let min = if n >= 64 { i64::MIN } else { -(1i64 << (n - 1)) };
            let x = if f >= max as f64 { max } else if f <= min as f64 { min } else { f as i64 };
            Ok(V::I(mask(x as u64, n)))
        } else {
            let max = if n >= 64 { u64::MAX } else { (1u64 << n) - 1 };
            let x = if f >= max as f64 { max } else if f <= 0.0 { 0 } else { f as u64 };
            Ok(V::I(x))
        }
    }

    // ---------------------------------------------------------------- calls
    fn fname(&self, f: u32) -> &str { &self.m.funcs[f as usize].name }
    fn kind(&mut self, fi: u32) -> u8 {
        if let Some(k) = self.icept.get(&fi) { return *k; }
        let n = self.m.funcs[fi as usize].name.clone();
        let def = self.m.funcs[fi as usize].is_def;
        let k = if n.starts_with("llvm.") { 1 }
        else if n.starts_with("sym_") { 2 }
        else if n.contains("9panicking") && (n.contains("9panic_fmt") || n.contains("15panic_with_hook") || n.contains("11begin_panic") || n.contains("10rust_panic") || n.contains("panic_nounwind") || n.contains("19begin_panic_handler") || n.contains("18panic_bounds_check") || n.contains("13assert_failed") || n.contains("panicking5panic") || n.contains("14panic_explicit") || n.contains("9panic_str") || n.contains("13panic_display")) && !n.contains("panic_count") { 3 }
        else if n.contains("rust_begin_unwind") || n.contains("14rust_begin_unwind") || n == "rust_panic" || n.contains("handle_alloc_error") { 3 }
        else if n.contains("2io5stdio6__print") || n.contains("2io5stdio7__eprint") || (n.contains("2io5stdio") && (n.contains("6_print") || n.contains("7_eprint"))) { 4 }
        else if def && is_float_fmt(&n) { 5 }
        else if n.contains("16offset_date_time") && n.contains("7now_utc") { 0 }
        else if !def { 6 }
        else { 0 };
        self.icept.insert(fi, k);
        k
    }
    fn call(&mut self, fi: u32, mut a: Vec<V>, ats: &[(TyId, Op)], dst: Option<u32>, ret: TyId, normal: Option<u32>) -> X<Option<V>> {
        match self.kind(fi) {
            0 => { self.push_frame(fi, a, dst, ret, normal, false)?; Ok(None) }
            1 => self.llvm_intrinsic(fi, a, ats, ret),
            2 => self.sym_intrinsic(fi, a, dst, ret, normal),
            3 => {
                // find a location argument (last pointer)
                let mut loc = String::new();
                for v in a.iter().rev() {
                    if let V::I(p) = v {
                        if *p > G_BASE && *p + 24 <= self.m.gend {
                            let f = self.mem.rd(*p, 8); let l = self.mem.rd(*p + 8, 8); let line = self.mem.rd(*p + 16, 4);
                            if f > G_BASE && f + l <= self.m.gend && l < 400 { loc = format!("{}:{}", String::from_utf8_lossy(&self.mem.b[f as usize..(f + l) as usize]), line); break; }
                        }
                    }
                }
                let st: Vec<String> = self.frames.iter().rev().take(3).map(|f| f.f.name.clone()).collect();
                Err(Stop::Panic(format!("panic at {} [{}]", loc, st.join(" < "))))
            }
            4 => Ok(Some(V::I(0))),
            5 => Ok(Some(V::I(0))),
            _ => self.libc(fi, &mut a, ret),
        }
    }

    fn llvm_intrinsic(&mut self, fi: u32, a: Vec<V>, ats: &[(TyId, Op)], ret: TyId) -> X<Option<V>> {
        let n = self.fname(fi).to_string();
        let b = &n[5..];
        let s0 = |s: &str| b.starts_with(s);
        if s0("lifetime") || s0("experimental.noalias") || s0("dbg.") || s0("prefetch") || s0("va_") || s0("invariant") || s0("x86.sse2.pause") || s0("stackrestore") || s0("stacksave") || s0("donothing") || s0("pseudoprobe") { return Ok(Some(V::I(0))); }
        if s0("assume") { return Ok(Some(V::I(0))); }
        if s0("trap") || s0("ubsantrap") || s0("debugtrap") { return Err(Stop::Panic("trap".into())); }
        if s0("expect") { return Ok(Some(a[0].clone())); }
        if s0("is.constant") { return Ok(Some(V::I(0))); }
        if s0("threadlocal.address") { return Ok(Some(a[0].clone())); }
        if s0("load.relative") { let p = self.ci(a[0].clone())?; let o = self.ci(a[1].clone())?; let x = self.mem.rd(p.wrapping_add(o), 4) as u32 as i32; return Ok(Some(V::I(p.wrapping_add(x as i64 as u64)))); }
        if s0("memcpy") || s0("memmove") {
            let (d, s, l) = (self.ci(a[0].clone())?, self.ci(a[1].clone())?, self.ci(a[2].clone())?);
            self.mem.copy(d, s, l).map_err(Stop::Unsupported)?;
            return Ok(Some(V::I(0)));
        }
        if s0("memset") {
            let (d, x, l) = (self.ci(a[0].clone())?, self.ci(a[1].clone())?, self.ci(a[2].clone())?);
            if l > 0 { self.mem.check(d, l).map_err(Stop::Unsupported)?; self.mem.clear_sh(d, l); self.mem.b[d as usize..(d + l) as usize].fill(x as u8); }
            return Ok(Some(V::I(0)));
        }
        // vector forms: apply elementwise
        if let V::Agg(_) = a[0] {
            if let Ty::Vec(nn, e) = self.m.tys[ret as usize].clone() {
                let mut out = vec![];
                for i in 0..nn as usize {
                    let args: Vec<V> = a.iter().map(|v| match v { V::Agg(x) => x[i].clone(), v => v.clone() }).collect();
                    let ats2: Vec<(TyId, Op)> = ats.iter().map(|(t, o)| (match self.m.tys[*t as usize] { Ty::Vec(_, e) => e, _ => *t }, o.clone())).collect();
                    out.push(self.llvm_intrinsic(fi, args, &ats2, e)?.unwrap());
                }
                return Ok(Some(V::Agg(Rc::new(out))));
            }
            if s0("vector.reduce.") {
                let et = match self.m.tys[ats[0].0 as usize] { Ty::Vec(_, e) => e, _ => return un("reduce") };
                if let V::Agg(v) = &a[0] {
                    let op = if s0("vector.reduce.or") { BinOp::Or } else if s0("vector.reduce.and") { BinOp::And } else if s0("vector.reduce.add") { BinOp::Add } else if s0("vector.reduce.xor") { BinOp::Xor } else { return un(n); };
                    let mut acc = v[0].clone();
                    for x in v.iter().skip(1) { acc = self.binop(op, et, acc, x.clone())?; }
                    return Ok(Some(acc));
                }
            }
            return un(n);
        }
        let bits = if ats.is_empty() { 64 } else { self.bits(ats[0].0) };
        if b.ends_with(".f64") || b.contains(".f64.") || b.contains("f64") {
            let base = b.split('.').next().unwrap();
            match base {
                "fabs" => return Ok(Some(self.fabs(a[0].clone())?)),
                "sqrt" => { return Ok(Some(match &a[0] { V::F(x) => V::F(x.sqrt()), v => { let t = self.tm(v)?; let r = self.ts.sqrt(t); self.from_tm(r) } })); }
                "pow" | "sin" | "cos" | "exp" | "log" | "log10" | "log2" | "exp2" | "tan" | "asin" | "acos" | "atan" | "sinh" | "cosh" | "tanh" | "atan2" => return self.mathfn(base, a),
                "powi" => {
                    let k = sext(self.ci(a[1].clone())?, 32) as i32;
                    return Ok(Some(match &a[0] { V::F(x) => V::F(x.powi(k)), v => {
                        let t = self.tm(v)?;
                        if k == 0 { V::F(1.0) } else {
                            let mut r = t; for _ in 1..k.unsigned_abs() { r = self.ts.bin(FOp::Mul, r, t); }
                            if k < 0 { let o = self.ts.c(1.0); r = self.ts.bin(FOp::Div, o, r); }
                            self.from_tm(r)
                        }
                    } }));
                }
                "fma" | "fmuladd" => { let p = self.fbin(FOp::Mul, ats[0].0, a[0].clone(), a[1].clone())?; if let (V::F(x), V::F(y), V::F(z)) = (&a[0], &a[1], &a[2]) { if base == "fma" { return Ok(Some(V::F(x.mul_add(*y, *z)))); } } return Ok(Some(self.fbin(FOp::Add, ats[0].0, p, a[2].clone())?)); }
                "copysign" => {
                    if let (V::F(x), V::F(y)) = (&a[0], &a[1]) { return Ok(Some(V::F(x.copysign(*y)))); }
                    let ab = self.fabs(a[0].clone())?;
                    let s = self.tm(&a[1].clone())?; let z = self.ts.c(0.0);
                    let c = self.ts.cmp(FPred::Olt, s, z);
                    return Ok(Some(if self.decide(c)? { self.fneg(ab)? } else { ab }));
                }
                "minnum" | "minimumnum" | "minimum" | "maxnum" | "maximumnum" | "maximum" => {
                    let is_min = base.starts_with("min");
                    if let (V::F(x), V::F(y)) = (&a[0], &a[1]) { return Ok(Some(V::F(if is_min { x.min(*y) } else { x.max(*y) }))); }
                    let c = self.fcmpv(FPred::Olt, a[0].clone(), a[1].clone())?;
                    let lt = self.conc_bool(&c)?;
                    return Ok(Some(if lt == is_min { a[0].clone() } else { a[1].clone() }));
                }
                "floor" | "ceil" | "trunc" | "round" | "rint" | "roundeven" | "nearbyint" => {
                    if let V::F(_) = a[0] { return self.mathfn(if base == "roundeven" || base == "nearbyint" { "rint" } else { base }, a); }
                    return self.round_sym(base, a[0].clone());
                }
                "fptosi" => return Ok(Some(self.fp2i(a[0].clone(), self.bits(ret), true)?)),
                "fptoui" => return Ok(Some(self.fp2i(a[0].clone(), self.bits(ret), false)?)),
                "is" if s0("is.fpclass") => {
                    if let V::F(x) = a[0] {
                        let m = self.ci(a[1].clone())?;
                        let cls = if x.is_nan() { 0x3 } else if x.is_infinite() { if x < 0.0 { 0x4 } else { 0x200 } } else if x == 0.0 { if x.is_sign_negative() { 0x20 } else { 0x40 } } else if x.is_normal() { if x < 0.0 { 0x8 } else { 0x100 } } else if x < 0.0 { 0x10 } else { 0x80 };
                        return Ok(Some(V::I((m & cls != 0) as u64)));
                    }
                    if self.ts.real {
                        // a real number: finite, zero or normal
                        let m = self.ci(a[1].clone())?;
                        let t = self.tm(&a[0].clone())?; let z = self.ts.c(0.0);
                        if m & (0x8 | 0x20 | 0x40 | 0x100) == 0 { return Ok(Some(V::I(0))); }
                        let neg = self.ts.cmp(FPred::Olt, t, z); let pos = self.ts.cmp(FPred::Ogt, t, z); let ze = self.ts.cmp(FPred::Oeq, t, z);
                        let mut r = self.ts.bk(false);
                        if m & 0x8 != 0 { r = self.ts.or(r, neg); } if m & 0x100 != 0 { r = self.ts.or(r, pos); } if m & 0x60 != 0 { r = self.ts.or(r, ze); }
                        return Ok(Some(self.fromb(r)));
                    }
                    return un(n);
                }
                _ => return un(format!("intrinsic {}", n)),
            }
        }
        if bits > 64 {
            let w = |v: &V| -> u128 { match v { V::W(x) => *x, V::I(x) => *x as u128, _ => 0 } };
            let x = w(&a[0]);
            let sx = |v: u128| -> i128 { let s = 128 - bits; ((v << s) as i128) >> s };
            if s0("ctlz") { return Ok(Some(V::W((x.leading_zeros() - (128 - bits)) as u128))); }
            if s0("cttz") { return Ok(Some(V::W(x.trailing_zeros().min(bits) as u128))); }
            if s0("abs") { return Ok(Some(V::W(mask128(sx(x).wrapping_abs() as u128, bits)))); }
            if s0("umul.with.overflow") { let y = w(&a[1]); let (r, o) = x.overflowing_mul(y); return Ok(Some(V::Agg(Rc::new(vec![V::W(r), V::I(o as u64)])))); }
            if s0("umin") { return Ok(Some(V::W(x.min(w(&a[1]))))); }
            if s0("umax") { return Ok(Some(V::W(x.max(w(&a[1]))))); }
            return un(n);
        }
        let x = self.ci(a[0].clone())?;
        let y = if a.len() > 1 { self.ci(a[1].clone())? } else { 0 };
        let (sx, sy) = (sext(x, bits), sext(y, bits));
        let smax = if bits >= 64 { i64::MAX } else { (1i64 << (bits - 1)) - 1 }; let smin = if bits >= 64 { i64::MIN } else { -(1i64 << (bits - 1)) };
        let umax = mask(u64::MAX, bits);
        let r = if s0("umax") { x.max(y) } else if s0("umin") { x.min(y) } else if s0("smax") { sx.max(sy) as u64 } else if s0("smin") { sx.min(sy) as u64 }
            else if s0("ctpop") { x.count_ones() as u64 } else if s0("ctlz") { (x.leading_zeros() - (64 - bits)) as u64 } else if s0("cttz") { x.trailing_zeros().min(bits) as u64 }
            else if s0("abs") { sx.wrapping_abs() as u64 }
            else if s0("bswap") { x.swap_bytes() >> (64 - bits) } else if s0("bitreverse") { x.reverse_bits() >> (64 - bits) }
            else if s0("fshl") || s0("fshr") {
                let z = self.ci(a[2].clone())? % bits as u64;
                let cat = ((x as u128) << bits) | y as u128;
                if s0("fshl") { ((cat << z) >> bits) as u64 } else { (cat >> z) as u64 }
            }
            else if s0("usub.sat") { x.saturating_sub(y) } else if s0("uadd.sat") { x.checked_add(y).filter(|v| *v <= umax).unwrap_or(umax) }
            else if s0("ssub.sat") { (sx as i128 - sy as i128).clamp(smin as i128, smax as i128) as u64 } else if s0("sadd.sat") { (sx as i128 + sy as i128).clamp(smin as i128, smax as i128) as u64 }
            else if s0("ucmp") { return Ok(Some(V::I(mask((x > y) as u64 as i64 as u64, 64).wrapping_sub((x < y) as u64) & mask(u64::MAX, self.bits(ret))))); }
            else if s0("scmp") { return Ok(Some(V::I(((sx > sy) as u64).wrapping_sub((sx < sy) as u64) & mask(u64::MAX, self.bits(ret))))); }
            else if b.contains(".with.overflow") {
                let (v, o) = if s0("uadd") { let v = x as u128 + y as u128; (v as u64, v > umax as u128) } else if s0("usub") { (x.wrapping_sub(y), x < y) } else if s0("umul") { let v = x as u128 * y as u128; (v as u64, v > umax as u128) }
                    else { let v = if s0("sadd") { sx as i128 + sy as i128 } else if s0("ssub") { sx as i128 - sy as i128 } else { sx as i128 * sy as i128 }; (v as u64, v > smax as i128 || v < smin as i128) };
                return Ok(Some(V::Agg(Rc::new(vec![V::I(mask(v, bits)), V::I(o as u64)]))));
            }
            else { return un(format!("intrinsic {}", n)); };
        Ok(Some(V::I(mask(r, bits))))
    }
    fn round_sym(&mut self, base: &str, v: V) -> X<Option<V>> {
        // concretise the integer part by forking
        let t = self.tm(&v)?;
        if !self.ts.real { let r = self.ts.fun(base, vec![t]); return Ok(Some(self.from_tm(r))); }
        for _ in 0..64 {
            let idx = self.trail.len();
            let k = if idx < self.prefix.len() { self.prefix[idx] as i64 as f64 } else {
                let w = self.wit(); let x = Eval::new(&self.ts, &w).t(t);
                let k = match base { "floor" => x.floor(), "ceil" => x.ceil(), "trunc" => x.trunc(), _ => x.round() };
                if !k.is_finite() || k.abs() > 1e15 { return un("rounding a large symbolic value"); }
                k
            };
            self.trail.push(k as i64 as u64);
            let (lo, hi, lop, hip) = match base {
                "floor" => (k, k + 1.0, FPred::Oge, FPred::Olt),
                "ceil" => (k - 1.0, k, FPred::Ogt, FPred::Ole),
                "trunc" => if k > 0.0 { (k, k + 1.0, FPred::Oge, FPred::Olt) } else if k < 0.0 { (k - 1.0, k, FPred::Ogt, FPred::Ole) } else { (-1.0, 1.0, FPred::Ogt, FPred::Olt) },
                _ => (k - 0.5, k + 0.5, FPred::Oge, FPred::Olt),
            };
            let l = self.ts.c(lo); let h = self.ts.c(hi);
            let c1 = self.ts.cmp(lop, t, l); let c2 = self.ts.cmp(hip, t, h);
            let c = self.ts.and(c1, c2);
            if self.decide(c)? { return Ok(Some(V::F(k))); }
        }
        Err(Stop::Limit("round fork".into()))
    }
    fn mathfn(&mut self, base: &str, a: Vec<V>) -> X<Option<V>> {
        let fs: Option<Vec<f64>> = a.iter().map(|v| if let V::F(x) = v { Some(*x) } else { None }).collect();
        if let Some(fs) = fs { return Ok(Some(V::F(libm(base, &fs).ok_or(Stop::Unsupported(base.into()))?))); }
        let mut ts = vec![];
        for v in &a { ts.push(self.tm(v)?); }
        self.calls_uf.insert(base.to_string());
        let r = self.ts.fun(base, ts);
        Ok(Some(self.from_tm(r)))
    }

    fn strarg(&mut self, p: &V, l: &V) -> X<String> {
        let p = self.ci(p.clone())?; let l = self.ci(l.clone())?;
        Ok(String::from_utf8_lossy(&self.mem.b[p as usize..(p + l) as usize]).to_string())
    }
    fn sym_intrinsic(&mut self, fi: u32, a: Vec<V>, dst: Option<u32>, ret: TyId, normal: Option<u32>) -> X<Option<V>> {
        let n = self.fname(fi).to_string();
        match n.as_str() {
            "sym_real" => {
                let nm = self.strarg(&a[0], &a[1])?;
                let (lo, hi) = match (&a[2], &a[3]) { (V::F(l), V::F(h)) => (*l, *h), _ => return un("sym_real bounds") };
                if lo == hi { return Ok(Some(V::F(lo))); }
                let t = self.ts.var(&nm, lo, hi);
                if let T::Var(v) = self.ts.t[t as usize] { self.path_vars.insert(v); }
                Ok(Some(V::T(t)))
            }
            "sym_choice" => { let nm = self.strarg(&a[0], &a[1])?; let k = self.ci(a[2].clone())?; let r = self.choose(&nm, k)?; Ok(Some(V::I(r))) }
            "sym_assume" => { let b = self.tob(&a[0])?; self.assume(b)?; Ok(Some(V::I(0))) }
            "sym_check" => {
                let id = self.strarg(&a[0], &a[1])?;
                let b = self.tob(&a[2])?;
                self.check_bool(&id, b)?;
                Ok(Some(V::I(0)))
            }
            "sym_check_eq" => {
                let id = self.strarg(&a[0], &a[1])?;
                let x = self.tm(&a[2].clone())?; let y = self.tm(&a[3].clone())?; let sc = self.tm(&a[4].clone())?;
                self.check_eq(&id, x, y, sc)?;
                Ok(Some(V::I(0)))
            }
            "sym_check_def" => {
                let id = self.strarg(&a[0], &a[1])?;
                let x = self.tm(&a[2].clone())?;
                self.check_def(&id, x)?;
                Ok(Some(V::I(0)))
            }
            "sym_reach" => { let id = self.strarg(&a[0], &a[1])?; *self.reached.entry(id).or_insert(0) += 1; Ok(Some(V::I(0))) }
            "sym_catch" => {
                // sym_catch(fn, data) -> 0 returned, 1 panicked, 2 crashed/exited
                let f = self.ci(a[0].clone())?;
                let fi = ((f - FN_BASE) / 16) as u32;
                self.push_frame(fi, vec![a[1].clone()], dst, ret, normal, true)?;
                Ok(None)
            }
            "sym_clock_step" => { self.clock_step = self.ci(a[0].clone())?; Ok(Some(V::I(0))) }
            "sym_crash_at" => { let k = self.ci(a[0].clone())?; self.crash_at = if k == u64::MAX { k } else { self.fs_ops + k }; Ok(Some(V::I(0))) }
            "sym_fs_ops" => Ok(Some(V::I(self.fs_ops))),
            "sym_args_clear" => { self.env_args.clear(); Ok(Some(V::I(0))) }
            "sym_args_push" => { let s = self.strarg(&a[0], &a[1])?; self.env_args.push(s);
                let n = self.env_args.len() as u64;
                let v = self.mem.malloc(8 * (n + 1), 16);
                for (i, x) in self.env_args.clone().iter().enumerate() { let p = self.mem.malloc(x.len() as u64 + 1, 16); self.mem.b[p as usize..p as usize + x.len()].copy_from_slice(x.as_bytes()); self.mem.wr(v + 8 * i as u64, p, 8); }
                for (k, val) in [("3imp4ARGC", n), ("3imp4ARGV", v)] {
                    let g = self.m.globals.iter().find(|(g, _)| g.contains("3sys4args") && g.contains(k)).map(|x| *x.1);
                    match g { Some(g) => { self.mem.wr(g, val, 8); } None => return un("no place for the program's arguments") }
                }
                Ok(Some(V::I(0))) }
            "sym_is_symbolic" => Ok(Some(V::I(1))),
            "sym_opaque" => Ok(Some(a[0].clone())),
            "sym_print" => { let id = self.strarg(&a[0], &a[1])?; if self.trace { eprintln!("[sym] {} {:?}", id, a.get(2)); if let Some(V::T(t)) = a.get(2) { let w = self.wit(); eprintln!("     = {}", Eval::new(&self.ts, &w).t(*t)); } } Ok(Some(V::I(0))) }
            // summarise a double by a fresh unconstrained variable (stated as an abstraction in the harness)
            "sym_havoc" => { let nm = self.strarg(&a[0], &a[1])?; let (lo, hi) = match (&a[2], &a[3]) { (V::F(l), V::F(h)) => (*l, *h), _ => return un("sym_havoc bounds") }; let t = self.ts.var(&nm, lo, hi); if let T::Var(v) = self.ts.t[t as usize] { self.path_vars.insert(v); } Ok(Some(V::T(t))) }
            _ => un(n),
        }
    }
    fn check_bool(&mut self, id: &str, b: Bo) -> X<()> {
        let path = self.stats.paths;
        let nb = self.ts.not(b);
        if self.ts.as_bk(b) == Some(true) || self.decided.get(&b) == Some(&true) || self.decided.get(&nb) == Some(&false) {
            self.obls.push(Obligation { id: id.into(), kind: "bool".into(), verdict: "proved".into(), method: "path".into(), path, point: None, extra: vec![], detail: String::new() });
            return Ok(());
        }
        if self.ts.as_bk(b) == Some(false) || self.decided.get(&b) == Some(&false) || self.decided.get(&nb) == Some(&true) {
            self.violation(id, "bool", "assertion false on this path");
            return Ok(());
        }
        let pc = self.pc.clone();
        let r = self.sol.feasible(&mut self.ts, &pc, Some(nb));
        let (v, p, d) = match r { Sat::Unsat => ("proved", None, String::new()), Sat::Sat(m) => ("violated", Some(self.point(&m)), format!("choices={:?}", self.choices)), Sat::Unknown => ("inconclusive", None, format!("pc={}", pc.len())) };
        let mut extra = vec![];
        if v != "proved" { if let Some(w) = &self.witness { extra.push(self.point(w)); } }
        self.obls.push(Obligation { id: id.into(), kind: "bool".into(), verdict: v.into(), method: self.sol.last.clone(), path, point: p, extra, detail: d });
        Ok(())
    }
    fn check_eq(&mut self, id: &str, x: Tm, y: Tm, sc: Tm) -> X<()> {
        let path = self.stats.paths;
        let pc = self.pc.clone();
        let w = self.wit();
        let r = self.sol.equal(&mut self.ts, x, y, sc, &pc, &w);
        let (v, p, d) = match r.0 { Sat::Unsat => ("proved", None, String::new()), Sat::Sat(m) => ("violated", Some(self.point(&m)), format!("{} choices={:?}", r.1, self.choices)), Sat::Unknown => ("inconclusive", None, r.1) };
        let mut extra = vec![];
        if v != "proved" {
            extra.push(self.point(&w));
            for p in self.sol.samples(&self.ts, &pc, None, 6, Some(&w)) { extra.push(self.point(&p)); }
        }
        self.obls.push(Obligation { id: id.into(), kind: "eq".into(), verdict: v.into(), method: self.sol.last.clone(), path, point: p, extra, detail: d });
        Ok(())
    }
    /// every division in the term has a nonzero denominator, every sqrt a nonnegative argument
    fn check_def(&mut self, id: &str, x: Tm) -> X<()> {
        let path = self.stats.paths;
        if let Some(c) = self.ts.as_c(x) {
            if c.is_finite() { self.obls.push(Obligation { id: id.into(), kind: "def".into(), verdict: "proved".into(), method: "constant".into(), path, point: None, extra: vec![], detail: String::new() }); }
            else { self.violation(id, "def", "constant NaN or infinity"); }
            return Ok(());
        }
        let mut st = vec![x]; let mut seen = HashSet::new(); let mut conds: Vec<(Bo, String)> = vec![];
        let z = self.ts.c(0.0);
        while let Some(t) = st.pop() {
            if !seen.insert(t) { continue; }
            match self.ts.t[t as usize].clone() {
                T::C(b) => { if !f64::from_bits(b).is_finite() { let f = self.ts.bk(false); conds.push((f, "non-finite constant".into())); } }
                T::Var(_) => {}
                T::Bin(op, a, b) => { st.push(a); st.push(b); if op == FOp::Div || op == FOp::Rem { let c = self.ts.cmp(FPred::One, b, z); conds.push((c, "division by zero".into())); } }
                T::Neg(a) => st.push(a),
                T::Sqrt(a) => { st.push(a); let c = self.ts.cmp(FPred::Oge, a, z); conds.push((c, "sqrt of a negative".into())); }
                T::Fun(n, v) => {
                    for a in &v { st.push(*a); }
                    if n == "log" { let c = self.ts.cmp(FPred::Ogt, v[0], z); conds.push((c, "log of a non-positive".into())); }
                    if n == "pow" && self.ts.as_c(v[1]).map_or(true, |y| y.fract() != 0.0) { let c = self.ts.cmp(FPred::Oge, v[0], z); conds.push((c, "pow of a negative".into())); }
                    if n == "acos" || n == "asin" { let one = self.ts.c(1.0); let mone = self.ts.c(-1.0); let c1 = self.ts.cmp(FPred::Ole, v[0], one); let c2 = self.ts.cmp(FPred::Oge, v[0], mone); let c = self.ts.and(c1, c2); conds.push((c, format!("{} outside [-1,1]", n))); }
                }
            }
        }
        for (c, what) in conds {
            let before = self.obls.len();
            self.check_bool(id, c)?;
            for o in &mut self.obls[before..] { o.kind = "def".into(); o.detail = format!("{} {}", what, o.detail); }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- libc
    fn set_errno(&mut self, e: u64) { let a = self.errno_addr; self.mem.wr(a, e, 4); }
    fn fs_mutate(&mut self, what: String) -> X<()> {
        self.events.push(what);
        if self.fs_ops == self.crash_at { return Err(Stop::Panic("__crash__".into())); }
        self.fs_ops += 1;
        Ok(())
    }
    fn norm_path(p: &str) -> String { p.trim_start_matches("./").to_string() }
    fn parent_ok(&self, p: &str) -> bool { match p.rfind('/') { None => true, Some(k) => { let d = &p[..k]; d.is_empty() || self.dirs.contains(d) } } }
    fn libc(&mut self, fi: u32, a: &mut Vec<V>, ret: TyId) -> X<Option<V>> {
        let n = self.fname(fi).to_string();
        if self.trace && (n == "open64" || n == "rename" || n == "write" || n == "close" || n == "unlink") { eprintln!("[libc] {}", n); }
        macro_rules! ai { ($k:expr) => {{ let v = a[$k].clone(); self.ci(v)? }} }
        macro_rules! fail { ($e:expr) => {{ self.set_errno($e); return Ok(Some(V::I(mask(u64::MAX, self.bits(ret))))); }} }
        match n.as_str() {
            "malloc" => { let k = ai!(0); Ok(Some(V::I(self.mem.malloc(k, 16)))) }
            "calloc" => { let k = ai!(0) * ai!(1); let p = self.mem.malloc(k, 16); Ok(Some(V::I(p))) }
            "free" => Ok(Some(V::I(0))),
            "realloc" => { let p = ai!(0); let k = ai!(1); let q = self.mem.malloc(k, 16); if p != 0 { let o = self.mem.sizes.get(&p).copied().unwrap_or(0); self.mem.copy(q, p, o.min(k)).map_err(Stop::Unsupported)?; } Ok(Some(V::I(q))) }
            "posix_memalign" => { let al = ai!(1); let k = ai!(2); let q = self.mem.malloc(k, al); let p = ai!(0); self.mem.wr(p, q, 8); Ok(Some(V::I(0))) }
            "memcpy" | "memmove" => { let (d, s, l) = (ai!(0), ai!(1), ai!(2)); self.mem.copy(d, s, l).map_err(Stop::Unsupported)?; Ok(Some(V::I(d))) }
            "memset" => { let (d, x, l) = (ai!(0), ai!(1), ai!(2)); if l > 0 { self.mem.clear_sh(d, l); self.mem.b[d as usize..(d + l) as usize].fill(x as u8); } Ok(Some(V::I(d))) }
            "bcmp" | "memcmp" => {
                let (p, q, l) = (ai!(0), ai!(1), ai!(2));
                if self.mem.has_sh(p, l) || self.mem.has_sh(q, l) { return un("memcmp over symbolic data"); }
                let x = &self.mem.b[p as usize..(p + l) as usize]; let y = &self.mem.b[q as usize..(q + l) as usize];
                let r = match x.cmp(y) { std::cmp::Ordering::Less => -1i64, std::cmp::Ordering::Equal => 0, _ => 1 };
                Ok(Some(V::I(mask(r as u64, 32))))
            }
            "strlen" => { let p = ai!(0); Ok(Some(V::I(self.mem.cstr(p).len() as u64))) }
            "memchr" => { let (p, c, l) = (ai!(0), ai!(1), ai!(2)); let r = self.mem.b[p as usize..(p + l) as usize].iter().position(|x| *x == c as u8); Ok(Some(V::I(r.map_or(0, |k| p + k as u64)))) }
            "getenv" => Ok(Some(V::I(0))),
            "__errno_location" => Ok(Some(V::I(self.errno_addr))),
            "gettid" | "getpid" => Ok(Some(V::I(1))),
            "clock_gettime" => { self.clock += self.clock_step; let p = ai!(1); let c = self.clock; self.mem.wr(p, c / 1_000_000_000, 8); self.mem.wr(p + 8, c % 1_000_000_000, 8); Ok(Some(V::I(0))) }
            "getrandom" => { let (p, l) = (ai!(0), ai!(1)); self.mem.b[p as usize..(p + l) as usize].fill(0x5a); Ok(Some(V::I(l))) }
            "syscall" => { let k = ai!(0); if k == 318 { let (p, l) = (ai!(1), ai!(2)); self.mem.b[p as usize..(p + l) as usize].fill(0x5a); return Ok(Some(V::I(l))); } self.set_errno(38); Ok(Some(V::I(u64::MAX))) }
            "abort" => Err(Stop::Panic("abort".into())),
            "exit" | "_exit" => { let c = ai!(0); Err(Stop::Panic(format!("__exit__{}", c as i32))) }
            "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "atan2" | "sinh" | "cosh" | "tanh" | "exp" | "log" | "log10" | "log2" | "pow" | "cbrt" | "hypot" | "fmod" | "exp2" | "expm1" | "log1p" => self.mathfn(&n, a.clone()),
            "getcwd" => { let p = ai!(0); self.mem.b[p as usize..p as usize + 2].copy_from_slice(b"/\0"); Ok(Some(V::I(p))) }
            "open64" | "open" => {
                let p = ai!(0); let path = Self::norm_path(&self.mem.cstr(p)); let fl = ai!(1);
                let (creat, excl, trunc, append, acc) = (fl & 0o100 != 0, fl & 0o200 != 0, fl & 0o1000 != 0, fl & 0o2000 != 0, fl & 3);
                if self.dirs.contains(&path) { let fd = self.next_fd; self.next_fd += 1; self.fds.insert(fd, Fd { ino: usize::MAX, pos: 0, append: false, dir: true }); return Ok(Some(V::I(fd))); }
                let ex = self.names.get(&path).copied();
                let ino = match ex {
                    Some(i) => {
                        if creat && excl { fail!(17); }
                        if trunc && acc != 0 { self.fs_mutate(format!("truncate {}", path))?; self.inodes[i].data.clear(); self.inodes[i].sh.clear(); }
                        i
                    }
                    None => {
                        if !creat || !self.parent_ok(&path) { fail!(2); }
                        self.fs_mutate(format!("create {}", path))?;
                        self.inodes.push(INode::default());
                        let i = self.inodes.len() - 1;
                        self.names.insert(path.clone(), i);
                        i
                    }
                };
                let fd = self.next_fd; self.next_fd += 1;
                self.fds.insert(fd, Fd { ino, pos: 0, append, dir: false });
                Ok(Some(V::I(fd)))
            }
            "close" => { let fd = ai!(0); self.fds.remove(&fd); Ok(Some(V::I(0))) }
            "fsync" | "fdatasync" => Ok(Some(V::I(0))),
            "read" => {
                let fd = ai!(0); let (p, l) = (ai!(1), ai!(2));
                let f = match self.fds.get(&fd) { Some(f) if !f.dir => f.clone(), _ => fail!(9) };
                let ino = &self.inodes[f.ino];
                let end = ino.data.len().min(f.pos + l as usize);
                if f.pos >= end { return Ok(Some(V::I(0))); }
                let k = end - f.pos;
                let data = ino.data[f.pos..end].to_vec();
                let sh: Vec<(usize, Tm)> = ino.sh.range(f.pos..end).map(|(a, b)| (*a, *b)).collect();
                // avoid splitting a symbolic value across reads
                let mut k = k;
                if let Some((o, _)) = sh.last() { if o + 8 > end { k = o - f.pos; } }
                self.mem.check(p, k as u64).map_err(Stop::Unsupported)?;
                self.mem.clear_sh(p, k as u64);
                self.mem.b[p as usize..p as usize + k].copy_from_slice(&data[..k]);
                for (o, t) in sh { if o + 8 <= f.pos + k { self.mem.put_sh(p + (o - f.pos) as u64, t); } }
                self.fds.get_mut(&fd).unwrap().pos += k;
                Ok(Some(V::I(k as u64)))
            }
            "write" | "writev" => {
                let fd = ai!(0);
                if n == "writev" {
                    let (iov, cnt) = (ai!(1), ai!(2));
                    let mut tot = 0;
                    for i in 0..cnt { let p = self.mem.rd(iov + i * 16, 8); let l = self.mem.rd(iov + i * 16 + 8, 8); if fd > 2 { self.vwrite(fd, p, l)?; } tot += l; }
                    return Ok(Some(V::I(tot)));
                }
                let (p, l) = (ai!(1), ai!(2));
                if fd <= 2 { return Ok(Some(V::I(l))); }
                if !self.fds.contains_key(&fd) { fail!(9); }
                self.vwrite(fd, p, l)?;
                Ok(Some(V::I(l)))
            }
            "lseek64" | "lseek" => {
                let fd = ai!(0); let off = ai!(1) as i64; let wh = ai!(2);
                let f = match self.fds.get(&fd) { Some(f) => f.clone(), _ => fail!(29) };
                let len = self.inodes[f.ino].data.len() as i64;
                let np = match wh { 0 => off, 1 => f.pos as i64 + off, _ => len + off };
                if np < 0 { fail!(22); }
                self.fds.get_mut(&fd).unwrap().pos = np as usize;
                Ok(Some(V::I(np as u64)))
            }
            "ftruncate64" | "ftruncate" => {
                let fd = ai!(0); let l = ai!(1) as usize;
                let f = match self.fds.get(&fd) { Some(f) => f.clone(), _ => fail!(9) };
                self.fs_mutate(format!("ftruncate {}", l))?;
                let i = &mut self.inodes[f.ino]; i.data.resize(l, 0); i.sh.retain(|o, _| o + 8 <= l);
                Ok(Some(V::I(0)))
            }
            "rename" => {
                let p = ai!(0); let q = ai!(1); let (p, q) = (Self::norm_path(&self.mem.cstr(p)), Self::norm_path(&self.mem.cstr(q)));
                if !self.names.contains_key(&p) { fail!(2); }
                self.fs_mutate(format!("rename {} {}", p, q))?;
                let i = self.names.remove(&p).unwrap();
                self.names.insert(q, i);
                Ok(Some(V::I(0)))
            }
            "opendir" => {
                let p = ai!(0); let p = Self::norm_path(&self.mem.cstr(p)); let p = p.trim_end_matches('/').to_string();
                let here = p.is_empty() || p == ".";
                if !here && !self.dirs.contains(&p) { self.set_errno(2); return Ok(Some(V::I(0))); }
                let pre = if here { String::new() } else { format!("{}/", p) };
                let mut l: Vec<String> = self.names.keys().chain(self.dirs.iter()).filter_map(|x| x.strip_prefix(pre.as_str()).map(|y| y.to_string())).filter(|y| !y.is_empty() && !y.contains('/')).collect();
                l.sort(); l.reverse();
                let h = self.mem.malloc(320, 16);
                self.dirlists.insert(h, l);
                Ok(Some(V::I(h)))
            }
            "readdir64" => {
                let h = ai!(0);
                let x = match self.dirlists.get_mut(&h).and_then(|l| l.pop()) { Some(x) => x, None => return Ok(Some(V::I(0))) };
                self.mem.b[h as usize..h as usize + 280].fill(0);
                self.mem.wr(h, 1, 8); self.mem.wr(h + 16, 280, 2);
                self.mem.b[h as usize + 19..h as usize + 19 + x.len()].copy_from_slice(x.as_bytes());
                Ok(Some(V::I(h)))
            }
            "dirfd" => Ok(Some(V::I(999))),
            "closedir" => Ok(Some(V::I(0))),
            "unlink" => { let p = ai!(0); let p = Self::norm_path(&self.mem.cstr(p)); if !self.names.contains_key(&p) { fail!(2); } self.fs_mutate(format!("unlink {}", p))?; self.names.remove(&p); Ok(Some(V::I(0))) }
            "mkdir" => { let p = ai!(0); let p = Self::norm_path(&self.mem.cstr(p)).trim_end_matches('/').to_string(); if self.dirs.contains(&p) { fail!(17); } self.dirs.insert(p); Ok(Some(V::I(0))) }
            "stat64" | "lstat64" | "stat" => {
                let p = ai!(0); let p = Self::norm_path(&self.mem.cstr(p)); let b = ai!(1);
                self.do_stat(&p, b, None, ret)
            }
            "fstat64" | "fstat" => { let fd = ai!(0); let b = ai!(1); let f = match self.fds.get(&fd) { Some(f) => f.clone(), _ => fail!(9) }; self.do_stat("", b, Some(f), ret) }
            "statx" => {
                // statx(dirfd, path, flags, mask, buf)
                let p = ai!(1); let path = Self::norm_path(&self.mem.cstr(p)); let b = ai!(4);
                let (mode, size) = if path.is_empty() {
                    let fd = ai!(0);
                    match self.fds.get(&mask(fd, 32)) { Some(f) if f.dir => (0o040755u64, 0u64), Some(f) => (0o100644, self.inodes[f.ino].data.len() as u64), None => fail!(9) }
                } else if self.dirs.contains(path.trim_end_matches('/')) { (0o040755, 0) }
                else if let Some(i) = self.names.get(&path) { (0o100644, self.inodes[*i].data.len() as u64) } else { fail!(2) };
                self.mem.clear_sh(b, 256); self.mem.b[b as usize..b as usize + 256].fill(0);
                self.mem.wr(b, 0x17ff, 4); self.mem.wr(b + 4, 4096, 4); self.mem.wr(b + 16, 1, 4); self.mem.wr(b + 28, mode, 2); self.mem.wr(b + 32, 1, 8); self.mem.wr(b + 40, size, 8);
                Ok(Some(V::I(0)))
            }
            "__xpg_strerror_r" => { let b = ai!(1); self.mem.b[b as usize..b as usize + 4].copy_from_slice(b"err\0"); Ok(Some(V::I(0))) }
            "_Unwind_Backtrace" | "pthread_self" | "sigaltstack" | "mmap64" | "munmap" | "mprotect" => Ok(Some(V::I(0))),
            "access" => { let p = ai!(0); let p = Self::norm_path(&self.mem.cstr(p)); if self.names.contains_key(&p) || self.dirs.contains(&p) { Ok(Some(V::I(0))) } else { fail!(2) } }
            "isatty" => Ok(Some(V::I(0))),
            "__cxa_thread_atexit_impl" => Ok(Some(V::I(0))),
            _ => un(format!("external function {}", n)),
        }
    }
    fn do_stat(&mut self, p: &str, b: u64, f: Option<Fd>, ret: TyId) -> X<Option<V>> {
        let (mode, size) = if let Some(f) = f { if f.dir { (0o040755u64, 0u64) } else { (0o100644, self.inodes[f.ino].data.len() as u64) } }
        else if self.dirs.contains(p.trim_end_matches('/')) { (0o040755, 0) }
        else if let Some(i) = self.names.get(p) { (0o100644, self.inodes[*i].data.len() as u64) }
        else { self.set_errno(2); return Ok(Some(V::I(mask(u64::MAX, self.bits(ret))))); };
        self.mem.clear_sh(b, 144); self.mem.b[b as usize..b as usize + 144].fill(0);
        self.mem.wr(b + 24, mode, 4); self.mem.wr(b + 48, size, 8); self.mem.wr(b + 16, 1, 8);
        Ok(Some(V::I(0)))
    }
    fn vwrite(&mut self, fd: u64, p: u64, l: u64) -> X<()> {
        let f = self.fds[&fd].clone();
        let name = self.names.iter().find(|(_, i)| **i == f.ino).map(|(n, _)| n.clone()).unwrap_or_default();
        // torn write: when a crash is scheduled here, an arbitrary prefix (none, half) may have reached the file
        if self.fs_ops == self.crash_at && l > 0 {
            let part = self.choose("torn", 2)?;
            let k = if part == 0 { 0 } else { l / 2 / 8 * 8 };
            if k > 0 { let sh = self.mem.shadows(p, k); if sh.iter().all(|(x, _)| *x >= p && x + 8 <= p + k) { self.vwrite_raw(fd, p, k)?; } }
        }
        self.fs_mutate(format!("write {} {}", name, l))?;
        self.vwrite_raw(fd, p, l)
    }
    fn vwrite_raw(&mut self, fd: u64, p: u64, l: u64) -> X<()> {
        let f = self.fds[&fd].clone();
        let pos = if f.append { self.inodes[f.ino].data.len() } else { f.pos };
        let sh = self.mem.shadows(p, l);
        for (x, _) in &sh { if *x < p || x + 8 > p + l { return un("write splits a symbolic value"); } }
        let ino = &mut self.inodes[f.ino];
        if ino.data.len() < pos + l as usize { ino.data.resize(pos + l as usize, 0); }
        ino.data[pos..pos + l as usize].copy_from_slice(&self.mem.b[p as usize..(p + l) as usize]);
        let olds: Vec<usize> = ino.sh.range(pos.saturating_sub(7)..pos + l as usize).map(|(a, _)| *a).collect();
        for o in olds { ino.sh.remove(&o); }
        for (x, t) in sh { ino.sh.insert(pos + (x - p) as usize, t); }
        self.fds.get_mut(&fd).unwrap().pos = pos + l as usize;
        Ok(())
    }
}
fn ins_val(x: V, idx: &[u32], y: V) -> X<V> {
    if idx.is_empty() { return Ok(y); }
    match x {
        V::Agg(mut v) => { let k = idx[0] as usize; let e = v[k].clone(); let ne = ins_val(e, &idx[1..], y)?; Rc::make_mut(&mut v)[k] = ne; Ok(V::Agg(v)) }
        _ => un("insertvalue"),
    }
}
fn is_float_fmt(n: &str) -> bool {
    n.contains("4core3fmt5float") || n.contains("4core3fmtRdNtB6_5Debug3fmt") || n.contains("4core3fmtRdNtB6_7Display3fmt") || (n.contains("4core3fmt") && (n.contains("dNtB7_7Display3fmt") || n.contains("dNtB7_5Debug3fmt") || n.contains("dNtB5_7Display3fmt") || n.contains("dNtB5_5Debug3fmt") || n.contains("LowerExp")) && n.contains("float"))
}
/// deterministic generic value inside a variable's box
pub fn default_val(i: usize, v: &VarInfo) -> f64 {
    let mut h: u64 = 0x9e3779b97f4a7c15u64.wrapping_mul(i as u64 + 1);
    for c in v.name.bytes() { h = (h ^ c as u64).wrapping_mul(0x100000001b3); }
    h ^= h >> 29; h = h.wrapping_mul(0xbf58476d1ce4e5b9); h ^= h >> 32;
    let u = 0.2 + 0.6 * ((h >> 11) as f64 / (1u64 << 53) as f64);
    round_nice(v.lo + (v.hi - v.lo) * u)
}
pub fn round_nice(x: f64) -> f64 {
    // keep few significant bits so that exact arithmetic at the point stays cheap
    if x == 0.0 || !x.is_finite() { return x; }
    let e = x.abs().log2().floor() as i32 - 11;
    let s = 2f64.powi(e);
    (x / s).round() * s
}
#[allow(dead_code)]
fn _unused(o: &Op) -> bool { k_const(o).is_some() }
