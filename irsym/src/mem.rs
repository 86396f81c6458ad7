//! Flat concrete memory with a shadow map for symbolic 8-byte values.
use crate::term::Tm;
use std::collections::HashMap;

pub const MEM: usize = 3 << 30;
pub const STACK_TOP: u64 = (MEM as u64) - 4096;
pub const STACK_BOT: u64 = (MEM as u64) - (512 << 20);

pub struct Mem {
    pub b: Vec<u8>,
    pub sh: HashMap<u64, Tm>,
    pub bits: Vec<u64>, // one bit per 8-byte granule that may hold the start of a shadow value
    pub heap: u64,
    pub heap0: u64,
    pub sp: u64,
    pub sp_min: u64,
    pub sizes: HashMap<u64, u64>,
    /// single bytes of symbolic values that a copy has split (a buffered reader at the end of its buffer)
    pub fr: HashMap<u64, (Tm, u8)>,
}

impl Mem {
    pub fn new() -> Mem {
        Mem { b: vec![0u8; MEM], sh: HashMap::new(), bits: vec![0u64; MEM / 512], heap: 0, heap0: 0, sp: STACK_TOP, sp_min: STACK_TOP, sizes: HashMap::new(), fr: HashMap::new() }
    }
    pub fn reset(&mut self) {
        let (h0, h1) = (self.heap0 as usize, self.heap as usize);
        self.b[h0..h1].fill(0);
        let s = self.sp_min as usize;
        self.b[s..MEM].fill(0);
        for (a, _) in self.sh.drain() { let g = a >> 3; self.bits[(g >> 6) as usize] = 0; }
        self.heap = self.heap0;
        self.sp = STACK_TOP;
        self.sp_min = STACK_TOP;
        self.sizes.clear();
        self.fr.clear();
    }
    pub fn check(&self, a: u64, n: u64) -> Result<(), String> {
        if a < 0x1000 || a + n > MEM as u64 { return Err(format!("bad address {:#x}+{}", a, n)); }
        Ok(())
    }
    fn gran_any(&self, a: u64, n: u64) -> bool {
        let mut g = a.saturating_sub(7) >> 3;
        let e = (a + n.max(1) - 1) >> 3;
        while g <= e {
            let w = self.bits[(g >> 6) as usize];
            if w == 0 { g = ((g >> 6) + 1) << 6; continue; }
            if w >> (g & 63) & 1 == 1 { return true; }
            g += 1;
        }
        false
    }
    pub fn shadows(&self, a: u64, n: u64) -> Vec<(u64, Tm)> {
        // shadows whose start lies in [a-7, a+n)
        let mut out = vec![];
        if n == 0 { return out; }
        let mut g = a.saturating_sub(7) >> 3;
        let e = (a + n - 1) >> 3;
        while g <= e {
            let w = self.bits[(g >> 6) as usize];
            if w == 0 { g = ((g >> 6) + 1) << 6; continue; }
            if w >> (g & 63) & 1 == 1 {
                for k in 0..8 {
                    let x = g * 8 + k;
                    if x + 7 >= a && x < a + n { if let Some(t) = self.sh.get(&x) { out.push((x, *t)); } }
                }
            }
            g += 1;
        }
        out
    }
    /// forget shadows overlapping [a, a+n)
    pub fn clear_sh(&mut self, a: u64, n: u64) {
        if !self.fr.is_empty() { for x in a..a + n { if self.fr.is_empty() { break; } self.fr.remove(&x); } }
        if n == 0 || !self.gran_any(a, n) { return; }
        for (x, _) in self.shadows(a, n) { self.sh.remove(&x); }
    }
    pub fn put_sh(&mut self, a: u64, t: Tm) {
        self.clear_sh(a, 8);
        self.sh.insert(a, t);
        let g = a >> 3;
        self.bits[(g >> 6) as usize] |= 1 << (g & 63);
    }
    pub fn get_sh(&self, a: u64) -> Option<Tm> {
        let g = a >> 3;
        if self.bits[(g >> 6) as usize] >> (g & 63) & 1 == 0 { return None; }
        self.sh.get(&a).copied()
    }
    pub fn has_sh(&self, a: u64, n: u64) -> bool { if n > 0 && n <= 64 && !self.fr.is_empty() && (a..a + n).any(|x| self.fr.contains_key(&x)) { return true; } n > 0 && self.gran_any(a, n) && !self.shadows(a, n).is_empty() }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), String> {
        if n == 0 || d == s { return Ok(()); }
        self.check(d, n)?; self.check(s, n)?;
        let sh = if self.gran_any(s, n) { self.shadows(s, n) } else { vec![] };
        let mut fr: Vec<(u64, (Tm, u8))> = vec![];
        for (x, t) in &sh { if *x < s || x + 8 > s + n { for k in 0..8 { if x + k >= s && x + k < s + n { fr.push((x + k - s + d, (*t, k as u8))); } } } }
        if !self.fr.is_empty() { if n <= 4096 { for x in s..s + n { if let Some(v) = self.fr.get(&x) { fr.push((x - s + d, *v)); } } } else { for (x, v) in &self.fr { if *x >= s && *x < s + n { fr.push((x - s + d, *v)); } } } }
        self.b.copy_within(s as usize..(s + n) as usize, d as usize);
        self.clear_sh(d, n);
        for (x, t) in sh { if x >= s && x + 8 <= s + n { self.put_sh(x - s + d, t); } }
        for (x, v) in &fr { self.fr.insert(*x, *v); }
        for (x, (t, k)) in fr {
            let a = x - k as u64;
            if (0..8).all(|i| self.fr.get(&(a + i)) == Some(&(t, i as u8))) { for i in 0..8 { self.fr.remove(&(a + i)); } self.put_sh(a, t); }
        }
        Ok(())
    }
    pub fn rd(&self, a: u64, n: usize) -> u64 {
        let mut v = [0u8; 8];
        v[..n].copy_from_slice(&self.b[a as usize..a as usize + n]);
        u64::from_le_bytes(v)
    }
    pub fn wr(&mut self, a: u64, v: u64, n: usize) { self.b[a as usize..a as usize + n].copy_from_slice(&v.to_le_bytes()[..n]); }
    pub fn malloc(&mut self, n: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (self.heap + al - 1) / al * al;
        self.heap = a + n.max(1);
        if self.heap > STACK_BOT { panic!("symbolic heap exhausted"); }
        self.sizes.insert(a, n);
        a
    }
    pub fn cstr(&self, a: u64) -> String {
        let mut e = a as usize;
        while self.b[e] != 0 { e += 1; }
        String::from_utf8_lossy(&self.b[a as usize..e]).to_string()
    }
}
