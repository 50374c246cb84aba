//! Hash-consed bit-vector expressions with simplification, support sets, intervals and
//! vectorised evaluation.
use std::collections::HashMap;
use std::rc::Rc;

pub type N = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Not, Ite, ZExt, SExt, Extract, Concat, Tab,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Key { pub op: Op, pub w: u16, pub a: N, pub b: N, pub c: N, pub k: u128 }

#[derive(Clone, Copy, Debug)]
pub struct Node { pub key: Key, pub sup: u32, pub depth: u32, pub lo: u64, pub hi: u64 }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct VarInfo { pub path_idx: u32, pub w: u16, pub lo: u64, pub hi: u64 }

impl VarInfo {
    pub fn size(&self) -> u64 { (self.hi - self.lo).saturating_add(1) }
    pub fn enumerable(&self) -> bool { self.hi - self.lo < (1 << 21) }
}

pub struct Table { pub vals: Rc<Vec<u64>>, pub w: u16, pub lo: u64, pub hi: u64, pub base: u64 }

pub struct Exprs {
    pub nodes: Vec<Node>,
    map: HashMap<Key, N, Fx>,
    pub sups: Vec<Rc<Vec<u32>>>,
    supmap: HashMap<Rc<Vec<u32>>, u32>,
    supmerge: HashMap<(u32, u32), u32, Fx>,
    pub vars: Vec<VarInfo>,
    varmap: HashMap<VarInfo, u32>,
    pub tables: Vec<Table>,
    tabmap: HashMap<(Rc<Vec<u64>>, u16, u64), u32>,
    pub truths: HashMap<N, u32, Fx>,     // boolean single-variable node -> bitset id
    pub bits: Vec<Rc<BitSet>>,
    bitmap: HashMap<Rc<BitSet>, u32>,
    bitops: HashMap<(u32, u32, u8), u32, Fx>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct BitSet { pub n: u32, pub cnt: u32, pub w: Vec<u64> }

impl BitSet {
    pub fn get(&self, i: u64) -> bool { self.w[(i >> 6) as usize] >> (i & 63) & 1 == 1 }
    pub fn first(&self) -> Option<u64> {
        for (i, &x) in self.w.iter().enumerate() { if x != 0 { return Some(i as u64 * 64 + x.trailing_zeros() as u64); } }
        None
    }
    pub fn iter(&self) -> Vec<u64> {
        let mut v = Vec::with_capacity(self.cnt as usize);
        for (i, &x) in self.w.iter().enumerate() {
            let mut x = x;
            while x != 0 { v.push(i as u64 * 64 + x.trailing_zeros() as u64); x &= x - 1; }
        }
        v
    }
    /// Maximal runs [a, b] of set positions.
    pub fn runs(&self) -> Vec<(u64, u64)> {
        let mut r: Vec<(u64, u64)> = Vec::new();
        for i in self.iter() {
            if let Some(l) = r.last_mut() { if l.1 + 1 == i { l.1 = i; continue; } }
            r.push((i, i));
        }
        r
    }
}

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); self.write_u64(u64::from_le_bytes(x)); } }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
#[derive(Default, Clone, Copy)]
pub struct Fx;
impl std::hash::BuildHasher for Fx { type Hasher = FxH; fn build_hasher(&self) -> FxH { FxH(0) } }

pub fn mask64(w: u16) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn mask128(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sx(v: u64, w: u16) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }
pub fn sx128(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

/// Concrete semantics on up to 128 bits (division by zero handled by the caller; returns all ones / x).
pub fn conc(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask128(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx128(a, w), sx128(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        Op::SRem => { let (x, y) = (sx128(a, w), sx128(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let x = sx128(a, w); let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 }; (x >> s) as u128 }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128, Op::Ule => (a <= b) as u128,
        Op::Slt => (sx128(a, w) < sx128(b, w)) as u128, Op::Sle => (sx128(a, w) <= sx128(b, w)) as u128,
        _ => unreachable!(),
    }) & if is_cmp(op) { 1 } else { m }
}
pub fn is_cmp(op: Op) -> bool { matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) }
fn commut(op: Op) -> bool { matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) }

/// A sum: constant, single-variable terms (negated?) by variable, other terms.
#[derive(Default)]
struct Lin { c: u128, vars: Vec<(u32, Vec<(N, bool)>)>, multi: Vec<(N, bool)> }

impl Exprs {
    pub fn new() -> Self {
        let mut e = Exprs { nodes: vec![], map: HashMap::default(), sups: vec![Rc::new(vec![])], supmap: HashMap::new(), supmerge: HashMap::default(),
            vars: vec![], varmap: HashMap::new(), tables: vec![], tabmap: HashMap::new(), truths: HashMap::default(), bits: vec![], bitmap: HashMap::new(), bitops: HashMap::default() };
        e.supmap.insert(Rc::new(vec![]), 0);
        // node 0 is reserved ("concrete")
        e.nodes.push(Node { key: Key { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 }, sup: 0, depth: 0, lo: 0, hi: 0 });
        e
    }
    pub fn w(&self, n: N) -> u16 { self.nodes[n as usize].key.w }
    pub fn op(&self, n: N) -> Op { self.nodes[n as usize].key.op }
    pub fn key(&self, n: N) -> Key { self.nodes[n as usize].key }
    pub fn is_const(&self, n: N) -> Option<u128> { let k = &self.nodes[n as usize].key; if k.op == Op::Const { Some(k.k) } else { None } }
    pub fn lohi(&self, n: N) -> (u64, u64) { let x = &self.nodes[n as usize]; (x.lo, x.hi) }
    pub fn sup(&self, n: N) -> Rc<Vec<u32>> { self.sups[self.nodes[n as usize].sup as usize].clone() }
    pub fn supid(&self, n: N) -> u32 { self.nodes[n as usize].sup }
    /// The only variable this node depends on, if exactly one and enumerable.
    pub fn single(&self, n: N) -> Option<u32> {
        let s = &self.sups[self.nodes[n as usize].sup as usize];
        if s.len() == 1 && self.vars[s[0] as usize].enumerable() { Some(s[0]) } else { None }
    }

    fn merge_sup(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.supmerge.get(&k) { return r; }
        let mut v: Vec<u32> = self.sups[a as usize].iter().chain(self.sups[b as usize].iter()).cloned().collect();
        v.sort(); v.dedup();
        let r = self.intern_sup(v);
        self.supmerge.insert(k, r);
        r
    }
    fn intern_sup(&mut self, v: Vec<u32>) -> u32 {
        let v = Rc::new(v);
        if let Some(&r) = self.supmap.get(&v) { return r; }
        let r = self.sups.len() as u32;
        self.sups.push(v.clone());
        self.supmap.insert(v, r);
        r
    }

    fn add(&mut self, key: Key) -> N {
        if let Some(&n) = self.map.get(&key) { return n; }
        let mut sup = 0;
        match key.op {
            Op::Const => {}
            Op::Var => { sup = self.intern_sup(vec![key.k as u32]); }
            _ => { for x in [key.a, key.b, key.c] { if x != 0 { let s = self.nodes[x as usize].sup; sup = self.merge_sup(sup, s); } } }
        }
        let (lo, hi) = self.interval(&key);
        let mut depth = 0;
        if !matches!(key.op, Op::Const | Op::Var) { for x in [key.a, key.b, key.c] { if x != 0 { depth = depth.max(self.nodes[x as usize].depth + 1); } } }
        let id = self.nodes.len() as N;
        self.nodes.push(Node { key, sup, depth, lo, hi });
        self.map.insert(key, id);
        if depth > 10 && key.w <= 64 {
            // a deep function of one small variable becomes a table of its values
            if let Some(v) = self.single(id) {
                let vi = self.vars[v as usize];
                if vi.size() <= 4096 {
                    let col: Vec<u64> = (vi.lo..=vi.hi).collect();
                    if let Some(r) = self.eval_cols(id, &[(v, &col)], col.len()) {
                        let (_, vn) = self.var(vi.path_idx, vi.lo, vi.hi);
                        let t = self.table(r, key.w, vi.lo);
                        let n = self.mk_tab(vn, t);
                        self.map.insert(key, n);
                        return n;
                    }
                }
            }
        }
        id
    }

    fn interval(&self, k: &Key) -> (u64, u64) {
        let full = (0u64, mask64(k.w));
        let g = |n: N| self.lohi(n);
        if k.w > 64 { return (0, !0); }
        match k.op {
            Op::Const => (k.k as u64, k.k as u64),
            Op::Var => { let v = &self.vars[k.k as usize]; (v.lo, v.hi) }
            Op::Add => { let (a, b) = (g(k.a), g(k.b)); match (a.1.checked_add(b.1), a.0.checked_add(b.0)) { (Some(h), Some(l)) if h <= full.1 => (l, h), _ => {
                // both overflow (adding a negative constant)
                if k.w < 64 || true { let (l, h) = (a.0 as u128 + b.0 as u128, a.1 as u128 + b.1 as u128); let m = full.1 as u128 + 1; if l >= m && h < 2 * m { return ((l - m) as u64, (h - m) as u64); } }
                full } } }
            Op::Sub => { let (a, b) = (g(k.a), g(k.b)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { full } }
            Op::Mul => { let (a, b) = (g(k.a), g(k.b)); match a.1.checked_mul(b.1) { Some(h) if h <= full.1 => (a.0 * b.0, h), _ => full } }
            Op::UDiv => { let (a, b) = (g(k.a), g(k.b)); if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { full } }
            Op::URem => { let (a, b) = (g(k.a), g(k.b)); if b.0 > 0 { (0, a.1.min(b.1 - 1)) } else { full } }
            Op::And => { let (a, b) = (g(k.a), g(k.b)); (0, a.1.min(b.1)) }
            Op::Or => { let (a, b) = (g(k.a), g(k.b)); let h = a.1 | b.1; let m = if h == 0 { 0 } else { !0u64 >> h.leading_zeros() }; (a.0.max(b.0), m) }
            Op::Xor => { let (a, b) = (g(k.a), g(k.b)); let h = a.1 | b.1; (0, if h == 0 { 0 } else { !0u64 >> h.leading_zeros() }) }
            Op::LShr => { let (a, b) = (g(k.a), g(k.b)); if b.0 == b.1 && b.0 < 64 { (a.0 >> b.0, a.1 >> b.0) } else { (0, a.1) } }
            Op::Shl => { let (a, b) = (g(k.a), g(k.b)); if b.0 == b.1 && b.0 < 64 && a.1.leading_zeros() as u64 >= b.0 && (a.1 << b.0) <= full.1 { (a.0 << b.0, a.1 << b.0) } else { full } }
            Op::Ite => { let (a, b) = (g(k.b), g(k.c)); (a.0.min(b.0), a.1.max(b.1)) }
            Op::ZExt => g(k.a),
            Op::Extract => { let a = g(k.a); if self.w(k.a) <= 64 && k.k < 64 { let (l, h) = (a.0 >> k.k, a.1 >> k.k); if h <= full.1 { (l, h) } else { full } } else { full } }
            Op::Concat => { let (a, b) = (g(k.a), g(k.b)); let s = self.w(k.b); if s < 64 { ((a.0 << s) | b.0, (a.1 << s) | b.1) } else { full } }
            Op::SExt => { let a = g(k.a); let wa = self.w(k.a); if a.1 < 1u64 << (wa - 1) { a } else { full } }
            Op::Tab => { let t = &self.tables[k.k as usize]; (t.lo, t.hi) }
            _ => full,
        }
    }

    pub fn cn(&mut self, w: u16, v: u128) -> N { self.add(Key { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask128(w) }) }
    pub fn tru(&mut self) -> N { self.cn(1, 1) }
    pub fn fls(&mut self) -> N { self.cn(1, 0) }

    pub fn var(&mut self, path_idx: u32, lo: u64, hi: u64) -> (u32, N) {
        let w = (64 - hi.leading_zeros()).max(1) as u16;
        let vi = VarInfo { path_idx, w, lo, hi };
        let id = match self.varmap.get(&vi) { Some(&i) => i, None => { let i = self.vars.len() as u32; self.vars.push(vi); self.varmap.insert(vi, i); i } };
        (id, self.add(Key { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u128 }))
    }

    /// Table lookup: value vals[arg - base]; arguments outside the table are never feasible (entry 0).
    pub fn table(&mut self, vals: Vec<u64>, w: u16, base: u64) -> u32 {
        let vals = Rc::new(vals);
        if let Some(&i) = self.tabmap.get(&(vals.clone(), w, base)) { return i; }
        let i = self.tables.len() as u32;
        let lo = vals.iter().cloned().min().unwrap_or(0);
        let hi = vals.iter().cloned().max().unwrap_or(0);
        self.tables.push(Table { vals: vals.clone(), w, lo, hi, base });
        self.tabmap.insert((vals, w, base), i);
        i
    }
    pub fn mk_tab(&mut self, arg: N, t: u32) -> N {
        let tb = &self.tables[t as usize];
        let w = tb.w;
        if let Some(c) = self.is_const(arg) {
            let i = (c as u64).wrapping_sub(tb.base);
            let v = tb.vals.get(i as usize).cloned().unwrap_or(0);
            return self.cn(w, v as u128);
        }
        if tb.lo == tb.hi { let v = tb.lo; return self.cn(w, v as u128); }
        // out-of-range arguments read 0
        self.add(Key { op: Op::Tab, w, a: arg, b: 0, c: 0, k: t as u128 })
    }

    // ---------------------------------------------------------------- constructors
    pub fn not(&mut self, a: N) -> N {
        let k = self.key(a);
        match k.op {
            Op::Const => self.cn(1, 1 - (k.k & 1)),
            Op::Not => k.a,
            Op::Ult => self.bin(Op::Ule, k.b, k.a),
            Op::Ule => self.bin(Op::Ult, k.b, k.a),
            Op::Slt => self.bin(Op::Sle, k.b, k.a),
            Op::Sle => self.bin(Op::Slt, k.b, k.a),
            _ => self.add(Key { op: Op::Not, w: 1, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn and1(&mut self, a: N, b: N) -> N { self.bin(Op::And, a, b) }
    pub fn or1(&mut self, a: N, b: N) -> N { self.bin(Op::Or, a, b) }

    pub fn zext(&mut self, a: N, w: u16) -> N {
        let k = self.key(a);
        if k.w == w { return a; }
        debug_assert!(k.w < w);
        match k.op {
            Op::Const => self.cn(w, k.k),
            Op::ZExt => self.zext(k.a, w),
            Op::Ite if self.leafy(a) => { let (x, y) = (self.zext(k.b, w), self.zext(k.c, w)); self.ite(k.a, x, y) }
            _ => self.add(Key { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, a: N, w: u16) -> N {
        let k = self.key(a);
        if k.w == w { return a; }
        match k.op {
            Op::Const => self.cn(w, sx128(k.k, k.w) as u128),
            Op::Ite if self.leafy(a) => { let (x, y) = (self.sext(k.b, w), self.sext(k.c, w)); self.ite(k.a, x, y) }
            Op::ZExt => self.zext(k.a, w),
            _ => {
                if k.w <= 64 && self.lohi(a).1 < 1u64 << (k.w - 1) { return self.zext(a, w); }
                if k.w == 1 { let m = self.cn(w, !0); let z = self.cn(w, 0); return self.ite(a, m, z); }
                self.add(Key { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
            }
        }
    }
    /// An if-then-else whose two branches are constants.
    fn leafy(&self, a: N) -> bool { let k = self.key(a); k.op == Op::Ite && self.is_const(k.b).is_some() && self.is_const(k.c).is_some() }

    pub fn extract(&mut self, a: N, lo: u16, w: u16) -> N {
        let k = self.key(a);
        if lo == 0 && w == k.w { return a; }
        debug_assert!(lo + w <= k.w, "extract {} {} of {}", lo, w, k.w);
        match k.op {
            Op::Const => self.cn(w, k.k >> lo),
            Op::Extract => self.extract(k.a, lo + k.k as u16, w),
            Op::ZExt => {
                let wa = self.w(k.a);
                if lo >= wa { self.cn(w, 0) }
                else if lo + w <= wa { self.extract(k.a, lo, w) }
                else { let x = self.extract(k.a, lo, wa - lo); self.zext(x, w) }
            }
            Op::SExt => {
                let wa = self.w(k.a);
                if lo + w <= wa { self.extract(k.a, lo, w) }
                else if lo == 0 { self.sext(k.a, w) }
                else { self.add(Key { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 }) }
            }
            Op::Concat => {
                let wb = self.w(k.b);
                if lo + w <= wb { self.extract(k.b, lo, w) }
                else if lo >= wb { self.extract(k.a, lo - wb, w) }
                else { let l = self.extract(k.b, lo, wb - lo); let h = self.extract(k.a, 0, lo + w - wb); self.concat(h, l) }
            }
            Op::Ite if self.leafy(a) || k.w > 64 => { let (x, y) = (self.extract(k.b, lo, w), self.extract(k.c, lo, w)); self.ite(k.a, x, y) }
            Op::And | Op::Or | Op::Xor => { let (x, y) = (self.extract(k.a, lo, w), self.extract(k.b, lo, w)); self.bin(k.op, x, y) }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => { let (x, y) = (self.extract(k.a, 0, w), self.extract(k.b, 0, w)); self.bin(k.op, x, y) }
            Op::Tab if lo == 0 => {
                // narrow the table when all values fit
                let t = &self.tables[k.k as usize];
                let vals: Vec<u64> = t.vals.iter().map(|v| v & mask64(w)).collect(); let base = t.base;
                if vals.len() <= 65536 { let t2 = self.table(vals, w, base); return self.mk_tab(k.a, t2); }
                self.add(Key { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
            }
            Op::Tab => {
                let t = &self.tables[k.k as usize];
                let vals: Vec<u64> = t.vals.iter().map(|v| (v >> lo) & mask64(w)).collect(); let base = t.base;
                if vals.len() <= 65536 { let t2 = self.table(vals, w, base); return self.mk_tab(k.a, t2); }
                self.add(Key { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
            }
            _ => {
                if k.w <= 64 { let h = self.lohi(a).1; if lo < 64 && h >> lo == 0 { return self.cn(w, 0); } 
                    // the high part is known zero: narrow
                    let bits = (64 - h.leading_zeros()) as u16;
                    if bits < lo + w && bits > lo && k.op != Op::Var { let x = self.add(Key { op: Op::Extract, w: bits - lo, a, b: 0, c: 0, k: lo as u128 }); return self.zext(x, w); }
                }
                self.add(Key { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
            }
        }
    }
    pub fn concat(&mut self, h: N, l: N) -> N {
        let (kh, kl) = (self.key(h), self.key(l));
        let w = kh.w + kl.w;
        if let (Some(a), Some(b)) = (self.is_const(h), self.is_const(l)) { return self.cn(w, (a << kl.w) | b); }
        if self.is_const(h) == Some(0) { return self.zext(l, w); }
        // adjacent extracts of the same node
        if kh.op == Op::Extract && kl.op == Op::Extract && kh.a == kl.a && kh.k == kl.k + kl.w as u128 { return self.extract(kh.a, kl.k as u16, w); }
        if kh.op == Op::Extract && kh.a == l && kh.k == kl.w as u128 { return self.extract(l, 0, w); }
        if kh.op == Op::ZExt { let x = self.concat(kh.a, l); return self.zext(x, w); }
        if kl.op == Op::Concat {
            // re-associate so that adjacent extracts can meet: (h . a) . b
            let ka = self.key(kl.a);
            if kh.op == Op::Extract && ka.op == Op::Extract && kh.a == ka.a && kh.k == ka.k + ka.w as u128 { let x = self.concat(h, kl.a); return self.concat(x, kl.b); }
        }
        if kh.op == Op::Concat {
            let kb = self.key(kh.b);
            if kb.op == Op::Extract && kl.op == Op::Extract && kb.a == kl.a && kb.k == kl.k + kl.w as u128 { let x = self.concat(kh.b, l); return self.concat(kh.a, x); }
        }
        self.add(Key { op: Op::Concat, w, a: h, b: l, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: N, a: N, b: N) -> N {
        if a == b { return a; }
        if let Some(x) = self.is_const(c) { return if x == 1 { a } else { b }; }
        let kc = self.key(c);
        if kc.op == Op::Not { return self.ite(kc.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and1(n, b); }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or1(n, a); }
                _ => {}
            }
        }
        let (ka, kb) = (self.key(a), self.key(b));
        if ka.op == Op::Ite && ka.a == c { return self.ite(c, ka.b, b); }
        if kb.op == Op::Ite && kb.a == c { return self.ite(c, a, kb.c); }
        // ite(c, a, ite(d, a, y)) = ite(c|d, a, y)
        if kb.op == Op::Ite && kb.b == a { let o = self.or1(c, kb.a); return self.ite(o, a, kb.c); }
        self.add(Key { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }

    /// Segments from high to low of a node seen as a concatenation: (node or 0 for zero bits, width)
    fn parts(&self, a: N, out: &mut Vec<(N, u16)>) {
        let k = self.key(a);
        match k.op {
            Op::Concat => { self.parts(k.a, out); self.parts(k.b, out); }
            Op::ZExt => { let wa = self.w(k.a); out.push((0, k.w - wa)); self.parts(k.a, out); }
            Op::Const if k.k == 0 => out.push((0, k.w)),
            _ => out.push((a, k.w)),
        }
    }
    fn structured(&self, a: N) -> bool { matches!(self.op(a), Op::Concat | Op::ZExt) }

    /// a | b where no bit position is possibly non-zero in both: rebuild as a concatenation.
    fn disjoint_or(&mut self, a: N, b: N) -> Option<N> {
        if !(self.structured(a) || self.structured(b)) { return None; }
        let (mut pa, mut pb) = (vec![], vec![]);
        self.parts(a, &mut pa);
        self.parts(b, &mut pb);
        // quick feasibility: walk both from the low end
        let mut segs: Vec<(N, u16, u16)> = vec![]; // (node, lo, width), low to high
        let (mut i, mut j) = (pa.len(), pb.len());
        let (mut oa, mut ob) = (0u16, 0u16);
        while i > 0 && j > 0 {
            let (na, wa) = pa[i - 1]; let (nb, wb) = pb[j - 1];
            let t = (wa - oa).min(wb - ob);
            let za = na == 0 || (self.is_const(na).map(|c| (c >> oa) & mask128(t) == 0) == Some(true));
            let zb = nb == 0 || (self.is_const(nb).map(|c| (c >> ob) & mask128(t) == 0) == Some(true));
            if za { if zb { segs.push((0, 0, t)) } else { segs.push((nb, ob, t)) } }
            else if zb { segs.push((na, oa, t)) }
            else { return None; }
            oa += t; ob += t;
            if oa == wa { i -= 1; oa = 0; }
            if ob == wb { j -= 1; ob = 0; }
        }
        let mut r: Option<N> = None;
        for (n, lo, t) in segs {
            let x = if n == 0 { self.cn(t, 0) } else { self.extract(n, lo, t) };
            r = Some(match r { None => x, Some(l) => self.concat(x, l) });
        }
        r
    }

    /// The addends of a sum (modulo 2^w): constant, single-variable terms (by variable) and others. None: too long.
    fn lin(&mut self, n: N, neg: bool, l: &mut Lin) -> bool {
        let w = self.w(n);
        let mut st = vec![n];
        let mut left = 200;
        while let Some(n) = st.pop() {
            left -= 1;
            if left == 0 { return false; }
            let k = self.key(n);
            if k.op == Op::Const { l.c = if neg { l.c.wrapping_sub(k.k) } else { l.c.wrapping_add(k.k) } & mask128(w); continue; }
            match self.single(n) {
                Some(v) if self.vars[v as usize].size() <= 4096 => { match l.vars.iter_mut().find(|x| x.0 == v) { Some(x) => x.1.push((n, neg)), None => l.vars.push((v, vec![(n, neg)])) } }
                _ => if k.op == Op::Add { st.push(k.a); st.push(k.b); }
                    else if k.op == Op::Ite && self.leafy(n) && self.is_const(k.c) != Some(0) {
                        let (x, y) = (self.is_const(k.b).unwrap(), self.is_const(k.c).unwrap());
                        let (d, z) = (self.cn(w, x.wrapping_sub(y)), self.cn(w, 0));
                        let t = self.add(Key { op: Op::Ite, w, a: k.a, b: d, c: z, k: 0 });
                        st.push(t); st.push(k.c);
                    }
                    else if let Some(i) = l.multi.iter().position(|x| x.0 == n && x.1 != neg) { l.multi.swap_remove(i); }
                    else { l.multi.push((n, neg)); }
            }
        }
        true
    }
    /// The sum of the single-variable terms of each variable as one table; None if a term is subtracted.
    fn unlin(&mut self, l: Lin, w: u16) -> Option<N> {
        if l.multi.iter().any(|x| x.1) { return None; }
        let mut terms: Vec<N> = l.multi.iter().map(|x| x.0).collect();
        let mut c = l.c;
        for (v, ts) in l.vars {
            if ts.len() == 1 && !ts[0].1 { terms.push(ts[0].0); continue; }
            let vi = self.vars[v as usize];
            let col: Vec<u64> = (vi.lo..=vi.hi).collect();
            let mut sum = vec![0u64; col.len()];
            for (n, neg) in ts {
                let r = self.eval_cols(n, &[(v, &col)], col.len())?;
                for i in 0..col.len() { sum[i] = (if neg { sum[i].wrapping_sub(r[i]) } else { sum[i].wrapping_add(r[i]) }) & mask64(w); }
            }
            if sum.iter().all(|x| *x == sum[0]) { c = c.wrapping_add(sum[0] as u128) & mask128(w); continue; }
            let (_, vn) = self.var(vi.path_idx, vi.lo, vi.hi);
            if vi.w <= w && sum.iter().zip(col.iter()).all(|(x, y)| x == y) { terms.push(self.zext(vn, w)); continue; }
            let t = self.table(sum, w, vi.lo);
            terms.push(self.mk_tab(vn, t));
        }
        if terms.is_empty() { return Some(self.cn(w, c)); }
        terms.sort();
        let mut r = terms[0];
        for &t in &terms[1..] { let (x, y) = if r > t { (t, r) } else { (r, t) }; r = self.add(Key { op: Op::Add, w, a: x, b: y, c: 0, k: 0 }); }
        if c != 0 { let k = self.cn(w, c); r = self.add(Key { op: Op::Add, w, a: r, b: k, c: 0, k: 0 }); }
        Some(r)
    }
    /// A sum of a constant and terms of one small variable each.
    pub fn separate(&mut self, n: N) -> Option<(u64, Vec<(u32, N)>)> {
        let mut l = Lin::default();
        if !self.lin(n, false, &mut l) || !l.multi.is_empty() { return None; }
        Some((l.c as u64, l.vars.into_iter().flat_map(|(v, t)| t.into_iter().map(move |x| (v, x.0))).collect()))
    }
    /// a - b as a sum, where that needs no subtraction of anything but single-variable terms.
    pub fn diff(&mut self, a: N, b: N) -> Option<N> {
        let w = self.w(a);
        let mut l = Lin::default();
        if !self.lin(a, false, &mut l) || !self.lin(b, true, &mut l) { return None; }
        self.unlin(l, w)
    }
    /// The addends of a sum that cannot wrap around; None if it might.
    fn addends(&self, n: N, out: &mut Vec<N>) -> bool {
        let mut st = vec![n];
        while let Some(n) = st.pop() {
            let k = self.key(n);
            if k.op == Op::Add {
                let (x, y) = (self.lohi(k.a).1, self.lohi(k.b).1);
                match x.checked_add(y) { Some(h) if h <= mask64(k.w) => { st.push(k.a); st.push(k.b); } _ => return false }
            } else { out.push(n); }
            if out.len() > 5000 { return false; }
        }
        true
    }
    /// a is a sum without wrap-around of the addends of b and others: a >= b.
    fn contains_addends(&self, a: N, b: N) -> bool {
        let (mut x, mut y) = (vec![], vec![]);
        if !self.addends(a, &mut x) || !self.addends(b, &mut y) { return false; }
        let (mut cx, mut cy) = (0u128, 0u128);
        x.retain(|n| match self.is_const(*n) { Some(c) => { cx += c; false } None => true });
        y.retain(|n| match self.is_const(*n) { Some(c) => { cy += c; false } None => true });
        if cy > cx { return false; }
        x.sort(); y.sort();
        let mut i = 0;
        let mut rest: Vec<N> = vec![];
        for n in y {
            while i < x.len() && x[i] < n { i += 1; }
            if i < x.len() && x[i] == n { x.remove(i); continue; }
            rest.push(n);
        }
        // what is left: compare the sums of terms of one variable at every value
        let mut vars: Vec<u32> = vec![];
        for n in rest.iter() { match self.single(*n) { Some(v) if self.vars[v as usize].size() <= 4096 => vars.push(v), _ => return false } }
        vars.sort(); vars.dedup();
        for v in vars {
            let vi = self.vars[v as usize];
            let col: Vec<u64> = (vi.lo..=vi.hi).collect();
            let mut d = vec![0i128; col.len()];
            for (l, sign) in [(&x, 1i128), (&rest, -1)] {
                for n in l.iter() { if self.single(*n) == Some(v) { match self.eval_cols(*n, &[(v, &col)], col.len()) { Some(r) => for i in 0..d.len() { d[i] += sign * r[i] as i128; }, None => return false } } }
            }
            if d.iter().any(|x| *x < 0) { return false; }
        }
        true
    }
    pub fn bin(&mut self, op: Op, a: N, b: N) -> N {
        let (mut a, mut b) = (a, b);
        let w = self.w(a);
        debug_assert!(w == self.w(b), "width {:?} {} {}", op, w, self.w(b));
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            let r = conc(op, w, x, y);
            return self.cn(if is_cmp(op) { 1 } else { w }, r);
        }
        if commut(op) && (self.is_const(a).is_some() || (a > b && self.is_const(b).is_none())) { std::mem::swap(&mut a, &mut b); }
        let cb = self.is_const(b);
        let ca = self.is_const(a);
        let (ka, kb) = (self.key(a), self.key(b));
        let m = mask128(w);
        // distribute over an if-then-else with constant branches
        if let Some(_) = cb { if self.leafy(a) { let (x, y) = (self.bin(op, ka.b, b), self.bin(op, ka.c, b)); return self.ite(ka.a, x, y); } }
        if let Some(_) = ca { if self.leafy(b) { let (x, y) = (self.bin(op, a, kb.b), self.bin(op, a, kb.c)); return self.ite(kb.a, x, y); } }
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let Some(c2) = cb {
                    if ka.op == Op::Add { if let Some(c1) = self.is_const(ka.b) { let c = self.cn(w, c1.wrapping_add(c2)); return self.bin(Op::Add, ka.a, c); } }
                }
                if w == 1 { return self.bin(Op::Xor, a, b); }
                // (x + c) + y -> (x + y) + c
                if cb.is_none() {
                    if ka.op == Op::Add { if self.is_const(ka.b).is_some() { let x = self.bin(Op::Add, ka.a, b); return self.bin(Op::Add, x, ka.b); } }
                    if kb.op == Op::Add { if self.is_const(kb.b).is_some() { let x = self.bin(Op::Add, a, kb.a); return self.bin(Op::Add, x, kb.b); } }
                }
                // one term for each variable
                if cb.is_none() && w <= 64 && (self.single(a).is_none() || self.single(b).is_none()) && (ka.op == Op::Add || kb.op == Op::Add) {
                    let mut l = Lin::default();
                    if self.lin(a, false, &mut l) && self.lin(b, false, &mut l) && l.vars.iter().any(|x| x.1.len() > 1) { if let Some(r) = self.unlin(l, w) { return r; } }
                }
                if cb.is_none() { if let Some(r) = self.disjoint_or(a, b) { return r; } }
            }
            Op::Sub => {
                if a == b { return self.cn(w, 0); }
                if let Some(c) = cb { let c = self.cn(w, c.wrapping_neg()); return self.bin(Op::Add, a, c); }
                if ka.op == Op::Add { if ka.a == b { return ka.b; } if ka.b == b { return ka.a; } 
                    if kb.op == Op::Add && ka.a == kb.a { return self.bin(Op::Sub, ka.b, kb.b); } }
                // x - (x + c)
                if kb.op == Op::Add && kb.a == a { let z = self.cn(w, 0); return self.bin(Op::Sub, z, kb.b); }
            }
            Op::Mul => {
                if let Some(c) = cb { if c == 0 { return b; } if c == 1 { return a; }
                    if c.is_power_of_two() { let s = self.cn(w, c.trailing_zeros() as u128); return self.bin(Op::Shl, a, s); } }
            }
            Op::UDiv => { if let Some(c) = cb { if c == 1 { return a; } if c.is_power_of_two() { let s = self.cn(w, c.trailing_zeros() as u128); return self.bin(Op::LShr, a, s); } } }
            Op::URem => { if let Some(c) = cb { if c.is_power_of_two() { let s = self.cn(w, c - 1); return self.bin(Op::And, a, s); } if w <= 64 && (self.lohi(a).1 as u128) < c { return a; } } }
            Op::And => {
                if a == b { return a; }
                if let Some(c) = cb {
                    if c == 0 { return b; }
                    if c == m { return a; }
                    if ka.op == Op::And { if let Some(c1) = self.is_const(ka.b) { let c = self.cn(w, c1 & c); return self.bin(Op::And, ka.a, c); } }
                    if w <= 64 { let h = self.lohi(a).1 as u128; if h & !c == 0 && (h + 1).is_power_of_two() { return a; }
                        let hm = if h == 0 { 0 } else { (1u128 << (128 - h.leading_zeros())) - 1 }; if hm & !c == 0 { return a; } if hm & c == 0 { return self.cn(w, 0); } }
                    // split the mask into runs
                    if w > 1 {
                        let mut runs: Vec<(u16, u16, bool)> = vec![];
                        let mut i = 0;
                        while i < w { let bit = (c >> i) & 1; let mut j = i; while j < w && (c >> j) & 1 == bit { j += 1; } runs.push((i, j - i, bit == 1)); i = j; }
                        if runs.len() <= 3 || ka.op == Op::Concat {
                            let mut r: Option<N> = None;
                            for (lo, t, one) in runs { let x = if one { self.extract(a, lo, t) } else { self.cn(t, 0) }; r = Some(match r { None => x, Some(l) => self.concat(x, l) }); }
                            return r.unwrap();
                        }
                    }
                }
                if w == 1 {
                    let na = self.not(a); if na == b { return self.cn(1, 0); }
                    if kb.op == Op::And && (kb.a == a || kb.b == a) { return b; }
                    if ka.op == Op::And && (ka.a == b || ka.b == b) { return a; }
                }
            }
            Op::Or => {
                if a == b { return a; }
                if let Some(c) = cb { if c == 0 { return a; } if c == m { return b; } 
                    if ka.op == Op::Or { if let Some(c1) = self.is_const(ka.b) { let c = self.cn(w, c1 | c); return self.bin(Op::Or, ka.a, c); } } }
                if w == 1 {
                    let na = self.not(a); if na == b { return self.cn(1, 1); }
                    if kb.op == Op::Or && (kb.a == a || kb.b == a) { return b; }
                    if ka.op == Op::Or && (ka.a == b || ka.b == b) { return a; }
                }
                if w > 1 { if let Some(r) = self.disjoint_or(a, b) { return r; } }
                if let Some(c) = cb { if w > 1 && self.structured(a) {
                    // set bits: split into parts
                    let mut p = vec![]; self.parts(a, &mut p);
                    let mut lo = 0u16; let mut r: Option<N> = None;
                    for (n, t) in p.into_iter().rev() {
                        let cc = self.cn(t, c >> lo);
                        let x = if n == 0 { cc } else { self.bin(Op::Or, n, cc) };
                        r = Some(match r { None => x, Some(l) => self.concat(x, l) });
                        lo += t;
                    }
                    return r.unwrap();
                } }
            }
            Op::Xor => {
                if a == b { return self.cn(w, 0); }
                if let Some(c) = cb { if c == 0 { return a; } if w == 1 && c == 1 { return self.not(a); }
                    if ka.op == Op::Xor { if let Some(c1) = self.is_const(ka.b) { let c = self.cn(w, c1 ^ c); return self.bin(Op::Xor, ka.a, c); } } }
                if w == 1 && cb.is_none() { let e = self.bin(Op::Eq, a, b); return self.not(e); }
                if w > 1 && cb.is_none() { if let Some(r) = self.disjoint_or(a, b) { return r; } }
            }
            Op::Shl => {
                if let Some(c) = cb { if c == 0 { return a; } if c >= w as u128 { return self.cn(w, 0); }
                    let x = self.extract(a, 0, w - c as u16); let z = self.cn(c as u16, 0); return self.concat(x, z); }
            }
            Op::LShr => {
                if let Some(c) = cb { if c == 0 { return a; } if c >= w as u128 { return self.cn(w, 0); }
                    let x = self.extract(a, c as u16, w - c as u16); return self.zext(x, w); }
            }
            Op::AShr => {
                if let Some(c) = cb { if c == 0 { return a; } let c = c.min(w as u128 - 1);
                    let x = self.extract(a, c as u16, w - c as u16); return self.sext(x, w); }
            }
            Op::Eq => {
                if a == b { return self.cn(1, 1); }
                if w > 1 && w <= 64 && cb.is_none() && (ka.op == Op::Add || kb.op == Op::Add) && self.supid(a) != 0 && self.sup(a).len() > 1 {
                    let mut l = Lin::default();
                    if self.lin(a, false, &mut l) && self.lin(b, true, &mut l) && (l.multi.is_empty() || l.multi.iter().all(|x| !x.1) || l.multi.iter().all(|x| x.1)) {
                        if l.multi.iter().any(|x| x.1) { for x in l.multi.iter_mut() { x.1 = !x.1; } for v in l.vars.iter_mut() { for x in v.1.iter_mut() { x.1 = !x.1; } } l.c = l.c.wrapping_neg() & mask128(w); }
                        if let Some(d) = self.unlin(l, w) {
                            if self.is_const(d).is_some() || self.single(d).is_some() { let z = self.cn(w, 0); return self.bin(Op::Eq, d, z); }
                        }
                    }
                }
                if w == 1 { if let Some(c) = cb { return if c == 1 { a } else { self.not(a) }; } }
                if w <= 64 { let (x, y) = (self.lohi(a), self.lohi(b)); if x.1 < y.0 || y.1 < x.0 { return self.cn(1, 0); } }
                if let Some(c) = cb {
                    match ka.op {
                        Op::ZExt => { let wa = self.w(ka.a); if c >> wa != 0 { return self.cn(1, 0); } let c = self.cn(wa, c); return self.bin(Op::Eq, ka.a, c); }
                        Op::SExt => { let wa = self.w(ka.a); if sx128(c & mask128(wa), wa) as u128 & m != c { return self.cn(1, 0); } let c = self.cn(wa, c); return self.bin(Op::Eq, ka.a, c); }
                        Op::Concat => { let wb = self.w(ka.b); let wa = w - wb; let (ch, cl) = (self.cn(wa, c >> wb), self.cn(wb, c)); let (x, y) = (self.bin(Op::Eq, ka.a, ch), self.bin(Op::Eq, ka.b, cl)); return self.and1(x, y); }
                        Op::Add => if let Some(c1) = self.is_const(ka.b) { let c = self.cn(w, c.wrapping_sub(c1)); return self.bin(Op::Eq, ka.a, c); },
                        Op::Xor => if let Some(c1) = self.is_const(ka.b) { let c = self.cn(w, c ^ c1); return self.bin(Op::Eq, ka.a, c); },
                        Op::Or if c == 0 => { let z = self.cn(w, 0); let (x, y) = (self.bin(Op::Eq, ka.a, z), self.bin(Op::Eq, ka.b, z)); return self.and1(x, y); }
                        Op::Ite if self.is_const(ka.b).is_some() || self.is_const(ka.c).is_some() => { let (x, y) = (self.bin(Op::Eq, ka.b, b), self.bin(Op::Eq, ka.c, b)); return self.ite(ka.a, x, y); }
                        Op::Sub if c == 0 => return self.bin(Op::Eq, ka.a, ka.b),
                        _ => {}
                    }
                } else {
                    if ka.op == Op::ZExt && kb.op == Op::ZExt && self.w(ka.a) == self.w(kb.a) { return self.bin(Op::Eq, ka.a, kb.a); }
                    if ka.op == Op::Add && kb.op == Op::Add && ka.b == kb.b { return self.bin(Op::Eq, ka.a, kb.a); }
                    if ka.op == Op::Add && ka.a == b { let z = self.cn(w, 0); return self.bin(Op::Eq, ka.b, z); }
                    if kb.op == Op::Add && kb.a == a { let z = self.cn(w, 0); return self.bin(Op::Eq, kb.b, z); }
                    if ka.op == Op::Concat && kb.op == Op::Concat && self.w(ka.a) == self.w(kb.a) { let (x, y) = (self.bin(Op::Eq, ka.a, kb.a), self.bin(Op::Eq, ka.b, kb.b)); return self.and1(x, y); }
                    if ka.op == Op::Concat && kb.op == Op::ZExt || ka.op == Op::ZExt && kb.op == Op::Concat {
                        let (cc, zz) = if ka.op == Op::Concat { (a, b) } else { (b, a) };
                        let kc = self.key(cc); let wl = self.w(kc.b); let wh = w - wl;
                        let (x, y) = (self.extract(zz, wl, wh), self.extract(zz, 0, wl));
                        let (p, q) = (self.bin(Op::Eq, kc.a, x), self.bin(Op::Eq, kc.b, y));
                        return self.and1(p, q);
                    }
                }
            }
            Op::Ult if ka.op == Op::Add && w <= 64 && cb.is_none() && self.contains_addends(a, b) => { return self.fls(); }
            Op::Ult | Op::Ule => {
                if a == b { return self.cn(1, (op == Op::Ule) as u128); }
                if w <= 64 {
                    let (x, y) = (self.lohi(a), self.lohi(b));
                    if op == Op::Ult { if x.1 < y.0 { return self.cn(1, 1); } if x.0 >= y.1 { return self.cn(1, 0); } }
                    else { if x.1 <= y.0 { return self.cn(1, 1); } if x.0 > y.1 { return self.cn(1, 0); } }
                    // strengthen to equality
                    if op == Op::Ult && cb == Some(1) { let z = self.cn(w, 0); return self.bin(Op::Eq, a, z); }
                    if op == Op::Ule && cb == Some(0) { return self.bin(Op::Eq, a, b); }
                    if op == Op::Ult && ca == Some(0) { let e = self.bin(Op::Eq, a, b); return self.not(e); }
                    if let Some(c) = cb { if ka.op == Op::ZExt { let wa = self.w(ka.a); if c <= mask128(wa) { let c = self.cn(wa, c); return self.bin(op, ka.a, c); } } }
                    if let Some(c) = ca { if kb.op == Op::ZExt { let wb = self.w(kb.a); if c <= mask128(wb) { let c = self.cn(wb, c); return self.bin(op, c, kb.a); } } }
                    if ka.op == Op::ZExt && kb.op == Op::ZExt && self.w(ka.a) == self.w(kb.a) { return self.bin(op, ka.a, kb.a); }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.cn(1, (op == Op::Sle) as u128); }
                if w <= 64 {
                    let s = 1u64 << (w - 1);
                    let (x, y) = (self.lohi(a), self.lohi(b));
                    if x.1 < s && y.1 < s { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
                    if x.0 >= s && y.1 < s { return self.cn(1, 1); }
                    if x.1 < s && y.0 >= s { return self.cn(1, 0); }
                    if x.0 >= s && y.0 >= s { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
                    // sign test
                    if op == Op::Slt && cb == Some(0) { return self.extract(a, w - 1, 1); }
                    if op == Op::Slt && ca == Some(m) { let e = self.extract(b, w - 1, 1); return self.not(e); }
                    if op == Op::Sle && cb == Some(m) { return self.extract(a, w - 1, 1); }
                    if op == Op::Sle && ca == Some(0) { let e = self.extract(b, w - 1, 1); return self.not(e); }
                }
            }
            _ => {}
        }
        self.add(Key { op, w: if is_cmp(op) { 1 } else { w }, a, b, c: 0, k: 0 })
    }

    // ---------------------------------------------------------------- evaluation
    fn topo(&self, root: N) -> Vec<N> {
        // iterative post-order
        let mut seen: HashMap<N, (), Fx> = HashMap::default();
        let mut out = vec![];
        let mut st = vec![(root, false)];
        while let Some((n, done)) = st.pop() {
            if done { out.push(n); continue; }
            if seen.contains_key(&n) { continue; }
            seen.insert(n, ());
            st.push((n, true));
            let k = self.key(n);
            if !matches!(k.op, Op::Const | Op::Var) { for x in [k.a, k.b, k.c] { if x != 0 && !seen.contains_key(&x) { st.push((x, false)); } } }
        }
        out
    }

    /// Evaluate under columns of variable values (all of the same length).
    pub fn eval_cols(&self, root: N, cols: &[(u32, &[u64])], len: usize) -> Option<Vec<u64>> {
        let order = self.topo(root);
        let mut val: HashMap<N, Vec<u64>, Fx> = HashMap::default();
        for &n in &order {
            let k = self.key(n);
            if k.w > 64 { return self.eval_slow(root, cols, len); }
            let g = |x: N| -> &Vec<u64> { &val[&x] };
            let wa = if k.a != 0 { self.w(k.a) } else { 0 };
            let m = mask64(k.w);
            let mut r: Vec<u64> = Vec::with_capacity(len);
            macro_rules! b { ($f:expr) => {{ let (x, y) = (g(k.a), g(k.b)); for i in 0..len { r.push($f(x[i], y[i])); } }} }
            match k.op {
                Op::Const => r.resize(len, k.k as u64),
                Op::Var => { let c = cols.iter().find(|c| c.0 == k.k as u32)?; r.extend_from_slice(c.1); }
                Op::Add => b!(|x: u64, y: u64| x.wrapping_add(y) & m),
                Op::Sub => b!(|x: u64, y: u64| x.wrapping_sub(y) & m),
                Op::And => b!(|x, y| x & y),
                Op::Or => b!(|x, y| x | y),
                Op::Xor => b!(|x, y| x ^ y),
                Op::Eq => b!(|x, y| (x == y) as u64),
                Op::Ult => b!(|x, y| (x < y) as u64),
                Op::Ule => b!(|x, y| (x <= y) as u64),
                Op::Slt => b!(|x, y| (sx(x, wa) < sx(y, wa)) as u64),
                Op::Sle => b!(|x, y| (sx(x, wa) <= sx(y, wa)) as u64),
                Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr => b!(|x: u64, y: u64| conc(k.op, k.w, x as u128, y as u128) as u64),
                Op::Not => { let x = g(k.a); for i in 0..len { r.push(1 - x[i]); } }
                Op::Ite => { let (c, x, y) = (g(k.a), g(k.b), g(k.c)); for i in 0..len { r.push(if c[i] != 0 { x[i] } else { y[i] }); } }
                Op::ZExt => r.extend_from_slice(g(k.a)),
                Op::SExt => { let x = g(k.a); for i in 0..len { r.push(sx(x[i], wa) as u64 & m); } }
                Op::Extract => { let x = g(k.a); for i in 0..len { r.push((x[i] >> k.k) & m); } }
                Op::Concat => { let (x, y) = (g(k.a), g(k.b)); let s = self.w(k.b); for i in 0..len { r.push((x[i] << s) | y[i]); } }
                Op::Tab => { let x = g(k.a); let t = &self.tables[k.k as usize]; for i in 0..len { r.push(t.vals.get(x[i].wrapping_sub(t.base) as usize).cloned().unwrap_or(0)); } }
            }
            val.insert(n, r);
        }
        val.remove(&root)
    }
    fn eval_slow(&self, root: N, cols: &[(u32, &[u64])], len: usize) -> Option<Vec<u64>> {
        if self.w(root) > 64 { return None; }
        let mut r = Vec::with_capacity(len);
        let order = self.topo(root);
        for i in 0..len {
            let f = |v: u32| cols.iter().find(|c| c.0 == v).map(|c| c.1[i]);
            r.push(self.eval_order(&order, &f)? as u64);
        }
        Some(r)
    }
    fn eval_order(&self, order: &[N], f: &dyn Fn(u32) -> Option<u64>) -> Option<u128> {
        let mut val: HashMap<N, u128, Fx> = HashMap::default();
        let mut last = 0;
        for &n in order {
            let k = self.key(n);
            let g = |x: N| val[&x];
            last = match k.op {
                Op::Const => k.k,
                Op::Var => f(k.k as u32)? as u128,
                Op::Not => 1 - g(k.a),
                Op::Ite => if g(k.a) != 0 { g(k.b) } else { g(k.c) },
                Op::ZExt => g(k.a),
                Op::SExt => sx128(g(k.a), self.w(k.a)) as u128 & mask128(k.w),
                Op::Extract => (g(k.a) >> k.k) & mask128(k.w),
                Op::Concat => (g(k.a) << self.w(k.b)) | g(k.b),
                Op::Tab => { let t = &self.tables[k.k as usize]; t.vals.get((g(k.a) as u64).wrapping_sub(t.base) as usize).cloned().unwrap_or(0) as u128 }
                op => conc(op, self.w(k.a), g(k.a), g(k.b)),
            };
            val.insert(n, last);
        }
        Some(last)
    }
    /// Evaluate under one assignment.
    pub fn eval(&self, root: N, f: &dyn Fn(u32) -> Option<u64>) -> Option<u128> {
        let order = self.topo(root);
        self.eval_order(&order, f)
    }

    // ---------------------------------------------------------------- truth sets
    pub fn intern_bits(&mut self, n: u32, w: Vec<u64>) -> u32 {
        let cnt = w.iter().map(|x| x.count_ones()).sum();
        let b = Rc::new(BitSet { n, cnt, w });
        if let Some(&i) = self.bitmap.get(&b) { return i; }
        let i = self.bits.len() as u32;
        self.bits.push(b.clone());
        self.bitmap.insert(b, i);
        i
    }
    pub fn full_bits(&mut self, n: u64) -> u32 {
        let mut w = vec![!0u64; ((n + 63) / 64) as usize];
        if n % 64 != 0 { *w.last_mut().unwrap() = (1u64 << (n % 64)) - 1; }
        self.intern_bits(n as u32, w)
    }
    /// dom & truth (neg=0) or dom & !truth (neg=1)
    pub fn bits_and(&mut self, a: u32, b: u32, neg: bool) -> u32 {
        let k = (a, b, neg as u8);
        if let Some(&r) = self.bitops.get(&k) { return r; }
        let (x, y) = (self.bits[a as usize].clone(), self.bits[b as usize].clone());
        let w: Vec<u64> = x.w.iter().zip(y.w.iter()).map(|(p, q)| p & if neg { !q } else { *q }).collect();
        let r = self.intern_bits(x.n, w);
        self.bitops.insert(k, r);
        r
    }
    /// The set of values of the single variable of `n` (a boolean) that make it true.
    pub fn truth(&mut self, n: N) -> Option<(u32, u32)> {
        let v = self.single(n)?;
        if let Some(&t) = self.truths.get(&n) { return Some((v, t)); }
        let vi = self.vars[v as usize];
        let size = vi.size();
        let mut w = vec![0u64; ((size + 63) / 64) as usize];
        let mut s = 0u64;
        while s < size {
            let e = (s + 8192).min(size);
            let col: Vec<u64> = (s..e).map(|i| i + vi.lo).collect();
            let r = self.eval_cols(n, &[(v, &col)], col.len())?;
            for (i, x) in r.iter().enumerate() { if *x != 0 { let p = s + i as u64; w[(p >> 6) as usize] |= 1 << (p & 63); } }
            s = e;
        }
        let t = self.intern_bits(size as u32, w);
        self.truths.insert(n, t);
        Some((v, t))
    }

    /// Rebuild a node from (new) operands with the simplifying constructors.
    pub fn mk(&mut self, k: Key) -> N {
        match k.op {
            Op::Const | Op::Var => self.add(k),
            Op::Not => self.not(k.a),
            Op::Ite => self.ite(k.a, k.b, k.c),
            Op::ZExt => self.zext(k.a, k.w),
            Op::SExt => self.sext(k.a, k.w),
            Op::Extract => self.extract(k.a, k.k as u16, k.w),
            Op::Concat => self.concat(k.a, k.b),
            Op::Tab => self.mk_tab(k.a, k.k as u32),
            op => self.bin(op, k.a, k.b),
        }
    }
    /// Replace sub-nodes.
    pub fn replace(&mut self, root: N, map: &HashMap<N, N, Fx>) -> N {
        let order = self.topo(root);
        let mut m: HashMap<N, N, Fx> = map.clone();
        for n in order {
            if m.contains_key(&n) { continue; }
            let mut k = self.key(n);
            if matches!(k.op, Op::Const | Op::Var) { m.insert(n, n); continue; }
            let g = |x: N| if x == 0 { 0 } else { m[&x] };
            let (a, b, c) = (g(k.a), g(k.b), g(k.c));
            let r = if (a, b, c) == (k.a, k.b, k.c) { n } else { k.a = a; k.b = b; k.c = c; self.mk(k) };
            m.insert(n, r);
        }
        m[&root]
    }
    /// Some if-then-else node inside `n` (outermost first).
    pub fn find_ite(&self, n: N) -> Vec<N> {
        let mut o = self.topo(n); o.reverse();
        o.into_iter().filter(|x| self.op(*x) == Op::Ite).map(|x| self.key(x).a).collect()
    }
    pub fn size(&self, n: N) -> usize { self.topo(n).len() }
    pub fn depth(&self, n: N) -> u32 { self.nodes[n as usize].depth }
    pub fn show(&self, n: N, depth: usize) -> String {
        let k = self.key(n);
        match k.op {
            Op::Const => format!("{}:{}", k.k, k.w),
            Op::Var => format!("v{}", self.vars[k.k as usize].path_idx),
            _ if depth == 0 => format!("#{}", n),
            Op::Extract => format!("{}[{}..{}]", self.show(k.a, depth - 1), k.k, k.k + k.w as u128),
            _ => { let mut s = format!("{:?}:{}(", k.op, k.w); for x in [k.a, k.b, k.c] { if x != 0 { s += &self.show(x, depth - 1); s += ","; } } s + ")" }
        }
    }
}
