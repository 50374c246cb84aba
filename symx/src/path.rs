//! Path conditions: a domain per enumerable variable, a list of multi-variable constraints, and a model.
use crate::expr::*;
use crate::z3::{Res, Z3};
use crate::mem::V;
use std::collections::HashMap;
use std::rc::Rc;

pub const NODOM: u32 = u32::MAX;

#[derive(Clone, Default)]
pub struct Path {
    pub vars: Vec<u32>,      // variable ids in creation order
    pub dom: Vec<u32>,       // domain bitset or NODOM
    pub model: Vec<u64>,     // satisfies the path condition
    pub kind: Vec<u8>,       // 0 input, 1 schedule, 2 environment
    pub multi: Rc<Vec<N>>,
    pub in_multi: Vec<bool>,
    pub nsingle: u32,
}

pub struct Solver {
    pub e: Exprs,
    pub z3: Z3,
    cache: HashMap<Vec<u32>, (bool, Vec<(u32, u64)>)>,
    pub dom_decisions: u64,
    pub cache_hits: u64,
    pub audit: u64, // ask z3 too for every audit-th new domain decision (0: never)
    audited: HashMap<(N, u32), ()>,
    pub audits: u64,
    pub audit_mismatch: u64,
    pub unknown: bool,
    pub dump_dir: Option<String>,
    pub dumped: u64,
}

pub type Upd = Vec<(u32, u64)>; // (path index, value)

impl Solver {
    pub fn new(timeout: u32) -> Solver { Solver { e: Exprs::new(), z3: Z3::new(timeout), cache: HashMap::new(), dom_decisions: 0, cache_hits: 0, audit: 0, audited: HashMap::new(), audits: 0, audit_mismatch: 0, unknown: false, dump_dir: None, dumped: 0 } }

    pub fn new_var(&mut self, p: &mut Path, lo: u64, hi: u64, kind: u8) -> N {
        let idx = p.vars.len() as u32;
        let (id, n) = self.e.var(idx, lo, hi);
        let vi = self.e.vars[id as usize];
        p.vars.push(id);
        p.dom.push(if vi.enumerable() { self.e.full_bits(vi.size()) } else { NODOM });
        p.model.push(lo);
        p.kind.push(kind);
        p.in_multi.push(false);
        if lo == hi { p.nsingle += 1; }
        n
    }
    fn pidx(&self, v: u32) -> usize { self.e.vars[v as usize].path_idx as usize }
    pub fn eval_model(&self, p: &Path, n: N) -> u128 { self.e.eval(n, &|v| Some(p.model[self.e.vars[v as usize].path_idx as usize])).expect("eval") }
    pub fn singleton(&self, p: &Path, v: u32) -> Option<u64> {
        let i = self.pidx(v);
        let d = p.dom[i];
        if d == NODOM { return None; }
        let b = &self.e.bits[d as usize];
        if b.cnt == 1 { Some(p.model[i]) } else { None }
    }
    /// Substitute the variables that have only one value left.
    pub fn partial(&mut self, p: &Path, n: N) -> N {
        if p.nsingle == 0 { return n; }
        let sup = self.e.sup(n);
        let mut any = 0;
        for &v in sup.iter() { if self.singleton(p, v).is_some() { any += 1; } }
        if any == 0 { return n; }
        if any == sup.len() { let w = self.e.w(n); let c = self.eval_model(p, n); return self.e.cn(w, c); }
        let mut map: HashMap<N, N, Fx> = HashMap::default();
        for &v in sup.iter() { if let Some(x) = self.singleton(p, v) { let vi = self.e.vars[v as usize]; let (_, vn) = self.e.var(vi.path_idx, vi.lo, vi.hi); let c = self.e.cn(vi.w, x as u128); map.insert(vn, c); } }
        self.e.replace(n, &map)
    }
    pub fn simp(&mut self, p: &Path, v: V) -> V {
        if v.e == 0 || p.nsingle == 0 { return v; }
        let n = self.partial(p, v.e);
        self.v(n)
    }
    pub fn v(&self, n: N) -> V {
        if let Some(c) = self.e.is_const(n) { if self.e.w(n) <= 64 { return V { c: c as u64, e: 0 }; } }
        V { c: 0, e: n }
    }

    fn slice(&self, p: &Path, conds: &[N]) -> (Vec<N>, Vec<u32>) {
        let mut vars: Vec<u32> = vec![];
        for c in conds { for v in self.e.sup(*c).iter() { if !vars.contains(v) { vars.push(*v); } } }
        let mut used = vec![false; p.multi.len()];
        let mut cs = vec![];
        loop {
            let mut ch = false;
            for (i, &m) in p.multi.iter().enumerate() {
                if used[i] { continue; }
                let s = self.e.sup(m);
                if s.iter().any(|v| vars.contains(v)) {
                    used[i] = true; ch = true; cs.push(m);
                    for v in s.iter() { if !vars.contains(v) { vars.push(*v); } }
                }
            }
            if !ch { break; }
        }
        vars.sort(); cs.sort();
        (cs, vars)
    }

    /// Ask z3 whether path and conds are satisfiable together (independent parts of the path left out).
    pub fn z3_check(&mut self, p: &Path, conds: &[N]) -> Option<Upd> {
        let (mut cs, vars) = self.slice(p, conds);
        let mut key: Vec<u32> = conds.to_vec();
        key.push(u32::MAX);
        key.extend(&cs);
        key.push(u32::MAX);
        for &v in &vars { key.push(v); key.push(p.dom[self.pidx(v)]); }
        if let Some((r, m)) = self.cache.get(&key) {
            self.cache_hits += 1;
            return if *r { Some(m.iter().map(|(v, x)| (self.e.vars[*v as usize].path_idx, *x)).collect()) } else { None };
        }
        cs.extend_from_slice(conds);
        let doms: Vec<(u32, Option<u32>)> = vars.iter().map(|&v| { let d = p.dom[self.pidx(v)]; (v, if d == NODOM { None } else { Some(d) }) }).collect();
        let (r, m) = self.z3.check(&mut self.e, &cs, &doms, true);
        if let Some(d) = &self.dump_dir {
            if self.dumped < 400 && (self.z3.n_checks % 37 == 1 || self.dumped < 40) {
                let t = self.z3.dump(&mut self.e, &cs, &doms);
                let f = format!("{}/q{}_{}_{}.smt2", d, std::process::id(), self.dumped, if r == Res::Sat { "sat" } else { "unsat" });
                let _ = std::fs::write(f, t);
                self.dumped += 1;
            }
        }
        match r {
            Res::Sat => { self.cache.insert(key, (true, m.clone())); Some(m.iter().map(|(v, x)| (self.e.vars[*v as usize].path_idx, *x)).collect()) }
            Res::Unsat => { self.cache.insert(key, (false, vec![])); None }
            Res::Unknown => { self.unknown = true; Some(vec![]) }
        }
    }

    /// Is path & cond satisfiable? Returns model changes that make it so.
    pub fn feasible(&mut self, p: &Path, cond: N) -> Option<Upd> {
        if let Some(c) = self.e.is_const(cond) { return if c == 1 { Some(vec![]) } else { None }; }
        if self.eval_model(p, cond) == 1 { return Some(vec![]); }
        let cond = self.partial(p, cond);
        if let Some(c) = self.e.is_const(cond) { return if c == 1 { Some(vec![]) } else { None }; }
        if let Some((v, t)) = self.e.truth(cond) {
            let i = self.pidx(v);
            let d = p.dom[i];
            let r = self.e.bits_and(d, t, false);
            self.dom_decisions += 1;
            let first = self.e.bits[r as usize].first();
            if self.audit > 0 && (self.dom_decisions < 50 || self.dom_decisions % self.audit == 0) && !self.audited.contains_key(&(cond, d)) {
                self.audited.insert((cond, d), ());
                let mut q = p.clone(); q.multi = Rc::new(vec![]);
                let z = self.z3_check(&q, &[cond]).is_some();
                self.audits += 1;
                if z != first.is_some() { self.audit_mismatch += 1; eprintln!("AUDIT MISMATCH {}", self.e.show(cond, 8)); }
            }
            let first = first?;
            if !p.in_multi[i] { let lo = self.e.vars[v as usize].lo; return Some(vec![(i as u32, first + lo)]); }
        }
        if let Some(r) = self.small_check(p, cond) { return r; }
        self.z3_check(p, &[cond])
    }
    /// Decide over the remaining values when the variables involved have few combinations (a sample is put to z3 too).
    fn small_check(&mut self, p: &Path, cond: N) -> Option<Option<Upd>> {
        let (cs, vars) = self.slice(p, &[cond]);
        if vars.len() > 6 { return None; }
        let mut key: Vec<u32> = vec![cond, u32::MAX];
        key.extend(&cs);
        key.push(u32::MAX);
        let mut n = 1u64;
        for &v in &vars {
            let d = p.dom[self.pidx(v)];
            if d == NODOM { return None; }
            n *= self.e.bits[d as usize].cnt as u64;
            if n == 0 || n > 1024 { return None; }
            key.push(v); key.push(d);
        }
        if let Some((r, m)) = self.cache.get(&key) {
            self.cache_hits += 1;
            return Some(if *r { Some(m.iter().map(|(v, x)| (self.e.vars[*v as usize].path_idx, *x)).collect()) } else { None });
        }
        let dom: Vec<Vec<u64>> = vars.iter().map(|&v| self.values(p, v).unwrap()).collect();
        let mut cols: Vec<Vec<u64>> = vec![Vec::with_capacity(n as usize); vars.len()];
        for c in 0..n { let mut r = c; for (j, d) in dom.iter().enumerate() { cols[j].push(d[(r % d.len() as u64) as usize]); r /= d.len() as u64; } }
        let arg: Vec<(u32, &[u64])> = vars.iter().cloned().zip(cols.iter().map(|c| &c[..])).collect();
        let mut r = self.e.eval_cols(cond, &arg, n as usize)?;
        for &m in &cs {
            if r.iter().all(|x| *x == 0) { break; }
            let q = self.e.eval_cols(m, &arg, n as usize)?;
            for (x, y) in r.iter_mut().zip(q) { *x &= y; }
        }
        let found: Option<Vec<(u32, u64)>> = r.iter().position(|x| *x != 0).map(|c| vars.iter().zip(cols.iter()).map(|(v, col)| (*v, col[c])).collect());
        self.dom_decisions += 1;
        if self.audit > 0 && (self.z3.n_checks < 300 || self.dom_decisions % self.audit == 0) {
            let z = self.z3_check(p, &[cond]).is_some();
            self.audits += 1;
            if z != found.is_some() { self.audit_mismatch += 1; eprintln!("AUDIT MISMATCH {}", self.e.show(cond, 8)); }
        }
        self.cache.insert(key, (found.is_some(), found.clone().unwrap_or_default()));
        Some(found.map(|m| m.iter().map(|(v, x)| (self.e.vars[*v as usize].path_idx, *x)).collect()))
    }

    /// Conjoin cond (known to be satisfiable with the model changes `u`).
    pub fn add(&mut self, p: &mut Path, cond: N, u: Upd) {
        for (i, x) in u { p.model[i as usize] = x; }
        self.add1(p, cond);
    }
    fn add1(&mut self, p: &mut Path, cond: N) {
        let cond = self.partial(p, cond);
        if self.e.is_const(cond).is_some() { return; }
        let k = self.e.key(cond);
        if k.op == Op::And { self.add1(p, k.a); self.add1(p, k.b); return; }
        if k.op == Op::Not {
            let kk = self.e.key(k.a);
            if kk.op == Op::Or { let (x, y) = (self.e.not(kk.a), self.e.not(kk.b)); self.add1(p, x); self.add1(p, y); return; }
        }
        if let Some((v, t)) = self.e.truth(cond) {
            let i = self.pidx(v);
            if self.narrow(p, i, t) { self.propagate_from(p, v); }
            return;
        }
        if p.multi.contains(&cond) { return; }
        let (changed, entailed) = self.propagate(p, cond);
        if !entailed {
            for v in self.e.sup(cond).iter() { let i = self.pidx(*v); p.in_multi[i] = true; }
            Rc::make_mut(&mut p.multi).push(cond);
        }
        for v in changed { self.propagate_from(p, v); }
    }
    /// Note a fact about one variable that the path condition implies.
    pub fn learn(&mut self, p: &mut Path, cond: N) {
        if let Some((v, t)) = self.e.truth(cond) {
            let i = self.pidx(v);
            if self.narrow(p, i, t) { self.propagate_from(p, v); }
        }
    }
    /// Intersect a domain with a set of values; did it change?
    fn narrow(&mut self, p: &mut Path, i: usize, t: u32) -> bool {
        let before = p.dom[i];
        let d = self.e.bits_and(before, t, false);
        p.dom[i] = d;
        if d == before { return false; }
        if self.e.bits[before as usize].cnt > 1 && self.e.bits[d as usize].cnt == 1 { p.nsingle += 1; }
        true
    }
    /// A constraint over two or three variables with few combinations of values left: keep only the values
    /// that occur in combinations satisfying it. Returns the variables with fewer values now, and
    /// whether the domains now imply the constraint.
    fn propagate(&mut self, p: &mut Path, cond: N) -> (Vec<u32>, bool) {
        let sup: Vec<u32> = self.e.sup(cond).iter().cloned().collect();
        if sup.len() > 3 { return (vec![], false); }
        let mut dom = vec![];
        let mut n = 1u64;
        for &v in &sup {
            let i = self.pidx(v);
            if p.dom[i] == NODOM { return (vec![], false); }
            n *= self.e.bits[p.dom[i] as usize].cnt as u64;
            if n == 0 || n > 1024 { return (vec![], false); }
            dom.push(self.values(p, v).unwrap());
        }
        let mut cols: Vec<Vec<u64>> = vec![Vec::with_capacity(n as usize); sup.len()];
        for c in 0..n { let mut r = c; for (j, d) in dom.iter().enumerate() { cols[j].push(d[(r % d.len() as u64) as usize]); r /= d.len() as u64; } }
        let arg: Vec<(u32, &[u64])> = sup.iter().cloned().zip(cols.iter().map(|c| &c[..])).collect();
        let mut r = match self.e.eval_cols(cond, &arg, n as usize) { Some(r) => r, None => return (vec![], false) };
        // entailed by the domains alone: as the constraint is dropped then, the others have no say in this
        let alone = r.clone();
        for i in 0..p.multi.len() {
            let m = p.multi[i];
            if m == cond || !self.e.sup(m).iter().all(|v| sup.contains(v)) { continue; }
            if let Some(q) = self.e.eval_cols(m, &arg, n as usize) { for (x, y) in r.iter_mut().zip(q) { *x &= y; } }
        }
        let mut changed = vec![];
        for (j, &v) in sup.iter().enumerate() {
            let vi = self.e.vars[v as usize];
            let size = vi.size();
            let mut w = vec![0u64; ((size + 63) / 64) as usize];
            for (c, x) in cols[j].iter().zip(r.iter()) { if *x != 0 { let k = c - vi.lo; w[(k >> 6) as usize] |= 1 << (k & 63); } }
            let t = self.e.intern_bits(size as u32, w);
            let i = self.pidx(v);
            if self.narrow(p, i, t) { changed.push(v); }
        }
        let inside: Vec<usize> = (0..sup.len()).map(|j| self.pidx(sup[j])).collect();
        let entailed = (0..n as usize).all(|c| alone[c] != 0 || (0..sup.len()).any(|j| { let k = cols[j][c] - self.e.vars[sup[j] as usize].lo; self.e.bits[p.dom[inside[j]] as usize].w[(k >> 6) as usize] >> (k & 63) & 1 == 0 }));
        (changed, entailed)
    }
    /// The domain of a variable has shrunk: look again at the constraints it is part of.
    fn propagate_from(&mut self, p: &mut Path, v: u32) {
        let i = self.pidx(v);
        if !p.in_multi[i] { return; }
        let mut work = vec![v];
        while let Some(v) = work.pop() {
            let mut m = 0;
            while m < p.multi.len() {
                let c = p.multi[m];
                if !self.e.sup(c).contains(&v) { m += 1; continue; }
                let (ch, entailed) = self.propagate(p, c);
                work.extend(ch);
                if entailed {
                    Rc::make_mut(&mut p.multi).remove(m);
                    for x in self.e.sup(c).to_vec() {
                        let i = self.pidx(x);
                        p.in_multi[i] = p.multi.iter().any(|&k| self.e.sup(k).contains(&x));
                    }
                } else { m += 1; }
            }
        }
    }
    /// All remaining values of a variable (path index), when enumerable.
    pub fn values(&self, p: &Path, v: u32) -> Option<Vec<u64>> {
        let i = self.pidx(v);
        if p.dom[i] == NODOM { return None; }
        let lo = self.e.vars[v as usize].lo;
        Some(self.e.bits[p.dom[i] as usize].iter().iter().map(|x| x + lo).collect())
    }
    pub fn dom_size(&self, p: &Path, v: u32) -> u64 {
        let i = self.pidx(v);
        if p.dom[i] == NODOM { self.e.vars[v as usize].size() } else { self.e.bits[p.dom[i] as usize].cnt as u64 }
    }
}
