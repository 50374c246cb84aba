//! The symbolic executor: runs the lowered IR on states whose values may be symbolic.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::path::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub struct XF { pub f: Rc<Func>, pub cv: Vec<V>, pub id: u32 }

#[derive(Clone)]
pub struct Frame { pub f: Rc<XF>, pub pc: u32, pub base: u32, pub d: u32, pub cont: u32, pub allocas: Vec<u32>, pub memo: u32 }

#[derive(Clone, PartialEq, Debug)]
pub enum Status { Run, Futex(u64), Join(u32), Done }

#[derive(Clone)]
pub struct Thread { pub frames: Vec<Frame>, pub slots: Vec<V>, pub status: Status, pub tls: Vec<(u32, u32)>, pub ret: V, pub woken: u8, pub deadline: u64, pub expired: bool }

#[derive(Clone)]
pub struct FileNode { pub path: Vec<u8>, pub obj: u32, pub len: u64, pub linked: bool }
#[derive(Clone)]
pub struct Fd { pub file: u32, pub pos: u64, pub open: bool, pub append: bool }

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub path: Path,
    pub files: Rc<Vec<FileNode>>,
    pub fds: Vec<Fd>,
    pub stdout: u32, // file index of captured stdout
    pub obs: Vec<V>,
    pub steps: u64,
    pub preempts: u32,
    pub errno: u32,
    pub keys: u32,
    pub specifics: Vec<(u32, u32, V)>,
    pub trace: Vec<u32>, // schedule
    pub cpus: N,
    pub ctr: u64,
    pub clock: u64, // ns
}

#[derive(Clone, Debug)]
pub enum End { Done, Infeasible, Violation(String), Abandon(String) }
pub enum Stop { Retry, End(End), Yield }
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation { pub label: String, pub inputs: Vec<u64>, pub sched: Vec<u64>, pub env: Vec<u64>, pub stack: Vec<String>, pub steps: u64 }
#[derive(Clone, Debug)]
pub struct Sample { pub inputs: Vec<u64>, pub obs: Vec<u64>, pub sched: bool, pub steps: u64 }

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64, pub infeasible: u64, pub forks: u64, pub steps: u64, pub decisions: u64,
    pub asserts_const: u64, pub asserts_z3: u64, pub assert_labels: BTreeMap<String, u64>,
    pub covers: BTreeMap<u64, u64>, pub abandoned: Vec<String>, pub violations: Vec<Violation>, pub samples: Vec<Sample>,
    pub max_steps: u64, pub n_abandoned: u64, pub n_violations: u64, pub sched_points: u64, pub thread_switches: u64, pub paths_multi: u64, pub syms: u64,
}

pub struct Cfg { pub max_steps: u64, pub preempt_bound: u32, pub params: Vec<u64>, pub print: bool, pub eager: bool, pub max_threads: u64, pub verbose: bool, pub max_viol: usize, pub sample_every: u64, pub cpus: (u64, u64), pub max_mem: u64, pub deadline: Option<std::time::Instant>, pub replay: Option<(Vec<u64>, Vec<u64>, Vec<u64>)> }

pub struct Exec {
    pub m: Module,
    pub s: Solver,
    pub fc: Vec<Option<Rc<XF>>>,
    pub icpt: Vec<u8>,
    pub ik: Vec<crate::ext::K>,
    pub pending: Vec<State>,
    pub st: Stats,
    pub cfg: Cfg,
    pub used: BTreeMap<u32, u64>, // function -> calls
    pub utab: HashMap<(u8, u64), u32>,
    pub trace: bool,
    pub memo: HashMap<(u32, u64, u64, Vec<u8>), u64>, pub memo_keys: Vec<(u32, u64, u64, Vec<u8>)>, pub memo_next: u32, pub expect: Vec<u64>, pub gets: u64, pub expect_checked: u64,
    pub prof: Option<HashMap<u32, u64>>,
    pub tmp: Vec<V>,
}

/// In Frame::memo: the index of a result to compare with.
pub const EXPECT: u32 = 1 << 31;
pub fn mask(v: u64, w: u16) -> u64 { v & mask64(w) }

impl Exec {
    pub fn new(m: Module, cfg: Cfg) -> Exec {
        let n = m.fns.len();
        Exec { m, s: Solver::new(200_000_000), fc: vec![None; n], icpt: vec![255; n], ik: vec![], pending: vec![], st: Stats::default(), cfg, used: BTreeMap::new(), utab: HashMap::new(), prof: if std::env::var("SYMX_PROFILE").is_ok() { Some(HashMap::new()) } else { None }, memo: HashMap::new(), memo_keys: vec![], memo_next: 0, expect: vec![], gets: 0, expect_checked: 0, trace: std::env::var("SYMX_TRACE").is_ok(), tmp: vec![] }
    }
    pub fn initial(&mut self, entry: &str) -> State {
        let mut mem = Mem::new();
        for (i, g) in self.m.globals.iter().enumerate() {
            mem.put(i as u32 + 1, Obj { data: g.data.clone(), sym: vec![], nsym: 0, ro: g.constant, heap: false, log: vec![] });
        }
        let f = *self.m.fidx.get(entry).unwrap_or_else(|| { eprintln!("no entry {}", entry); std::process::exit(2) });
        let xf = self.func(f);
        let th = Thread { frames: vec![Frame { f: xf.clone(), pc: 0, base: 0, d: 0, cont: NOCONT, allocas: vec![], memo: 0 }], slots: vec![vc(0); xf.f.nslots as usize], status: Status::Run, tls: vec![], ret: vc(0), woken: 0, deadline: 0, expired: false };
        let out = mem.alloc(Obj::new(0));
        let files = vec![FileNode { path: b"<stdout>".to_vec(), obj: out, len: 0, linked: false }];
        let fd = |f| Fd { file: f, pos: 0, open: true, append: true };
        State { mem, threads: vec![th], cur: 0, path: Path::default(), files: Rc::new(files), fds: vec![fd(0), fd(0), fd(0)], stdout: 0, obs: vec![], steps: 0, preempts: 0, errno: 0, keys: 0, specifics: vec![], trace: vec![], cpus: 0, ctr: 0, clock: 1000 * 1_000_000_000 }
    }
    pub fn func(&mut self, f: u32) -> Rc<XF> {
        if let Some(x) = &self.fc[f as usize] { return x.clone(); }
        let fu = self.m.func(f);
        let cv = fu.consts.iter().map(|(w, v)| if *w <= 64 { vc(*v as u64) } else { V { c: 0, e: self.s.e.cn(*w, *v) } }).collect();
        let x = Rc::new(XF { f: fu, cv, id: f });
        self.fc[f as usize] = Some(x.clone());
        x
    }
    pub fn node(&mut self, v: V, w: u16) -> N { if v.e != 0 { debug_assert!(self.s.e.w(v.e) == w, "width {} vs {}", self.s.e.w(v.e), w); v.e } else { self.s.e.cn(w, v.c as u128) } }

    // ------------------------------------------------------------------ forking and decisions
    /// Decide a boolean on the current path; forks when both outcomes are possible. The current state
    /// continues with the returned outcome; the other one re-executes the current instruction.
    pub fn decide(&mut self, st: &mut State, c: N) -> R<bool> {
        if let Some(k) = self.s.e.is_const(c) { return Ok(k == 1); }
        let c = self.s.partial(&st.path, c);
        if let Some(k) = self.s.e.is_const(c) { return Ok(k == 1); }
        self.st.decisions += 1;
        let cur = self.s.eval_model(&st.path, c) == 1;
        let nc = self.s.e.not(c);
        let (this, other) = if cur { (c, nc) } else { (nc, c) };
        let t0 = self.s.z3.time;
        if self.cfg.verbose && self.trace { eprintln!("decision depth {} in {:?}: {}", self.s.e.depth(c), &self.stack(st)[..1], self.s.e.show(c, 5)); }
        let f = self.s.feasible(&st.path, other);
        if self.cfg.verbose && self.s.z3.time - t0 > 1.0 {
            let stack = self.stack(st);
            eprintln!("slow decision ({:.1}s) depth {} in {:?}: {}", self.s.z3.time - t0, self.s.e.depth(c), &stack[..stack.len().min(3)], self.s.e.show(c, 6));
        }
        match f {
            None => {
                let before = st.path.nsingle;
                self.s.learn(&mut st.path, this);
                if st.path.nsingle != before { self.sweep(st); }
                Ok(cur)
            }
            Some(u) => {
                if self.s.unknown { return Err(Stop::End(End::Abandon("solver returned unknown".into()))); }
                let mut o = st.clone();
                let before = o.path.nsingle;
                self.s.add(&mut o.path, other, u);
                if o.path.nsingle != before { self.sweep(&mut o); }
                self.pending.push(o);
                self.st.forks += 1;
                let before = st.path.nsingle;
                self.s.add(&mut st.path, this, vec![]);
                if st.path.nsingle != before { self.sweep(st); }
                Ok(cur)
            }
        }
    }
    /// Re-simplify the live registers after a variable was pinned.
    fn sweep(&mut self, st: &mut State) {
        for ti in 0..st.threads.len() {
            let n = st.threads[ti].slots.len();
            for i in 0..n {
                let v = st.threads[ti].slots[i];
                if v.e != 0 { let nv = self.s.simp(&st.path, v); st.threads[ti].slots[i] = nv; }
            }
        }
    }
    /// A concrete value for v on this path (forks over the other possible values).
    pub fn conc(&mut self, st: &mut State, v: V) -> R<u64> {
        if v.e == 0 { return Ok(v.c); }
        let v = self.s.simp(&st.path, v);
        if v.e == 0 { return Ok(v.c); }
        let w = self.s.e.w(v.e);
        let x = self.s.eval_model(&st.path, v.e);
        let k = self.s.e.cn(w, x);
        let eq = self.s.e.bin(Op::Eq, v.e, k);
        let r = self.decide(st, eq)?;
        debug_assert!(r);
        Ok(x as u64)
    }
    fn viol<T>(&self, m: String) -> R<T> { Err(Stop::End(End::Violation(m))) }

    // ------------------------------------------------------------------ memory
    pub fn cells(&mut self, o: &Obj, off: usize, nb: usize, w: u16) -> V {
        if o.nsym == 0 || o.sym[off..off + nb].iter().all(|s| *s == 0) {
            let mut x: u128 = 0;
            for i in (0..nb).rev() { x = (x << 8) | o.data[off + i] as u128; }
            x &= mask128(w);
            return if w <= 64 { vc(x as u64) } else { V { c: 0, e: self.s.e.cn(w, x) } };
        }
        let s = &o.sym[off..off + nb];
        let n0 = (s[0] >> 8) as N;
        if n0 != 0 && s[0] & 255 == 0 {
            let wn = self.s.e.w(n0);
            if wn >= w && s.iter().enumerate().all(|(i, x)| *x == ((n0 as u64) << 8 | i as u64)) {
                let r = self.s.e.extract(n0, 0, w);
                return self.s.v(r);
            }
        }
        let mut r: Option<N> = None;
        for i in 0..nb {
            let b = if s[i] == 0 { self.s.e.cn(8, o.data[off + i] as u128) } else {
                let n = (s[i] >> 8) as N; let k = (s[i] & 255) as u16; let wn = self.s.e.w(n);
                let t = (wn - 8 * k).min(8);
                let x = self.s.e.extract(n, 8 * k, t);
                if t < 8 { self.s.e.zext(x, 8) } else { x }
            };
            r = Some(match r { None => b, Some(l) => self.s.e.concat(b, l) });
        }
        let r = r.unwrap();
        let r = if (nb as u16) * 8 > w { self.s.e.extract(r, 0, w) } else { r };
        self.s.v(r)
    }
    pub fn put_cells(&mut self, o: &mut Obj, off: usize, w: u16, v: V) {
        let nb = (w as usize + 7) / 8;
        if v.e == 0 {
            o.set_conc(off, nb);
            for i in 0..nb { o.data[off + i] = if i < 8 { (v.c >> (8 * i)) as u8 } else { 0 }; }
            return;
        }
        if let Some(c) = self.s.e.is_const(v.e) {
            o.set_conc(off, nb);
            for i in 0..nb { o.data[off + i] = (c >> (8 * i)) as u8; }
            return;
        }
        let n = if w % 8 != 0 { self.s.e.zext(v.e, nb as u16 * 8) } else { v.e };
        for i in 0..nb { o.set_sym(off + i, (n as u64) << 8 | i as u64); }
    }
    pub fn check_access(&self, st: &State, a: u64, n: u64, write: bool) -> R<()> {
        let id = a >> 32; let off = a & 0xffff_ffff;
        match st.mem.get(id) {
            None => self.viol(format!("memory error: {} of {} bytes at dead or invalid address {:#x}", if write { "write" } else { "read" }, n, a)),
            Some(o) => {
                if off + n > o.data.len() as u64 { return self.viol(format!("memory error: {} of {} bytes at offset {} of an object of {} bytes", if write { "write" } else { "read" }, n, off, o.data.len())); }
                if write && o.ro { return self.viol("memory error: write to constant".into()); }
                Ok(())
            }
        }
    }
    pub fn read(&mut self, st: &State, a: u64, w: u16) -> R<V> {
        let nb = (w as usize + 7) / 8;
        self.check_access(st, a, nb as u64, false)?;
        let o: *const Obj = st.mem.get(a >> 32).unwrap();
        let mut v = self.cells(unsafe { &*o }, (a & 0xffff_ffff) as usize, nb, w);
        let o = unsafe { &*o };
        if !o.log.is_empty() {
            if w != 64 || a % 8 != 0 { return Err(Stop::End(End::Abandon("access to part of a word of an object with symbolic stores".into()))); }
            let k = self.s.e.cn(64, a as u128);
            v = self.apply_log(&o.log, k, v);
        }
        Ok(self.s.simp(&st.path, v))
    }
    fn apply_log(&mut self, log: &[(N, N, bool)], k: N, v: V) -> V {
        let mut v = v;
        for (x, y, add) in log.iter() {
            let c = self.s.e.bin(Op::Eq, *x, k);
            let old = self.node(v, 64);
            let r = if *add { let z = self.s.e.cn(64, 0); let d = self.s.e.ite(c, *y, z); self.s.e.bin(Op::Add, old, d) } else { self.s.e.ite(c, *y, old) };
            v = self.s.v(r);
        }
        v
    }
    /// Turn the logged stores of an object into ordinary ones (splits over their addresses).
    pub fn settle(&mut self, st: &mut State, a: u64) -> R<()> {
        loop {
            let l = match st.mem.get(a >> 32) { Some(o) if !o.log.is_empty() => o.log[0], _ => return Ok(()) };
            let x = self.conc(st, V { c: 0, e: l.0 })?;
            let o: *mut Obj = st.mem.get_mut(a >> 32).unwrap();
            let o = unsafe { &mut *o };
            o.log.remove(0);
            let mut v = self.s.v(l.1);
            if l.2 {
                let old = self.cells(o, (x & 0xffff_ffff) as usize, 8, 64);
                let (p, q) = (self.node(old, 64), self.node(v, 64));
                let r = self.s.e.bin(Op::Add, p, q);
                v = self.s.v(r);
            }
            self.put_cells(o, (x & 0xffff_ffff) as usize, 64, v);
            if o.log.is_empty() { o.nsym -= LOGGED; }
        }
    }
    fn log_store(&mut self, st: &mut State, obj: u64, addr: N, v: N) {
        // an increment is kept as one
        let old = match self.s.e.is_const(addr) { Some(a) => self.read(st, a as u64, 64).ok(), None => self.load_sym_plain(st, obj, addr) };
        let mut e = (addr, v, false);
        if let Some(old) = old { let on = self.node(old, 64); if let Some(d) = self.s.e.diff(v, on) { e = (addr, d, true); } }
        let o = st.mem.get_mut(obj).unwrap();
        if o.log.is_empty() { if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; } o.nsym += LOGGED; }
        if !e.2 { if o.log.last().map(|l| l.0) == Some(addr) { *o.log.last_mut().unwrap() = e; return; } }
        else if self.s.e.is_const(e.1) == Some(0) { if o.log.is_empty() { o.nsym -= LOGGED; } return; }
        o.log.push(e);
    }
    fn log_push(&mut self, st: &mut State, obj: u64, e: (N, N, bool)) {
        let o = st.mem.get_mut(obj).unwrap();
        if o.log.is_empty() { if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; } o.nsym += LOGGED; }
        o.log.push(e);
    }
    /// The word at a symbolic address of one object, without splitting; None if that is not possible.
    fn load_sym_plain(&mut self, st: &mut State, obj: u64, n: N) -> Option<V> {
        let n = self.s.partial(&st.path, n);
        let sup: Vec<u32> = self.s.e.sup(n).iter().cloned().filter(|v| self.s.singleton(&st.path, *v).is_none()).collect();
        if sup.is_empty() || sup.len() > 2 { return None; }
        let o: *const Obj = st.mem.get(obj)?;
        let o = unsafe { &*o };
        let (doms, addrs) = self.eval_all(st, n, &sup);
        let v = self.logged_load(o, n, &sup, &doms, &addrs)?;
        Some(self.s.simp(&st.path, v))
    }
    /// The contents without the log, then the logged stores in order.
    fn logged_load(&mut self, o: &Obj, n: N, vars: &[u32], doms: &[Vec<u64>], addrs: &[u64]) -> Option<V> {
        let base: Vec<V> = addrs.iter().map(|x| self.cells(o, (x & 0xffff_ffff) as usize, 8, 64)).collect();
        let v = if base.iter().all(|x| *x == base[0]) { base[0] }
            else if vars.len() == 1 && base.iter().all(|x| x.e == 0) { let cv: Vec<u64> = base.iter().map(|x| x.c).collect(); self.var_tab(vars[0], &doms[0], &cv, 64) }
            else { return None };
        Some(self.apply_log(&o.log, n, v))
    }
    pub fn write(&mut self, st: &mut State, a: u64, w: u16, v: V) -> R<()> {
        let nb = (w as usize + 7) / 8;
        self.check_access(st, a, nb as u64, true)?;
        if !st.mem.get(a >> 32).unwrap().log.is_empty() {
            if w == 64 && a % 8 == 0 { let k = self.s.e.cn(64, a as u128); let n = self.node(v, 64); self.log_store(st, a >> 32, k, n); return Ok(()); }
            self.settle(st, a)?;
        }
        let o: *mut Obj = st.mem.get_mut(a >> 32).unwrap();
        self.put_cells(unsafe { &mut *o }, (a & 0xffff_ffff) as usize, w, v);
        Ok(())
    }
    pub fn read_bytes(&self, st: &State, a: u64, n: u64) -> Vec<u8> { // concrete view, for messages and paths
        let id = a >> 32; let off = (a & 0xffff_ffff) as usize;
        match st.mem.get(id) { Some(o) if off + n as usize <= o.data.len() => (0..n as usize).map(|i| if o.nsym > 0 && o.sym[off + i] != 0 { let s = o.sym[off + i]; (self.s.eval_model(&st.path, (s >> 8) as N) >> (8 * (s & 255))) as u8 } else { o.data[off + i] }).collect(), _ => vec![] }
    }

    /// Resolve if-then-else nodes in an address whose conditions are decided; fork on the first open one.
    fn split_ite(&mut self, st: &mut State, n: N) -> R<Option<N>> {
        let mut n = n;
        loop {
            let cs = self.s.e.find_ite(n);
            if cs.is_empty() { return Ok(Some(n)); }
            let c = cs[0];
            let r = self.decide(st, c)?;
            let k = self.s.e.cn(1, r as u128);
            let mut m: HashMap<N, N, Fx> = HashMap::default();
            m.insert(c, k);
            n = self.s.e.replace(n, &m);
            if self.s.e.is_const(n).is_some() { return Ok(Some(n)); }
        }
    }
    /// Prepare a symbolic address: afterwards it is a constant or depends on one or two small variables.
    fn prep_addr(&mut self, st: &mut State, n: N) -> R<(N, Vec<u32>)> {
        let mut n = self.s.partial(&st.path, n);
        loop {
            let sup: Vec<u32> = self.s.e.sup(n).iter().cloned().filter(|v| self.s.singleton(&st.path, *v).is_none()).collect();
            if sup.is_empty() { return Ok((n, sup)); }
            let sz: Vec<u64> = sup.iter().map(|v| self.s.dom_size(&st.path, *v)).collect();
            if sup.len() == 1 && self.s.e.vars[sup[0] as usize].enumerable() { return Ok((n, sup)); }
            if !self.s.e.find_ite(n).is_empty() {
                n = self.split_ite(st, n)?.unwrap();
                n = self.s.partial(&st.path, n);
                continue;
            }
            if sup.len() == 2 && sup.iter().all(|v| self.s.e.vars[*v as usize].enumerable()) && sz[0] * sz[1] <= 70000 { return Ok((n, sup)); }
            // pin the smallest variable
            let i = (0..sup.len()).min_by_key(|i| sz[*i]).unwrap();
            if sz[i] > 4096 { let x = self.conc(st, V { c: 0, e: n })?; let w = self.s.e.w(n); return Ok((self.s.e.cn(w, x as u128), vec![])); }
            let vi = self.s.e.vars[sup[i] as usize];
            let (_, vn) = self.s.e.var(vi.path_idx, vi.lo, vi.hi);
            self.conc(st, V { c: 0, e: vn })?;
            n = self.s.partial(&st.path, n);
        }
    }
    /// Evaluate n over all remaining values of its one or two variables.
    fn eval_all(&mut self, st: &State, n: N, vars: &[u32]) -> (Vec<Vec<u64>>, Vec<u64>) {
        let doms: Vec<Vec<u64>> = vars.iter().map(|v| self.s.values(&st.path, *v).unwrap()).collect();
        if vars.len() == 1 {
            let r = self.s.e.eval_cols(n, &[(vars[0], &doms[0])], doms[0].len()).unwrap();
            (doms, r)
        } else {
            let (a, b) = (doms[0].len(), doms[1].len());
            let mut ca = Vec::with_capacity(a * b); let mut cb = Vec::with_capacity(a * b);
            for x in &doms[0] { for y in &doms[1] { ca.push(*x); cb.push(*y); } }
            let r = self.s.e.eval_cols(n, &[(vars[0], &ca), (vars[1], &cb)], a * b).unwrap();
            (doms, r)
        }
    }
    fn var_tab(&mut self, v: u32, dom: &[u64], vals: &[u64], w: u16) -> V {
        if vals.iter().all(|x| *x == vals[0]) { return vc(vals[0]); }
        let vi = self.s.e.vars[v as usize];
        let (_, vn) = self.s.e.var(vi.path_idx, vi.lo, vi.hi);
        // values outside the remaining domain: repeat the previous one (they are infeasible)
        let lo = dom[0]; let hi = *dom.last().unwrap();
        let mut t = Vec::with_capacity((hi - lo + 1) as usize);
        let mut j = 0;
        for x in lo..=hi { if j + 1 < dom.len() && dom[j + 1] <= x { j += 1; } t.push(vals[j]); }
        if w <= 64 && t.iter().enumerate().all(|(i, x)| *x == lo + i as u64) && vi.w <= w { let r = self.s.e.zext(vn, w); return self.s.v(r); }
        let t = self.s.e.table(t, w, lo);
        let r = self.s.e.mk_tab(vn, t);
        self.s.v(r)
    }
    fn load_sym(&mut self, st: &mut State, a: N, w: u16) -> R<V> {
        let (n, vars) = self.prep_addr(st, a)?;
        if vars.is_empty() { let x = self.s.eval_model(&st.path, n) as u64; return self.read(st, x, w); }
        if w > 64 { let x = self.conc(st, V { c: 0, e: n })?; return self.read(st, x, w); }
        let (doms, addrs) = self.eval_all(st, n, &vars);
        if let Some(o) = st.mem.get(addrs[0] >> 32) {
            if !o.log.is_empty() {
                if w == 64 && addrs.iter().all(|x| x >> 32 == addrs[0] >> 32 && x % 8 == 0 && (x & 0xffff_ffff) + 8 <= o.data.len() as u64) && o.log.len() <= 64 {
                    // the contents without the log, then the logged stores in order
                    let o: *const Obj = o;
                    let o = unsafe { &*o };
                    if let Some(v) = self.logged_load(o, n, &vars, &doms, &addrs) {
                        return Ok(self.s.simp(&st.path, v));
                    }
                }
                self.settle(st, addrs[0])?;
            }
        }
        let mut cache: HashMap<u64, V, Fx> = HashMap::default();
        let mut vals: Vec<V> = Vec::with_capacity(addrs.len());
        let mut allc = true;
        for &x in &addrs {
            let v = match cache.get(&x) { Some(v) => *v, None => {
                match self.read(st, x, w) {
                    Ok(v) => { cache.insert(x, v); v }
                    Err(_) => {
                        // some value of the variables leads outside: separate it
                        let k = self.s.e.cn(64, x as u128);
                        let eq = self.s.e.bin(Op::Eq, n, k);
                        if self.decide(st, eq)? { return self.read(st, x, w); }
                        return Err(Stop::Retry);
                    }
                } } };
            if v.e != 0 { allc = false; }
            vals.push(v);
        }
        if vals.iter().all(|v| *v == vals[0]) { return Ok(vals[0]); }
        if allc && vars.len() == 1 {
            let cv: Vec<u64> = vals.iter().map(|v| v.c).collect();
            return Ok(self.var_tab(vars[0], &doms[0], &cv, w));
        }
        if vars.len() == 2 {
            let (na, nb) = (doms[0].len(), doms[1].len());
            // group rows (values of the first variable) and columns
            let mut rows: HashMap<Vec<V>, Vec<u64>> = HashMap::new();
            for i in 0..na { rows.entry(vals[i * nb..(i + 1) * nb].to_vec()).or_default().push(doms[0][i]); }
            if rows.len() == 1 && allc { let cv: Vec<u64> = vals[..nb].iter().map(|v| v.c).collect(); return Ok(self.var_tab(vars[1], &doms[1], &cv, w)); }
            let mut cols: HashMap<Vec<V>, Vec<u64>> = HashMap::new();
            for j in 0..nb { let c: Vec<V> = (0..na).map(|i| vals[i * nb + j]).collect(); cols.entry(c).or_default().push(doms[1][j]); }
            if cols.len() == 1 && allc { let cv: Vec<u64> = (0..na).map(|i| vals[i * nb].c).collect(); return Ok(self.var_tab(vars[0], &doms[0], &cv, w)); }
            // fork on the class of the variable with fewer classes
            let (v, dom, groups) = if rows.len() > 1 && (rows.len() <= cols.len() || cols.len() == 1) { (vars[0], &doms[0], rows) } else { (vars[1], &doms[1], cols) };
            let cur = st.path.model[self.s.e.vars[v as usize].path_idx as usize];
            let g = groups.values().find(|g| g.contains(&cur)).unwrap().clone();
            let ind: Vec<u64> = dom.iter().map(|x| g.contains(x) as u64).collect();
            let c = self.var_tab(v, dom, &ind, 1);
            self.decide(st, c.e)?;
            return Err(Stop::Retry);
        }
        if let Some(r) = self.sparse(vars[0], &doms[0], &vals, w) { return Ok(r); }
        // one variable, symbolic contents: chain over the groups of equal values
        let mut groups: Vec<(V, Vec<u64>)> = vec![];
        let mut gi: HashMap<V, usize> = HashMap::new();
        for (i, v) in vals.iter().enumerate() { let k = *gi.entry(*v).or_insert_with(|| { groups.push((*v, vec![])); groups.len() - 1 }); groups[k].1.push(i as u64); }
        // contents that use the address variable itself are specialised
        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
        if groups.len() > 1024 { let x = self.conc(st, V { c: 0, e: n })?; return self.read(st, x, w); }
        let dom = &doms[0];
        let mut r: N = self.node(groups[0].0, w);
        for (v, idx) in groups[1..].iter() {
            let mut ind = vec![0u64; dom.len()];
            for i in idx { ind[*i as usize] = 1; }
            let c = self.var_tab(vars[0], dom, &ind, 1);
            let x = self.node(*v, w);
            let c = self.node(c, 1);
            r = self.s.e.ite(c, x, r);
        }
        Ok(self.s.v(r))
    }
    /// A word of a row of counters, where each value of another variable touches at most one counter:
    /// cell[v] = c(v) + sum over x of (if v == h(x) then d(x) else 0).
    fn sparse(&mut self, v: u32, dom: &[u64], vals: &[V], w: u16) -> Option<V> {
        let nsym: std::collections::HashSet<V> = vals.iter().filter(|x| x.e != 0).cloned().collect();
        if w > 64 || nsym.len() < 6 { return None; }
        let mut parts: HashMap<V, (u64, Vec<(u32, N)>), Fx> = HashMap::default();
        for x in nsym { parts.insert(x, self.s.e.separate(x.e)?); }
        let mut xs: Vec<u32> = parts.values().flat_map(|p| p.1.iter().map(|t| t.0)).collect();
        xs.sort(); xs.dedup();
        let cs: Vec<u64> = vals.iter().map(|x| if x.e == 0 { x.c } else { parts[x].0 }).collect();
        let mut tables: Vec<(u32, Vec<u64>, Vec<u64>)> = vec![];
        for &x in &xs {
            let vi = self.s.e.vars[x as usize];
            if vi.size() > 4096 { return None; }
            let col: Vec<u64> = (vi.lo..=vi.hi).collect();
            let mut memo: HashMap<N, Vec<u64>, Fx> = HashMap::default();
            let (mut h, mut d) = (vec![dom[0]; col.len()], vec![0u64; col.len()]);
            for (i, cell) in vals.iter().enumerate() {
                if cell.e == 0 { continue; }
                for t in parts[cell].1.clone() {
                    if t.0 != x { continue; }
                    if !memo.contains_key(&t.1) { let r = self.s.e.eval_cols(t.1, &[(x, &col)], col.len())?; memo.insert(t.1, r); }
                    let r = &memo[&t.1];
                    if x == v { if dom[i] >= vi.lo && dom[i] <= vi.hi { let k = (dom[i] - vi.lo) as usize; h[k] = dom[i]; d[k] = d[k].wrapping_add(r[k]) & mask64(w); } continue; }
                    for k in 0..col.len() {
                        if r[k] != 0 {
                            if d[k] != 0 && h[k] != dom[i] { return None; }
                            h[k] = dom[i]; d[k] = d[k].wrapping_add(r[k]) & mask64(w);
                        }
                    }
                }
            }
            tables.push((x, h, d));
        }
        let vi = self.s.e.vars[v as usize];
        let (_, vn) = self.s.e.var(vi.path_idx, vi.lo, vi.hi);
        let vw = self.s.e.zext(vn, 64);
        let mut acc = self.var_tab(v, dom, &cs, w);
        for (x, h, d) in tables {
            let xi = self.s.e.vars[x as usize];
            let (_, xn) = self.s.e.var(xi.path_idx, xi.lo, xi.hi);
            let dt = self.s.e.table(d, w, xi.lo);
            let dn = self.s.e.mk_tab(xn, dt);
            let t = if x == v { dn } else {
                let ht = self.s.e.table(h, 64, xi.lo);
                let hn = self.s.e.mk_tab(xn, ht);
                let c = self.s.e.bin(Op::Eq, hn, vw);
                let z = self.s.e.cn(w, 0);
                self.s.e.ite(c, dn, z)
            };
            let a = self.node(acc, w);
            let r = self.s.e.bin(Op::Add, a, t);
            acc = self.s.v(r);
        }
        Some(acc)
    }
    fn store_sym(&mut self, st: &mut State, a: N, w: u16, v: V) -> R<()> {
        let (n, vars) = self.prep_addr(st, a)?;
        if vars.is_empty() { let x = self.s.eval_model(&st.path, n) as u64; return self.write(st, x, w, v); }
        let (_, addrs) = self.eval_all(st, n, &vars);
        let mut ds: Vec<u64> = addrs.clone(); ds.sort(); ds.dedup();
        let one = ds.iter().all(|x| x >> 32 == ds[0] >> 32 && x % 8 == 0 && self.check_access(st, *x, 8, true).is_ok());
        if one && w == 64 && ds.len() > 1 && (ds.len() > 40 || !st.mem.get(ds[0] >> 32).unwrap().log.is_empty()) { let vn = self.node(v, w); self.log_store(st, ds[0] >> 32, n, vn); return Ok(()); }
        if ds.len() > 600 || ds.iter().any(|x| self.check_access(st, *x, (w as u64 + 7) / 8, true).is_err()) { let x = self.conc(st, V { c: 0, e: n })?; return self.write(st, x, w, v); }
        if ds.len() == 1 { return self.write(st, ds[0], w, v); }
        let vn = self.node(v, w);
        for x in ds {
            let old = self.read(st, x, w)?;
            let k = self.s.e.cn(64, x as u128);
            let c = self.s.e.bin(Op::Eq, n, k);
            let on = self.node(old, w);
            let r = self.s.e.ite(c, vn, on);
            let r = self.s.v(r);
            self.write(st, x, w, r)?;
        }
        Ok(())
    }
    pub fn load(&mut self, st: &mut State, p: V, w: u16) -> R<V> { if p.e == 0 { self.read(st, p.c, w) } else { self.load_sym(st, p.e, w) } }
    pub fn store(&mut self, st: &mut State, p: V, w: u16, v: V) -> R<()> { if p.e == 0 { self.write(st, p.c, w, v) } else { self.store_sym(st, p.e, w, v) } }

    pub fn alloc(&mut self, st: &mut State, n: u64, heap: bool) -> R<u64> {
        if n > 1 << 31 || st.mem.live + n > self.cfg.max_mem { return Err(Stop::End(End::Abandon(format!("allocation of {} bytes beyond the memory budget", n)))); }
        let mut o = Obj::new(n as usize); o.heap = heap;
        Ok((st.mem.alloc(o) as u64) << 32)
    }
    pub fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        self.check_access(st, s, n, false)?;
        self.check_access(st, d, n, true)?;
        if !st.mem.get(d >> 32).unwrap().log.is_empty() { self.settle(st, d)?; }
        let mut moved = vec![];
        {
            let o = st.mem.get(s >> 32).unwrap();
            if !o.log.is_empty() {
                if s >> 32 != d >> 32 && s & 0xffff_ffff == 0 && n as usize == o.data.len() && d % 8 == 0 { moved = o.log.clone(); } else { self.settle(st, s)?; }
            }
        }
        for (x, _, _) in moved.iter_mut() { let k = self.s.e.cn(64, d.wrapping_sub(s) as u128); *x = self.s.e.bin(Op::Add, *x, k); }
        let n = n as usize;
        let (so, dof) = ((s & 0xffff_ffff) as usize, (d & 0xffff_ffff) as usize);
        if s >> 32 == d >> 32 {
            let o = st.mem.get_mut(d >> 32).unwrap();
            o.data.copy_within(so..so + n, dof);
            if o.nsym > 0 { o.sym.copy_within(so..so + n, dof); o.nsym = o.sym.iter().filter(|x| **x != 0).count() as u32; }
        } else {
            let src: *const Obj = st.mem.get(s >> 32).unwrap();
            let src = unsafe { &*src };
            let o = st.mem.get_mut(d >> 32).unwrap();
            o.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
            o.set_conc(dof, n);
            if src.nsym > 0 { for i in 0..n { if src.sym[so + i] != 0 { o.set_sym(dof + i, src.sym[so + i]); } } }
        }
        for (x, y, add) in moved { self.log_push(st, d >> 32, (x, y, add)); }
        Ok(())
    }

    // ------------------------------------------------------------------ operations
    pub fn bin(&mut self, op: Op, w: u16, a: V, b: V) -> V {
        let (x, y) = (self.node(a, w), self.node(b, w));
        let r = self.s.e.bin(op, x, y);
        self.s.v(r)
    }
    pub fn cmp(&mut self, p: Pred, w: u16, a: V, b: V) -> V {
        let (x, y) = (self.node(a, w), self.node(b, w));
        let e = &mut self.s.e;
        let r = match p {
            Pred::Eq => e.bin(Op::Eq, x, y), Pred::Ne => { let t = e.bin(Op::Eq, x, y); e.not(t) }
            Pred::Ult => e.bin(Op::Ult, x, y), Pred::Ule => e.bin(Op::Ule, x, y), Pred::Ugt => e.bin(Op::Ult, y, x), Pred::Uge => e.bin(Op::Ule, y, x),
            Pred::Slt => e.bin(Op::Slt, x, y), Pred::Sle => e.bin(Op::Sle, x, y), Pred::Sgt => e.bin(Op::Slt, y, x), Pred::Sge => e.bin(Op::Sle, y, x),
        };
        self.s.v(r)
    }
    pub fn sel(&mut self, w: u16, c: V, a: V, b: V) -> V {
        if c.e == 0 { return if c.c & 1 != 0 { a } else { b }; }
        let (x, y) = (self.node(a, w), self.node(b, w));
        let r = self.s.e.ite(c.e, x, y);
        self.s.v(r)
    }
    pub fn zext(&mut self, v: V, w: u16) -> V { if v.e == 0 && w <= 64 { v } else if v.e == 0 { V { c: 0, e: self.s.e.cn(w, v.c as u128) } } else { let r = self.s.e.zext(v.e, w); self.s.v(r) } }
    pub fn sext(&mut self, v: V, w1: u16, w: u16) -> V { if v.e == 0 && w <= 64 { vc(mask(sx(v.c, w1) as u64, w)) } else { let n = self.node(v, w1); let r = self.s.e.sext(n, w); self.s.v(r) } }
    pub fn trunc(&mut self, v: V, w: u16) -> V { if v.e == 0 { vc(mask(v.c, w)) } else { let r = self.s.e.extract(v.e, 0, w); self.s.v(r) } }
    pub fn add64(&mut self, a: V, k: u64) -> V { if a.e == 0 { vc(a.c.wrapping_add(k)) } else { self.bin(Op::Add, 64, a, vc(k)) } }

    pub fn push_frame(&mut self, st: &mut State, xf: Rc<XF>, args: &[V], d: u32, cont: u32) -> R<()> {
        let t = &mut st.threads[st.cur];
        let base = { let l = t.frames.last().unwrap(); l.base + l.f.f.nslots };
        let need = base as usize + xf.f.nslots as usize;
        if t.slots.len() < need { t.slots.resize(need, vc(0)); }
        if t.frames.len() > 3000 { return Err(Stop::End(End::Violation("call depth exceeds 3000 frames (stack overflow)".into()))); }
        debug_assert!(args.len() == xf.f.nparams as usize, "{} args {} params {}", xf.f.name, args.len(), xf.f.nparams);
        for (i, a) in args.iter().enumerate() { t.slots[base as usize + i] = *a; }
        t.frames.push(Frame { f: xf, pc: 0, base, d, cont, allocas: vec![], memo: 0 });
        Ok(())
    }

    pub fn stack(&self, st: &State) -> Vec<String> {
        st.threads[st.cur].frames.iter().rev().take(24).map(|f| demangle(&f.f.f.name)).collect()
    }

    fn edge(sp: *mut V, cv: *const V, e: &Edge, tmp: &mut Vec<V>) {
        let get = |s: S| unsafe { if s & CONST != 0 { *cv.add((s & !CONST) as usize) } else { *sp.add(s as usize) } };
        match e.moves.len() {
            0 => {}
            1 => unsafe { *sp.add(e.moves[0].0 as usize) = get(e.moves[0].1); },
            _ => {
                tmp.clear();
                for m in &e.moves { tmp.push(get(m.1)); }
                for (m, v) in e.moves.iter().zip(tmp.iter()) { unsafe { *sp.add(m.0 as usize) = *v; } }
            }
        }
    }

    /// Run the state until it ends.
    pub fn run(&mut self, st: &mut State) -> End {
        let mut tmp: Vec<V> = Vec::with_capacity(64);
        let mut budget = 1u64 << 20;
        let (mut pf, mut ps) = (u32::MAX, st.steps);
        'outer: loop {
            if self.prof.is_some() {
                if pf != u32::MAX { *self.prof.as_mut().unwrap().entry(pf).or_insert(0) += st.steps - ps; }
                ps = st.steps;
                pf = st.threads[st.cur].frames.last().unwrap().f.id;
            }
            // context of the current frame
            let (xf, mut pc, sp) = {
                let t = &mut st.threads[st.cur];
                let f = t.frames.last().unwrap();
                (f.f.clone(), f.pc as usize, unsafe { t.slots.as_mut_ptr().add(f.base as usize) })
            };
            let code: *const I = xf.f.code.as_ptr();
            let cv: *const V = xf.cv.as_ptr();
            let edges: *const Edge = xf.f.edges.as_ptr();
            macro_rules! val { ($s:expr) => {{ let s = $s; unsafe { if s & CONST != 0 { *cv.add((s & !CONST) as usize) } else { *sp.add(s as usize) } } }} }
            macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; unsafe { *sp.add($d as usize) = v; } }} }
            macro_rules! go { ($e:expr) => {{ let e = unsafe { &*edges.add($e as usize) }; Self::edge(sp, cv, e, &mut tmp); pc = e.pc as usize; continue; }} }
            macro_rules! save { ($p:expr) => { st.threads[st.cur].frames.last_mut().unwrap().pc = $p as u32 } }
            // evaluate a fallible operation; forks are taken at this instruction
            macro_rules! slow { ($x:expr) => {{ save!(pc); match $x { Ok(v) => v, Err(Stop::Retry) => { continue 'outer; } Err(Stop::Yield) => { if let Some(e) = self.reschedule(st) { return e; } continue 'outer; } Err(Stop::End(e)) => return e } }} }
            loop {
                st.steps += 1;
                budget -= 1;
                if budget == 0 {
                    budget = 1 << 20;
                    if st.steps > self.cfg.max_steps { return End::Violation(format!("no termination within {} instructions", self.cfg.max_steps)); }
                    if let Some(d) = self.cfg.deadline { if std::time::Instant::now() > d { return End::Abandon("time budget of the check exhausted".into()); } }
                }
                let ins = unsafe { &*code.add(pc) };
                match ins {
                    I::Bin(op, w, d, a, b) => {
                        let (x, y) = (val!(*a), val!(*b));
                        if x.e | y.e == 0 && *w <= 64 {
                            let (x, y) = (x.c, y.c);
                            let r = match op {
                                Op::Add => x.wrapping_add(y), Op::Sub => x.wrapping_sub(y), Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                                Op::Mul => x.wrapping_mul(y),
                                Op::Shl => if y >= *w as u64 { 0 } else { x << y },
                                Op::LShr => if y >= *w as u64 { 0 } else { x >> y },
                                Op::AShr => (sx(x, *w) >> y.min(63)) as u64,
                                Op::UDiv => { if y == 0 { save!(pc); return End::Violation("division by zero".into()); } x / y }
                                Op::URem => { if y == 0 { save!(pc); return End::Violation("division by zero".into()); } x % y }
                                Op::SDiv => { if y == 0 { save!(pc); return End::Violation("division by zero".into()); } sx(x, *w).wrapping_div(sx(y, *w)) as u64 }
                                Op::SRem => { if y == 0 { save!(pc); return End::Violation("division by zero".into()); } sx(x, *w).wrapping_rem(sx(y, *w)) as u64 }
                                _ => unreachable!(),
                            };
                            set!(*d, vc(mask(r, *w)));
                        } else {
                            let r = self.bin(*op, *w, x, y);
                            set!(*d, r);
                        }
                    }
                    I::Cmp(p, w, d, a, b) => {
                        let (x, y) = (val!(*a), val!(*b));
                        if x.e | y.e == 0 && *w <= 64 {
                            let (x, y) = (x.c, y.c);
                            let r = match p {
                                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y,
                                Pred::Slt => sx(x, *w) < sx(y, *w), Pred::Sle => sx(x, *w) <= sx(y, *w), Pred::Sgt => sx(x, *w) > sx(y, *w), Pred::Sge => sx(x, *w) >= sx(y, *w),
                            };
                            set!(*d, vc(r as u64));
                        } else {
                            let mut r = self.cmp(*p, *w, x, y);
                            // sorting by symbolic keys: branch-free merges would nest every comparison in the next
                            if r.e != 0 && self.cfg.eager && *w >= 64 && !matches!(p, Pred::Eq | Pred::Ne) { r = vc(slow!(self.decide(st, r.e)) as u64); }
                            set!(*d, r);
                        }
                    }
                    I::Sel(w, d, c, a, b) => {
                        let c = val!(*c);
                        if c.e == 0 { set!(*d, if c.c & 1 != 0 { val!(*a) } else { val!(*b) }); }
                        else { let r = self.sel(*w, c, val!(*a), val!(*b)); set!(*d, r); }
                    }
                    I::Zext(_, w2, d, s) => { let v = val!(*s); if v.e == 0 && *w2 <= 64 { set!(*d, v); } else { let r = self.zext(v, *w2); set!(*d, r); } }
                    I::Sext(w1, w2, d, s) => { let v = val!(*s); let r = self.sext(v, *w1, *w2); set!(*d, r); }
                    I::Trunc(w, d, s) => { let v = val!(*s); if v.e == 0 { set!(*d, vc(mask(v.c, *w))); } else { let r = self.trunc(v, *w); set!(*d, r); } }
                    I::Mov(d, s) => set!(*d, val!(*s)),
                    I::GepC(d, b, k) => { let v = val!(*b); if v.e == 0 { set!(*d, vc(v.c.wrapping_add(*k))); } else { let r = self.bin(Op::Add, 64, v, vc(*k)); set!(*d, r); } }
                    I::Gep(d, b, i, w, sc, k) => {
                        let (v, ix) = (val!(*b), val!(*i));
                        if v.e | ix.e == 0 { set!(*d, vc(v.c.wrapping_add((sx(ix.c, *w) as u64).wrapping_mul(*sc)).wrapping_add(*k))); }
                        else {
                            let ix = if *w < 64 { self.sext(ix, *w, 64) } else if *w > 64 { self.trunc(ix, 64) } else { ix };
                            let t = self.bin(Op::Mul, 64, ix, vc(*sc));
                            let r = self.bin(Op::Add, 64, v, t);
                            let r = self.add64(r, *k);
                            set!(*d, r);
                        }
                    }
                    I::Load(w, d, p) => {
                        let p = val!(*p);
                        if p.e == 0 {
                            let nb = (*w as usize + 7) / 8;
                            let off = (p.c & 0xffff_ffff) as usize;
                            if let Some(o) = st.mem.get(p.c >> 32) {
                                if o.nsym == 0 && off + nb <= o.data.len() && *w <= 64 {
                                    let q = unsafe { o.data.as_ptr().add(off) };
                                    let r = unsafe { match nb {
                                        1 => *q as u64,
                                        2 => (q as *const u16).read_unaligned() as u64,
                                        4 => (q as *const u32).read_unaligned() as u64,
                                        8 => (q as *const u64).read_unaligned(),
                                        _ => { let mut x = 0u64; for i in (0..nb).rev() { x = (x << 8) | *q.add(i) as u64; } x }
                                    } };
                                    set!(*d, vc(mask(r, *w)));
                                    pc += 1;
                                    continue;
                                }
                            }
                        }
                        let r = slow!(self.load(st, p, *w));
                        set!(*d, r);
                    }
                    I::Store(w, v, p) => {
                        let (v, p) = (val!(*v), val!(*p));
                        if v.e | p.e == 0 && *w <= 64 {
                            let nb = (*w as usize + 7) / 8;
                            let off = (p.c & 0xffff_ffff) as usize;
                            if let Some(o) = st.mem.get_mut(p.c >> 32) {
                                if off + nb <= o.data.len() && !o.ro && o.nsym < LOGGED {
                                    if o.nsym > 0 { o.set_conc(off, nb); }
                                    let q = unsafe { o.data.as_mut_ptr().add(off) };
                                    unsafe { match nb {
                                        1 => *q = v.c as u8,
                                        2 => (q as *mut u16).write_unaligned(v.c as u16),
                                        4 => (q as *mut u32).write_unaligned(v.c as u32),
                                        8 => (q as *mut u64).write_unaligned(v.c),
                                        _ => for i in 0..nb { *q.add(i) = (v.c >> (8 * i)) as u8; }
                                    } }
                                    pc += 1;
                                    continue;
                                }
                            }
                        }
                        slow!(self.store(st, p, *w, v));
                    }
                    I::Alloca(d, sz, n) => {
                        let n = val!(*n);
                        let n = slow!(self.conc(st, n));
                        let a = slow!(self.alloc(st, sz * n, false));
                        st.threads[st.cur].frames.last_mut().unwrap().allocas.push((a >> 32) as u32);
                        set!(*d, vc(a));
                    }
                    I::Br(e) => go!(*e),
                    I::CondBr(c, a, b) => {
                        let c = val!(*c);
                        let t = if c.e == 0 { c.c & 1 != 0 } else { slow!(self.decide(st, c.e)) };
                        if t { go!(*a) } else { go!(*b) }
                    }
                    I::Switch(w, v, map, list, def) => {
                        let v = val!(*v);
                        if v.e == 0 {
                            let e = map.get(&mask(v.c, *w)).cloned().unwrap_or(*def);
                            go!(e)
                        } else {
                            let v = self.s.simp(&st.path, v);
                            if v.e == 0 { let e = map.get(&mask(v.c, *w)).cloned().unwrap_or(*def); go!(e) }
                            // group the cases by target block, follow the one of the current model
                            let x = self.s.eval_model(&st.path, v.e) as u64;
                            let me = map.get(&x).cloned();
                            let blk = |e: u32| unsafe { let e = &*edges.add(e as usize); (e.pc, e.moves.clone()) };
                            let mut cond: Option<N> = None;
                            let mine = blk(me.unwrap_or(*def));
                            let inv = blk(*def) == mine;
                            for (k, e) in list.iter() {
                                if (blk(*e) == mine) != inv { let c = self.s.e.cn(*w, *k as u128); let q = self.s.e.bin(Op::Eq, v.e, c); cond = Some(match cond { None => q, Some(o) => self.s.e.or1(o, q) }); }
                            }
                            let c = match cond { None => self.s.e.cn(1, 0), Some(c) => c };
                            let c = if inv { self.s.e.not(c) } else { c };
                            let r = slow!(self.decide(st, c));
                            debug_assert!(r);
                            go!(me.unwrap_or(*def))
                        }
                    }
                    I::Call { callee, args, widths, d, nret, rw, cont } => {
                        let f = match callee {
                            Callee::Fn(f) => *f,
                            Callee::Ptr(s) => {
                                let p = val!(*s);
                                let p = slow!(self.conc(st, p));
                                let id = p >> 32;
                                if id < FN_BASE || (id - FN_BASE) as usize >= self.m.fns.len() { save!(pc); return End::Violation(format!("call of invalid function pointer {:#x}", p)); }
                                (id - FN_BASE) as u32
                            }
                            Callee::Intr(i) => {
                                let av: Vec<V> = args.iter().map(|a| val!(*a)).collect();
                                let r = slow!(self.intrinsic(st, *i, &av, widths, *nret, *rw));
                                for (k, v) in r.iter().enumerate() { set!(*d + k as u32, *v); }
                                if *cont != NOCONT { go!(*cont) }
                                pc += 1;
                                continue;
                            }
                            Callee::Asm(a) => {
                                let av: Vec<V> = args.iter().map(|a| val!(*a)).collect();
                                for k in 0..*nret { set!(*d + k, if a.contains("cpuid") { vc(0) } else { av.get(k as usize).cloned().unwrap_or(vc(0)) }); }
                                pc += 1;
                                continue;
                            }
                        };
                        if self.icpt[f as usize] == 255 { self.icpt[f as usize] = self.intercept_kind(f); }
                        let k = self.icpt[f as usize];
                        if k != 0 {
                            let av: Vec<V> = args.iter().map(|a| val!(*a)).collect();
                            let r = slow!(self.intercepted(st, k, f, &av, widths, *nret, *rw));
                            if let Some(r) = r {
                                for (k, v) in r.iter().enumerate() { set!(*d + k as u32, *v); }
                                if *cont != NOCONT { go!(*cont) }
                                pc += 1;
                                continue;
                            }
                        }
                        if self.m.fns[f as usize].is_decl {
                            let name = self.m.fns[f as usize].name.clone();
                            let i = self.m.intr(&name);
                            let av: Vec<V> = args.iter().map(|a| val!(*a)).collect();
                            let r = slow!(self.intrinsic(st, i, &av, widths, *nret, *rw));
                            for (k, v) in r.iter().enumerate() { set!(*d + k as u32, *v); }
                            if *cont != NOCONT { go!(*cont) }
                            pc += 1;
                            continue;
                        }
                        let nf = self.func(f);
                        *self.used.entry(f).or_insert(0) += 1;
                        let mut buf = [vc(0); 24];
                        let na = args.len();
                        save!(pc + 1);
                        if na <= 24 {
                            for (i, a) in args.iter().enumerate() { buf[i] = val!(*a); }
                            if let Err(Stop::End(e)) = self.push_frame(st, nf, &buf[..na], *d, *cont) { return e; }
                        } else {
                            let av: Vec<V> = args.iter().map(|a| val!(*a)).collect();
                            if let Err(Stop::End(e)) = self.push_frame(st, nf, &av, *d, *cont) { return e; }
                        }
                        if self.memo_next != 0 { st.threads[st.cur].frames.last_mut().unwrap().memo = std::mem::take(&mut self.memo_next); }
                        continue 'outer;
                    }
                    I::Ret(vs) => {
                        let t = &mut st.threads[st.cur];
                        let fr = t.frames.pop().unwrap();
                        if fr.memo & EXPECT != 0 {
                            let v = val!(vs[0]);
                            self.expect_checked += 1;
                            if v.e != 0 || v.c != self.expect[(fr.memo & !EXPECT) as usize] { eprintln!("the model of {} is wrong", demangle(&fr.f.f.name)); std::process::exit(3); }
                        } else if fr.memo != 0 { let v = val!(vs[0]); if v.e == 0 { let k = self.memo_keys[fr.memo as usize - 1].clone(); self.memo.insert(k, v.c); } }
                        for a in fr.allocas.iter() { st.mem.free(*a); }
                        let t = &mut st.threads[st.cur];
                        if t.frames.is_empty() {
                            t.ret = if vs.is_empty() { vc(0) } else { val!(vs[0]) };
                            t.status = Status::Done;
                            if st.cur == 0 { return End::Done; }
                            let me = st.cur as u32;
                            for o in st.threads.iter_mut() { if o.status == Status::Join(me) { o.status = Status::Run; } }
                            if let Some(e) = self.reschedule(st) { return e; }
                            continue 'outer;
                        }
                        let caller = t.frames.last_mut().unwrap();
                        let cb = caller.base as usize;
                        let csp = unsafe { t.slots.as_mut_ptr().add(cb) };
                        for (i, s) in vs.iter().enumerate() { let v = val!(*s); unsafe { *csp.add(fr.d as usize + i) = v; } }
                        if fr.cont != NOCONT {
                            let cf = caller.f.clone();
                            let e = &cf.f.edges[fr.cont as usize];
                            Self::edge(csp, cf.cv.as_ptr(), e, &mut tmp);
                            caller.pc = e.pc;
                        }
                        continue 'outer;
                    }
                    I::Unreachable => { save!(pc); return End::Violation("unreachable code reached".into()); }
                    I::Rmw(o, w, d, p, v) => {
                        let (p, v) = (val!(*p), val!(*v));
                        slow!(self.preempt_point(st));
                        let p = vc(slow!(self.conc(st, p)));
                        let old = slow!(self.load(st, p, *w));
                        let nv = match o {
                            0 => v, 1 => self.bin(Op::Add, *w, old, v), 2 => self.bin(Op::Sub, *w, old, v), 3 => self.bin(Op::And, *w, old, v), 4 => self.bin(Op::Or, *w, old, v), 5 => self.bin(Op::Xor, *w, old, v),
                            6 => { let c = self.cmp(Pred::Sgt, *w, old, v); self.sel(*w, c, old, v) } 7 => { let c = self.cmp(Pred::Slt, *w, old, v); self.sel(*w, c, old, v) }
                            8 => { let c = self.cmp(Pred::Ugt, *w, old, v); self.sel(*w, c, old, v) } 9 => { let c = self.cmp(Pred::Ult, *w, old, v); self.sel(*w, c, old, v) }
                            _ => { let t = self.bin(Op::And, *w, old, v); self.bin(Op::Xor, *w, t, vc(mask64(*w))) }
                        };
                        slow!(self.store(st, p, *w, nv));
                        set!(*d, old);
                    }
                    I::CmpXchg(w, d, p, a, b) => {
                        let (p, a, b) = (val!(*p), val!(*a), val!(*b));
                        slow!(self.preempt_point(st));
                        let p = vc(slow!(self.conc(st, p)));
                        let old = slow!(self.load(st, p, *w));
                        let eq = self.cmp(Pred::Eq, *w, old, a);
                        let eq = if eq.e == 0 { eq.c } else { slow!(self.decide(st, eq.e)) as u64 };
                        if eq != 0 { slow!(self.store(st, p, *w, b)); }
                        set!(*d, old);
                        set!(*d + 1, vc(eq));
                    }
                    I::Fsh { w, d, a, b, k } => {
                        let (x, y) = (val!(*a), val!(*b));
                        if *k == 0 { set!(*d, x); }
                        else if x.e | y.e == 0 { set!(*d, vc(mask(x.c << *k | y.c >> (*w as u32 - *k), *w))); }
                        else {
                            let (x, y, k) = (self.node(x, *w), self.node(y, *w), *k as u16);
                            let h = self.s.e.extract(x, 0, *w - k); let l = self.s.e.extract(y, *w - k, k);
                            let r = self.s.e.concat(h, l);
                            set!(*d, self.s.v(r));
                        }
                    }
                    I::LoadV { w, n, d, p } => {
                        let p = val!(*p);
                        let nb = (*w / 8) as usize;
                        let mut done = false;
                        if p.e == 0 {
                            let off = (p.c & 0xffff_ffff) as usize;
                            if let Some(o) = st.mem.get(p.c >> 32) {
                                if o.nsym == 0 && off + nb * *n as usize <= o.data.len() {
                                    let q = unsafe { o.data.as_ptr().add(off) };
                                    for i in 0..*n as usize {
                                        let x = unsafe { match nb { 1 => *q.add(i) as u64, 2 => (q.add(2 * i) as *const u16).read_unaligned() as u64, 4 => (q.add(4 * i) as *const u32).read_unaligned() as u64, _ => (q.add(8 * i) as *const u64).read_unaligned() } };
                                        set!(*d + i as u32, vc(x));
                                    }
                                    done = true;
                                }
                            }
                        }
                        if !done {
                            for i in 0..*n {
                                let q = self.add64(p, i as u64 * nb as u64);
                                let r = slow!(self.load(st, q, *w));
                                set!(*d + i, r);
                            }
                        }
                    }
                    I::CmpV { p, w, d, a, b } => {
                        for i in 0..a.len() {
                            let (x, y) = (val!(a[i]), val!(b[i]));
                            let r = if x.e | y.e == 0 && *p == Pred::Eq { vc((x.c == y.c) as u64) } else if x.e | y.e == 0 && *p == Pred::Slt { vc((sx(x.c, *w) < sx(y.c, *w)) as u64) } else { self.cmp(*p, *w, x, y) };
                            set!(*d + i as u32, r);
                        }
                    }
                    I::MovV(d, s) => for i in 0..s.len() { set!(*d + i as u32, val!(s[i])); },
                    I::Regroup { d, nd, dw, s, sw } => {
                        let mut all: Option<N> = None;
                        let mut call: u128 = 0; let mut conc = (s.len() as u32 * *sw as u32) <= 128;
                        if conc { for (i, x) in s.iter().enumerate() { let v = val!(*x); if v.e != 0 { conc = false; break; } call |= (v.c as u128) << (i as u32 * *sw as u32); } }
                        if conc {
                            for i in 0..*nd { let x = (call >> (i * *dw as u32)) & mask128(*dw); set!(*d + i, if *dw <= 64 { vc(x as u64) } else { V { c: 0, e: self.s.e.cn(*dw, x) } }); }
                        } else if s.len() as u32 * *sw as u32 <= 128 {
                            for x in s.iter() { let v = val!(*x); let n = self.node(v, *sw); all = Some(match all { None => n, Some(l) => self.s.e.concat(n, l) }); }
                            let all = all.unwrap();
                            for i in 0..*nd { let x = self.s.e.extract(all, i as u16 * *dw, *dw); set!(*d + i, self.s.v(x)); }
                        } else {
                            // wide vectors: regroup destination element by destination element
                            for i in 0..*nd {
                                let lo = i * *dw as u32;
                                if *dw >= *sw {
                                    let k = (*dw / *sw) as u32; let first = lo / *sw as u32;
                                    let mut r: Option<N> = None;
                                    for j in 0..k { let v = val!(s[(first + j) as usize]); let n = self.node(v, *sw); r = Some(match r { None => n, Some(l) => self.s.e.concat(n, l) }); }
                                    let r = self.s.v(r.unwrap());
                                    set!(*d + i, r);
                                } else {
                                    let v = val!(s[(lo / *sw as u32) as usize]); let n = self.node(v, *sw); let x = self.s.e.extract(n, (lo % *sw as u32) as u16, *dw);
                                    let r = self.s.v(x);
                                    set!(*d + i, r);
                                }
                            }
                        }
                    }
                    I::ExtElem { w, d, v, idx } => {
                        let ix = val!(*idx);
                        if ix.e == 0 { set!(*d, val!(v[ix.c as usize % v.len()])); }
                        else { let ix = slow!(self.conc(st, ix)); let _ = w; set!(*d, val!(v[ix as usize % v.len()])); }
                    }
                    I::InsElem { w: _, d, v, x, idx } => {
                        let ix = val!(*idx);
                        let ix = slow!(self.conc(st, ix)) as usize % v.len();
                        for i in 0..v.len() { set!(*d + i as u32, if i == ix { val!(*x) } else { val!(v[i]) }); }
                    }
                    I::FBin(o, w, d, a, b) => {
                        let (a, b) = (val!(*a), val!(*b));
                        let (x, y) = (slow!(self.conc(st, a)), slow!(self.conc(st, b)));
                        let r = if *w == 32 {
                            let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match o { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, _ => x % y }).to_bits() as u64
                        } else {
                            let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                            (match o { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, _ => x % y }).to_bits()
                        };
                        set!(*d, vc(r));
                    }
                    I::FNeg(w, d, a) => { let a = val!(*a); let x = slow!(self.conc(st, a)); set!(*d, vc(x ^ (1u64 << (w - 1)))); }
                    I::FCmp(p, w, d, a, b) => {
                        let (a, b) = (val!(*a), val!(*b));
                        let (x, y) = (slow!(self.conc(st, a)), slow!(self.conc(st, b)));
                        let (x, y) = if *w == 32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
                        let un = x.is_nan() || y.is_nan();
                        let o = match p & 7 { 0 => false, 1 => x == y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => x != y, _ => true };
                        let r = match p { 0 => false, 1..=6 => o && !un, 7 => !un, 8 => un || x == y, 9 => un || x > y, 10 => un || x >= y, 11 => un || x < y, 12 => un || x <= y, 13 => un || x != y, 14 => un, _ => true };
                        set!(*d, vc(r as u64));
                    }
                    I::FCast(k, w1, w2, d, s) => {
                        let v = val!(*s);
                        let x = slow!(self.conc(st, v));
                        let tof = |x: u64| if *w1 == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                        let fromf = |x: f64| if *w2 == 32 { (x as f32).to_bits() as u64 } else { x.to_bits() };
                        let r = match k {
                            0 => if *w2 == 32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() },
                            1 => { let y = sx(x, *w1); if *w2 == 32 { (y as f32).to_bits() as u64 } else { (y as f64).to_bits() } }
                            2 => mask(tof(x) as u64, *w2),
                            3 => mask(tof(x) as i64 as u64, *w2),
                            _ => fromf(tof(x)),
                        };
                        set!(*d, vc(r));
                    }
                    I::Fence => {}
                    I::Bad(s) => { save!(pc); return End::Abandon(format!("unsupported instruction: {}", s)); }
                }
                pc += 1;
            }
        }
    }

    // ------------------------------------------------------------------ threads
    /// Threads that may run next. A timed wait may end at any time: while other threads can run this counts as a preemption.
    fn runnable(&self, st: &State) -> Vec<usize> {
        let any = st.threads.iter().any(|t| t.status == Status::Run);
        let timed = !any || st.preempts < self.cfg.preempt_bound;
        (0..st.threads.len()).filter(|i| { let t = &st.threads[*i]; t.status == Status::Run || timed && t.deadline != 0 && matches!(t.status, Status::Futex(_)) }).collect()
    }
    fn switch(&self, st: &mut State, i: usize) {
        let any = st.threads.iter().any(|t| t.status == Status::Run);
        let t = &mut st.threads[i];
        if let Status::Futex(_) = t.status {
            t.status = Status::Run;
            t.expired = true;
            st.clock = st.clock.max(t.deadline);
            if any { st.preempts += 1; }
        }
        st.cur = i;
        st.trace.push(i as u32);
    }
    fn switch_free(&self, st: &mut State, i: usize) { let p = st.preempts; self.switch(st, i); st.preempts = p; }
    /// A symbolic scheduling choice between k alternatives.
    pub fn choose(&mut self, st: &mut State, k: u64) -> R<u64> {
        if k <= 1 { return Ok(0); }
        self.st.sched_points += 1;
        if let Some((_, sc, _)) = &self.cfg.replay {
            let i = st.path.kind.iter().filter(|k| **k == 1).count();
            let x = sc.get(i).cloned().unwrap_or(0).min(k - 1);
            self.s.new_var(&mut st.path, x, x, 1);
            return Ok(x);
        }
        let n = self.s.new_var(&mut st.path, 0, k - 1, 1);
        // pin the choice right away: the other alternatives become separate states *after* this point
        let mut chosen = 0;
        for i in (0..k).rev() {
            let w = self.s.e.w(n);
            let c = self.s.e.cn(w, i as u128);
            let eq = self.s.e.bin(Op::Eq, n, c);
            if i == 0 { let u = vec![((st.path.vars.len() - 1) as u32, 0)]; self.s.add(&mut st.path, eq, u); chosen = 0; }
            else {
                let mut o = st.clone();
                let u = vec![((o.path.vars.len() - 1) as u32, i)];
                self.s.add(&mut o.path, eq, u);
                self.resume_choice(&mut o, i);
                self.pending.push(o);
                self.st.forks += 1;
            }
        }
        Ok(chosen)
    }
    fn resume_choice(&mut self, o: &mut State, i: u64) { let r = self.runnable(o); self.switch(o, r[i as usize]); }
    /// The current thread cannot continue: pick another one.
    pub fn reschedule(&mut self, st: &mut State) -> Option<End> {
        let r = self.runnable(st);
        if r.is_empty() { return Some(End::Violation("deadlock: every thread is blocked".into())); }
        self.st.thread_switches += 1;
        match self.choose(st, r.len() as u64) { Ok(i) => { self.switch(st, r[i as usize]); None } Err(Stop::End(e)) => Some(e), _ => None }
    }
    /// Before an atomic operation: up to a bound, any other runnable thread may run first.
    pub fn preempt_point(&mut self, st: &mut State) -> R<()> {
        if st.threads.len() < 2 || st.preempts >= self.cfg.preempt_bound { return Ok(()); }
        let me = st.cur;
        const TAG: u64 = 1 << 62;
        if st.threads[me].woken == 2 { st.threads[me].woken = 0; return Ok(()); }
        let r = self.runnable(st);
        if r.len() < 2 { return Ok(()); }
        // alternatives: continue, or switch to one of the others (re-executing this operation later)
        st.ctr += 1;
        if let Some((_, sc, _)) = &self.cfg.replay {
            let i = st.path.kind.iter().filter(|k| **k == 1).count();
            if sc.get(i) != Some(&(TAG | st.ctr)) { return Ok(()); }
            let t = sc.get(i + 1).cloned().unwrap_or(0);
            self.s.new_var(&mut st.path, TAG | st.ctr, TAG | st.ctr, 1);
            self.s.new_var(&mut st.path, t, t, 1);
            st.preempts += 1; st.threads[me].woken = 2; self.switch_free(st, t as usize);
            return Err(Stop::Retry);
        }
        self.st.sched_points += 1;
        for &t in &r {
            if t == me { continue; }
            let mut o = st.clone();
            o.preempts += 1;
            o.threads[me].woken = 2; // its operation executes without another choice when it resumes
            self.switch_free(&mut o, t);
            self.s.new_var(&mut o.path, TAG | st.ctr, TAG | st.ctr, 1);
            let n = self.s.new_var(&mut o.path, 0, 255, 1);
            let c = self.s.e.cn(8, t as u128);
            let eq = self.s.e.bin(Op::Eq, n, c);
            let u = vec![((o.path.vars.len() - 1) as u32, t as u64)];
            self.s.add(&mut o.path, eq, u);
            self.pending.push(o);
            self.st.forks += 1;
        }
        Ok(())
    }

    // ------------------------------------------------------------------ exploration
    pub fn inputs(&self, p: &Path, kind: u8) -> Vec<u64> { (0..p.vars.len()).filter(|i| p.kind[*i] == kind).map(|i| p.model[i]).collect() }

    pub fn finish(&mut self, st: &mut State, end: End) {
        self.st.steps += st.steps;
        match end {
            End::Done => {
                self.st.paths += 1;
                self.st.max_steps = self.st.max_steps.max(st.steps);
                if !st.path.multi.is_empty() { self.st.paths_multi += 1; }
                if st.path.vars.len() > 0 { self.st.syms = self.st.syms.max(st.path.vars.len() as u64); }
                let k = self.st.paths;
                if k <= 4 || k % self.cfg.sample_every == 0 {
                    // ask z3 for a model of the whole path condition
                    if !st.path.multi.is_empty() {
                        let cs: Vec<N> = st.path.multi.to_vec();
                        match self.s.z3_check(&st.path, &cs) { Some(u) => for (i, x) in u { st.path.model[i as usize] = x; }, None => { self.st.n_abandoned += 1; self.st.abandoned.push("z3 refutes a completed path".into()); } }
                    }
                    let obs: Vec<u64> = st.obs.clone().iter().map(|v| if v.e == 0 { v.c } else { self.s.eval_model(&st.path, v.e) as u64 }).collect();
                    if self.st.samples.len() < 400 { self.st.samples.push(Sample { inputs: self.inputs(&st.path, 0), obs, sched: !self.inputs(&st.path, 1).is_empty() || st.path.kind.contains(&2), steps: st.steps }); }
                }
            }
            End::Infeasible => self.st.infeasible += 1,
            End::Violation(l) => {
                self.st.paths += 1;
                self.st.n_violations += 1;
                if !st.path.multi.is_empty() {
                    let cs: Vec<N> = st.path.multi.to_vec();
                    match self.s.z3_check(&st.path, &cs) { Some(u) => for (i, x) in u { st.path.model[i as usize] = x; }, None => { self.st.n_abandoned += 1; self.st.abandoned.push("z3 refutes a violating path".into()); } }
                }
                let n = self.st.violations.len();
                if n < 40 && self.st.violations.iter().filter(|v| v.label == l).count() < 3 {
                    let sched = self.inputs(&st.path, 1); let env = self.inputs(&st.path, 2);
                    self.st.violations.push(Violation { label: l, inputs: self.inputs(&st.path, 0), sched, env, stack: self.stack(st), steps: st.steps });
                }
            }
            End::Abandon(m) => { self.st.n_abandoned += 1; let stk = self.stack(st); if self.st.abandoned.len() < 20 { self.st.abandoned.push(format!("{} in {}", m, stk.iter().take(6).cloned().collect::<Vec<_>>().join(" < "))); } else { self.st.abandoned.push(m); self.st.abandoned.truncate(21); } }
        }
    }
}

pub fn demangle(s: &str) -> String {
    // a readable rendering of v0-mangled names: the identifiers in order
    if !s.starts_with("_R") { return s.to_string(); }
    let b = s.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut n = 0usize; let st = i;
            while i < b.len() && b[i].is_ascii_digit() { n = n * 10 + (b[i] - b'0') as usize; i += 1; }
            if i < b.len() && b[i] == b'_' { i += 1; }
            if i + n <= b.len() && n > 0 && b[i..i + n].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') { out.push(s[i..i + n].to_string()); i += n; } else { i = st + 1; }
        } else if b[i] == b's' || b[i] == b'C' { // skip disambiguators "s<base62>_"
            i += 1;
            if b[i - 1] == b's' { let st = i; while i < b.len() && b[i].is_ascii_alphanumeric() { i += 1; } if i < b.len() && b[i] == b'_' { i += 1; } else { i = st; } }
        } else { i += 1; }
    }
    out.join("::")
}
