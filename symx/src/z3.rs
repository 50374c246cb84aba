//! Minimal bindings to libz3 and translation of expressions to QF_BV.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
}
extern "C" fn on_error(_c: P, e: c_uint) { eprintln!("z3 error {}", e); std::process::exit(3); }

pub struct Z3 { c: P, s: P, memo: HashMap<(N, u32), P>, domkeys: HashMap<Vec<(u32, u32)>, u32>, qdoms: HashMap<u32, u32>, hastab: HashMap<N, bool>, pieces: HashMap<(u32, u16, u16), std::rc::Rc<Vec<(u64, u8, u64, u64)>>>, sorts: HashMap<u16, P>, dommemo: HashMap<(u32, u32), P>, pub n_checks: u64, pub time: f64, pub timeout_ms: u32, pub unknowns: u64 }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Res { Sat, Unsat, Unknown }

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let mut z = Z3 { c, s: std::ptr::null_mut(), memo: HashMap::new(), domkeys: HashMap::new(), qdoms: HashMap::new(), hastab: HashMap::new(), pieces: HashMap::new(), sorts: HashMap::new(), dommemo: HashMap::new(), n_checks: 0, time: 0.0, timeout_ms, unknowns: 0 };
            z.fresh();
            z
        }
    }
    unsafe fn fresh(&mut self) {
        if !self.s.is_null() { Z3_solver_dec_ref(self.c, self.s); }
        let l = self.sym("QF_BV");
        self.s = Z3_mk_solver_for_logic(self.c, l);
        Z3_solver_inc_ref(self.c, self.s);
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = self.sym("rlimit"); // deterministic, and (unlike timeouts) needs no timer thread, so fork() is safe
        Z3_params_set_uint(self.c, p, k, self.timeout_ms);
        Z3_solver_set_params(self.c, self.s, p);
    }
    unsafe fn sym(&self, s: &str) -> P { let c = CString::new(s).unwrap(); Z3_mk_string_symbol(self.c, c.as_ptr()) }
    unsafe fn sort(&mut self, w: u16) -> P { let c = self.c; *self.sorts.entry(w).or_insert_with(|| Z3_mk_bv_sort(c, w as c_uint)) }
    unsafe fn num(&mut self, w: u16, v: u128) -> P {
        let s = self.sort(w);
        if v >> 64 == 0 { Z3_mk_unsigned_int64(self.c, v as u64, s) } else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), s) }
    }
    unsafe fn b2v(&mut self, b: P) -> P { let (o, z) = (self.num(1, 1), self.num(1, 0)); Z3_mk_ite(self.c, b, o, z) }

    /// Balanced decision tree over value ranges [(first, term)], sorted by first.
    unsafe fn tree(&mut self, x: P, wx: u16, rs: &[(u64, P)]) -> P {
        if rs.len() == 1 { return rs[0].1; }
        let m = rs.len() / 2;
        let (a, b) = (self.tree(x, wx, &rs[..m]), self.tree(x, wx, &rs[m..]));
        if a == b { return a; }
        let k = self.num(wx, rs[m].0 as u128);
        let c = Z3_mk_bvult(self.c, x, k);
        Z3_mk_ite(self.c, c, a, b)
    }
    /// Piecewise form of a table: (first argument, constant / argument plus constant / alternating (even/odd) offsets, p, q).
    fn table_pieces(&mut self, e: &Exprs, t: u32, wa: u16, w: u16) -> std::rc::Rc<Vec<(u64, u8, u64, u64)>> {
        if let Some(p) = self.pieces.get(&(t, wa, w)) { return p.clone(); }
        let tb = &e.tables[t as usize];
        let (v, base) = (&tb.vals, tb.base);
        let maxarg = mask64(wa);
        let n = v.len();
        let mut pieces: Vec<(u64, u8, u64, u64)> = vec![];
        if base > 0 { pieces.push((0, 0, 0, 0)); }
        let mut i = 0;
        let d = |i: usize| v[i].wrapping_sub(base + i as u64);
        while i < n {
            let a0 = base + i as u64;
            if a0 > maxarg { break; }
            let mut jc = i; while jc + 1 < n && v[jc + 1] == v[i] { jc += 1; }
            let mut ja = i; while ja + 1 < n && d(ja + 1) == d(i) { ja += 1; }
            let mut jp = i; while jp + 1 < n && d(jp + 1) == d(i + ((jp + 1 - i) & 1)) { jp += 1; }
            if jc >= ja && jc - i + 2 >= jp - i { pieces.push((a0, 0, v[i], 0)); i = jc + 1; }
            else if ja - i + 2 >= jp - i { pieces.push((a0, 1, d(i), 0)); i = ja + 1; }
            else { let (p, q) = if a0 & 1 == 0 { (d(i), d(i + 1)) } else { (d(i + 1), d(i)) }; pieces.push((a0, 2, p, q)); i = jp + 1; }
        }
        if base + (n as u64) <= maxarg { pieces.push((base + n as u64, 0, 0, 0)); }
        let r = std::rc::Rc::new(pieces);
        self.pieces.insert((t, wa, w), r.clone());
        r
    }
    /// A table lookup as a decision tree; only the pieces the argument can reach (given the variable domains of the query).
    unsafe fn tab(&mut self, e: &Exprs, t: u32, argn: N, arg: P, wa: u16, w: u16) -> P {
        let wc = wa.max(w);
        let all = self.table_pieces(e, t, wa, w);
        let mut pieces: Vec<(u64, u8, u64, u64)> = all.to_vec();
        let sup = e.sup(argn);
        if sup.len() == 1 {
            if let Some(&dm) = self.qdoms.get(&sup[0]) {
                let b = &e.bits[dm as usize];
                if b.cnt <= 4096 {
                    let lo = e.vars[sup[0] as usize].lo;
                    let mut keep = vec![false; pieces.len()];
                    for x in b.iter() {
                        if let Some(a) = e.eval(argn, &|_| Some(x + lo)) {
                            let a = a as u64;
                            let i = pieces.partition_point(|p| p.0 <= a);
                            if i > 0 { keep[i - 1] = true; }
                        }
                    }
                    let mut i = 0;
                    pieces.retain(|_| { i += 1; keep[i - 1] });
                }
            }
        }
        let ax = if wc > wa { Z3_mk_zero_ext(self.c, (wc - wa) as c_uint, arg) } else { arg };
        let mut rs: Vec<(u64, P)> = vec![];
        for (s, k, p, q) in pieces {
            let term = match k {
                0 => self.num(w, (p & mask64(w)) as u128),
                1 => { let c = self.num(wc, (p & mask64(wc)) as u128); let t = Z3_mk_bvadd(self.c, ax, c); if wc > w { Z3_mk_extract(self.c, w as c_uint - 1, 0, t) } else { t } }
                _ => { let (cp, cq) = (self.num(wc, (p & mask64(wc)) as u128), self.num(wc, (q & mask64(wc)) as u128)); let bit = Z3_mk_extract(self.c, 0, 0, arg); let one = self.num(1, 1); let odd = Z3_mk_eq(self.c, bit, one); let off = Z3_mk_ite(self.c, odd, cq, cp); let t = Z3_mk_bvadd(self.c, ax, off); if wc > w { Z3_mk_extract(self.c, w as c_uint - 1, 0, t) } else { t } }
            };
            if let Some(l) = rs.last() { if l.1 == term { continue; } }
            rs.push((s, term));
        }
        self.tree(arg, wa, &rs)
    }

    fn has_tab(&mut self, e: &Exprs, n: N) -> bool {
        if let Some(&b) = self.hastab.get(&n) { return b; }
        let mut st = vec![(n, false)];
        while let Some((n, ready)) = st.pop() {
            if self.hastab.contains_key(&n) { continue; }
            let k = e.key(n);
            if matches!(k.op, Op::Const | Op::Var) { self.hastab.insert(n, false); continue; }
            if k.op == Op::Tab { self.hastab.insert(n, true); continue; }
            if !ready { st.push((n, true)); for x in [k.a, k.b, k.c] { if x != 0 { st.push((x, false)); } } continue; }
            let r = [k.a, k.b, k.c].iter().any(|x| *x != 0 && self.hastab[x]);
            self.hastab.insert(n, r);
        }
        self.hastab[&n]
    }
    /// Terms with tables are translated per variable domains (smaller trees), so those are part of the memo key.
    fn mk(&mut self, e: &Exprs, n: N) -> (N, u32) {
        if !self.has_tab(e, n) { return (n, 0); }
        let v: Vec<(u32, u32)> = e.sup(n).iter().map(|x| (*x, *self.qdoms.get(x).unwrap_or(&u32::MAX))).collect();
        let l = self.domkeys.len() as u32 + 1;
        (n, *self.domkeys.entry(v).or_insert(l))
    }
    pub fn term(&mut self, e: &Exprs, root: N) -> P {
        let rk = self.mk(e, root);
        if let Some(&t) = self.memo.get(&rk) { return t; }
        let mut st = vec![(root, false)];
        while let Some((n, ready)) = st.pop() {
            let nk = self.mk(e, n);
            if self.memo.contains_key(&nk) { continue; }
            let k = e.key(n);
            if !ready {
                st.push((n, true));
                if !matches!(k.op, Op::Const | Op::Var) { for x in [k.a, k.b, k.c] { if x != 0 { let xk = self.mk(e, x); if !self.memo.contains_key(&xk) { st.push((x, false)); } } } }
                continue;
            }
            let t = unsafe {
                let c = self.c;
                let g = |z: &mut Z3, x: N| { let k = z.mk(e, x); z.memo[&k] };
                let (a, b) = if matches!(k.op, Op::Const | Op::Var) { (std::ptr::null_mut(), std::ptr::null_mut()) } else { (g(self, k.a), if k.b != 0 { g(self, k.b) } else { std::ptr::null_mut() }) };
                match k.op {
                    Op::Const => self.num(k.w, k.k),
                    Op::Var => { let vi = e.vars[k.k as usize]; let s = self.sort(k.w); let nm = self.sym(&format!("v{}_{}", vi.path_idx, k.k)); Z3_mk_const(c, nm, s) }
                    Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                    Op::Eq => { let t = Z3_mk_eq(c, a, b); self.b2v(t) }
                    Op::Ult => { let t = Z3_mk_bvult(c, a, b); self.b2v(t) }
                    Op::Ule => { let t = Z3_mk_bvule(c, a, b); self.b2v(t) }
                    Op::Slt => { let t = Z3_mk_bvslt(c, a, b); self.b2v(t) }
                    Op::Sle => { let t = Z3_mk_bvsle(c, a, b); self.b2v(t) }
                    Op::Not => { let o = self.num(1, 1); Z3_mk_bvxor(c, a, o) }
                    Op::Ite => { let o = self.num(1, 1); let t = Z3_mk_eq(c, a, o); let d = g(self, k.c); Z3_mk_ite(c, t, b, d) }
                    Op::ZExt => Z3_mk_zero_ext(c, (k.w - e.w(k.a)) as c_uint, a),
                    Op::SExt => Z3_mk_sign_ext(c, (k.w - e.w(k.a)) as c_uint, a),
                    Op::Extract => Z3_mk_extract(c, k.k as c_uint + k.w as c_uint - 1, k.k as c_uint, a),
                    Op::Concat => Z3_mk_concat(c, a, b),
                    Op::Tab => self.tab(e, k.k as u32, k.a, a, e.w(k.a), k.w),
                }
            };
            self.memo.insert(nk, t);
        }
        self.memo[&rk]
    }
    /// Boolean z3 term for "node == 1"
    fn bterm(&mut self, e: &Exprs, n: N) -> P { unsafe { let t = self.term(e, n); let o = self.num(1, 1); Z3_mk_eq(self.c, t, o) } }

    fn dom(&mut self, e: &Exprs, var: u32, dom: u32, varnode: N) -> P {
        if let Some(&p) = self.dommemo.get(&(var, dom)) { return p; }
        let vi = e.vars[var as usize];
        let b = e.bits[dom as usize].clone();
        let x = self.term(e, varnode);
        let p = unsafe {
            let mut v: Vec<P> = vec![];
            for (lo, hi) in b.runs() {
                let (lo, hi) = (lo + vi.lo, hi + vi.lo);
                let mut cs: Vec<P> = vec![];
                if lo == hi { let k = self.num(vi.w, lo as u128); cs.push(Z3_mk_eq(self.c, x, k)); }
                else {
                    if lo > 0 { let k = self.num(vi.w, lo as u128); cs.push(Z3_mk_bvule(self.c, k, x)); }
                    if hi < mask64(vi.w) { let k = self.num(vi.w, hi as u128); cs.push(Z3_mk_bvule(self.c, x, k)); }
                }
                v.push(match cs.len() { 0 => Z3_mk_true(self.c), 1 => cs[0], _ => Z3_mk_and(self.c, cs.len() as c_uint, cs.as_ptr()) });
            }
            match v.len() { 0 => Z3_mk_false(self.c), 1 => v[0], _ => Z3_mk_or(self.c, v.len() as c_uint, v.as_ptr()) }
        };
        self.dommemo.insert((var, dom), p);
        p
    }

    /// Satisfiability of the conjunction of `cs` (booleans) and variable domains.
    /// doms: (var id, Some(domain bitset)) — for a non-enumerable variable the range of its declaration is used.
    pub fn check(&mut self, e: &mut Exprs, cs: &[N], doms: &[(u32, Option<u32>)], want_model: bool) -> (Res, Vec<(u32, u64)>) {
        let t0 = std::time::Instant::now();
        self.n_checks += 1;
        self.qdoms.clear();
        for &(v, d) in doms { if let Some(d) = d { self.qdoms.insert(v, d); } }
        let mut asserts: Vec<P> = vec![];
        let mut vns: Vec<(u32, N)> = vec![];
        for &(v, d) in doms {
            let vi = e.vars[v as usize];
            let (_, vn) = e.var(vi.path_idx, vi.lo, vi.hi);
            vns.push((v, vn));
            match d {
                Some(d) => { let full = e.bits[d as usize].cnt as u64 == vi.size() && vi.lo == 0 && vi.hi == mask64(vi.w); if !full { asserts.push(self.dom(e, v, d, vn)); } }
                None => unsafe {
                    let x = self.term(e, vn);
                    if vi.lo > 0 { let k = self.num(vi.w, vi.lo as u128); asserts.push(Z3_mk_bvule(self.c, k, x)); }
                    if vi.hi < mask64(vi.w) { let k = self.num(vi.w, vi.hi as u128); asserts.push(Z3_mk_bvule(self.c, x, k)); }
                }
            }
        }
        for &c in cs { let t = self.bterm(e, c); asserts.push(t); }
        unsafe {
            Z3_solver_push(self.c, self.s);
            for a in &asserts { Z3_solver_assert(self.c, self.s, *a); }
            let r = Z3_solver_check(self.c, self.s);
            let mut model = vec![];
            if r == 1 && want_model {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                for (v, vn) in vns {
                    let x = self.term(e, vn);
                    let mut out: P = std::ptr::null_mut();
                    let mut u = 0u64;
                    if Z3_model_eval(self.c, m, x, true, &mut out) { Z3_get_numeral_uint64(self.c, out, &mut u); }
                    model.push((v, u));
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_pop(self.c, self.s, 1);
            self.time += t0.elapsed().as_secs_f64();
            if r == 0 { self.unknowns += 1; }
            (if r == 1 { Res::Sat } else if r == -1 { Res::Unsat } else { Res::Unknown }, model)
        }
    }
    /// The SMT-LIB text of a query (for the independent cross-check with another solver).
    pub fn dump(&mut self, e: &mut Exprs, cs: &[N], doms: &[(u32, Option<u32>)]) -> String {
        self.qdoms.clear();
        for &(v, d) in doms { if let Some(d) = d { self.qdoms.insert(v, d); } }
        let mut asserts: Vec<P> = vec![];
        for &(v, d) in doms {
            let vi = e.vars[v as usize];
            let (_, vn) = e.var(vi.path_idx, vi.lo, vi.hi);
            match d { Some(d) => asserts.push(self.dom(e, v, d, vn)),
                None => unsafe { let x = self.term(e, vn); let k = self.num(vi.w, vi.lo as u128); asserts.push(Z3_mk_bvule(self.c, k, x)); let k = self.num(vi.w, vi.hi as u128); asserts.push(Z3_mk_bvule(self.c, x, k)); } }
        }
        for &c in cs { let t = self.bterm(e, c); asserts.push(t); }
        unsafe {
            Z3_solver_push(self.c, self.s);
            for a in &asserts { Z3_solver_assert(self.c, self.s, *a); }
            let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().to_string();
            Z3_solver_pop(self.c, self.s, 1);
            format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s)
        }
    }
}
