//! Intrinsics, C library and system calls (a small in-memory file system), harness primitives, intercepts.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum K {
    Unset, Unknown, Nop, Memcpy, Memset, Memcmp, Bcmp, Strlen, MinMax(Pred), Abs, Ov(Op, bool), Sat(Op, bool), Ctlz, Cttz, Ctpop, Bswap, BitRev, Fsh(bool), Cmp3(bool), IsConst, LoadRel, Fabs,
    Tls, Trap, Pause, Yield, Reduce(u8),
    Malloc, Calloc, Realloc, Memalign, Free,
    Range, Assume, Assert, Cover, Observe, Concretize, Param, StdoutTake, Note,
    Open, Close, Read, Write, Writev, Lseek, Fstat, Stat, Statx, Unlink, Errno, Zero, MinusOne, Enosys, Getcwd, Syscall, Clock, Sleep, Getrandom, Sysconf, GetAffinity, PSelf, PCreate, PJoin, KeyCreate, SetSpecific, Exit, Dlsym, Getenv, StrError,
}

fn kind(n: &str) -> K {
    use K::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let h: Vec<&str> = r.split('.').collect();
        return match h[0] {
            "memcpy" | "memmove" => Memcpy, "memset" => Memset,
            "umin" => MinMax(Pred::Ult), "umax" => MinMax(Pred::Ugt), "smin" => MinMax(Pred::Slt), "smax" => MinMax(Pred::Sgt),
            "abs" => Abs, "ctlz" => Ctlz, "cttz" => Cttz, "ctpop" => Ctpop, "bswap" => Bswap, "bitreverse" => BitRev,
            "fshl" => Fsh(true), "fshr" => Fsh(false), "ucmp" => Cmp3(false), "scmp" => Cmp3(true),
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let o = match &h[0][1..] { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
                let sg = h[0].starts_with('s');
                if h[1] == "sat" { Sat(o, sg) } else { Ov(o, sg) }
            }
            "is" => IsConst, "load" => LoadRel, "fabs" => Fabs, "threadlocal" => Tls, "trap" | "ubsantrap" => Trap,
            "x86" => if r.contains("pause") { Pause } else { Nop },
            "vector" => match h.get(2).cloned().unwrap_or("") { "add" => Reduce(0), "or" => Reduce(1), "and" => Reduce(2), "xor" => Reduce(3), "umax" => Reduce(4), "umin" => Reduce(5), "smax" => Reduce(6), "smin" => Reduce(7), "mul" => Reduce(8), _ => Unknown },
            "lifetime" | "assume" | "dbg" | "donothing" | "prefetch" => Nop,
            "expect" => Unknown,
            _ => Unknown,
        };
    }
    match n {
        "memcmp" => Memcmp, "bcmp" => Bcmp, "strlen" => Strlen, "memcpy" | "memmove" => Memcpy, "memset" => Memset,
        "malloc" => Malloc, "calloc" => Calloc, "realloc" => Realloc, "posix_memalign" => Memalign, "free" => Free,
        "symx_range" => Range, "symx_assume" => Assume, "symx_assert" => Assert, "symx_cover" => Cover, "symx_observe" => Observe, "symx_concretize" => Concretize, "symx_param" => Param, "symx_stdout_take" => StdoutTake, "symx_note" => Note,
        "open" | "open64" => Open, "close" => Close, "read" => Read, "write" => Write, "writev" => Writev, "lseek64" => Lseek, "fstat64" => Fstat, "stat64" | "lstat64" => Stat, "statx" => Statx, "unlink" => Unlink,
        "__errno_location" => Errno, "getcwd" => Getcwd, "syscall" => Syscall, "clock_gettime" => Clock, "getrandom" => Getrandom, "sysconf" => Sysconf, "sched_getaffinity" => GetAffinity,
        "pthread_self" | "gettid" => PSelf, "pthread_create" => PCreate, "pthread_join" => PJoin, "pthread_key_create" => KeyCreate, "pthread_setspecific" => SetSpecific, "sched_yield" => Yield, "nanosleep" | "clock_nanosleep" => Sleep,
        "pthread_attr_init" | "pthread_attr_setstacksize" | "pthread_attr_destroy" | "pthread_setname_np" | "pthread_atfork" | "pthread_key_delete" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "isatty" | "poll" | "munmap" | "__cxa_thread_atexit_impl" | "sigaction" | "signal" | "sigaltstack" => Zero,
        "realpath" | "readlink" => MinusOne,
        "dlsym" => Dlsym, "getenv" => Getenv, "exit" | "_exit" => Exit, "abort" => Trap, "__xpg_strerror_r" => StrError,
        _ => Unknown,
    }
}

const IC_NONE: u8 = 0;
const IC_HASH: u8 = 250;
const IC_PANIC: u8 = 1;
const IC_PRINT: u8 = 2;
const IC_EPRINT: u8 = 3;
const IC_ALPHA: u8 = 4;
const IC_LOWER: u8 = 5;
const IC_UPPER: u8 = 6;
const IC_TITLE: u8 = 7;
const IC_CASEIGN: u8 = 8;
const IC_TOLOWER: u8 = 9;
const IC_TOUPPER: u8 = 10;
const IC_OOM: u8 = 11;
const IC_WS: u8 = 12;
const IC_GET: u8 = 251;

/// SipHash-1-3 of a slice of bytes (its length, then its contents).
fn sip13(k0: u64, k1: u64, b: &[u8]) -> u64 {
    let (mut v0, mut v1, mut v2, mut v3) = (k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573);
    let mut round = |m: u64, n: u32| {
        v3 ^= m;
        for _ in 0..n {
            v0 = v0.wrapping_add(v1); v1 = v1.rotate_left(13) ^ v0; v0 = v0.rotate_left(32);
            v2 = v2.wrapping_add(v3); v3 = v3.rotate_left(16) ^ v2;
            v0 = v0.wrapping_add(v3); v3 = v3.rotate_left(21) ^ v0;
            v2 = v2.wrapping_add(v1); v1 = v1.rotate_left(17) ^ v2; v2 = v2.rotate_left(32);
        }
        v0 ^= m;
        if n == 3 { v0 ^ v1 ^ v2 ^ v3 } else { v2 ^= if n == 0 { 0xff } else { 0 }; 0 }
    };
    round(b.len() as u64, 1);
    let mut i = 0;
    while i + 8 <= b.len() { round(u64::from_le_bytes(b[i..i + 8].try_into().unwrap()), 1); i += 8; }
    let mut l = (b.len() as u64 + 8) << 56;
    for (j, x) in b[i..].iter().enumerate() { l |= (*x as u64) << (8 * j); }
    round(l, 1);
    round(0, 0);
    round(0, 3)
}


impl Exec {
    pub fn intercept_kind(&mut self, f: u32) -> u8 {
        let n = &self.m.fns[f as usize].name;
        let has = |s: &str| n.contains(s);
        if has("9panicking9panic_fmt") || has("18panic_nounwind_fmt") || has("19panic_cannot_unwind") || has("26panic_nounwind_nobacktrace") || has("15panic_with_hook") || has("9panicking11begin_panic") || has("7process5abort") { return IC_PANIC; }
        if has("18handle_alloc_error") || has("11alloc_error") { return IC_OOM; }
        if has("5stdio6_print") && !self.cfg.print { return IC_PRINT; }
        if has("5stdio7_eprint") { return IC_EPRINT; }
        if has("11RandomState") && has("8hash_one") && (has("3vec3VechE") || has("6string6String") || n.contains("hash_oneReE") || n.contains("hash_oneRShE")) { return IC_HASH; }
        if has("9hashbrown3map") && has("7HashMap") && has("3vec3VechEjNt") && has("11RandomStateE3getShE") && std::env::var("SYMX_NOGET").is_err() { return IC_GET; }
        if has("12unicode_data") {
            if has("10alphabetic11lookup_slow") || has("10alphabetic6lookup") { return IC_ALPHA; }
            if has("9lowercase6lookup") || has("9lowercase11lookup_slow") { return IC_LOWER; }
            if has("9uppercase6lookup") || has("9uppercase11lookup_slow") { return IC_UPPER; }
            if has("2lt11lookup_slow") || has("2lt6lookup") { return IC_TITLE; }
            if has("11white_space6lookup") { return IC_WS; }
            if has("11conversions8to_lower") { return IC_TOLOWER; }
            if has("11conversions8to_upper") { return IC_TOUPPER; }
        }
        IC_NONE
    }
    fn location(&self, st: &State, p: u64) -> String {
        let g = |a: u64| { let b = self.read_bytes(st, a, 8); if b.len() == 8 { u64::from_le_bytes(b.try_into().unwrap()) } else { 0 } };
        let (fp, fl) = (g(p), g(p + 8));
        let lc = self.read_bytes(st, p + 16, 8);
        let file = if fl < 500 { String::from_utf8_lossy(&self.read_bytes(st, fp, fl)).to_string() } else { String::new() };
        if lc.len() == 8 { format!("{}:{}", file.rsplit("/src/").next().unwrap_or("").trim_end_matches('\0'), u32::from_le_bytes(lc[..4].try_into().unwrap())) } else { file }
    }
    /// What HashMap<Vec<u8>, usize>::get gives for a map and a key that are not symbolic (the layout is that of the
    /// installed toolchain; calls are regularly executed from the IR all the same and compared).
    fn map_get(&self, st: &State, map: u64, p: u64, n: usize) -> Option<u64> {
        fn bytes(st: &State, a: u64, n: usize) -> Option<&[u8]> {
            if n == 0 { return Some(&[]); }
            let o = st.mem.get(a >> 32)?;
            let off = (a & 0xffff_ffff) as usize;
            if o.nsym != 0 || off + n > o.data.len() { return None; }
            Some(&o.data[off..off + n])
        }
        fn word(b: &[u8], i: usize) -> u64 { u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()) }
        let m = bytes(st, map, 48)?;
        let (ctrl, mask, items, k0, k1) = (word(m, 0), word(m, 1), word(m, 3), word(m, 4), word(m, 5));
        if items == 0 { return Some(0); }
        let key = bytes(st, p, n)?;
        let h = sip13(k0, k1, key);
        let tag = (h >> 57) as u8;
        let c = bytes(st, ctrl, mask as usize + 17)?;
        let (mut pos, mut stride) = ((h & mask) as usize, 0usize);
        loop {
            let g = &c[pos..pos + 16];
            for i in 0..16 {
                if g[i] != tag { continue; }
                let b = ctrl.wrapping_sub(32 * (((pos + i) & mask as usize) as u64 + 1));
                let e = bytes(st, b, 32)?;
                if word(e, 2) == n as u64 && bytes(st, word(e, 1), n)? == key { return Some(b + 24); }
            }
            if g.iter().any(|x| *x == 0xff) { return Some(0); }
            stride += 16;
            if stride > mask as usize + 16 { return None; }
            pos = (pos + stride) & mask as usize;
        }
    }
    /// Table over all char values.
    fn utable(&mut self, k: u8, extra: u64, w: u16, f: impl Fn(char) -> u64) -> u32 {
        if let Some(&t) = self.utab.get(&(k, extra)) { return t; }
        let v: Vec<u64> = (0..0x110000u32).map(|c| char::from_u32(c).map(|c| f(c)).unwrap_or(0)).collect();
        let t = self.s.e.table(v, w, 0);
        self.utab.insert((k, extra), t);
        t
    }
    pub fn intercepted(&mut self, st: &mut State, k: u8, f: u32, a: &[V], _widths: &[u16], nret: u32, rw: u16) -> Result<Option<Vec<V>>, Stop> {
        match k {
            IC_PANIC => {
                // the location is the last pointer argument
                let loc = a.last().map(|p| if p.e == 0 { self.location(st, p.c) } else { String::new() }).unwrap_or_default();
                let mut who = String::new();
                for fr in st.threads[st.cur].frames.iter().rev() { let n = demangle(&fr.f.f.name); if !n.starts_with("core::panicking") && !n.contains("panic") { who = n; break; } }
                Err(Stop::End(End::Violation(format!("panic at {} in {}", loc, who))))
            }
            // the hash of given bytes with given keys: computed by the code the first time, then remembered
            IC_HASH => {
                if a.len() != 4 || nret != 1 || a.iter().any(|x| x.e != 0) || a[3].c > 65536 { return Ok(None); }
                let (p, n) = (a[2].c, a[3].c as usize);
                let b = match st.mem.get(p >> 32) {
                    Some(o) => { let off = (p & 0xffff_ffff) as usize; if off + n > o.data.len() || !o.log.is_empty() || (o.nsym > 0 && o.sym[off..off + n].iter().any(|x| *x != 0)) { return Ok(None); } o.data[off..off + n].to_vec() }
                    None => if n == 0 { vec![] } else { return Ok(None) },
                };
                let k = (f, a[0].c, a[1].c, b);
                if let Some(r) = self.memo.get(&k) { return Ok(Some(vec![vc(*r)])); }
                self.memo_keys.push(k);
                self.memo_next = self.memo_keys.len() as u32;
                Ok(None)
            }
            IC_GET => {
                if a.len() != 3 || nret != 1 || a.iter().any(|x| x.e != 0) || a[2].c > 65536 { return Ok(None); }
                let r = match self.map_get(st, a[0].c, a[1].c, a[2].c as usize) { Some(r) => r, None => return Ok(None) };
                self.gets += 1;
                if self.gets < 100 || self.gets % 5003 == 0 {
                    self.expect.push(r);
                    self.memo_next = EXPECT | (self.expect.len() as u32 - 1);
                    return Ok(None);
                }
                Ok(Some(vec![vc(r)]))
            }
            IC_OOM => Err(Stop::End(End::Violation(format!("allocation error in {}", demangle(&self.m.fns[f as usize].name))))),
            IC_PRINT | IC_EPRINT => Ok(Some(vec![vc(0); nret as usize])),
            IC_ALPHA | IC_LOWER | IC_UPPER | IC_TITLE | IC_CASEIGN | IC_WS => {
                if a.len() != 1 || a[0].e == 0 || nret != 1 { return Ok(None); }
                let t = match k {
                    IC_ALPHA => self.utable(k, 0, rw, |c| c.is_alphabetic() as u64),
                    IC_LOWER => self.utable(k, 0, rw, |c| c.is_lowercase() as u64),
                    IC_UPPER => self.utable(k, 0, rw, |c| c.is_uppercase() as u64),
                    IC_WS => self.utable(k, 0, rw, |c| c.is_whitespace() as u64),
                    _ => return Ok(None),
                };
                let r = self.s.e.mk_tab(a[0].e, t);
                Ok(Some(vec![self.s.v(r)]))
            }
            IC_TOLOWER | IC_TOUPPER => {
                let (dst, c) = if a.len() == 2 && nret == 0 { (Some(a[0]), a[1]) } else if a.len() == 1 && nret == 3 { (None, a[0]) } else { return Ok(None) };
                if c.e == 0 { return Ok(None); }
                let mut out = vec![];
                for i in 0..3u64 {
                    let t = self.utable(k, i, 32, |ch| if k == IC_TOLOWER { ch.to_lowercase().nth(i as usize).map(|x| x as u64).unwrap_or(0) } else { ch.to_uppercase().nth(i as usize).map(|x| x as u64).unwrap_or(0) });
                    let r = self.s.e.mk_tab(c.e, t);
                    out.push(self.s.v(r));
                }
                match dst {
                    Some(p) => { for i in 0..3 { let q = self.add64(p, 4 * i as u64); self.store(st, q, 32, out[i])?; } Ok(Some(vec![])) }
                    None => Ok(Some(out)),
                }
            }
            _ => Ok(None),
        }
    }

    /// Lift a concrete unary function to symbolic arguments through a table over its only variable.
    fn lift1(&mut self, st: &mut State, v: V, w: u16, rw: u16, f: impl Fn(u64) -> u64) -> Result<V, Stop> {
        let n = self.s.partial(&st.path, v.e);
        if let Some(c) = self.s.e.is_const(n) { return Ok(vc(f(c as u64))); }
        if w <= 16 {
            let t: Vec<u64> = (0..1u64 << w).map(|x| f(x)).collect();
            let t = self.s.e.table(t, rw, 0);
            let r = self.s.e.mk_tab(n, t);
            return Ok(self.s.v(r));
        }
        if let Some(vv) = self.s.e.single(n) {
            let vi = self.s.e.vars[vv as usize];
            let col: Vec<u64> = (vi.lo..=vi.hi).collect();
            let r = self.s.e.eval_cols(n, &[(vv, &col)], col.len()).unwrap();
            let t: Vec<u64> = r.iter().map(|x| f(*x)).collect();
            let (_, vn) = self.s.e.var(vi.path_idx, vi.lo, vi.hi);
            let t = self.s.e.table(t, rw, vi.lo);
            let r = self.s.e.mk_tab(vn, t);
            return Ok(self.s.v(r));
        }
        let x = self.conc(st, V { c: 0, e: n })?;
        Ok(vc(f(x)))
    }

    fn timespec(&mut self, st: &mut State, p: u64) -> Result<u64, Stop> {
        let s = self.load(st, vc(p), 64)?; let s = self.conc(st, s)?;
        let n = self.load(st, vc(p + 8), 64)?; let n = self.conc(st, n)?;
        Ok(s.saturating_mul(1_000_000_000).saturating_add(n))
    }
    fn cstr(&self, st: &State, a: u64) -> Vec<u8> {
        let o = match st.mem.get(a >> 32) { Some(o) => o, None => return vec![] };
        let off = (a & 0xffff_ffff) as usize;
        let n = o.data[off..].iter().position(|b| *b == 0).unwrap_or(o.data.len() - off);
        let mut p = &o.data[off..off + n];
        if p.is_empty() || p[0] == b'/' { return p.to_vec(); }
        // relative to the working directory
        while p.starts_with(b"./") { p = &p[2..]; }
        [b"/scratch/", p].concat()
    }
    fn find_file(&self, st: &State, p: &[u8]) -> Option<usize> { st.files.iter().position(|f| f.linked && f.path == p) }
    fn fail(&self, st: &mut State, e: u32) -> V { st.errno = e; let a = self.errno_addr(st); if let Some(o) = st.mem.get_mut(a >> 32) { o.set_conc(0, 4); o.data[..4].copy_from_slice(&e.to_le_bytes()); } vc(!0) }
    fn errno_addr(&self, st: &mut State) -> u64 {
        // one errno cell per thread, kept in the thread's tls list under key u32::MAX
        let t = &mut st.threads[st.cur];
        if let Some(x) = t.tls.iter().find(|x| x.0 == u32::MAX) { return (x.1 as u64) << 32; }
        let id = st.mem.alloc(Obj::new(4));
        st.threads[st.cur].tls.push((u32::MAX, id));
        (id as u64) << 32
    }
    fn file_write(&mut self, st: &mut State, fd: usize, src: u64, n: u64) -> Result<(), Stop> {
        if n == 0 { return Ok(()); }
        let f = st.fds[fd].file as usize;
        let pos = if st.fds[fd].append { st.files[f].len } else { st.fds[fd].pos };
        let obj = st.files[f].obj;
        let need = (pos + n) as usize;
        {
            let o = st.mem.get_mut(obj as u64).unwrap();
            if o.data.len() < need { let cap = need.next_power_of_two().max(256); o.data.resize(cap, 0); if !o.sym.is_empty() { o.sym.resize(cap, 0); } }
        }
        self.copy(st, ((obj as u64) << 32) + pos, src, n)?;
        let fl = Rc::make_mut(&mut st.files);
        fl[f].len = fl[f].len.max(pos + n);
        st.fds[fd].pos = pos + n;
        Ok(())
    }
    fn fd_ok(&self, st: &State, fd: u64) -> bool { (fd as usize) < st.fds.len() && st.fds[fd as usize].open }

    pub fn intrinsic(&mut self, st: &mut State, idx: u32, a: &[V], widths: &[u16], nret: u32, rw: u16) -> Result<Vec<V>, Stop> {
        if self.ik.len() <= idx as usize { self.ik.resize(idx as usize + 1, K::Unset); }
        if self.ik[idx as usize] == K::Unset { self.ik[idx as usize] = kind(&self.m.intrs[idx as usize]); }
        let k = self.ik[idx as usize].clone();
        let lanes = nret as usize;
        macro_rules! one { ($v:expr) => { Ok(vec![$v]) } }
        macro_rules! c { ($i:expr) => { self.conc(st, a[$i])? } }
        match k {
            K::Nop => Ok(vec![vc(0); nret as usize]),
            K::Zero => Ok(vec![vc(0); nret as usize]),
            K::MinusOne => { let v = self.fail(st, 2); let _ = v; Ok(vec![vc(if rw == 64 && self.m.intrs[idx as usize] == "realpath" { 0 } else { mask64(rw) }); nret as usize]) }
            K::Memcpy => {
                let n = c!(2);
                if n > 0 { let s = c!(1); let d = c!(0); self.copy(st, d, s, n)?; }
                Ok(if nret > 0 { vec![a[0]] } else { vec![] })
            }
            K::Memset => {
                let n = c!(2);
                if n > 0 {
                    let d = c!(0);
                    self.check_access(st, d, n, true)?;
                    self.settle(st, d)?;
                    let off = (d & 0xffff_ffff) as usize;
                    let o = st.mem.get_mut(d >> 32).unwrap();
                    if a[1].e == 0 { o.set_conc(off, n as usize); let b = a[1].c as u8; o.data[off..off + n as usize].fill(b); }
                    else { for i in 0..n as usize { o.set_sym(off + i, (a[1].e as u64) << 8); } }
                }
                Ok(if nret > 0 { vec![a[0]] } else { vec![] })
            }
            K::Memcmp | K::Bcmp => {
                let n = c!(2);
                if n == 0 { return one!(vc(0)); }
                let p = c!(0); let q = c!(1);
                self.check_access(st, p, n, false)?;
                self.check_access(st, q, n, false)?;
                self.settle(st, p)?; self.settle(st, q)?;
                let (op, oq) = (st.mem.get(p >> 32).unwrap(), st.mem.get(q >> 32).unwrap());
                let (i, j) = ((p & 0xffff_ffff) as usize, (q & 0xffff_ffff) as usize);
                let n = n as usize;
                if op.nsym == 0 && oq.nsym == 0 {
                    let r = op.data[i..i + n].cmp(&oq.data[j..j + n]);
                    return one!(vc(mask64(32) & (r as i32 as u64)));
                }
                if k == K::Bcmp {
                    let mut all = self.s.e.tru();
                    for t in 0..n {
                        let x = self.read(st, p + t as u64, 8)?; let y = self.read(st, q + t as u64, 8)?;
                        let e = self.cmp(Pred::Eq, 8, x, y);
                        if e.e == 0 { if e.c == 0 { return one!(vc(1)); } continue; }
                        all = self.s.e.and1(all, e.e);
                    }
                    let ne = self.s.e.not(all);
                    let r = self.s.e.zext(ne, 32);
                    one!(self.s.v(r))
                } else {
                    let mut r = vc(0);
                    for t in (0..n).rev() {
                        let x = self.read(st, p + t as u64, 8)?; let y = self.read(st, q + t as u64, 8)?;
                        let lt = self.cmp(Pred::Ult, 8, x, y); let gt = self.cmp(Pred::Ugt, 8, x, y);
                        let b = self.sel(32, gt, vc(1), r);
                        r = self.sel(32, lt, vc(mask64(32)), b);
                    }
                    one!(r)
                }
            }
            K::Strlen => { let p = c!(0); one!(vc(self.cstr(st, p).len() as u64)) }
            K::MinMax(p) => { let mut r = vec![]; for i in 0..lanes { let (x, y) = (a[i], a[lanes + i]); let cc = self.cmp(p, rw, x, y); r.push(self.sel(rw, cc, x, y)); } Ok(r) }
            K::Abs => { let mut r = vec![]; for i in 0..lanes { let x = a[i]; let neg = self.bin(Op::Sub, rw, vc(0), x); let cc = self.cmp(Pred::Slt, rw, x, vc(0)); r.push(self.sel(rw, cc, neg, x)); } Ok(r) }
            K::Ov(op, sg) => {
                let w = widths[0];
                let n = lanes / 2;
                let mut vals = vec![]; let mut ovs = vec![];
                for i in 0..n {
                    let (x, y) = (a[i], a[n + i]);
                    if x.e | y.e == 0 && w <= 64 {
                        let (r, o) = if sg { let (p, q) = (sx(x.c, w) as i128, sx(y.c, w) as i128); let t = match op { Op::Add => p + q, Op::Sub => p - q, _ => p * q }; (mask(t as u64, w), sx(mask(t as u64, w), w) as i128 != t) }
                            else { let (p, q) = (x.c as u128, y.c as u128); match op { Op::Add => { let t = p + q; (mask(t as u64, w), t > mask64(w) as u128) } Op::Sub => (mask(x.c.wrapping_sub(y.c), w), y.c > x.c), _ => { let t = p * q; (mask(t as u64, w), t > mask64(w) as u128) } } };
                        vals.push(vc(r)); ovs.push(vc(o as u64));
                    } else {
                        let r = self.bin(op, w, x, y);
                        let o = match (op, sg) {
                            (Op::Add, false) => self.cmp(Pred::Ult, w, r, x),
                            (Op::Sub, false) => self.cmp(Pred::Ult, w, x, y),
                            _ => {
                                // compute in twice the width
                                let ww = if w <= 32 { 2 * w } else { 128 };
                                let (p, q) = (self.node(x, w), self.node(y, w));
                                let (p, q) = if sg { (self.s.e.sext(p, ww), self.s.e.sext(q, ww)) } else { (self.s.e.zext(p, ww), self.s.e.zext(q, ww)) };
                                // unsigned multiplication of small values cannot overflow
                                if !sg { let (xn, yn) = (self.node(x, w), self.node(y, w)); let (hx, hy) = (self.s.e.lohi(xn).1, self.s.e.lohi(yn).1); if (hx as u128) * (hy as u128) <= mask64(w) as u128 { vals.push(r); ovs.push(vc(0)); continue; } }
                                let t = self.s.e.bin(op, p, q);
                                let rn = self.node(r, w);
                                let back = if sg { self.s.e.sext(rn, ww) } else { self.s.e.zext(rn, ww) };
                                let eq = self.s.e.bin(Op::Eq, t, back);
                                let ne = self.s.e.not(eq);
                                self.s.v(ne)
                            }
                        };
                        // intervals rule out most unsigned additions
                        let o = if op == Op::Add && !sg { let (xn, yn) = (self.node(x, w), self.node(y, w)); let (hx, hy) = (self.s.e.lohi(xn).1, self.s.e.lohi(yn).1); if hx.checked_add(hy).map(|t| t <= mask64(w)) == Some(true) { vc(0) } else { o } } else { o };
                        vals.push(r); ovs.push(o);
                    }
                }
                vals.extend(ovs);
                Ok(vals)
            }
            K::Sat(op, sg) => {
                let w = rw;
                let mut out = vec![];
                for i in 0..lanes {
                    let (x, y) = (a[i], a[lanes + i]);
                    let r = if !sg {
                        match op {
                            Op::Sub => { let lt = self.cmp(Pred::Ult, w, x, y); let d = self.bin(Op::Sub, w, x, y); self.sel(w, lt, vc(0), d) }
                            _ => { let s = self.bin(Op::Add, w, x, y); let lt = self.cmp(Pred::Ult, w, s, x); self.sel(w, lt, vc(mask64(w)), s) }
                        }
                    } else {
                        let (p, q) = (self.node(x, w), self.node(y, w));
                        let (p, q) = (self.s.e.sext(p, 2 * w), self.s.e.sext(q, 2 * w));
                        let t = self.s.e.bin(op, p, q);
                        let mx = self.s.e.cn(2 * w, (1u128 << (w - 1)) - 1); let mn = self.s.e.cn(2 * w, (1u128 << (w - 1)).wrapping_neg());
                        let c1 = self.s.e.bin(Op::Slt, mx, t); let c2 = self.s.e.bin(Op::Slt, t, mn);
                        let t = self.s.e.ite(c1, mx, t); let t = self.s.e.ite(c2, mn, t);
                        let t = self.s.e.extract(t, 0, w);
                        self.s.v(t)
                    };
                    out.push(r);
                }
                Ok(out)
            }
            K::Ctlz | K::Cttz | K::Ctpop => {
                let w = rw;
                let f = |x: u64| match k { K::Ctlz => (x.leading_zeros() as u64).saturating_sub(64 - w as u64), K::Cttz => (x.trailing_zeros() as u64).min(w as u64), _ => x.count_ones() as u64 };
                let mut out = vec![];
                for i in 0..lanes {
                    let x = a[i];
                    if x.e == 0 { out.push(vc(f(x.c))); continue; }
                    let x = self.s.simp(&st.path, x);
                    if x.e == 0 { out.push(vc(f(x.c))); continue; }
                    if self.s.e.single(x.e).is_none() && w <= 64 {
                        // chain over the bits
                        let mut r = vc(if k == K::Ctpop { 0 } else { w as u64 });
                        match k {
                            K::Ctpop => for b in 0..w { let bit = self.s.e.extract(x.e, b, 1); let z = self.s.e.zext(bit, w); let z = self.s.v(z); r = self.bin(Op::Add, w, r, z); },
                            K::Cttz => for b in (0..w).rev() { let bit = self.s.e.extract(x.e, b, 1); let bit = self.s.v(bit); r = self.sel(w, bit, vc(b as u64), r); },
                            _ => for b in 0..w { let bit = self.s.e.extract(x.e, b, 1); let bit = self.s.v(bit); r = self.sel(w, bit, vc((w - 1 - b) as u64), r); },
                        }
                        out.push(r);
                    } else { let k2 = k.clone(); let g = move |x: u64| match k2 { K::Ctlz => (x.leading_zeros() as u64).saturating_sub(64 - w as u64), K::Cttz => (x.trailing_zeros() as u64).min(w as u64), _ => x.count_ones() as u64 }; let r = self.lift1(st, x, w, w, g)?; out.push(r); }
                }
                Ok(out)
            }
            K::Bswap => { let w = rw; let mut out = vec![]; for i in 0..lanes { let x = a[i]; if x.e == 0 { out.push(vc(x.c.swap_bytes() >> (64 - w))); } else { let mut r = None; for b in 0..w / 8 { let t = self.s.e.extract(x.e, b * 8, 8); r = Some(match r { None => t, Some(l) => self.s.e.concat(l, t) }); } out.push(self.s.v(r.unwrap())); } } Ok(out) }
            K::BitRev => { let w = rw; let mut out = vec![]; for i in 0..lanes { let x = a[i]; if x.e == 0 { out.push(vc(x.c.reverse_bits() >> (64 - w))); } else { let mut r = None; for b in 0..w { let t = self.s.e.extract(x.e, b, 1); r = Some(match r { None => t, Some(l) => self.s.e.concat(l, t) }); } out.push(self.s.v(r.unwrap())); } } Ok(out) }
            K::Fsh(left) => {
                let w = rw;
                let mut out = vec![];
                for i in 0..lanes {
                    let (x, y, s) = (a[i], a[lanes + i], a[2 * lanes + i]);
                    let s = self.conc(st, s)? % w as u64;
                    if x.e | y.e == 0 {
                        let t = ((x.c as u128) << w) | y.c as u128;
                        out.push(vc(mask(if left { (t >> (w as u64 - s)) as u64 } else { (t >> s) as u64 }, w)));
                        continue;
                    }
                    let (p, q) = (self.node(x, w), self.node(y, w));
                    let r = if s == 0 { if left { p } else { q } } else {
                        let k = if left { s as u16 } else { w - s as u16 };
                        let h = self.s.e.extract(p, 0, w - k); let l = self.s.e.extract(q, w - k, k);
                        self.s.e.concat(h, l)
                    };
                    out.push(self.s.v(r));
                }
                Ok(out)
            }
            K::Cmp3(sg) => {
                let w = widths[0];
                let mut out = vec![];
                for i in 0..lanes { let (x, y) = (a[i], a[lanes + i]); let lt = self.cmp(if sg { Pred::Slt } else { Pred::Ult }, w, x, y); let gt = self.cmp(if sg { Pred::Sgt } else { Pred::Ugt }, w, x, y); let t = self.sel(rw, gt, vc(1), vc(0)); out.push(self.sel(rw, lt, vc(mask64(rw)), t)); }
                Ok(out)
            }
            K::Reduce(o) => {
                let w = rw; let mut r = a[0];
                for &y in &a[1..] { r = match o { 0 => self.bin(Op::Add, w, r, y), 1 => self.bin(Op::Or, w, r, y), 2 => self.bin(Op::And, w, r, y), 3 => self.bin(Op::Xor, w, r, y), 8 => self.bin(Op::Mul, w, r, y), p => { let pr = [Pred::Ugt, Pred::Ult, Pred::Sgt, Pred::Slt][p as usize - 4]; let cc = self.cmp(pr, w, r, y); self.sel(w, cc, r, y) } }; }
                one!(r)
            }
            K::IsConst => one!(vc(0)),
            K::LoadRel => {
                let p = c!(0); let off = c!(1);
                let at = p.wrapping_add(off);
                if let Some(&x) = self.m.rel.get(&((at >> 32) as u32, at as u32)) { return one!(vc(x)); }
                let v = self.load(st, vc(at), 32)?;
                let v = self.conc(st, v)?;
                one!(vc(p.wrapping_add(sx(v, 32) as u64)))
            }
            K::Fabs => { let x = c!(0); one!(vc(x & if rw == 32 { 0x7fff_ffff } else { !(1 << 63) })) }
            K::Tls => {
                let g = (a[0].c >> 32) as u32;
                if st.cur == 0 { return one!(a[0]); }
                if let Some(x) = st.threads[st.cur].tls.iter().find(|x| x.0 == g) { return one!(vc((x.1 as u64) << 32)); }
                let gl = &self.m.globals[g as usize - 1];
                let o = Obj { data: gl.data.clone(), sym: vec![], nsym: 0, ro: false, heap: false, log: vec![] };
                let id = st.mem.alloc(o);
                st.threads[st.cur].tls.push((g, id));
                one!(vc((id as u64) << 32))
            }
            K::Trap => Err(Stop::End(End::Violation(format!("abort in {}", self.stack(st).into_iter().next().unwrap_or_default())))),
            K::Exit => { let x = c!(0) as u32; Err(Stop::End(if x == 0 { End::Done } else { End::Violation(format!("process exits with status {}", x)) })) }
            K::Pause | K::Yield => {
                if st.threads.len() < 2 { return Ok(vec![vc(0); nret as usize]); }
                let me = st.cur;
                if st.threads[me].woken == 1 { st.threads[me].woken = 0; return Ok(vec![vc(0); nret as usize]); }
                let n = st.threads.len();
                for d in 1..n { let t = (me + d) % n; if st.threads[t].status == Status::Run { st.threads[me].woken = 1; st.cur = t; st.trace.push(t as u32); return Err(Stop::Retry); } }
                Ok(vec![vc(0); nret as usize])
            }
            // ---------------------------------------------------------------- heap
            K::Malloc => { let n = c!(0); one!(vc(self.alloc(st, n, true)?)) }
            K::Calloc => { let n = c!(0); let m = c!(1); one!(vc(self.alloc(st, n * m, true)?)) }
            K::Memalign => { let n = c!(2); let p = c!(0); let x = self.alloc(st, n, true)?; self.write(st, p, 64, vc(x))?; one!(vc(0)) }
            K::Realloc => {
                let n = c!(1); let p = c!(0);
                if p == 0 { return one!(vc(self.alloc(st, n, true)?)); }
                let old = match st.mem.get(p >> 32) { Some(o) => o.data.len() as u64, None => return Err(Stop::End(End::Violation("memory error: realloc of a dead block".into()))) };
                let x = self.alloc(st, n, true)?;
                self.copy(st, x, p, n.min(old))?;
                st.mem.free((p >> 32) as u32);
                one!(vc(x))
            }
            K::Free => {
                let p = c!(0);
                if p != 0 {
                    if p & 0xffff_ffff != 0 || !st.mem.get(p >> 32).map(|o| o.heap).unwrap_or(false) { return Err(Stop::End(End::Violation(format!("memory error: invalid free of {:#x}", p)))); }
                    st.mem.free((p >> 32) as u32);
                }
                Ok(vec![])
            }
            // ---------------------------------------------------------------- harness primitives
            K::Range => {
                let lo = c!(0); let hi = c!(1);
                let (mut lo, mut hi) = (lo, hi);
                if let Some((ins, _, _)) = &self.cfg.replay { let i = st.path.kind.iter().filter(|k| **k == 0).count(); if let Some(x) = ins.get(i) { lo = *x; hi = *x; } }
                if lo > hi { return Err(Stop::End(End::Infeasible)); }
                let n = self.s.new_var(&mut st.path, lo, hi, 0);
                if lo == hi { return one!(vc(lo)); }
                let w = self.s.e.w(n);
                let r = if w < 64 { self.s.e.zext(n, 64) } else { n };
                one!(V { c: 0, e: r })
            }
            K::Assume => {
                // any non-zero value
                let w = widths[0];
                let b = self.cmp(Pred::Ne, w, a[0], vc(0));
                if b.e == 0 { return if b.c != 0 { Ok(vec![]) } else { Err(Stop::End(End::Infeasible)) }; }
                match self.s.feasible(&st.path, b.e) {
                    None => Err(Stop::End(End::Infeasible)),
                    Some(u) => { self.s.add(&mut st.path, b.e, u); Ok(vec![]) }
                }
            }
            K::Assert => {
                let w = widths[0];
                let label = { let p = a[1].c; let n = a[2].c; String::from_utf8_lossy(&self.read_bytes(st, p, n)).to_string() };
                *self.st.assert_labels.entry(label.clone()).or_insert(0) += 1;
                let b = self.cmp(Pred::Ne, w, a[0], vc(0));
                let b = self.s.simp(&st.path, b);
                if b.e == 0 { self.st.asserts_const += 1; return if b.c != 0 { Ok(vec![]) } else { Err(Stop::End(End::Violation(label))) }; }
                self.st.asserts_z3 += 1;
                if self.trace { eprintln!("assertion {}: {} nodes, {}", label, self.s.e.size(b.e), self.s.e.show(b.e, 9)); }
                let nb = self.s.e.not(b.e);
                match self.s.z3_check(&st.path, &[nb]) {
                    None => Ok(vec![]),
                    Some(u) => {
                        if self.s.unknown { return Err(Stop::End(End::Abandon(format!("solver returned unknown on assertion {}", label)))); }
                        if let Some(u2) = self.s.feasible(&st.path, b.e) { let mut o = st.clone(); self.s.add(&mut o.path, b.e, u2); self.pending.push(o); }
                        self.s.add(&mut st.path, nb, u);
                        Err(Stop::End(End::Violation(label)))
                    }
                }
            }
            K::Cover => { let id = c!(0); *self.st.covers.entry(id).or_insert(0) += 1; Ok(vec![]) }
            K::Observe => { st.obs.push(a[0]); Ok(vec![]) }
            K::Concretize => { let x = c!(0); one!(vc(x)) }
            K::Param => { let i = c!(0) as usize; one!(vc(self.cfg.params.get(i).cloned().unwrap_or(0))) }
            K::Note => { if self.cfg.verbose { let b = self.read_bytes(st, a[0].c, a[1].c); eprintln!("note: {} (steps {})", String::from_utf8_lossy(&b), st.steps); } Ok(vec![]) }
            K::StdoutTake => {
                let buf = c!(0); let cap = c!(1);
                let f = st.stdout as usize;
                let n = st.files[f].len.min(cap);
                let src = (st.files[f].obj as u64) << 32;
                self.copy(st, buf, src, n)?;
                one!(vc(n))
            }
            // ---------------------------------------------------------------- files
            K::Open => {
                let p = c!(0); let flags = c!(1) as u32;
                let path = self.cstr(st, p);
                let f = match self.find_file(st, &path) {
                    Some(i) => { if flags & 0o200 != 0 && flags & 0o100 != 0 { return one!(vc(mask64(32) & self.fail(st, 17).c)); } i }
                    None => {
                        if flags & 0o100 == 0 || !(path.starts_with(b"/scratch/") || path.starts_with(b"/tmp/")) { return one!(vc(mask64(32) & self.fail(st, 2).c)); }
                        let obj = st.mem.alloc(Obj::new(0));
                        let fl = Rc::make_mut(&mut st.files);
                        fl.push(FileNode { path, obj, len: 0, linked: true });
                        fl.len() - 1
                    }
                };
                if flags & 0o1000 != 0 { Rc::make_mut(&mut st.files)[f].len = 0; }
                st.fds.push(Fd { file: f as u32, pos: 0, open: true, append: flags & 0o2000 != 0 });
                one!(vc(st.fds.len() as u64 - 1))
            }
            K::Close => { let fd = c!(0); if self.fd_ok(st, fd) { st.fds[fd as usize].open = false; } one!(vc(0)) }
            K::Read => {
                let fd = c!(0); let n = c!(2); let buf = c!(1);
                if !self.fd_ok(st, fd) { return one!(self.fail(st, 9)); }
                let (f, pos) = (st.fds[fd as usize].file as usize, st.fds[fd as usize].pos);
                let len = st.files[f].len;
                let k = n.min(len.saturating_sub(pos));
                let src = ((st.files[f].obj as u64) << 32) + pos;
                self.copy(st, buf, src, k)?;
                st.fds[fd as usize].pos += k;
                one!(vc(k))
            }
            K::Write => {
                let fd = c!(0); let n = c!(2); let buf = c!(1);
                if !self.fd_ok(st, fd) { return one!(self.fail(st, 9)); }
                if n > 0 { self.check_access(st, buf, n, false)?; }
                self.file_write(st, fd as usize, buf, n)?;
                one!(vc(n))
            }
            K::Writev => {
                let fd = c!(0); let iov = c!(1); let cnt = c!(2);
                if !self.fd_ok(st, fd) { return one!(self.fail(st, 9)); }
                let mut parts = vec![];
                for i in 0..cnt { let p = self.read(st, iov + 16 * i, 64)?; let p = self.conc(st, p)?; let n = self.read(st, iov + 16 * i + 8, 64)?; let n = self.conc(st, n)?; parts.push((p, n)); }
                let mut tot = 0;
                for (p, n) in parts { self.file_write(st, fd as usize, p, n)?; tot += n; }
                one!(vc(tot))
            }
            K::Lseek => {
                let fd = c!(0); let off = c!(1) as i64; let wh = c!(2);
                if !self.fd_ok(st, fd) { return one!(self.fail(st, 9)); }
                let f = st.fds[fd as usize].file as usize;
                let base = match wh & 0xff { 0 => 0, 1 => st.fds[fd as usize].pos as i64, _ => st.files[f].len as i64 };
                let np = base + off;
                if np < 0 { return one!(self.fail(st, 22)); }
                st.fds[fd as usize].pos = np as u64;
                one!(vc(np as u64))
            }
            K::Stat | K::Fstat => {
                let len = if k == K::Stat { let p = c!(0); let path = self.cstr(st, p); match self.find_file(st, &path) { Some(f) => st.files[f].len, None => return one!(vc(mask64(32) & self.fail(st, 2).c)) } }
                    else { let fd = c!(0); if !self.fd_ok(st, fd) { return one!(vc(mask64(32) & self.fail(st, 9).c)); } st.files[st.fds[fd as usize].file as usize].len };
                let buf = c!(1);
                for i in 0..18 { self.write(st, buf + 8 * i, 64, vc(0))?; }
                self.write(st, buf + 24, 32, vc(0o100644))?;
                self.write(st, buf + 48, 64, vc(len))?;
                one!(vc(0))
            }
            K::Statx => {
                let dfd = sx(c!(0) & 0xffff_ffff, 32); let p = c!(1); let buf = c!(4);
                let path = self.cstr(st, p);
                let len = if path.is_empty() && dfd >= 0 { if !self.fd_ok(st, dfd as u64) { return one!(vc(mask64(32) & self.fail(st, 9).c)); } st.files[st.fds[dfd as usize].file as usize].len }
                    else { match self.find_file(st, &path) { Some(f) => st.files[f].len, None => return one!(vc(mask64(32) & self.fail(st, 2).c)) } };
                for i in 0..32 { self.write(st, buf + 8 * i, 64, vc(0))?; }
                self.write(st, buf, 32, vc(0x17ff))?;
                self.write(st, buf + 28, 16, vc(0o100644))?;
                self.write(st, buf + 40, 64, vc(len))?;
                one!(vc(0))
            }
            K::Unlink => { let p = c!(0); let path = self.cstr(st, p); match self.find_file(st, &path) { Some(f) => { Rc::make_mut(&mut st.files)[f].linked = false; one!(vc(0)) } None => one!(vc(mask64(32) & self.fail(st, 2).c)) } }
            K::Getcwd => { let buf = c!(0); for (i, b) in b"/scratch\0".iter().enumerate() { self.write(st, buf + i as u64, 8, vc(*b as u64))?; } one!(a[0]) }
            K::Errno => one!(vc(self.errno_addr(st))),
            K::Getenv => one!(vc(0)),
            K::Dlsym => one!(vc(0)),
            K::StrError => one!(vc(0)),
            K::Sysconf => { let x = c!(0); one!(vc(if x == 30 { 4096 } else if x == 84 { 1 } else { 1024 })) }
            K::Clock => { let p = c!(1); let t = st.clock; self.write(st, p, 64, vc(t / 1_000_000_000))?; self.write(st, p + 8, 64, vc(t % 1_000_000_000))?; one!(vc(0)) }
            K::Sleep => {
                let me = st.cur;
                if std::mem::take(&mut st.threads[me].expired) { return one!(vc(0)); }
                let p = if a.len() > 2 { if c!(1) & 1 != 0 { return Err(Stop::End(End::Abandon("sleep until a given time".into()))); } c!(2) } else { c!(0) };
                let d = self.timespec(st, p)?;
                st.threads[me].deadline = st.clock.saturating_add(d).max(1);
                st.threads[me].status = Status::Futex(0);
                Err(Stop::Yield)
            }
            K::Getrandom => { let p = c!(0); let n = c!(1); for i in 0..n { self.write(st, p + i, 8, vc(0))?; } one!(vc(n)) }
            // ---------------------------------------------------------------- threads
            K::PSelf => one!(vc(st.cur as u64 + 1)),
            K::KeyCreate => { st.keys += 1; let p = c!(0); let k = st.keys as u64; self.write(st, p, 32, vc(k))?; one!(vc(0)) }
            K::SetSpecific => one!(vc(0)),
            K::GetAffinity => {
                if st.cpus == 0 { let (mut lo, mut hi) = self.cfg.cpus; if let Some((_, _, e)) = &self.cfg.replay { if let Some(x) = e.first() { lo = *x; hi = *x; } } st.cpus = self.s.new_var(&mut st.path, lo, hi, 2); }
                let n = st.cpus;
                let w = self.s.e.w(n);
                let r = self.s.e.zext(n, w.max(64));
                let k = self.conc(st, V { c: 0, e: r })?;
                let p = c!(2); let sz = c!(1);
                for i in 0..sz.min(128) { self.write(st, p + i, 8, vc(if i == 0 { (1 << k) - 1 } else { 0 }))?; }
                one!(vc(0))
            }
            K::PCreate => {
                if st.threads.len() as u64 > self.cfg.max_threads { return Err(Stop::End(End::Abandon("more threads than the bound".into()))); }
                let p = c!(0); let f = c!(2);
                let xf = self.func(((f >> 32) - FN_BASE) as u32);
                *self.used.entry(xf.id).or_insert(0) += 1;
                let mut slots = vec![vc(0); xf.f.nslots as usize];
                if xf.f.nparams > 0 { slots[0] = a[3]; }
                st.threads.push(Thread { frames: vec![Frame { f: xf, pc: 0, base: 0, d: 0, cont: NOCONT, allocas: vec![], memo: 0 }], slots, status: Status::Run, tls: vec![], ret: vc(0), woken: 0, deadline: 0, expired: false });
                let id = st.threads.len() as u64;
                self.write(st, p, 64, vc(id))?;
                one!(vc(0))
            }
            K::PJoin => {
                let id = c!(0);
                let t = id as usize - 1;
                if st.threads[t].status == Status::Done { return one!(vc(0)); }
                let me = st.cur;
                st.threads[me].status = Status::Join(t as u32);
                Err(Stop::Yield)
            }
            K::Syscall => {
                let n = c!(0);
                match n {
                    202 => {
                        let addr = c!(1); let op = c!(2) & 0x7f;
                        if op == 0 || op == 9 {
                            let me = st.cur;
                            if std::mem::take(&mut st.threads[me].expired) { return one!(self.fail(st, 110)); }
                            let v = self.load(st, vc(addr), 32)?; let v = self.conc(st, v)?;
                            let x = c!(3) & 0xffff_ffff;
                            if v != x { return one!(self.fail(st, 11)); }
                            let p = c!(4);
                            let d = if p == 0 { 0 } else { let d = self.timespec(st, p)?; if op == 0 { st.clock.saturating_add(d) } else { d }.max(1) };
                            st.threads[me].deadline = d;
                            st.threads[me].status = Status::Futex(addr);
                            Err(Stop::Yield)
                        } else {
                            let mut k = sx(c!(3) & 0xffff_ffff, 32); let mut n = 0;
                            for t in st.threads.iter_mut() { if k > 0 && t.status == Status::Futex(addr) { t.status = Status::Run; k -= 1; n += 1; } }
                            one!(vc(n))
                        }
                    }
                    318 => { let p = c!(1); let n = c!(2); for i in 0..n { self.write(st, p + i, 8, vc(0))?; } one!(vc(n)) }
                    186 => one!(vc(st.cur as u64 + 1)),
                    _ => one!(self.fail(st, 38)),
                }
            }
            K::Enosys => one!(self.fail(st, 38)),
            K::Unknown | K::Unset => { let n = self.m.intrs[idx as usize].clone(); Err(Stop::End(End::Abandon(format!("unmodelled external {}", n)))) }
        }
    }
}

