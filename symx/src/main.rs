//! symx: symbolic execution of LLVM IR produced from the code under test (see ../DESIGN.md).
mod exec;
mod expr;
mod ext;
mod ir;
mod mem;
mod path;
mod z3;
use exec::*;
use std::collections::VecDeque;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
fn nums(v: &[u64]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
fn strs(v: &[String]) -> String { format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")) }

fn report(ex: &Exec, wall: f64, remaining: u64) -> String {
    let s = &ex.st;
    let mut o = String::from("{");
    let mut num = |k: &str, v: u64| { let _ = write!(o, "\"{}\":{},", k, v); };
    num("paths", s.paths); num("infeasible", s.infeasible); num("forks", s.forks); num("steps", s.steps); num("max_steps", s.max_steps);
    num("decisions", s.decisions); num("dom_decisions", ex.s.dom_decisions); num("z3_queries", ex.s.z3.n_checks); num("z3_unknown", ex.s.z3.unknowns); num("cache_hits", ex.s.cache_hits);
    num("audits", ex.s.audits); num("audit_mismatch", ex.s.audit_mismatch); num("asserts_const", s.asserts_const); num("map_gets", ex.gets); num("map_gets_compared", ex.expect_checked); num("asserts_z3", s.asserts_z3);
    num("sched_points", s.sched_points); num("thread_switches", s.thread_switches); num("paths_multi", s.paths_multi); num("max_vars", s.syms); num("remaining", remaining); num("n_abandoned", s.n_abandoned); num("n_violations", s.n_violations); num("dumped", ex.s.dumped);
    let _ = write!(o, "\"z3_time\":{:.4},\"wall\":{:.3},", ex.s.z3.time, wall);
    let _ = write!(o, "\"labels\":{{{}}},", s.assert_labels.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"covers\":{{{}}},", s.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"abandoned\":{},", strs(&s.abandoned));
    let _ = write!(o, "\"violations\":[{}],", s.violations.iter().map(|v| format!("{{\"label\":{},\"inputs\":{},\"sched\":{},\"env\":{},\"stack\":{},\"steps\":{}}}", js(&v.label), nums(&v.inputs), nums(&v.sched), nums(&v.env), strs(&v.stack), v.steps)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"samples\":[{}],", s.samples.iter().map(|v| format!("{{\"inputs\":{},\"obs\":{},\"sched\":{},\"steps\":{}}}", nums(&v.inputs), nums(&v.obs), v.sched, v.steps)).collect::<Vec<_>>().join(","));
    let mut fs: Vec<String> = ex.used.keys().map(|f| demangle(&ex.m.fns[*f as usize].name)).collect();
    fs.sort(); fs.dedup();
    let _ = write!(o, "\"functions\":{}}}", strs(&fs));
    o
}

fn explore(ex: &mut Exec, mut st: State) {
    let end = ex.run(&mut st);
    ex.finish(&mut st, end);
}

fn main() {
    let mut ir = String::new(); let mut entry = String::new(); let mut out = String::new();
    let mut jobs = 8usize; let mut split = 160usize; let mut dump = None; let mut audit = 0; let mut secs = 600u64;
    let mut cfg = Cfg { max_steps: 600_000_000, preempt_bound: 0, params: vec![], print: false, eager: false, max_threads: 4, verbose: false, max_viol: 40, sample_every: 50, cpus: (1, 1), max_mem: 1 << 31, deadline: None, replay: None };
    let nl = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        if a == "--verbose" { cfg.verbose = true; continue; }
        if a == "--eager" { cfg.eager = true; continue; }
        if a == "--print" { cfg.print = true; continue; }
        let v = it.next().expect("value");
        match a.as_str() {
            "--ir" => ir = v, "--entry" => entry = v, "--out" => out = v,
            "--params" => cfg.params = nl(&v),
            "--max-steps" => cfg.max_steps = v.parse().unwrap(), "--preempt" => cfg.preempt_bound = v.parse().unwrap(), "--threads" => cfg.max_threads = v.parse().unwrap(),
            "--cpus" => { let x = nl(&v); cfg.cpus = (x[0], x[1]); }
            "--jobs" => jobs = v.parse().unwrap(), "--split" => split = v.parse().unwrap(), "--deadline" => secs = v.parse().unwrap(),
            "--dump" => dump = Some(v), "--max-viol" => cfg.max_viol = v.parse().unwrap(), "--audit" => audit = v.parse().unwrap(), "--sample-every" => cfg.sample_every = v.parse().unwrap(),
            "--replay" => { let mut p = v.split(';'); cfg.replay = Some((nl(p.next().unwrap_or("")), nl(p.next().unwrap_or("")), nl(p.next().unwrap_or("")))); }
            _ => panic!("unknown option {}", a),
        }
    }
    let t0 = Instant::now();
    cfg.deadline = Some(t0 + Duration::from_secs(secs));
    let verbose = cfg.verbose;
    
    let m = ir::Module::load(&ir);
    if verbose { eprintln!("parsed {} functions, {} globals in {:.2}s", m.fns.len(), m.globals.len(), t0.elapsed().as_secs_f64()); }
    let mut ex = Exec::new(m, cfg);
    ex.s.dump_dir = dump;
    ex.s.audit = audit;
    let st = ex.initial(&entry);
    let mut q: VecDeque<State> = VecDeque::new();
    q.push_back(st);
    let late = |ex: &Exec| ex.cfg.deadline.map(|d| Instant::now() > d).unwrap_or(false);
    // breadth first until there are enough open states to share out
    while let Some(s) = q.pop_front() {
        explore(&mut ex, s);
        for s in std::mem::take(&mut ex.pending) { q.push_back(s); }
        if ex.st.n_violations as usize >= ex.cfg.max_viol { break; }
        if (jobs > 1 && q.len() >= split) || late(&ex) { break; }
        if jobs == 1 { while let Some(s) = q.pop_back() { if late(&ex) || ex.st.n_violations as usize >= ex.cfg.max_viol { q.push_back(s); break; } explore(&mut ex, s); for s in std::mem::take(&mut ex.pending) { q.push_back(s); } } break; }
    }
    let pre = t0.elapsed().as_secs_f64();
    if verbose { eprintln!("prefix: {} paths, {} open states, {} steps, {:.2}s", ex.st.paths, q.len(), ex.st.steps, pre); }
    if let Some(p) = &ex.prof { let mut v: Vec<_> = p.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(x.1)); for (f, n) in v.iter().take(25) { eprintln!("{:>14} {}", n, demangle(&ex.m.fns[**f as usize].name)); } }
    let remaining = if jobs == 1 || late(&ex) || ex.st.n_violations as usize >= ex.cfg.max_viol { q.len() as u64 } else { 0 };
    std::fs::write(&out, report(&ex, pre, remaining)).expect("write report");
    if q.is_empty() || remaining > 0 { return; }
    let states: Vec<State> = q.into_iter().collect();
    let ctr = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const std::sync::atomic::AtomicUsize;
    let (nviol, idle, nfile) = unsafe { (ctr.add(8), ctr.add(16), ctr.add(24)) };
    use std::sync::atomic::Ordering::SeqCst;
    let mut pids = vec![];
    for _ in 0..jobs {
        let pid = unsafe { fork() };
        if pid == 0 {
            let reset = |ex: &mut Exec| {
                ex.st = Stats::default();
                ex.s.z3.n_checks = 0; ex.s.z3.time = 0.0; ex.s.dom_decisions = 0; ex.s.cache_hits = 0; ex.s.audits = 0; ex.s.dumped = 0; ex.gets = 0; ex.expect_checked = 0;
                ex.used.clear();
            };
            reset(&mut ex);
            let mut slots: Vec<Option<State>> = states.into_iter().map(Some).collect();
            let mut left = 0u64;
            let mut kids: Vec<i32> = vec![];
            let mut stack: Vec<State> = vec![];
            let mut helper = false; // works on a share of another worker's stack only
            let mut last = Instant::now();
            loop {
                if stack.is_empty() {
                    if helper { break; }
                    let i = unsafe { (*ctr).fetch_add(1, SeqCst) };
                    if i >= slots.len() { break; }
                    stack.push(slots[i].take().unwrap());
                }
                let s = stack.pop().unwrap();
                if unsafe { (*nviol).load(SeqCst) } >= ex.cfg.max_viol || late(&ex) { left += 1 + stack.len() as u64; stack.clear(); if helper { break; } continue; }
                let before = ex.st.n_violations;
                explore(&mut ex, s);
                if ex.st.n_violations > before { unsafe { (*nviol).fetch_add(1, SeqCst); } }
                stack.append(&mut ex.pending);
                // give half of the open states to an idle processor
                if stack.len() >= 2 && last.elapsed().as_millis() > 300 && unsafe { (*idle).fetch_update(SeqCst, SeqCst, |x| x.checked_sub(1)) }.is_ok() {
                    let half = stack.len() / 2;
                    let pid = unsafe { fork() };
                    last = Instant::now();
                    if pid == 0 {
                        reset(&mut ex);
                        helper = true; left = 0; kids.clear();
                        stack.truncate(half);
                    } else if pid > 0 { kids.push(pid); stack.drain(..half); } else { unsafe { (*idle).fetch_add(1, SeqCst); } }
                }
            }
            let j = unsafe { (*nfile).fetch_add(1, SeqCst) };
            let r = std::fs::write(format!("{}.{}", out, j), report(&ex, t0.elapsed().as_secs_f64(), left));
            unsafe { (*idle).fetch_add(1, SeqCst); }
            let mut ok = r.is_ok();
            for k in kids { let mut s = 0; unsafe { waitpid(k, &mut s, 0); } if s != 0 { ok = false; } }
            unsafe { _exit(if ok { 0 } else { 4 }) }
        }
        pids.push(pid);
    }
    let mut bad = 0;
    for p in pids { let mut s = 0; unsafe { waitpid(p, &mut s, 0); } if s != 0 { bad += 1; eprintln!("worker ended with status {:#x}", s); } }
    if verbose { eprintln!("done in {:.2}s", t0.elapsed().as_secs_f64()); }
    if bad > 0 { std::process::exit(5); }
}
