#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current code: run.py PROPERTY [quick|thorough]."""
import glob, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import checks
from concurrent.futures import ThreadPoolExecutor
POOL = ThreadPoolExecutor(os.cpu_count() or 4)
TOOLS = os.path.join(V, 'tools')
SYMX = os.path.join(V, 'build/symx/release/symx')
NATIVE = os.path.join(V, 'build/native')


def die(msg):
    print('ERROR ' + msg, flush=True)
    sys.exit(2)


def merge(files):
    t = {}
    for f in files:
        d = json.load(open(f))
        for k, v in d.items():
            if k in ('max_steps', 'max_vars', 'wall'):
                t[k] = max(t.get(k, 0), v)
            elif isinstance(v, (int, float)):
                t[k] = t.get(k, 0) + v
            elif isinstance(v, list):
                t.setdefault(k, []).extend(v)
            else:
                m = t.setdefault(k, {})
                for a, b in v.items():
                    m[a] = m.get(a, 0) + b
    t['functions'] = sorted(set(t['functions']))
    return t


def native(lib, entry, params, inputs, timeout=60):
    """Runs one concrete assignment on the natively compiled code: (status, observations)."""
    d = tempfile.mkdtemp(prefix='symx_native_')
    try:
        env = {'PATH': os.environ['PATH'], 'RUST_BACKTRACE': '0', 'TMPDIR': d}
        try:
            p = subprocess.run([NATIVE, lib, entry, params or '-'], input=' '.join(map(str, inputs)), text=True, cwd=d, env=env,
                               capture_output=True, timeout=timeout, errors='replace')
        except subprocess.TimeoutExpired:
            return 'timeout', [], ''
        obs = [int(l.split()[1]) for l in p.stdout.splitlines() if l.startswith('obs ')]
        fail = [l for l in p.stdout.splitlines() if l.startswith('FAIL ')]
        if fail:
            return 'fail', obs, fail[0][5:]
        if p.returncode == 0:
            return 'ok', obs, ''
        if p.returncode < 0:
            return 'crash', obs, p.stderr[-600:]
        return 'error', obs, 'status %d %s %s' % (p.returncode, p.stdout[-200:], p.stderr[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def symx(ir, run, out, extra, deadline):
    for f in glob.glob(out + '*'):
        os.unlink(f)
    cmd = [SYMX, '--ir', ir, '--entry', run['entry'], '--params', run.get('params', ''), '--out', out, '--deadline', str(int(deadline))]
    cmd += run.get('opts', []) + extra
    p = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
    if p.returncode != 0:
        die('engine failed (%d) on %s: %s' % (p.returncode, run['entry'], p.stderr[-1500:]))
    return merge(glob.glob(out) + [f for f in glob.glob(out + '.*')])


def confirm(lib, ir, run, v, out):
    """Replay a counterexample on the real code."""
    threaded = bool(v['sched']) or bool(v['env'])
    if not threaded:
        st, _, msg = native(lib, run['entry'], run.get('params', ''), v['inputs'], timeout=run.get('native_timeout', 20))
        if st == 'fail' or st == 'crash' or (st == 'timeout' and v['label'].startswith('no termination')):
            return True, 'native replay: %s %s' % (st, msg.strip())
        return False, 'native replay: %s %s' % (st, msg.strip())
    # depends on the schedule or the machine: execute the same inputs and schedule once more, concretely
    r = ';'.join(','.join(map(str, v[k])) for k in ('inputs', 'sched', 'env'))
    t = symx(ir, dict(run, opts=run.get('opts', []) + ['--replay', r, '--jobs', '1']), out + '_replay', [], 300)
    for w in t['violations']:
        if w['label'] == v['label']:
            return True, 'concrete execution under the recorded schedule reproduces it'
    return False, 'not reproduced under the recorded schedule'


def cross_check(dump, limit):
    """Ask cvc5 about a sample of the queries z3 answered."""
    def ask(f):
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % limit, f], capture_output=True, text=True, timeout=30)
        except (subprocess.TimeoutExpired, FileNotFoundError):
            return None
        ans = p.stdout.split()
        return ans[0] if ans and ans[0] in ('sat', 'unsat') else None
    n = bad = 0
    fs = sorted(glob.glob(dump + '/*.smt2'))
    fs = fs[::max(1, len(fs) // 60)][:60]
    for f, ans in zip(fs, POOL.map(ask, fs)):
        if ans:
            n += 1
            if ans != ('unsat' if '_unsat' in f else 'sat'):
                bad += 1
                print('solver disagreement on', f)
    return n, bad


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = os.environ.get('SYMX_ONLY')
    t0 = time.time()
    c = checks.CHECKS[prop]
    H = c['harness']
    ev_path = os.path.join(V, 'evidence', prop + '.json')
    os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
    p = subprocess.run([os.path.join(TOOLS, 'prep.sh'), H], capture_output=True, text=True, errors='replace')
    if p.returncode != 0:
        die('cannot build the code under test: ' + p.stderr[-3000:])
    prep_s = time.time() - t0
    B = os.path.join(V, 'build', H)
    ir, lib = B + '/m.ll', B + '/lib.so'
    budget = 780 if tier == 'quick' else 24 * 3600
    runs = [r for r in c['runs'] if tier == 'thorough' or not r.get('thorough')]
    if tier == 'thorough':
        runs = [r for r in runs if not r.get('quick_only')]
    if only:
        runs = [r for r in runs if only in r['name']]
    known = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
    tot, viols, notes, problems, samples, run_reports, shown_known = {}, [], [], [], [], [], []
    validated = 0
    dump = os.path.join(B, 'queries')
    shutil.rmtree(dump, ignore_errors=True)
    os.makedirs(dump)
    for i, r in enumerate(runs):
        left = budget - (time.time() - t0)
        if left < 20:
            problems.append('time budget exhausted before run ' + r['name'])
            break
        out = os.path.join(B, 'out%d' % i)
        extra = ['--dump', dump, '--audit', str(r.get('audit', 300))]
        t = symx(ir, r, out, extra, min(left - 15, r.get('deadline', 1e9)))
        tot = {k: (max(tot.get(k, 0), t[k]) if k in ('max_steps', 'max_vars') else tot.get(k, 0) + t[k]) for k in t if isinstance(t[k], (int, float))}
        notes.append(t['functions'])
        rep = {'run': r['name'], 'entry': r['entry'], 'params': r.get('params', ''), 'bounds': r['bounds'], 'paths': t['paths'], 'states': t['forks'] + 1,
               'decisions': t['decisions'], 'z3_queries': t['z3_queries'], 'z3_seconds': round(t['z3_time'], 2), 'domain_decisions': t['dom_decisions'],
               'assertions_decided_by_z3': t['asserts_z3'], 'assertions_constant_on_their_path': t['asserts_const'], 'labels': t['labels'], 'covers': t['covers'],
               'wall_s': round(t['wall'], 1), 'instructions': t['steps'], 'sched_points': t['sched_points']}
        run_reports.append(rep)
        seen = {}
        for v in sorted(t['violations'], key=lambda v: len(v['inputs'])):
            if seen.get(v['label'], 0) >= 3:
                continue
            seen[v['label']] = seen.get(v['label'], 0) + 1
            k = [x for x in known if x['property'] == prop and x['run'] == r['name'] and x['label'] in v['label'] and (not x.get('inputs') or x['inputs'] == v['inputs'])]
            if k:
                shown_known.append(k[0])
                continue
            ok, how = confirm(lib, ir, r, v, out)
            rp = os.path.join(V, 'evidence', 'replay', '%s_%s_%d.json' % (prop, r['name'], len(viols)))
            json.dump({'property': prop, 'run': r['name'], 'entry': r['entry'], 'params': r.get('params', ''), 'counterexample': v, 'replay': how, 'confirmed': ok,
                       'command': 'cd /verif && python3 tools/replay.py ' + rp}, open(rp, 'w'), indent=1)
            if ok:
                viols.append((v, r, rp, how))
            else:
                problems.append('%s: counterexample not reproduced (%s): %s inputs %s' % (r['name'], how, v['label'], v['inputs'][:40]))
        if not viols:
            if t['n_abandoned']:
                problems.append('%s: %d paths abandoned: %s' % (r['name'], t['n_abandoned'], t['abandoned'][:3]))
            if t['remaining']:
                problems.append('%s: %d states left when time ran out' % (r['name'], t['remaining']))
            if t['z3_unknown'] or t['audit_mismatch']:
                problems.append('%s: solver unknown %d, audit mismatches %d' % (r['name'], t['z3_unknown'], t['audit_mismatch']))
            for cv in r.get('covers', []):
                if str(cv) not in t['covers']:
                    problems.append('%s: situation %d was never reached' % (r['name'], cv))
            if not t['labels']:
                problems.append('%s: no assertion reached' % r['name'])
            # paths compared with native execution of their model
            ss = t['samples']
            step = max(1, len(ss) // r.get('validate', 40))
            ss_v = ss[seed % step::step][:r.get('validate', 40)]
            for s, (st, obs, msg) in zip(ss_v, POOL.map(lambda s: native(lib, r['entry'], r.get('params', ''), s['inputs']), ss_v)):
                if st != 'ok' or obs != s['obs']:
                    problems.append('%s: native execution differs on %s: %s %s, observed %s, predicted %s' % (r['name'], s['inputs'][:40], st, msg, obs[:8], s['obs'][:8]))
                    break
                validated += 1
            samples += [{'run': r['name'], 'inputs': s['inputs'][:64], 'observed': s['obs'][:8]} for s in ss[:3]]
        if viols:
            break
    ncross, bad = cross_check(dump, 2000 if tier == 'quick' else 20000)
    if bad:
        problems.append('%d queries answered differently by cvc5' % bad)
    funcs = sorted({f for n in notes for f in n})
    own = [f for f in funcs if f.startswith('symx_t::') and 'symx_harness' not in f]
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 1), 'violations': len(viols),
          'coverage': {'states': tot.get('forks', 0) + len(run_reports), 'transitions': tot.get('decisions', 0) + tot.get('sched_points', 0),
                       'traces_validated_against_impl': validated, 'samples': samples[:12], 'exhaustive': not problems and not viols,
                       'complete_paths': tot.get('paths', 0), 'instructions_executed': tot.get('steps', 0),
                       'smt_queries': tot.get('z3_queries', 0), 'smt_query_cache_hits': tot.get('cache_hits', 0), 'solver_seconds': round(tot.get('z3_time', 0), 2),
                       'assertions_decided_by_z3': tot.get('asserts_z3', 0), 'assertions_constant_on_their_path': tot.get('asserts_const', 0),
                       'finite_domain_decisions': tot.get('dom_decisions', 0), 'finite_domain_decisions_checked_with_z3': tot.get('audits', 0),
                       'queries_checked_with_cvc5': ncross, 'modelled_map_lookups': tot.get('map_gets', 0), 'modelled_map_lookups_compared_with_the_code': tot.get('map_gets_compared', 0),
                       'functions_encoded': own, 'library_functions_encoded': len(funcs) - len(own), 'runs': run_reports, 'build_seconds': round(prep_s, 1),
                       'outside_the_bounds': c['outside'], 'problems': problems},
          'assumptions': checks.ASSUMPTIONS + c.get('assumptions', [])}
    json.dump(ev, open(ev_path, 'w'), indent=1)
    done = set()
    for k in shown_known:
        if k['what'] not in done:
            done.add(k['what'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for v, r, rp, how in viols:
        print('%s: %s; inputs %s; %s' % (r['name'], v['label'], v['inputs'][:60], how))
    if viols:
        print('VIOLATION property=%s replay=%s' % (prop, viols[0][2]), flush=True)
        sys.exit(1)
    if problems:
        die('; '.join(problems))
    print('%s held: %d runs, %d paths, %d SMT queries (%.1f s), %d paths validated natively, %.0f s' % (prop, len(run_reports), tot['paths'], tot['z3_queries'], tot['z3_time'], validated, wall))


main()
