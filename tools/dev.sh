#!/bin/bash
# dev.sh HARNESS ENTRY PARAMS [options]: one run with a short report
V=/verif; H=$1; E=$2; P=$3; shift 3
( cd $V/symx && CARGO_TARGET_DIR=$V/build/symx RUSTFLAGS="-Awarnings" cargo build --release --offline -q ) || exit 1
/bin/rm -f $V/build/o.json*
RUST_BACKTRACE=0 timeout 900 $V/build/symx/release/symx --ir $V/build/$H/m.ll --entry $E --params $P --out $V/build/o.json --verbose "$@" 2>&1 | tail -40
python3 - <<'PY'
import json,glob
t={}
for f in glob.glob('/verif/build/o.json*'):
    d=json.load(open(f))
    for k,v in d.items():
        if isinstance(v,(int,float)): t[k]=(max if k in('max_steps','max_vars','wall') else (lambda a,b:a+b))(t.get(k,0),v)
        elif isinstance(v,list): t.setdefault(k,[]).extend(v)
        else:
            for a,b in v.items(): t.setdefault(k,{}); t[k][a]=t[k].get(a,0)+b
t['functions']=len(set(t['functions'])); t['samples']=t['samples'][:2]
vs=t.pop('violations')
print(json.dumps(t)[:2500])
seen={}
for v in vs:
    if v['label'] in seen: continue
    seen[v['label']]=1
    print('V',v['label'],v['inputs'][:40],v['sched'][:20],v['stack'][:4],v['steps'])
PY
