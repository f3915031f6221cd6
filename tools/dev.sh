#!/bin/bash
# development helper: build the release harness and run one property on 8 shards
# usage: dev.sh ID [args...]
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
cd /verif/harness || exit 1
cargo build --offline --release --target-dir /verif/target/harness 2>&1 | grep -E "^(error|warning: unused)" -A8 | head -60
id=$1; shift
for i in 0 1 2 3 4 5 6 7; do
  /verif/target/harness/release/poppy-verif run "$id" --shard $i/8 "$@" > /verif/target/dev.$i.json 2>/verif/target/dev.$i.err &
done
wait
python3 - <<'P'
import json
agg={}
for i in range(8):
    t=open(f'/verif/target/dev.{i}.json').read()
    if not t.strip():
        print('shard',i,'no output',open(f'/verif/target/dev.{i}.err').read()[-500:]); continue
    for s in json.loads(t):
        a=agg.setdefault(s['suite'],dict(ev=0,nt=0,lab={},wall=0))
        a['ev']+=s['evaluations'];a['nt']+=s['nontrivial'];a['wall']=max(a['wall'],s['wall_s'])
        for k,v in s['labels'].items(): a['lab'][k]=a['lab'].get(k,0)+v
        if s['failure']: print('FAIL',i,s['failure']['suite'],s['failure']['message'][:600],'\n   ',json.dumps(s['failure']['case'])[:900])
        if s['error']: print('ERROR',s['error'])
        if s['known']: print('known',s['known'])
for k,a in agg.items(): print(k,a)
P
