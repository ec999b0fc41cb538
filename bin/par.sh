#!/bin/bash
# par.sh flavour prop N : run N cases on 8 shards, summarise (developer helper)
fl=$1; p=$2; n=$3; shift 3; mkdir -p /tmp/par; rm -f /tmp/par/$p.*
for i in 0 1 2 3 4 5 6 7; do OMP_NUM_THREADS=1 timeout 800 /verif/build/$fl/shellmon $p --n $n --shard $i 8 --out /tmp/par/$p.$i "$@" >/tmp/par/$p.log.$i 2>&1 & done; wait
python3 - $p <<'P'
import json,sys,glob,collections
p=sys.argv[1]; st={}; v=collections.Counter(); ex={}; done=0; ends=0
for f in glob.glob('/tmp/par/%s.[0-9]'%p):
    for l in open(f):
        try: e=json.loads(l)
        except Exception: print('BAD',l[:100]); continue
        if e['ev']=='stat':
            a=st.setdefault(e['monitor'],[0,0,0,-1]); a[0]+=e['n']; a[3]=e['wcase'] if e['worst']>a[1] else a[3]; a[1]=max(a[1],e['worst']); a[2]+=e['skipped']
        elif e['ev']=='violation':
            k=(e['monitor'],e['tag']); v[k]+=1; ex.setdefault(k,(e['case'],e['desc'][:150],e['detail'][:int(__import__("os").environ.get("DL","140"))]))
        elif e['ev']=='done': done+=1
        elif e['ev']=='end': ends+=1
print('shards done',done,'cases',ends)
for k,a in sorted(st.items()): print('  ',k,a)
for k,n in v.most_common(40): print('V',n,k,ex[k])
P
