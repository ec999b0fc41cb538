#!/usr/bin/env python3
"""Check runner.  check.py <property> [--thorough]   build the monitors against /repo's working tree, run the
property's workload in parallel shards, let the monitors judge, write evidence, report violations.
check.py --setup   build everything.      check.py --replay FILE   re-run one recorded violation."""
import os, sys, json, time, subprocess, re, signal, shutil, tempfile
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import vbuild
VERIF='/verif'
SOURCES=['main.cpp','mat_law.cpp','asm_core.cpp','asm_more.cpp','asm_inv.cpp','asm_hist.cpp','mat_int.cpp','mat_prin.cpp','mat_tft.cpp','mat_comp.cpp','asm_post.cpp','asm_dwr.cpp','mat_io.cpp','asm_fault.cpp','asm_map.cpp']
OMP_SOURCES=['main.cpp','omp_mon.cpp','gomp_shim.cpp']
def sources(fl): return OMP_SOURCES if fl=='omp' else SOURCES
from workloads import WORK, RULES
NSH=8
ENV=dict(OMP_NUM_THREADS='1',ASAN_OPTIONS='detect_container_overflow=0:detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1',
         UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=77',TSAN_OPTIONS='halt_on_error=1:exitcode=66:history_size=4',LC_ALL='C.UTF-8')
CASE_LIMIT=240.0
def known():
    out=[]
    p=os.path.join(VERIF,'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'known: property=(\S+) monitor="([^"]+)" tag="([^"]+)" (.*)',l)
            if m: out.append(m.groups())
    return out
class Shard:
    def __init__(s,exe,flavour,prop,seed,idx,nsh,n,thorough,tmp,extra=(),env=None,wrap=()):
        s.wrap=list(wrap)
        s.exe,s.flavour,s.prop,s.seed,s.idx,s.nsh,s.n,s.th,s.tmp,s.extra=exe,flavour,prop,seed,idx,nsh,n,thorough,tmp,list(extra)
        s.env=dict(os.environ); s.env.update(ENV); s.env.update(env or {})
        s.run=0; s.from_=0; s.outs=[]; s.proc=None; s.crashes=[]; s.start()
    def start(s):
        s.out=os.path.join(s.tmp,'%s%s.%s.%d.%d.out'%('vg.' if s.wrap else '',s.flavour,s.prop,s.idx,s.run)); s.err=s.out+'.err'
        cmd=s.wrap+[s.exe,s.prop,'--seed',str(s.seed),'--shard',str(s.idx),str(s.nsh),'--out',s.out,'--from',str(s.from_)]+s.extra
        if s.n>=0: cmd+=['--n',str(s.n)]
        if s.th: cmd.append('--thorough')
        s.cmd=cmd; s.proc=subprocess.Popen(cmd,stdout=open(s.err,'w'),stderr=subprocess.STDOUT,env=s.env,cwd=s.tmp,start_new_session=True)
        s.outs.append(s.out); s.lastsize=-1; s.lastt=time.time()
    def kill(s):
        try: os.killpg(s.proc.pid,signal.SIGKILL)
        except Exception: pass
        s.proc.wait()
    def lastcase(s):
        last=None
        try:
            for l in open(s.out,errors='replace'):
                if l.startswith('{"ev":"begin"'): last=json.loads(l)['case']
                elif l.startswith('{"ev":"end"'): last=None
                elif l.startswith('{"ev":"done"'): return 'done'
        except Exception: pass
        return last
    def poll(s):
        """True when finished"""
        if s.proc is None: return True
        rc=s.proc.poll(); reason=None
        if rc is None:
            try: sz=os.path.getsize(s.out)
            except OSError: sz=0
            if sz!=s.lastsize: s.lastsize=sz; s.lastt=time.time(); return False
            if time.time()-s.lastt<CASE_LIMIT: return False
            s.kill(); reason='no progress for %d s'%CASE_LIMIT
        elif rc==0 and s.lastcase()=='done': s.proc=None; return True
        elif s.lastcase()=='done' and 'LeakSanitizer has encountered a fatal error' in open(s.err,errors='replace').read(): s.proc=None; return True   # leak scan not possible here
        else: reason='process ended with status %s'%rc
        lc=s.lastcase(); 
        try: tail=open(s.err,errors='replace').read()
        except Exception: tail=''
        s.crashes.append(dict(case=lc if isinstance(lc,int) else -1,reason=reason,log=tail[-200000:],rc=rc)); s.proc=None
        if isinstance(lc,int) and len(s.crashes)<4:
            s.from_=lc+1; s.run+=1; s.start(); return False
        return True
def crash_summary(log):
    keep=[]
    for l in log.splitlines():
        if re.search(r'runtime error|==\d+==|ERROR: AddressSanitizer|LeakSanitizer|SUMMARY|WARNING: ThreadSanitizer|terminate|what\(\)|GISMO_|Assertion|Error',l): keep.append(l.strip())
        m=re.match(r'\s*#(\d+) \S+ in (.*)',l) or re.match(r'\s*#(\d+) (.*)',l)
        if m and int(m.group(1))<12: keep.append(l.strip())
        if len(keep)>30: break
    return '\n'.join(keep) or log[-800:]
def crash_tag(log):
    m=re.search(r'(gsKLShell|/repo)/(\S+?):(\d+)',log)
    site=''
    for l in log.splitlines():
        m=re.match(r'\s*#\d+ 0x\S+ in (.*)',l) or re.match(r'\s*#\d+ (.*)',l)
        if m and 'gsKLShell' in l:
            f=re.sub(r'<.*','',m.group(1)).split('(')[0]; site=f.strip(); break
    kind='crash'
    m=re.search(r'AddressSanitizer: ([\w-]+)',log)
    if m: kind=m.group(1)
    if 'ThreadSanitizer: data race' in log: kind='data race'
    if 'LeakSanitizer: detected' in log: kind='leak'
    m=re.search(r'==\d+== (Invalid \w+|Conditional jump|Use of uninit|Mismatched free)',log)
    if m: kind='memcheck: '+m.group(1)
    m=re.search(r'runtime error: (.{0,60})',log)
    if m: kind='ub: '+re.sub(r'0x[0-9a-f]+|-?\d+','#',m.group(1))
    return kind+(' at '+site if site else '')
def run(prop,thorough,seed):
    t0=time.time(); tier='thorough' if thorough else 'quick'
    items=WORK[prop]; tmp=tempfile.mkdtemp(prefix='shellmon_')
    shards=[]; builds=[]; limit=3*3600 if thorough else 840
    try:
        exes={}
        for it in items:
            fl=it['flavour']
            if fl not in exes: exes[fl],info=vbuild.build(fl,'shellmon',sources(fl)); builds.append(dict(flavour=fl,**info))
        todo=[]
        for it in items:
            n=it.get('thorough' if thorough else 'quick',-1)
            ns=it.get('shards',NSH)
            for i in range(ns): todo.append((it,i,ns,n))
        running=[]; 
        while todo or running:
            while todo and sum(r.weight for r in running)+todo[0][0].get('weight',1)<=NSH:
                it,i,ns,n=todo.pop(0); s=Shard(exes[it['flavour']],it['flavour'],it['prop'],seed,i,ns,n,thorough,tmp,it.get('args',()),it.get('env'),it.get('wrap',())); s.item=it; s.weight=it.get('weight',1); running.append(s); shards.append(s)
            time.sleep(0.05)
            running=[s for s in running if not s.poll()]
            if time.time()-t0>limit:
                for s in running: s.kill(); s.crashes.append(dict(case=s.lastcase() if isinstance(s.lastcase(),int) else -1,reason='time budget exhausted',log='',rc=None,budget=True))
                break
        return judge(prop,thorough,seed,tier,shards,builds,time.time()-t0)
    finally: shutil.rmtree(tmp,ignore_errors=True)
def judge(prop,thorough,seed,tier,shards,builds,wall):
    stats={}; viols=[]; cases=0; nontriv=set(); classes={}; samples=[]; unfinished=0; runs={}
    for s in shards:
        ndone=0
        for o in s.outs:
            try: lines=open(o,errors='replace').read().splitlines()
            except OSError: continue
            for l in lines:
                try: e=json.loads(l)
                except Exception: continue
                if e['ev']=='end':
                    cases+=1; ndone+=1
                    if not e['trivial']:
                        d=(e['desc'] or '%s#%d'%(e['key'],e['case']))
                        nontriv.add((s.item['prop'],d)); k=s.item['prop']+':'+e['key']; classes[k]=classes.get(k,0)+1
                        if len(samples)<6 and (e['case']%7==0 or len(samples)<2): samples.append(dict(workload=s.item['prop'],flavour=s.flavour,case=e['case'],what=d[:500]))
                elif e['ev']=='stat':
                    k=e['monitor']; a=stats.setdefault(k,dict(evaluations=0,skipped=0,worst_fraction_of_tolerance=0.0)); a['evaluations']+=e['n']; a['skipped']+=e['skipped']; a['worst_fraction_of_tolerance']=max(a['worst_fraction_of_tolerance'],e['worst'])
                elif e['ev']=='violation':
                    if s.item.get('sanitizer_only'): continue   # behavioural verdicts belong to the other property
                    viols.append(dict(case=e['case'],monitor=e['monitor'],tag=e['tag'],desc=e['desc'],detail=e['detail'],shard=s))
        for c in s.crashes:
            if c.get('budget'): unfinished+=1; continue
            tag=crash_tag(c['log'])
            viols.append(dict(case=c['case'],monitor='process',tag=tag,desc=c['reason'],detail=crash_summary(c['log']),shard=s))
        r=runs.setdefault('%s/%s'%('memcheck' if s.wrap else s.flavour,s.item['prop']),dict(shards=0,cases=0)); r['shards']+=1; r['cases']+=ndone
    kf=known(); fresh=[]; seen=set()
    for v in viols:
        hit=None
        for k in kf:
            if k[0]==prop and k[1]==v['monitor'] and k[2]==v['tag']: hit=k
        if hit:
            if hit not in seen: print('KNOWN-FINDING: property=%s %s'%(prop,hit[3])); seen.add(hit)
        else: fresh.append(v)
    ev=dict(property=prop,tier=tier,seed=seed,level='exploration',wall_s=round(wall,1),violations=len(fresh),
      coverage=dict(evaluations=cases,distinct_nontrivial=len(nontriv),rule=RULES.get(prop,'seeded random cases; a case is non-trivial when at least one monitor judged it, distinct by its full description'),
        samples=samples or ['none'],coverage_classes=len(classes),monitors=stats,runs=runs,builds=builds,shards_stopped_by_time_budget=unfinished),
      assumptions=['G+Smo core, Eigen, the compiler and the sanitizer runtimes are trusted','floating-point tolerances as stated in DESIGN.md'])
    os.makedirs(VERIF+'/evidence',exist_ok=True)
    with open(VERIF+'/evidence/%s.json'%prop,'w') as f: json.dump(ev,f,indent=1)
    print('%s %s seed=%d: %d cases (%d distinct non-trivial, %d classes), %d monitor evaluations, %d violations, %.1fs'%(prop,tier,seed,cases,len(nontriv),len(classes),sum(a['evaluations'] for a in stats.values()),len(fresh),wall))
    if fresh:
        rd=VERIF+'/evidence/replay'; os.makedirs(rd,exist_ok=True)
        shown=0; kinds=set()
        for v in fresh:
            k=(v['monitor'],v['tag'])
            if k in kinds: continue
            kinds.add(k); s=v['shard']; f='%s/%s_%d.json'%(rd,prop,shown)
            json.dump(dict(property=prop,flavour=s.flavour,workload=s.item['prop'],seed=seed,thorough=thorough,case=v['case'],n=s.n,args=s.extra,wrap=s.wrap,env=s.item.get('env'),monitor=v['monitor'],tag=v['tag'],desc=v['desc'],detail=v['detail']),open(f,'w'),indent=1)
            print('VIOLATION property=%s replay=%s'%(prop,f)); print('   monitor: %s [%s] case %s: %s\n   %s'%(v['monitor'],v['tag'],v['case'],v['desc'][:300],v['detail'][:1200]))
            shown+=1
            if shown>=8: break
        return 1
    if cases==0: print('no case was judged'); return 2
    return 0
def main():
    a=sys.argv[1:]
    if a and a[0]=='--setup':
        for fl in (a[1:] or ["plain","asan","omp"]):
            print(fl,vbuild.build(fl,'shellmon',sources(fl))[1],flush=True)
        return 0
    if a and a[0]=='--replay':
        r=json.load(open(a[1])); exe,_=vbuild.build(r['flavour'],'shellmon',sources(r['flavour']))
        env=dict(os.environ); env.update(ENV); env.update(r.get('env') or {})
        cmd=r.get('wrap',[])+[exe,r['workload'],'--seed',str(r['seed']),'--case',str(r['case'])]+(['--thorough'] if r['thorough'] else [])+r['args']
        print(' '.join(cmd)); return subprocess.run(cmd,env=env,cwd='/tmp').returncode
    prop=a[0]; thorough='--thorough' in a or os.environ.get('VERIF_TIER')=='thorough'; seed=int(os.environ.get('VERIF_SEED','1') or 1)
    if prop not in WORK: print('unknown property',prop); return 2
    try: return run(prop,thorough,seed)
    except vbuild.BuildError as e: print('BUILD FAILED\n'+str(e)); return 3
if __name__=='__main__': sys.exit(main())
