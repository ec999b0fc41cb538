#!/usr/bin/env python3
"""Build driver: core library (once), module translation units of /repo and the monitors,
rebuilt by content hash of everything they include from /repo and /verif."""
import os, sys, subprocess, hashlib, json, re, time, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF='/verif'; REPO='/repo'; CORE='/opt/gismo-core'; BUILD=os.path.join(VERIF,'build')
JOBS=int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8))
INC_CORE=['-I%s/src'%CORE,'-I%s/external'%CORE]
COMMON=['-w','-std=c++11','-fPIC','-DgsKLShell_DATA="%s/filedata/"'%REPO,'-Dgismo_EXPORTS','-DVERIF_MONITOR']
FLAV={
 'plain':dict(core='core',cxx='g++',flags=['-O1'],link=[]),
 'asan': dict(core='core',cxx='g++',flags=['-DEIGEN_MALLOC_ALREADY_ALIGNED=1','-O1','-g1','-fno-omit-frame-pointer','-fsanitize=address,undefined','-fno-sanitize=vptr','-fno-sanitize-recover=undefined'],
              link=['-fsanitize=address,undefined']),
 'cov':  dict(core='core',cxx='g++',flags=['-O0','--coverage'],link=['--coverage']), # developer use: which lines of the module the workloads reach
 'omp':  dict(core='core_omp',cxx='g++',flags=['-O1','-g1','-fopenmp','-fsanitize=thread'],link=['-fsanitize=thread','-lpthread']),
}
class BuildError(Exception): pass
def sha(s):
    return hashlib.sha256(s if isinstance(s,bytes) else s.encode()).hexdigest()
_filehash={}
def fhash(p):
    if p in _filehash: return _filehash[p]
    try:
        if p.startswith(CORE) or p.startswith('/usr'):
            st=os.stat(p); h='%d'%st.st_size
        else:
            with open(p,'rb') as f: h=sha(f.read())
    except OSError: h='missing'
    _filehash[p]=h
    return h
def canon(p):
    p=p.replace(CORE+'/optional/gsKLShell/',REPO+'/')
    return os.path.normpath(p)
def parse_d(dfile):
    t=open(dfile).read().replace('\\\n',' ')
    t=t.split(':',1)[1]
    return sorted(set(canon(x) for x in t.split()))
def build_core(kind):
    out=os.path.join(BUILD,kind); stamp=os.path.join(out,'.done')
    lib=os.path.join(out,'lib','libgismo.so')
    if os.path.exists(stamp) and os.path.exists(lib): return out
    os.makedirs(out,exist_ok=True)
    flags='-O1'
    ldf=''
    if kind=='core_omp': flags='-O1 -fopenmp'
    env=dict(os.environ,CC='gcc',CXX='g++',LC_ALL='C.UTF-8')
    cmds=[['cmake','-S',CORE,'-B',out,'-G','Ninja','-DCMAKE_BUILD_TYPE=RelWithDebInfo','-DCMAKE_C_COMPILER=gcc','-DCMAKE_CXX_COMPILER=g++',
      '-DCMAKE_CXX_STANDARD=11','-DCMAKE_CXX_FLAGS_RELWITHDEBINFO='+flags,'-DTARGET_ARCHITECTURE=generic','-DGISMO_OPTIONAL=',
      '-DGISMO_BUILD_EXAMPLES=OFF','-DGISMO_BUILD_UNITTESTS=OFF','-DNOSNIPPETS=ON'],
      ['ninja','-C',out,'-j',str(JOBS),'gismo']]
    for c in cmds:
        r=subprocess.run(c,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        if r.returncode: raise BuildError('core build failed: '+r.stdout.decode(errors='replace')[-3000:])
    # object files are no longer needed
    for root,ds,fs in os.walk(out):
        for f in fs:
            if f.endswith('.o'): os.unlink(os.path.join(root,f))
    open(stamp,'w').write('ok')
    return out
OV_OLD=re.compile(r"auto k = std::make_pair\(sym\.m_fs,&m_mdata\[sym\.inner\(\)\.m_fs\]\);.*?setData\(eh\.m_cdata\[ give\(k\) \]\);\s*else\s*const_cast<expr::gsComposition<T>&>\(sym\)\s*\.setData\(eh\.m_cdata\[ give\(k\) \]\);",re.S)
OV_NEW="""gsExprHelper & eh = (sym.isAcross() ? iface() : *this);
#       pragma omp critical (m_mdata_first_touch)
        { auto k = std::make_pair(sym.m_fs,&m_mdata[sym.inner().m_fs]); const_cast<expr::gsComposition<T>&>(sym).setData(eh.m_cdata[ give(k) ]); }"""
def overlay():
    """core's gsExprHelper::add(gsComposition) looks a map up without a lock while other threads insert: a race of the core, not of
    this module; its cleanUp() clears the boundary data of only one thread, so that after a traction other threads evaluate the stale
    traction.  The parallel flavour compiles against a copy of that one header with the lookup inside the critical section and the
    boundary data of every thread cleared."""
    d=os.path.join(BUILD,'overlay'); f=os.path.join(d,'gsExpressions','gsExprHelper.h'); os.makedirs(os.path.dirname(f),exist_ok=True)
    t,n=OV_OLD.subn(lambda m:OV_NEW,open(CORE+'/src/gsExpressions/gsExprHelper.h').read())
    t,n2=re.subn(r'void cleanUp\(\)\s*\{',lambda m:m.group(0)+' mutData.mine().clear(); if (isMirrored()) m_mirror->mutData.mine().clear(); ',t)
    if n!=1 or n2!=1: raise BuildError('core header gsExprHelper.h not as expected')
    if not os.path.exists(f) or open(f).read()!=t: open(f,'w').write(t)
    return d
def compile_tu(src,obj,fl,coredir,extra=()):
    cmd=[fl['cxx']]+COMMON+list(fl['flags'])+list(extra)+([os.path.join('-I'+BUILD,'overlay')] if fl['core']=='core_omp' else [])+INC_CORE+['-I'+coredir,'-I%s/optional'%CORE,'-I%s/harness'%VERIF]
    sig_f=obj+'.sig'; dep_f=obj+'.d'
    base=sha(json.dumps(cmd)+src)
    def signature():
        deps=parse_d(dep_f)
        return sha(base+''.join(d+fhash(d) for d in deps if not d.startswith('/usr') and not d.startswith(coredir)))
    if os.path.exists(obj) and os.path.exists(sig_f) and os.path.exists(dep_f):
        try:
            if open(sig_f).read()==signature(): return False
        except Exception: pass
    for f in (obj,sig_f,dep_f):
        try: os.unlink(f)
        except OSError: pass
    r=subprocess.run(cmd+['-MD','-MF',dep_f,'-c',src,'-o',obj],stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('compile of %s failed:\n%s'%(src,r.stdout.decode(errors='replace')[:4000]))
    open(sig_f,'w').write(signature())
    return True
def module_sources():
    d=REPO+'/src'
    return sorted(os.path.join(CORE,'optional/gsKLShell/src',f) for f in os.listdir(d) if f.endswith('.cpp'))
def build(flavour,program,sources):
    """sources: list of harness files (relative to /verif/harness). Returns path of the executable."""
    os.makedirs(BUILD,exist_ok=True)
    lock=open(os.path.join(BUILD,'.lock.'+flavour),'w'); fcntl.flock(lock,fcntl.LOCK_EX)
    t0=time.time()
    fl=FLAV[flavour]; coredir=build_core(fl['core'])
    if fl['core']=='core_omp': overlay()
    out=os.path.join(BUILD,flavour); os.makedirs(out+'/mod',exist_ok=True); os.makedirs(out+'/har',exist_ok=True)
    _filehash.clear()
    mods=module_sources()
    jobs=[(s,os.path.join(out,'mod',os.path.basename(s)+'.o'),()) for s in mods]
    har=[]
    for s in sources:
        o=os.path.join(out,'har',s.replace('/','_')+'.o'); har.append(o)
        ex=()
        jobs.append((os.path.join(VERIF,'harness',s),o,ex))
    big={'gsThinShellAssemblerDWR_.cpp':0,'gsThinShellAssembler_.cpp':1,'gsMaterialMatrixBaseDim_.cpp':2}
    jobs.sort(key=lambda j:big.get(os.path.basename(j[0]),9))
    changed=0
    with ThreadPoolExecutor(JOBS) as ex:
        futs=[ex.submit(compile_tu,s,o,fl,coredir,e) for s,o,e in jobs]
        errs=[]
        for f in futs:
            try: changed+=bool(f.result())
            except BuildError as e: errs.append(str(e))
        if errs: raise BuildError('\n'.join(errs))
    objs=[j[1] for j in jobs]
    exe=os.path.join(out,program)
    libdir=os.path.join(coredir,'lib')
    link=[fl['cxx'],'-o',exe]+objs+['-rdynamic','-L'+libdir,'-lgismo','-Wl,-rpath,'+libdir]+fl['link']
    sig=sha(json.dumps(link)+''.join(open(o+'.sig').read() for o in objs))
    if not(os.path.exists(exe) and os.path.exists(exe+'.sig') and open(exe+'.sig').read()==sig):
        r=subprocess.run(link,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        if r.returncode: raise BuildError('link failed:\n'+r.stdout.decode(errors='replace')[:4000])
        open(exe+'.sig','w').write(sig)
    fcntl.flock(lock,fcntl.LOCK_UN)
    return exe,dict(compiled=changed,units=len(jobs),seconds=round(time.time()-t0,1))
