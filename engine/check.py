"""check.py PROPERTY [--tier quick|thorough]
Decides one property: dumps the MIR of the contracts crate and of the real code it reaches from /repo's
current working tree, generates and discharges the obligations of every contract root of the property,
and replays anything not proved on the natively compiled real code."""
import sys,os,json,time,re,subprocess,fcntl,hashlib,tempfile,traceback,multiprocessing as mp
V='/verif'; W=os.environ.get('VERIF_WORK',V+'/.work')
sys.path.insert(0,V+'/engine')
NIGHTLY='nightly'
def log(*a): print(*a,flush=True)
def run(cmd,env=None,cwd=None,timeout=600):
    e=dict(os.environ); e.update(env or {})
    return subprocess.run(cmd,env=e,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout)
class BuildError(Exception): pass
def group_of(prop): 
    for line in open(V+'/contracts/groups.txt'):
        g,fs=line.split(':')
        if g==prop: return ','.join(fs.split())
    raise SystemExit('unknown property '+prop)
def build_driver():
    r=run(['cargo','+nightly','build','-q','--offline'],{'CARGO_NET_OFFLINE':'true','CARGO_TARGET_DIR':W+'/driver','RUSTFLAGS':'-Awarnings'},V+'/driver')
    if r.returncode: raise BuildError('driver: '+r.stdout[-1500:])
def dump(group):
    out=tempfile.mktemp(prefix='dump-',suffix='.json',dir=W)
    r=run(['bash',V+'/tools/dump.sh',out],{'FEATURES':group,'WORK':W})
    if r.returncode or not os.path.exists(out): raise BuildError('contracts crate does not build against the current tree:\n'+r.stdout[-3000:])
    return out
def build_native(group):
    import glob,shutil
    py='pyo3' in group.split(','); N=W+('/native-py' if py else '/native')
    for p in glob.glob(N+'/debug/.fingerprint/dess*'): shutil.rmtree(p,ignore_errors=True)
    r=run(['cargo','build','-q','--offline','--no-default-features','--features',group],{'RUSTUP_TOOLCHAIN':'stable','CARGO_NET_OFFLINE':'true','CARGO_TARGET_DIR':N,'PYO3_PYTHON':'/usr/bin/python3.12','RUSTFLAGS':'-Awarnings -Cdebug-assertions=on'+(' -Clink-arg=-lpython3.12' if py else '')},V+'/contracts')
    if r.returncode: raise BuildError('native build: '+r.stdout[-3000:])
    dst=f"{W}/replay-{os.getpid()}"
    import shutil; shutil.copy(N+'/debug/vh-replay',dst)
    return dst
class Lock:
    def __enter__(s):
        os.makedirs(W,exist_ok=True); s.f=open(W+'/lock','w'); fcntl.flock(s.f,fcntl.LOCK_EX); return s
    def __exit__(s,*a): s.f.close()

def root_job(a):
    dumpd,name,fid,budget,thorough=a
    import exec as X, solver
    solver.KEEP_CROSS[0]=thorough
    e=X.Engine(dumpd); t=time.time(); e.deadline=t+budget
    r={'root':name,'err':None}
    try:
        outs=e.run_root(fid)
        r['paths']=len(outs)
    except X.Unsupported as ex: r['err']='unsupported: %s at %s'%(str(ex)[:300],getattr(ex,'site',None))
    except X.Budget as ex: r['err']='budget: '+str(ex)
    except (RecursionError,MemoryError) as ex: r['err']='resource: '+type(ex).__name__
    except Exception as ex: r['err']='engine: %s: %s %s'%(type(ex).__name__,str(ex)[:300],traceback.format_exc()[-600:])
    r['obls']=e.obls; r['reached']=sorted(e.reached); r['fns']=e.used_fns; r['real']=sorted(e.real_fns); r['models']=e.models_used
    r['assumptions']=sorted(e.assumptions); r['t']=time.time()-t
    S=solver.STATS
    r['z3']=dict(calls=S.z3_calls,time=round(S.z3_time,2),unknown=S.unknown,syntactic=S.syntactic)
    if thorough:
        try: r['cross']=solver.cross_check(min(120,budget))
        except Exception as ex: r['cross']={'error':str(ex)[:200]}
    return r
_D=None
def child(q,a):
    import resource
    resource.setrlimit(resource.RLIMIT_AS,(6<<30,6<<30))
    try: r=root_job((_D,)+a)
    except BaseException as ex: r={'root':a[0],'err':'crash: '+repr(ex)[:200],'obls':[],'reached':[],'fns':{},'models':{},'assumptions':[],'t':0,'z3':{}}
    q.put(r)
def run_roots(d,jobs,total,ncpu=8):
    """jobs: (name,fid,budget,thorough). Separate processes; a hung one is killed."""
    global _D; _D=d
    ctx=mp.get_context('fork'); res={}; pend=list(jobs); act=[]; t0=time.time()
    while pend or act:
        while pend and len(act)<ncpu:
            a=pend.pop(0); q=ctx.SimpleQueue(); p=ctx.Process(target=child,args=(q,a)); p.start(); act.append((p,q,a,time.time()))
        time.sleep(0.01)
        for x in list(act):
            p,q,a,ts=x
            if not q.empty(): res[a[0]]=q.get(); p.join(5); act.remove(x)
            elif not p.is_alive():
                if not q.empty(): res[a[0]]=q.get()
                else: res[a[0]]={'root':a[0],'err':'process died','obls':[],'reached':[],'fns':{},'models':{},'assumptions':[],'t':time.time()-ts,'z3':{}}
                act.remove(x)
            elif time.time()-ts>a[2]*1.5+20 or time.time()-t0>total:
                p.kill(); act.remove(x)
                res[a[0]]={'root':a[0],'err':'time budget exhausted','obls':[],'reached':[],'fns':{},'models':{},'assumptions':[],'t':time.time()-ts,'z3':{}}
    return res
def status(r):
    if r['err'] is None and r['obls'] and r['reached'] and all(o['res']=='proved' for o in r['obls']): return 'proved'
    if any(o['res']=='failed' for o in r['obls']): return 'failed'
    return 'unknown'

def main():
    prop=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick')
    if '--tier' in sys.argv: tier=sys.argv[sys.argv.index('--tier')+1]
    seed=int(os.environ.get('VERIF_SEED','1') or 1); thorough=tier=='thorough'
    t0=time.time(); group=group_of(prop)
    os.makedirs(V+'/evidence',exist_ok=True); os.makedirs(V+'/evidence/replay',exist_ok=True)
    known=[l.strip() for l in open(V+'/known-findings.txt') if l.startswith('finding: ')] if os.path.exists(V+'/known-findings.txt') else []
    ev={'property':prop,'tier':tier,'seed':seed,'level':LEVEL.get(prop,'proof'),'assumptions':[],'violations':0}
    def finish(cov,viol,code):
        ev['coverage']=cov; ev['wall_s']=round(time.time()-t0,2); ev['violations']=len(viol)
        json.dump(ev,open(f'{V}/evidence/{prop}.json','w'),indent=1)
        for k in known:
            if f'property={prop} ' in k: log('KNOWN-FINDING: '+k[9:])
        for v in viol: log(v)
        for f in tmp:
            try: os.remove(f)
            except OSError: pass
        sys.exit(code)
    tmp=[]
    native=None
    try:
        with Lock():
            build_driver(); dp=dump(group); tmp.append(dp)
    except (BuildError,subprocess.TimeoutExpired) as ex:
        log('UNDECIDED property=%s: %s'%(prop,str(ex)[:1500]))
        # the verifier has no input; try the bounded native stand-in alone
        try:
            with Lock(): native=build_native(group); tmp.append(native)
        except (BuildError,subprocess.TimeoutExpired) as ex2:
            log('the contracts crate does not compile against this tree: '+str(ex2)[-1500:])
            finish({'obligations':0,'discharged':0,'checker_cmd':f'python3-vt engine/check.py {prop}','trusted_base':[],'explanation':'undecided: '+str(ex)[:800]},[],0)
        dumpd=None
    else:
        dumpd=json.load(open(dp))
        os.remove(dp)
    low=prop.lower()
    res={}
    if dumpd is not None:
        names=sorted(n for n in dumpd['roots'] if re.match(low+r'_\w+$',n.split('::')[-1]) and '::roots::' in n)
        budget=float(os.environ.get('VERIF_ROOT_S','600' if thorough else '420'))
        jobs=[(n,dumpd['roots'][n],budget,thorough) for n in names]
        res=run_roots(dumpd,jobs,560 if not thorough else 740)
    else: names=[]
    if native is None and any(status(r)!='proved' for r in res.values()) or (native is None and thorough):
        try:
            with Lock(): native=build_native(group); tmp.append(native)
        except (BuildError,subprocess.TimeoutExpired) as ex: log('native build failed: '+str(ex)[-800:])
    viol=[]; und=[]; nat={}
    if dumpd is None and native:
        rr=run([native]).stdout.split(); names=['x::'+n for n in rr if n.startswith(low+'_')]
        res={n:{'root':n,'err':'not dumped','obls':[],'reached':[],'fns':{},'models':{},'assumptions':[],'t':0,'z3':{}} for n in names}
    bad=[n for n in names if status(res[n])!='proved']
    left=lambda: 840-(time.time()-t0)
    def native_run(short,trials,secs,extra=()):
        try: q=run([native,short,'--seed',str(seed),'--trials',str(trials),'--seconds',str(secs)]+list(extra),timeout=secs+20)
        except subprocess.TimeoutExpired: return None
        try: return json.loads(q.stdout.strip().splitlines()[-1])
        except Exception: return {'failed':['native run crashed: '+q.stdout[-300:]] if q.returncode not in(0,1) else [],'ran':0,'crash':True}
    for n in names:
        r=res[n]; short=n.split('::')[-1]; s=status(r)
        if s=='proved' and not thorough: continue
        hit=None
        if native:
            if s!='proved':
                for o in r['obls']:
                    if o['res']=='failed' and o.get('model') and left()>60:
                        mf=tempfile.mktemp(dir=W); open(mf,'w').write('\n'.join(f'{k}={v!r}' for k,v in o['model'].items()))
                        h=native_run(short,300,5,['--model',mf])
                        if h and h['failed']: h['model']=o['model']; hit=h
                        os.remove(mf)
                        if hit: break
            if hit is None:
                secs=max(3,min(25 if s!='proved' else 10,left()/max(1,len(bad))-2))
                h=native_run(short,40000 if s!='proved' else 20000,secs)
                if h and h['failed'] and not h.get('crash'): hit=h
                elif h: nat[short]={'trials':h.get('ran',0),'rejected':h.get('rejected',0),'postconditions_checked':h.get('passed',0)}
        if s=='proved':
            if hit: log(f'note: {short} is proved over the reals; native trial disagrees in floating point: {hit["failed"][:3]}')
            continue
        fo=[o for o in r['obls'] if o['res']!='proved']
        rep=f'{V}/evidence/replay/{prop}-{short}.json'
        rec={'property':prop,'root':n,'proof':s,'error':r['err'],'failed_obligations':[{k:o.get(k) for k in('kind','name','at','fn','res','goal','model','pc')} for o in fo[:20]]}
        if hit:
            rec['native']=hit; rec['replay_cmd']=f"build: cd {V}/contracts && {'RUSTFLAGS=-Clink-arg=-lpython3.12 ' if 'pyo3' in group else ''}CARGO_TARGET_DIR={W}/native{'-py' if 'pyo3' in group else ''} cargo build --offline --no-default-features --features {group}; run: {W}/native{'-py' if 'pyo3' in group else ''}/debug/vh-replay {short} --seed {hit.get('seed',seed)} --only {hit.get('trial',0)}"
            json.dump(rec,open(rep,'w'),indent=1)
            log(f'{short}: {hit["failed"][:4]} inputs {hit.get("inputs",[])[:12]}')
            viol.append(f'VIOLATION property={prop} replay={rep}')
        elif any(o['res']=='failed' and 'model' in o for o in fo):
            json.dump(rec,open(rep,'w'),indent=1)
            o=sorted((o for o in fo if o['res']=='failed'),key=lambda o:not o.get('definite'))[0]
            log(f'{short}: obligation "{o["name"]}" at {o["at"]} fails: {o.get("goal","")[:300]} model {str(o.get("model"))[:300]}')
            viol.append(f'VIOLATION property={prop} replay={rep} no-failing-input-found')
        else:
            und.append(short)
            log(f'UNDECIDED {short}: {r["err"] or ""} {[ (o["name"],o["at"],o["res"]) for o in fo[:3]]}; bounded native stand-in: {nat.get(short)}')
    obl=sum(len(r['obls']) for r in res.values()); dis=sum(o['res']=='proved' for r in res.values() for o in r['obls'])
    fns={}; models={}; asm=set(); by={}
    for r in res.values():
        for k,v in r['fns'].items(): fns[k]=fns.get(k,0)+v
        for k,v in r['models'].items(): models[k]=models.get(k,0)+v
        asm|=set(r['assumptions'])
        for o in r['obls']:
            if o['res']=='proved': by[o['by'] or '?']=by.get(o['by'] or '?',0)+1
    real=sorted({k for r in res.values() for k in r.get('real',())})
    cov={'obligations':obl,'discharged':dis,'checker_cmd':f'VERIF_TIER={tier} python3-vt /verif/engine/check.py {prop}',
      'trusted_base':['rustc (nightly) lowering of the real source to MIR','engine/ (symbolic executor, loop rule, polynomial normaliser)','z3 '+('cross-checked with cvc5' if thorough else ''),
        'contracts of standard-library leaf functions: '+', '.join(sorted(models))],
      'discharged_by':by,'roots':{n.split('::')[-1]:{'status':status(r),'obligations':len(r['obls']),'paths':r.get('paths'),'reach_probes':r['reached'],'seconds':round(r['t'],2),'z3':r['z3'],'error':r['err'],'cross':r.get('cross')} for n,r in res.items()},
      'functions_verified':real,'undecided_roots':und,'bounded_native_standin':nat,
      'solver_time_s':round(sum(r['z3'].get('time',0) for r in res.values()),2)}
    ev['assumptions']=sorted(asm)+ASSUME
    if und: cov['explanation']='undecided roots were run natively on generated inputs (bounded, not counted as proved)'
    nr=sum(status(r)=='proved' for r in res.values())
    log(f'{prop}: {nr}/{len(res)} contract roots proved, {dis}/{obl} obligations discharged, {len(real)} functions of the real code, {time.time()-t0:.1f}s')
    if not names: log('UNDECIDED: no contract root found')
    finish(cov,viol,1 if viol else 0)
LEVEL={}
ASSUME=['f64 arithmetic is treated as exact real arithmetic (with NaN/inf kept symbolic); literals are the simplest rational rounding to the double',
 'termination is not proved (partial correctness); unwinding, drops and allocation failure are not modelled',
 'the right-hand side of an arbitrary system is a total function of time and states']
if __name__=='__main__': main()
