"""mutate.py gen OUT.json | run MUTANTS.json OUT.jsonl [WORKERS]
Line-level mutants of the non-test sources, run against the stable tests and then against every contract root,
in copies of /repo and /verif under /tmp/mut. Development aid: no check uses it."""
import sys,re,os,json,subprocess,random,shutil,time
R='/repo'
FILES=['dess/src/solver.rs','dess/src/traits_and_macros.rs','dess/src/utilities.rs','dess/src/lib.rs','dess/dess-proc-macros/src/bare_clone.rs','dess/dess-proc-macros/src/history_methods.rs','dess/dess-proc-macros/src/history_vec.rs','dess/dess-proc-macros/src/solver_attr.rs','dess/dess-proc-macros/src/utilities.rs','dess/dess-proc-macros/src/pyo3_api.rs','dess-examples/src/components.rs','dess-examples/src/three_thermal_mass_sys.rs','dess-examples/src/three_thrml_mass_w_bc_sys.rs']
SW=[(r' \+ ',[' - ']),(r' - ',[' + ']),(r' \* ',[' / ']),(r' / ',[' * ']),(r' \+= ',[' -= ',' = ']),(r' -= ',[' += ']),(r' \*= ',[' /= ']),(r' < ',[' <= ',' > ']),(r' > ',[' >= ',' < ']),(r' <= ',[' < ']),(r' >= ',[' > ']),(r' == ',[' != ']),(r' != ',[' == ']),(r' && ',[' || ']),(r' \|\| ',[' && ']),
(r'\.min\(',['.max(']),(r'\.max\(',['.min(']),(r'\btrue\b',['false']),(r'\bfalse\b',['true']),(r'\.last\(',['.first(']),(r'\.first\(',['.last(']),(r'\bstates\(\)',['derivs()']),(r'\bderivs\(\)',['states()']),(r'\.floor\(',['.ceil(']),(r'\.abs\(\)',['']),(r'\bif ',['if !']),
(r'\bdelta5\b',['delta4']),(r'\bdelta4\b',['delta5']),(r'\bk1\b',['k2']),(r'\bk2\b',['k1','k3']),(r'\bk3\b',['k2','k4']),(r'\bk4\b',['k3']),(r'\bsys1\b',['sys2']),(r'\bsys2\b',['sys1','sys3']),(r'\bsys3\b',['sys2','sys4']),(r'\bsys4\b',['sys3']),(r'\btemp\b',['dtemp']),(r'\bdtemp\b',['temp']),(r'\bm1\b',['m2']),(r'\bm2\b',['m1','m3']),(r'\bm3\b',['m2']),(r'\bh12\b',['h23']),(r'\bh23\b',['h12']),(r'\bdt_max\b',['dt']),(r'\brtol\b',['atol']),(r'\batol\b',['rtol']),(r'\bnorm_err\b',['norm_err_rel']),(r'\bnorm_err_rel\b',['norm_err']),(r'\buse_state\b',['save_state']),(r'\bsave_state\b',['use_state']),(r'\.powf\(',['.powf(2. * ']),(r'\bself\.state\b',['Default::default()']),(r'\.clone\(\)',['.bare_clone()']),(r'\bset_states\b',['step_states']),(r'\bstep_states\b',['set_states']),(r'\bset_derivs\b',['step_derivs']),(r'\bstep_derivs\b',['set_derivs'])]
NUM=re.compile(r'(?<![\w."])(\d+)(\.\d*)?(?:e-?\d+)?(?![\w"])')
def code_lines(f):
    L=open(R+'/'+f).read().split('\n'); out=[]
    for i,l in enumerate(L):
        if '#[cfg(test)]' in l or re.match(r'\s*mod tests',l): break
        s=l.strip()
        if not s or s.startswith(('//','use ','#[','#!','pub use','mod ','pub mod')) and not s.startswith(('#[use_state','#[save_state','#[bare_clone')): continue
        out.append(i)
    return L,out
def gen(out):
    M=[]
    for f in FILES:
        L,idx=code_lines(f)
        for i in idx:
            l=L[i]; seen={l}
            def add(n,k):
                if n in seen: return
                seen.add(n); M.append(dict(file=f,line=i+1,old=l,new=n,kind=k))
            c=l.split('//')[0]
            for p,ws in SW:
                for m in re.finditer(p,c):
                    for w in ws: add(l[:m.start()]+w+l[m.end():],'op')
            for m in NUM.finditer(c):
                t=m.group(0)
                try: v=float(t)
                except ValueError: continue
                n=('%d'%(int(v)+1)) if m.group(2) is None and 'e' not in t else (t+'1' if '.' in t and 'e' not in t else '3.0')
                add(l[:m.start()]+n+l[m.end():],'num')
            s=l.strip()
            if s.endswith(';') and not s.startswith(('let ','return','}',')','pub ','type ')) or s.startswith(('#[use_state','#[save_state','#[bare_clone')) or re.match(r'#\([\w#:]*.*\)\*$',s): add(re.match(r'\s*',l).group(0)+('// ' if not s.startswith('#(') else '')+('' if s.startswith('#(') else s),'del')
            # swap with the next line
            if i+1 in idx and s.endswith((';')) and L[i+1].strip().endswith(';') and not s.startswith('}') : M.append(dict(file=f,line=i+1,old=l,new=L[i+1]+'\n'+l,kind='swap',eat=1))
    json.dump(M,open(out,'w'),indent=0); print(len(M))
    from collections import Counter
    print(Counter(m['file'] for m in M)); print(Counter(m['kind'] for m in M))
def sh(c,env=None,cwd=None,to=300):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.Popen(c,env=e,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,start_new_session=True)
    try: o,_=p.communicate(timeout=to); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return 124,'timeout'
STABLE=set(x.split('::',1)[1] if False else x.split('src/lib.rs::')[1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable'])
def prep(k):
    B=f'/tmp/mut/w{k}'
    if os.path.exists(B): return B
    os.makedirs(B); subprocess.run(['cp','-a','/repo',B+'/repo'])
    subprocess.run(['rsync','-a','--exclude','.work','--exclude','.git','--exclude','seeded','--exclude','evidence','/verif/',B+'/verif/']) if shutil.which('rsync') else subprocess.run(f"mkdir -p {B}/verif; cd /verif && tar c --exclude=.work --exclude=.git --exclude=seeded --exclude=evidence --exclude=__pycache__ . | tar x -C {B}/verif",shell=True)
    subprocess.run(['rm','-rf',B+'/verif/engine/__pycache__',B+'/verif/tools/__pycache__'])
    subprocess.run(f"grep -rlE '/verif|/repo' {B}/verif | xargs sed -i 's#/verif#{B}/verif#g; s#\"/repo#\"{B}/repo#g'",shell=True)
    os.makedirs(B+'/verif/.work',exist_ok=True); subprocess.run(['cp','-a','/verif/.work/driver',B+'/verif/.work/driver'])
    return B
def apply(B,m):
    p=f"{B}/repo/{m['file']}"; L=open(p).read().split('\n')
    assert L[m['line']-1]==m['old']
    L[m['line']-1:m['line']+m.get('eat',0)]=m['new'].split('\n'); open(p,'w').write('\n'.join(L))
def undo(B,m): subprocess.run(['git','-C',B+'/repo','checkout','-q','--','.'])
def tests(B):
    env=dict(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_TARGET_DIR=B+'/repo/target',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only',RUST_BACKTRACE='0')
    rc,o=sh(['cargo','test','--workspace','--exclude','dess-examples-pyo3','--no-fail-fast','--offline','--','--test-threads','4'],env,B+'/repo',25)
    if rc==124: return 'timeout'
    if 'could not compile' in o or 'error: ' in o and 'running' not in o: return 'nocompile'
    ok=set(re.findall(r'^test (\S+) \.\.\. ok',o,re.M))
    return 'survives' if STABLE<=ok else 'killed'
FEAT=None
def feats(B,py=False): return ','.join(sorted({x for l in open(B+'/verif/contracts/groups.txt') for x in l.split(':')[1].split() if l.startswith('C20')==py}))
def worker(k,q,out):
    B=prep(k); sys.path.insert(0,B+'/verif/engine'); os.environ['VERIF_WORK']=B+'/verif/.work'
    import check
    while True:
        m=q.get()
        if m is None: return
        apply(B,m); t=time.time(); r={}
        try:
            r['tests']=tests(B) if not m.get('force') else 'survives'
            if r['tests']=='survives':
                failed=[];unk=[]; err=None
                for py in (False,True):
                    if failed or err: break
                    dp=B+'/verif/.work/all.json'
                    rc,o=sh(['bash',B+'/verif/tools/dump.sh',dp],{'FEATURES':feats(B,py),'WORK':B+'/verif/.work'})
                    if rc or not os.path.exists(dp): err=o[-400:]; break
                    d=json.load(open(dp)); names=sorted((n for n in d['roots'] if re.match(r'c\d\d_\w+$',n.split('::')[-1]) and '::roots::' in n and n.split('::')[-1].startswith('c20')==py and ('c08' not in n or 'proc-macros' in m['file'])),key=lambda n:('c08' in n,n))
                    for i in range(0,len(names),24):
                        rs=check.run_roots(d,[(n,d['roots'][n],90,False) for n in names[i:i+24]],400,2)
                        for n,x in rs.items():
                            s=check.status(x); n=n.split('::')[-1]
                            if s=='failed': failed.append((n,[o['name'] for o in x['obls'] if o['res']=='failed' and 'model' in o][:2]))
                            elif s!='proved': unk.append((n,(x['err'] or '')[:120] or 'unproved'))
                        if failed: break
                if err and not failed: r['res']='nodump'; r['out']=err; r['unk']=unk[:8]
                else:
                    r['failed']=failed[:6]; r['unk']=unk[:8]; r['res']='caught' if failed else 'undecided' if unk else 'MISSED'
                    if r['res']=='undecided':
                        rc,o=sh(['cargo','build','-q','--offline','--no-default-features','--features',feats(B,unk[0][0].startswith('c20'))],{'RUSTUP_TOOLCHAIN':'stable','CARGO_NET_OFFLINE':'true','CARGO_TARGET_DIR':B+'/verif/.work/native','RUSTFLAGS':'-Awarnings -Clink-arg=-lpython3.12'},B+'/verif/contracts')
                        hit=[]
                        for n,_ in unk:
                            rc,o=sh([B+'/verif/.work/native/debug/vh-replay',n,'--seed','1','--trials','20000','--seconds','8'],to=40)
                            try: h=json.loads(o.strip().splitlines()[-1])
                            except Exception: hit.append((n,'crash'+o[-200:])); continue
                            if h['failed']: hit.append((n,h['failed'][:2]))
                        r['native']=hit
                        if hit: r['res']='native'
        except Exception as ex: r['res']='ERR '+repr(ex)[:300]
        undo(B,m); r['t']=round(time.time()-t,1)
        with open(out,'a') as f: f.write(json.dumps({**m,**r})+'\n')
def main():
    if sys.argv[1]=='gen': return gen(sys.argv[2])
    import multiprocessing as mp
    M=json.load(open(sys.argv[2])); out=sys.argv[3]; W=int(sys.argv[4]) if len(sys.argv)>4 else 4
    done={(json.loads(l)['file'],json.loads(l)['line'],json.loads(l)['new']) for l in open(out)} if os.path.exists(out) else set()
    M=[m for m in M if (m['file'],m['line'],m['new']) not in done]; random.Random(5).shuffle(M)
    q=mp.Queue(); 
    for m in M: q.put(m)
    ps=[mp.Process(target=worker,args=(k,q,out)) for k in range(W)]
    for _ in ps: q.put(None)
    for p in ps: p.start()
    for p in ps: p.join()
main()
