"""mkseed.py [ID...]: (re)creates /verif/seeded/ID from tools/seeds.py and confirms it in a scratch copy:
applies, builds, passes the existing tests, demo passes without and fails with the change"""
import os,sys,subprocess,json,shutil
V='/verif'; S='/tmp/seedwork'
sys.path.insert(0,V+'/tools')
import seeds
DEMO='''#!/bin/bash
# run with cwd = the repository: exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/" 2>/dev/null
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
dess = { path = "$R/dess" }
dess-examples = { path = "$R/dess-examples" }
dess-proc-macros = { path = "$R/dess/dess-proc-macros" }
anyhow = "1"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
serde_yaml = "0.9"
EOF
cd "$T" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTFLAGS=-Awarnings
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh && export CARGO_TARGET_DIR="$T/target"
cargo build -q --offline || exit 3
timeout 120 "$T/target/debug/demo"
'''
def sh(c,cwd=None,t=600): return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
def NAMES(b):
    for k,v in b.items():
        if isinstance(v,list) and v and isinstance(v[0],str): return v
        if isinstance(v,dict) and k in('passed','tests','stable'): return list(v)
def main():
    ids=sys.argv[1:] or [s['id'] for s in seeds.SEEDS]
    if not os.path.isdir(S): sh(f'git -C /repo worktree prune; cp -a /repo {S}')
    for s in seeds.SEEDS:
        if s['id'] not in ids: continue
        sh('git checkout -q -- . && git clean -qfd',S)
        sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',S)
        for f,old,new,*nth in s['edits']:
            p=f'{S}/{f}'; t=open(p).read(); n=nth[0] if nth else 0
            parts=t.split(old)
            if len(parts)<n+2: print(s['id'],'EDIT NOT FOUND',f,old[:60]); return
            if not nth and len(parts)!=2: print(s['id'],'AMBIGUOUS',len(parts)-1,old[:60])
            t=old.join(parts[:n+1])+new+old.join(parts[n+1:]); open(p,'w').write(t)
        d=f"{V}/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(sh('git diff',S).stdout)
        open(d+'/demo.sh','w').write(s.get('sh',DEMO)); os.chmod(d+'/demo.sh',0o755)
        if 'demo' in s: open(d+'/demo.rs','w').write(s['demo'])
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
        b=sh('. /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/seedwork/target; cargo test --workspace --exclude dess-examples-pyo3 --offline --no-fail-fast 2>&1 | grep -v Compiling'.replace('. /opt','source /opt').join(["bash -c '","'"]),S)
        base=json.load(open('/opt/vp/BASELINE.json')); names=NAMES(base)
        ok=all(any(l.startswith('test '+t.split('::',1)[-1]+' ...') and l.rstrip().endswith('ok') or l.startswith('test ') and t.endswith(l.split()[1]) and l.rstrip().endswith('ok') for l in b.stdout.splitlines()) for t in names)
        with_=sh(f'bash {d}/demo.sh',S); without=sh(f'bash {d}/demo.sh','/repo')
        good=ok and with_.returncode not in(0,2,3) and without.returncode==0
        print(s['id'],s['prop'],'OK' if good else 'BAD','tests',ok,'with',with_.returncode,'without',without.returncode)
        if not good: print(b.stdout[-1500:] if not ok else '', with_.stdout[-1500:],'\n--\n',without.stdout[-1500:])
    sh('git checkout -q -- .',S)
main()
