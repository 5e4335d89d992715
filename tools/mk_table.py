"""regenerates contracts/src/{table.rs,lib.rs,Cargo.toml features} and contracts/groups.txt from the contract modules.
A module is a file with `//! feature: NAME` whose `pub mod roots` holds roots `cNN_...` (decides property CNN)."""
import re,glob,os
C='/verif/contracts'
mods=[]; feats={}; table=[]; props={}
for p in sorted(glob.glob(C+'/src/*.rs')):
    m=os.path.basename(p)[:-3]
    if m in('lib','main','table'): continue
    s=open(p).read(); f=re.search(r'//! feature: (\w+)(?: needs ([\w/: -]+))?',s)
    mods.append((m,f and f.group(1)))
    if f: feats[f.group(1)]=[x for x in (f.group(2) or '').split()]
    i=s.find('pub mod roots')
    if i<0: continue
    for n in re.findall(r'^    pub fn (c\d\d_\w+)\(\)',s[i:],re.M):
        table.append(f'    #[cfg(feature = "{f.group(1)}")]\n    ("{n}", vh::{m}::roots::{n}),')
        props.setdefault(n[:3].upper(),set()).add(f.group(1))
    for k,n in re.findall(r'^    (\w+)_roots!\((\w+)',s[i:],re.M): pass
open(C+'/src/table.rs','w').write('pub const ROOTS: &[(&str, fn())] = &[\n'+'\n'.join(table)+'\n];\n')
open(C+'/src/lib.rs','w').write('#![allow(clippy::all)]\n'+''.join((f'#[cfg(feature = "{f}")]\n' if f else '')+f'pub mod {m};\n' for m,f in mods))
t=open(C+'/Cargo.toml').read(); t=t.split('[features]')[0].rstrip()+'\n\n[features]\n'
on=[f for f in sorted(feats) if not feats[f]]
t+='default = ['+', '.join(f'"{f}"' for f in on)+']\n'+''.join(f'{f} = ['+', '.join(f'"{x}"' for x in feats[f])+']\n' for f in sorted(feats))
open(C+'/Cargo.toml','w').write(t)
open(C+'/groups.txt','w').write(''.join(f'{p}: {" ".join(sorted(v))}\n' for p,v in sorted(props.items())))
