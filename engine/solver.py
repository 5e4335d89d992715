"""Discharging obligations: pc |= goal, with z3 over the abstraction of terms.py plus instantiated axioms."""
import time, os, re, subprocess, tempfile
import z3
from fractions import Fraction
from terms import *

class Stats:
    def __init__(s): s.z3_calls=0; s.z3_time=0.0; s.syntactic=0; s.unknown=0
STATS=Stats()
TIMEOUT_MS=int(os.environ.get('VERIF_Z3_MS','4000'))
CROSS=[]      # obligations discharged by z3, kept for re-checking with cvc5 in the thorough tier
KEEP_CROSS=[False]

def _axioms(atoms,facts_by_atom,pcset):
    """axiom instances (as B or raw z3) for a set of atoms; returns list of z3 formulas, and new atoms"""
    out=[]; new=set()
    for a in sorted(atoms,key=lambda a:(a[1].id,a[0]) if isinstance(a,tuple) else (a.id,'')):
        if isinstance(a,tuple):
            b=a[1]
            if a[0]=='all': continue
            z=z3.ToReal(zatom(b)) if b.sort=='i' else zatom(b)
            out.append(zinv(b)*z==1)
            continue
        if a.sort=='i':
            z=zatom(a)
            if a.lo is not None: out.append(z>=a.lo)
            if a.hi is not None: out.append(z<=a.hi)
        k=a.kind
        if k=='inv':
            q=a.data[0]; atoms_of_p(q,new)
            out.append(zatom(a)*zpoly(q,True)==1)
        elif k=='ite':
            c,x,y=a.data
            atoms_of_b(c,new); atoms_of_p(x,new); atoms_of_p(y,new)
            r=a.sort!='i'
            out.append(z3.If(zb(c),zatom(a)==zpoly(x,r),zatom(a)==zpoly(y,r)))
        elif k=='app':
            f=a.data[0]; z=zatom(a)
            if f=='sqrt':
                p=a.data[1]; atoms_of_p(p,new); zp=zpoly(p,True)
                out.append(z>=0)
                if is_nonneg(p): out.append(z*z==zp)
                else: out.append(z3.Implies(zp>=0,z*z==zp))
                out.append(z3.Implies(zp>0,z>0))
            elif f=='powf':
                b,e=a.data[1],a.data[2]; atoms_of_p(b,new); zbse=zpoly(b,True)
                out.append(z3.Implies(zbse>0,z>0)); out.append(z3.Implies(zbse==0,z==0) if e.is_const() and e.const()>0 else z3.BoolVal(True))
                if e.is_const() and e.const()>0:
                    out.append(z3.Implies(zbse>=1,z>=1)); out.append(z3.Implies(z3.And(zbse>=0,zbse<1),z<1)); out.append(z3.Implies(zbse>1,z>1))
                    if e.const()<=1:
                        out.append(z3.Implies(zbse>=1,z<=zbse)); out.append(z3.Implies(z3.And(zbse>=0,zbse<1),z>=zbse))
            elif f=='exp':
                out.append(z>0)
            elif f in('sin','cos'):
                out.append(z>=-1); out.append(z<=1)
            elif f=='floor':
                p=a.data[1]; atoms_of_p(p,new); zp=zpoly(p,True)
                zi=z3.ToReal(z) if a.sort=='i' else z
                out.append(zi<=zp); out.append(zp<zi+1)
            elif f=='idiv':
                x,y=a.data[1],a.data[2]; atoms_of_p(x,new); atoms_of_p(y,new)
                out.append(z3.Implies(zpoly(y,False)!=0, z==zpoly(x,False)/zpoly(y,False)))
            elif f=='imod':
                x,y=a.data[1],a.data[2]; atoms_of_p(x,new); atoms_of_p(y,new)
                out.append(z3.Implies(zpoly(y,False)!=0, z==zpoly(x,False)%zpoly(y,False)))
        elif k=='sum':
            if is_nonneg(a.data[1]): out.append(zatom(a)>=0)
            n,body,l=a.data
            if not n.is_const():
                atoms_of_p(n,new)
                out.append(z3.Implies(zpoly(n,False)<=0,zatom(a)==0))
    return out,new
NONNEG={}   # ordered
def note_nonneg(p):
    """records that p>=0 in every model (sum of squares and the like)"""
    if not p.is_const(): NONNEG[p]=NONNEG[norm_pos(p)]=True
_nn={}
def atom_nonneg(a):
    if a.lo is not None and a.lo>=0: return True
    if a.kind=='app': return a.data[0] in('sqrt','exp','powf')
    if a.kind=='sum': return is_nonneg(a.data[1])
    if a.kind=='ite':
        c,x,y=a.data
        if is_nonneg(x) and is_nonneg(y): return True
        return x is -y and (c is le(ZERO,x) or c is lt(ZERO,x))
    if a.kind=='inv': return is_nonneg(a.data[0])
    return False
def is_nonneg(p):
    """cheap sufficient condition for p>=0 everywhere"""
    if p.is_const(): return p.const()>=0
    r=_nn.get(p)
    if r: return True
    if p in NONNEG or norm_pos(p) in NONNEG: return True
    if r is not None: return r
    ok=all(c>0 and all(e%2==0 or atom_nonneg(a) for a,e in mon) for mon,c in p.m.items())
    if not ok: ok=is_square(p) or sum_nonneg(p)
    _nn[p]=ok
    return ok
_G=[]
def sum_nonneg(p):
    """sums of bodies that are non-negative taken together (psum distributes over monomials)"""
    groups={}; rest={}
    for mon,c in p.m.items():
        su=[(a,e) for a,e in mon if a.kind=='sum' and e==1]
        if len(su)!=1: rest[mon]=c; continue
        a=su[0][0]; groups.setdefault(a.data[0],[]).append((a,tuple(x for x in mon if x[0] is not a),c))
    if not groups: return False
    if rest and not is_nonneg(mkpoly(rest)): return False
    if not _G: _G.append(sym('nn.g','i',0))
    for n,ms in groups.items():
        body=ZERO
        for a,free,c in ms:
            body=body+mkpoly({free:c})*subst(a.data[1],{single_atom(bnd(a.data[2])):_G[0]})
        if not is_nonneg(body): return False
    return True
def is_square(p):
    sq=[(m,c) for m,c in p.m.items() if all(e%2==0 for _,e in m)]
    if not sq or len(p.m)>120: return False
    def rt(c):
        import math
        if c<0: return None
        n,d=math.isqrt(c.numerator),math.isqrt(c.denominator)
        return Fraction(n,d) if n*n==c.numerator and d*d==c.denominator else None
    c0=sq[0][1]
    if c0<=0: return False
    h0=tuple((a,e//2) for a,e in sq[0][0])
    q=mkpoly({h0:Fraction(1)})
    for m,c in sq[1:]:
        r=rt(Fraction(c)/c0)
        if r is None: return False
        h=tuple((a,e//2) for a,e in m)
        x=p.m.get(monmul(h0,h),Fraction(0))
        q=q+mkpoly({h:r if x>=0 else -r})
    return pscale(q*q,c0) is p
def is_pos(p):
    if p.is_const(): return p.const()>0
    c=p.m.get((),Fraction(0))
    return c>0 and is_nonneg(p-c)
def quick_false(b):
    """syntactic refutation"""
    k=b.k
    if k=='lt': return is_nonneg(b.a[0])
    if k=='le': return is_pos(b.a[0])
    if k=='eq': return is_pos(b.a[0]) or is_pos(-b.a[0])
    return False

def index_terms(atoms):
    s=set()
    for a in atoms:
        if isinstance(a,tuple):
            if a[0]=='all' and ('not',a[1]) is not None: pass
            continue
        if a.kind=='elem':
            for x in a.data[1:]:
                if isinstance(x,Poly) and not x.fr: s.add(x)
        elif a.kind=='app':
            for x in a.data[1:]:
                if isinstance(x,Poly) and not x.fr and is_int_poly(x): s.add(x)
    return s

def ackermann(atoms,first=None):
    """pairs of applications of the same symbol: equal arguments -> equal value"""
    out=[]; groups={}
    for a in atoms:
        if isinstance(a,tuple): continue
        if a.kind in('app','elem','sum') and not a.fr:
            groups.setdefault((a.kind,a.data[0] if a.kind!='sum' else 'sum',len(a.data)),[]).append(a)
    extra=set()
    for g in groups.values():
        big=len(g)>24
        if big and first is None: continue
        for i in range(len(g)):
            for j in range(i):
                if big and not (g[i] in first and g[j] in first): continue
                c=args_equal(g[i].data if g[i].kind=='sum' else g[i].data[1:],g[j].data if g[j].kind=='sum' else g[j].data[1:])
                if c is FALSE: continue
                atoms_of_b(c,extra)
                out.append((c,g[i],g[j]))
    return out,extra
def args_equal(x,y):
    cs=[]
    for p,q in zip(x,y):
        if p is q: continue
        if isinstance(p,Poly) and isinstance(q,Poly):
            if p.fr or q.fr: return FALSE
            e=eq(p,q)
            if e is FALSE: return FALSE
            cs.append(e)
        elif isinstance(p,tuple) and isinstance(q,tuple) and len(p)==len(q):
            if len(p)==3 and isinstance(p[0],Poly):  # lambda: (len, body, level)
                c=lam_equal(p,q)
                if c is FALSE: return FALSE
                cs.append(c)
            else:
                c=args_equal(p,q)
                if c is FALSE: return FALSE
                cs.append(c)
        else: return FALSE
    return band(*cs)
def lam_equal(p,q):
    """two lambdas equal: lengths equal and bodies equal pointwise when the difference factors into
    index-free parts that are provably zero (sufficient condition only)"""
    c=eq(p[0],q[0])
    g=fresh('g','i'); ga=single_atom(g)
    if not isinstance(p[1],Poly): return FALSE
    d=subst(p[1],{single_atom(bnd(p[2])):g})-subst(q[1],{single_atom(bnd(q[2])):g})
    # group by index-dependent monomial part, coefficient must vanish
    groups={}
    for mon,k in d.m.items():
        dep=tuple((a,e) for a,e in mon if mentions(a,ga)); free=tuple((a,e) for a,e in mon if not mentions(a,ga))
        groups[dep]=groups.get(dep,ZERO)+mkpoly({free:k})
    cs=[c]+[eq(v,ZERO) for v in groups.values()]
    return band(*cs)

_cache={}
DECIDE_MS=int(os.environ.get('VERIF_DECIDE_MS','1500'))
def by_id(x): return x.id
_instances={}
def instance(al,it):
    r=_instances.get((al,it))
    if r is None:
        b=bor(lt0(it),le(al.a[0],it),inst_all(al,it)); ats=set()
        atoms_of_b(b,ats)
        r=_instances[al,it]=(b,None if b is TRUE else z3.Implies(zb(al),zb(b)),ats)
    return r
def build(pc,extra,use_ack,level=1):
    atoms=set()
    fs=list(pc)+list(extra)
    for b in fs: atoms_of_b(b,atoms)
    first=set(atoms)
    done=set(); forms=[]; insts=set(); sks=set()
    for _ in range(5):
        alls=sorted((a[1] for a in atoms if isinstance(a,tuple) and a[0]=='all' and not a[1].fr),key=by_id)
        for al in alls:
            if al not in sks:
                sks.add(al); sk=skolem(al); z=zb(al)
                inst=inst_all(al,sk)
                cond=band(le0(-sk),lt(sk,al.a[0]),bnot(inst))
                atoms_of_b(cond,atoms); forms.append(z3.Implies(z3.Not(z),zb(cond)))
        if alls:
            its=index_terms(atoms)
            for al in sks: 
                if bnot(al) in fs or len(sks)<4: its.add(skolem(al))
            for it in sorted(its,key=by_id):
                for al in alls:
                    if (al,it) in insts: continue
                    insts.add((al,it))
                    if len(insts)>400: continue
                    b,z,ats=instance(al,it)
                    if b is TRUE: continue
                    atoms|=ats; forms.append(z)
        work=atoms-done
        if not work: break
        ax,new=_axioms(work,None,None)
        forms+=ax; done|=work; atoms|=new
    for p in NONNEG:
        if p.fr: continue
        if len(p.m)>1 and all(a in atoms for mon in p.m for a,_ in mon): forms.append(zpoly(p,not is_int_poly(p))>=0)
    if use_ack:
        prs,ex=ackermann(atoms,first)
        if prs:
            ax,new=_axioms(ex-done,None,None); forms+=ax
            for c,a,b in prs: forms.append(z3.Implies(zb(c),zatom(a)==zatom(b)))
    return [zb(b) for b in fs]+forms
def closure(pc,extra):
    """hypotheses connected to the query through shared atoms (dropping others is sound for 'unsat')"""
    want=set()
    for b in extra: want|=cone(b)
    rest=list(pc); keep=[]
    ch=True
    while ch and rest:
        ch=False; nr=[]
        for b in rest:
            c=cone(b)
            if not c or c&want: keep.append(b); want|=c; ch=True
            else: nr.append(b)
        rest=nr
    return keep
_cones={}
def cone(b):
    r=_cones.get(b)
    if r is None:
        acc=set()
        def wp(p):
            for mon in p.m:
                for a,_ in mon: wa(a)
        def wa(a):
            if a in acc: return
            acc.add(a)
            for x in a.data: wx(x)
        def wx(x):
            if isinstance(x,Poly): wp(x)
            elif isinstance(x,B):
                for y in x.a: wx(y)
            elif isinstance(x,tuple):
                for y in x: wx(y)
        wx(b)
        r=frozenset(a for a in acc if a.kind!='bnd')
        _cones[b]=r
    return r
def sat(pc,extra=(),timeout=None,use_ack=False,want_model=False):
    """'unsat' | 'sat' | 'unknown'"""
    for b in extra:
        if b is FALSE or quick_false(b): return ('unsat',None) if want_model else 'unsat'
    if extra: pc=closure(pc,extra)
    key=(frozenset(pc),tuple(extra),use_ack)
    if not want_model and key in _cache:
        r,t=_cache[key]
        if r!='unknown' or t>=(timeout or TIMEOUT_MS): return r
    s=z3.Solver(); s.set('timeout',timeout or TIMEOUT_MS)
    s.set('random_seed',1)
    fs=build(pc,extra,use_ack)
    for f in fs: s.add(f)
    t=time.time()
    r=str(s.check())
    dt=time.time()-t
    STATS.z3_calls+=1; STATS.z3_time+=dt
    if SLOW and dt>SLOW: print(f'  slow z3 {dt:.1f}s {r} pc={len(pc)} extra={[repr(x)[:200] for x in extra]}',flush=True)
    if r=='unknown': STATS.unknown+=1
    if r=='unsat' and KEEP_CROSS[0]: CROSS.append(s.to_smt2())
    if want_model: return r,(s.model() if r=='sat' else None)
    _cache[key]=(r,timeout or TIMEOUT_MS)
    return r
SLOW=float(os.environ.get('VERIF_SLOW','0'))
def model_values(m):
    """input name -> float, from a z3 model"""
    out={}
    if m is None: return out
    for d in m.decls():
        n=d.name()
        if not n.startswith('a') or not n[1:].isdigit(): continue
        a=atom_list()[int(n[1:])]
        if a.kind=='sym': nm=a.data[0]
        elif a.kind=='app' and len(a.data)==2 and isinstance(a.data[1],Poly) and a.data[1].is_const(): nm=f"{a.data[0]}[{a.data[1].const()}]"
        elif a.kind=='app' and len(a.data)==2 and isinstance(a.data[1],Poly) and is_int_poly(a.data[1]):
            try:
                iv=m.eval(zpoly(a.data[1],False),model_completion=True).as_long(); nm=f"{a.data[0]}[{iv}]"
            except Exception: continue
        else: continue
        v=m[d]
        try:
            if z3.is_int_value(v): out[nm]=float(v.as_long())
            elif z3.is_rational_value(v): out[nm]=float(v.as_fraction())
            elif z3.is_algebraic_value(v): out[nm]=float(v.approx(20).as_fraction())
        except Exception: pass
    return out

HV=re.compile(r'hv\d')
def definite(pc,goal):
    """True when the query lies in a fragment where z3's 'sat' is a real counterexample of the contract:
    no havocked loop state, sums, partially axiomatised functions, or functions of whole sequences"""
    for b in list(pc)+[goal]:
        for a in cone(b):
            if a.kind in('sum','elem'): return False
            if a.kind=='sym' and ('!' in a.data[0] or HV.match(a.data[0])): return False
            if a.kind=='app':
                if a.data[0].startswith('hv'): return False
                if a.data[0] in('powf','exp','log','sin','cos','tan'): return False
                if any(isinstance(x,tuple) for x in a.data[1:]): return False
        if has_all(b): return False
    return True
def has_all(b):
    if b.k=='all': return True
    return any(isinstance(x,B) and has_all(x) for x in b.a)
def prove(pc,goal,timeout=None):
    """('proved',backend) | ('failed',model) | ('unknown',None)"""
    if goal is TRUE: STATS.syntactic+=1; return 'proved','normaliser'
    pcs=set(pc)
    if goal in pcs or quick_false(bnot(goal)): STATS.syntactic+=1; return 'proved','normaliser'
    if goal.k=='and':
        back='normaliser'; worst=None
        for g in goal.a:
            r,b=prove(pc,g,timeout)
            if r=='failed': return r,b
            if r!='proved': worst=(r,b)
            elif b!='normaliser': back=b
        return worst or ('proved',back)
    if goal.k=='all':
        g=fresh('k','i',0)
        return prove(list(pc)+[lt(g,goal.a[0]),le0(-g)],inst_all(goal,g),timeout)
    ng=bnot(goal)
    neg=list(ng.a) if ng.k=='and' else [ng]
    r=sat(pc,neg,timeout)
    if r=='unsat': return 'proved','z3'
    r2=sat(pc,neg,(timeout or TIMEOUT_MS)*3,use_ack=True)
    if r2=='unsat': return 'proved','z3'
    if r2=='sat':
        k=z3.Solver(); k.set('timeout',timeout or TIMEOUT_MS)
        for f in build(list(pc),neg,True): k.add(f)
        c=str(k.check())
        if c=='unsat': return 'proved','z3'
        return 'failed',(k.model() if c=='sat' else None)
    return 'unknown',None

def cross_check(secs):
    """re-checks with cvc5 the queries z3 discharged"""
    import cvc5
    t0=time.time(); n=ok=unk=0; dis=[]
    qs=list(dict.fromkeys(CROSS))
    for q in qs:
        left=secs-(time.time()-t0)
        if left<=0: break
        n+=1
        fd,p=tempfile.mkstemp(suffix='.smt2'); os.write(fd,("(set-logic ALL)\n"+q).encode()); os.close(fd)
        try:
            r=subprocess.run(['cvc5','--tlimit=5000',p],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,timeout=20).stdout.split('\n')[0].strip()
        except subprocess.TimeoutExpired: r='unknown'
        os.remove(p)
        if r=='unsat': ok+=1
        elif r=='sat': dis.append(hash(q))
        else: unk+=1
    return {'queries':len(qs),'rechecked':n,'cvc5_unsat':ok,'cvc5_unknown':unk,'cvc5_disagrees':len(dis)}
