"""Term language of the verifier: interned polynomials over atoms (exact rationals), Boolean terms,
and the translation to z3.

A Poly is a finite map from monomials (sorted tuples of (atom, exponent), exponents may be negative
for invertible atoms) to Fractions.  Everything that is not ring arithmetic is an Atom:
  sym    a named unknown                       elem   element of a named unknown sequence
  bnd    bound index variable of a lambda      app    uninterpreted / axiomatised function application
  sum    sum_{i<len} body                      inv    1/p for a non-monomial p
  ite    if-then-else of a Boolean term
Interning makes structural equality identity, so congruence is syntactic for equal arguments."""
from fractions import Fraction
import z3

class Atom:
    __slots__=('id','kind','data','sort','lvl','lo','hi','z','fr')
    def __repr__(self): return self.show()
    def show(self):
        k,d=self.kind,self.data
        if k=='sym': return d[0]
        if k=='elem': return f"{d[0]}[{d[1]}]"
        if k=='bnd': return f"#{d[0]}"
        if k=='app': return f"{d[0]}({','.join(showarg(a) for a in d[1:])})"
        if k=='sum': return f"sum(<{d[0]}: {d[1]})"
        if k=='inv': return f"1/({d[0]})"
        if k=='ite': return f"ite({d[0]},{d[1]},{d[2]})"
        return k
def showarg(a):
    if isinstance(a,tuple): return f"[<{a[0]}: {a[1]}]"
    return str(a)

_E=frozenset()
def arg_fr(a):
    """free bound-variable levels"""
    if isinstance(a,(Poly,B,Atom)): return a.fr
    if isinstance(a,tuple):
        r=_E
        for x in a: r=r|arg_fr(x)
        if len(a)==3 and isinstance(a[0],Poly) and isinstance(a[2],int): r=r-{a[2]}
        return r
    return _E
_atoms={}
_atom_list=[]
def atom_list(): return _atom_list
def arg_lvl(a):
    if isinstance(a,Poly): return a.lvl
    if isinstance(a,B): return a.lvl
    if isinstance(a,tuple): return max([0]+[arg_lvl(x) for x in a])
    return 0
def atom(kind,data,sort='r',lo=None,hi=None):
    key=(kind,data,sort)
    a=_atoms.get(key)
    if a is None:
        a=Atom(); a.id=len(_atom_list); a.kind=kind; a.data=data; a.sort=sort; a.lo=lo; a.hi=hi; a.z=None
        a.lvl=data[0] if kind=='bnd' else max([0]+[arg_lvl(x) for x in data])
        if kind=='bnd': a.fr=frozenset((data[0],))
        else:
            a.fr=_E
            for x in data: a.fr=a.fr|arg_fr(x)
            if kind=='sum': a.fr=a.fr-{data[2]}
        _atoms[key]=a; _atom_list.append(a)
    return a

class Poly:
    __slots__=('m','h','lvl','_z','fr','id')
    _tab={}
    def __repr__(self): return show_poly(self)
    def is_const(self): return not self.m or (len(self.m)==1 and () in self.m)
    def const(self): return Fraction(self.m.get((),0)) if self.m else Fraction(0)
    def __add__(a,b): return padd(a,topoly(b))
    def __radd__(a,b): return padd(a,topoly(b))
    def __sub__(a,b): return padd(a,pscale(topoly(b),-1))
    def __rsub__(a,b): return topoly(b)-a
    def __mul__(a,b): return pmul(a,topoly(b))
    def __rmul__(a,b): return pmul(a,topoly(b))
    def __neg__(a): return pscale(a,-1)

def mkpoly(d):
    d={k:(v if type(v) is int or v.denominator!=1 else v.numerator) for k,v in d.items() if v!=0}   # coefficients: int or Fraction
    key=frozenset(d.items())
    p=Poly._tab.get(key)
    if p is None:
        p=Poly(); p.m=d; p.h=None; p._z=None; p.id=len(Poly._tab)
        l=0
        for mon in d:
            for a,_ in mon:
                if a.lvl>l: l=a.lvl
        p.lvl=l
        fr=_E
        for mon in d:
            for a,_ in mon:
                if a.fr: fr=fr|a.fr
        p.fr=fr
        Poly._tab[key]=p
    return p
def topoly(x):
    if isinstance(x,Poly): return x
    if isinstance(x,Atom): return mkpoly({((x,1),):1})
    return mkpoly({():x if type(x) is int else Fraction(x)})
ZERO=topoly(0); ONE=topoly(1)
def padd(a,b):
    if not a.m: return b
    if not b.m: return a
    d=dict(a.m)
    for k,v in b.m.items(): d[k]=d.get(k,0)+v
    return mkpoly(d)
def pscale(a,c):
    if c==1: return a
    if type(c) is not int: c=Fraction(c)
    return mkpoly({k:v*c for k,v in a.m.items()})
def monmul(x,y):
    d={}
    for a,e in x: d[a]=d.get(a,0)+e
    for a,e in y: d[a]=d.get(a,0)+e
    return tuple(sorted(((a,e) for a,e in d.items() if e!=0),key=lambda t:t[0].id))
def _simp_mon(mon):
    """rewrites sqrt(p)^2 -> p ; returns (monomial, extra poly factor or None)"""
    for i,(a,e) in enumerate(mon):
        if a.kind=='app' and a.data[0]=='sqrt' and e>=2:
            rest=list(mon); 
            if e-2: rest[i]=(a,e-2)
            else: rest.pop(i)
            return tuple(rest),a.data[1]
    return mon,None
def pmul(a,b):
    if a.is_const(): return pscale(b,a.const())
    if b.is_const(): return pscale(a,b.const())
    d={}; extra=[]
    for k,v in a.m.items():
        for l,w in b.m.items():
            m=monmul(k,l)
            m2,f=_simp_mon(m)
            if f is not None: extra.append((m2,v*w,f)); continue
            # inv(p)*p is simplified only through monomials (p single atom); general case left to z3
            d[m]=d.get(m,0)+v*w
    r=mkpoly(d)
    for m,c,f in extra: r=r+pmul(mkpoly({m:c}),f)
    return r
def ppow(a,n):
    r=ONE
    for _ in range(n): r=r*a
    return r
def pinv(p):
    """1/p ; caller guarantees p != 0"""
    if p.is_const(): return topoly(1/p.const())
    if len(p.m)==1:
        (mon,c),=p.m.items()
        return mkpoly({tuple((a,-e) for a,e in mon):Fraction(1)/c})
    # canonical scaling: leading coefficient 1
    lead=min(p.m.items(),key=lambda kv:monkey(kv[0]))
    c=lead[1]
    q=pscale(p,Fraction(1)/c)
    return pscale(topoly(atom('inv',(q,))),Fraction(1)/c)
def monkey(m): return tuple((a.id,e) for a,e in m)
def pdiv(a,b):
    # exact cancellation when a is a rational multiple of b
    if len(a.m)==len(b.m)>1 and set(a.m)==set(b.m):
        rs={Fraction(a.m[k])/b.m[k] for k in a.m}
        if len(rs)==1: return topoly(rs.pop())
    return a*pinv(b)
def show_poly(p):
    if not p.m: return '0'
    out=[]
    for mon,c in sorted(p.m.items(),key=lambda kv:monkey(kv[0])):
        s='*'.join((repr(a) if e==1 else f"{a!r}^{e}") for a,e in mon)
        cs=str(c)
        out.append(cs if not s else (s if c==1 else f"{cs}*{s}"))
    return ' + '.join(out)
def sym(name,sort='r',lo=None,hi=None): return topoly(atom('sym',(name,),sort,lo,hi))
_fresh=[0]
def fresh(prefix,sort='r',lo=None,hi=None):
    _fresh[0]+=1
    return sym(f"{prefix}!{_fresh[0]}",sort,lo,hi)
def app(f,*args,sort='r',lo=None,hi=None):
    return topoly(atom('app',(f,)+tuple(topoly(a) if isinstance(a,(int,Fraction)) else a for a in args),sort,lo,hi))
def bnd(l): return topoly(atom('bnd',(l,),'i'))
def is_int_poly(p):
    return all(a.sort=='i' for mon in p.m for a,_ in mon)

# ---------------------------------------------------------------- Boolean terms
class B:
    __slots__=('k','a','lvl','_z','key','fr','id')
    _tab={}
    def __repr__(self):
        k,a=self.k,self.a
        if k=='T': return 'true'
        if k=='F': return 'false'
        if k in('le','lt','eq'): return f"({a[0]} {dict(le='<=',lt='<',eq='==')[k]} 0)"
        if k=='not': return f"!{a[0]!r}"
        if k=='sym': return a[0]
        if k=='all': return f"(forall #{a[2]}<{a[0]}: {a[1]!r})"
        return '('+(' & ' if k=='and' else ' | ').join(map(repr,a))+')'
def mkb(k,a=()):
    key=(k,a)
    b=B._tab.get(key)
    if b is None:
        b=B(); b.k=k; b.a=a; b._z=None; b.key=key; b.id=len(B._tab)
        b.lvl=max([0]+[arg_lvl(x) for x in a if isinstance(x,(Poly,B))])
        fr=_E
        for x in a:
            if isinstance(x,(Poly,B)): fr=fr|x.fr
        if k=='all': fr=fr-{a[2]}
        b.fr=fr
        B._tab[key]=b
    return b
TRUE=mkb('T'); FALSE=mkb('F')
def bbool(x): return TRUE if x else FALSE
def norm_sign(p):
    lead=min(p.m.items(),key=lambda kv:monkey(kv[0]))[1]
    return pscale(p,Fraction(1)/lead)
def norm_pos(p):
    """scale by positive constant to leading coefficient +-1"""
    lead=min(p.m.items(),key=lambda kv:monkey(kv[0]))[1]
    return p if lead==1 or lead==-1 else pscale(p,Fraction(1)/abs(lead))
def le0(p):
    if p.is_const(): return bbool(p.const()<=0)
    return mkb('le',(norm_pos(p),))
def lt0(p):
    if p.is_const(): return bbool(p.const()<0)
    if is_int_poly(p) and all(v.denominator==1 for v in p.m.values()): return le0(p+1)
    return mkb('lt',(norm_pos(p),))
def eq0(p):
    if p.is_const(): return bbool(p.const()==0)
    return mkb('eq',(norm_sign(p),))
def le(a,b): return le0(topoly(a)-topoly(b))
def lt(a,b): return lt0(topoly(a)-topoly(b))
def eq(a,b): return eq0(topoly(a)-topoly(b))
_nots={}
def bnot(x):
    r=_nots.get(x)
    if r is None: r=_nots[x]=_bnot(x)
    return r
def _bnot(x):
    if x.k=='T': return FALSE
    if x.k=='F': return TRUE
    if x.k=='not': return x.a[0]
    if x.k=='le': return lt0(-x.a[0])
    if x.k=='lt': return le0(-x.a[0])
    if x.k=='and': return bor(*[bnot(y) for y in x.a])
    if x.k=='or': return band(*[bnot(y) for y in x.a])
    return mkb('not',(x,))
def _flat(op,xs):
    out=[]
    for x in xs:
        if x.k==op: out.extend(x.a)
        else: out.append(x)
    return out
def band(*xs):
    xs=_flat('and',xs); out=[]; seen=set()
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE or x in seen: continue
        if bnot(x) in seen: return FALSE
        seen.add(x); out.append(x)
    if not out: return TRUE
    if len(out)==1: return out[0]
    return mkb('and',tuple(out))
def bor(*xs):
    xs=_flat('or',xs); out=[]; seen=set()
    for x in xs:
        if x is TRUE: return TRUE
        if x is FALSE or x in seen: continue
        if bnot(x) in seen: return TRUE
        seen.add(x); out.append(x)
    if not out: return FALSE
    if len(out)==1: return out[0]
    return mkb('or',tuple(out))
def biff(a,b): return bor(band(a,b),band(bnot(a),bnot(b)))
def ball(n,body_fn):
    """forall 0<=i<n: body_fn(i) (body_fn maps an index Poly to B)"""
    if n.is_const() and n.const()<=8:
        return band(*[body_fn(topoly(i)) for i in range(int(n.const()))])
    g=fresh('g','i')
    b=body_fn(g)
    if b in (TRUE,FALSE):
        return TRUE if b is TRUE else le0(n)
    l=max(b.lvl,n.lvl)+1
    return mkb('all',(n,subst_b(b,{single_atom(g):bnd(l)}),l))
def single_atom(p):
    (mon,c),=p.m.items()
    assert c==1 and len(mon)==1 and mon[0][1]==1
    return mon[0][0]
def int_valued(p): return is_int_poly(p) and all(v.denominator==1 for v in p.m.values())
def ite(c,a,b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    sort='i' if int_valued(a) and int_valued(b) else 'r'
    return topoly(atom('ite',(c,a,b),sort))

# ---------------------------------------------------------------- lambdas, sums
def close(g,body):
    """(level, body with generic index atom g replaced by a bound variable)"""
    l=body.lvl+1
    return l,subst(body,{single_atom(g):bnd(l)})
def psum(n,body_fn):
    """sum_{i<n} body_fn(i), distributed over monomials with i-free factors pulled out"""
    n=topoly(n)
    if n.is_const():
        r=ZERO
        for i in range(int(n.const())): r=r+body_fn(topoly(i))
        return r
    r=ZERO
    c0=n.m.get((),0)
    if 0<c0<=8 and c0==int(c0) and all(c>0 and all(a.sort=='i' and a.lo is not None and a.lo>=0 for a,_ in mon) for mon,c in n.m.items()):
        n=n-c0      # n>=0: peel the last elements
        for i in range(int(c0)): r=r+body_fn(n+i)
    g=fresh('g','i'); ga=single_atom(g)
    body=body_fn(g)
    for mon,c in body.m.items():
        free=tuple((a,e) for a,e in mon if not mentions(a,ga))
        dep=tuple((a,e) for a,e in mon if mentions(a,ga))
        if not dep:
            r=r+mkpoly({free:c})*n
        else:
            d=mkpoly({dep:Fraction(1)})
            l,cb=close(g,d)
            r=r+mkpoly({free:c})*topoly(atom('sum',(n,cb,l)))
    return r
_ment={}
def mentions(a,ga):
    key=(a,ga)
    r=_ment.get(key)
    if r is None:
        r = a is ga or any(arg_mentions(x,ga) for x in a.data)
        _ment[key]=r
    return r
def arg_mentions(x,ga):
    if isinstance(x,Poly): return poly_mentions(x,ga)
    if isinstance(x,B): return any(arg_mentions(y,ga) for y in x.a)
    if isinstance(x,tuple): return any(arg_mentions(y,ga) for y in x)
    return False
def poly_mentions(p,ga): return any(mentions(a,ga) for mon in p.m for a,_ in mon)
def poly_atoms(p): return {a for mon in p.m for a,_ in mon}

# ---------------------------------------------------------------- substitution
def subst(p,mp,memo=None):
    if memo is None: memo={}
    r=memo.get(p)
    if r is not None: return r
    r=ZERO; changed=False; same={}
    for mon,c in p.m.items():
        t=None; keep=[]
        for a,e in mon:
            s=subst_atom(a,mp,memo)
            if s is None: keep.append((a,e))
            else:
                changed=True
                if e>0: f=ppow(s,e)
                else: f=ppow(pinv(s),-e)
                t=f if t is None else t*f
        if t is None: same[mon]=c
        else: r=r+mkpoly({tuple(keep):c})*t
    if not changed: r=p
    elif same: r=r+mkpoly(same)
    memo[p]=r
    return r
def subst_atom(a,mp,memo):
    """None if unchanged"""
    if a in mp: return mp[a]
    key=('a',a)
    if key in memo: return memo[key]
    if a.kind in('sym','bnd'): return None
    nd=[];ch=False
    for x in a.data:
        y=subst_arg(x,mp,memo)
        if y is not x: ch=True
        nd.append(y)
    if not ch: r=None
    else: r=rebuild(a,nd)
    memo[key]=r
    return r
def subst_arg(x,mp,memo):
    if isinstance(x,Poly): return subst(x,mp,memo)
    if isinstance(x,B): return subst_b(x,mp,memo)
    if isinstance(x,tuple):
        y=tuple(subst_arg(z,mp,memo) for z in x)
        return x if all(p is q for p,q in zip(x,y)) else y
    return x
def rebuild(a,nd):
    if a.kind=='inv': return pinv(nd[0])
    if a.kind=='ite': return ite(nd[0],nd[1],nd[2])
    if a.kind=='sum':
        n,body,l=nd
        if n.is_const():
            r=ZERO
            for i in range(int(n.const())): r=r+subst(body,{single_atom(bnd(l)):topoly(i)})
            return r
    hook=_rebuild_hooks.get((a.kind,a.data[0])) if a.kind=='app' else None
    if hook: return hook(*nd[1:])
    return topoly(atom(a.kind,tuple(nd),a.sort,a.lo,a.hi))
_rebuild_hooks={}
def subst_b(b,mp,memo=None):
    if memo is None: memo={}
    key=('b',b)
    if key in memo: return memo[key]
    k=b.k
    if k in('T','F','sym'): r=b
    elif k in('le','lt','eq'):
        q=subst(b.a[0],mp,memo)
        r=b if q is b.a[0] else dict(le=le0,lt=lt0,eq=eq0)[k](q)
    elif k=='not': r=bnot(subst_b(b.a[0],mp,memo))
    elif k=='and': r=band(*[subst_b(x,mp,memo) for x in b.a])
    elif k=='or': r=bor(*[subst_b(x,mp,memo) for x in b.a])
    elif k=='all':
        n=subst(b.a[0],mp,memo); bd=subst_b(b.a[1],mp,memo)
        if n is b.a[0] and bd is b.a[1]: r=b
        else: r=mkb('all',(n,bd,b.a[2])) if bd not in(TRUE,) else TRUE
    memo[key]=r
    return r
_inst={}
def inst_all(b,idx):
    r=_inst.get((b,idx))
    if r is None: r=_inst[b,idx]=subst_b(b.a[1],{single_atom(bnd(b.a[2])):idx})
    return r

# ---------------------------------------------------------------- z3
def zatom(a):
    if a.z is None:
        nm=f"a{a.id}"
        a.z=z3.Int(nm) if a.sort=='i' else z3.Real(nm)
    return a.z
def zpoly(p,want_real):
    r=None
    for mon,c in p.m.items():
        t=None; neg=None
        for a,e in mon:
            z=zatom(a)
            if want_real and a.sort=='i': z=z3.ToReal(z)
            if e<0: 
                z=zinv(a); e=-e
            for _ in range(e): t=z if t is None else t*z
        if t is None: t=z3.RealVal(str(c)) if want_real else z3.IntVal(int(c))
        elif c!=1: t=(z3.RealVal(str(c)) if want_real else z3.IntVal(int(c)))*t
        r=t if r is None else r+t
    if r is None: r=z3.RealVal(0) if want_real else z3.IntVal(0)
    return r
def zinv(a): return z3.Real(f"inv{a.id}")
def zb(b):
    if b._z is not None: return b._z
    k=b.k
    if k=='T': r=z3.BoolVal(True)
    elif k=='F': r=z3.BoolVal(False)
    elif k=='sym': r=z3.Bool(b.a[0])
    elif k in('le','lt','eq'):
        p=b.a[0]
        isint=is_int_poly(p)
        if isint:
            den=1
            for v in p.m.values(): den=den*v.denominator
            p=pscale(p,den) if den!=1 else p
        z=zpoly(p,not isint)
        r=z<=0 if k=='le' else (z<0 if k=='lt' else z==0)
    elif k=='not': r=z3.Not(zb(b.a[0]))
    elif k=='and': r=z3.And(*[zb(x) for x in b.a])
    elif k=='or': r=z3.Or(*[zb(x) for x in b.a])
    elif k=='all': r=z3.Bool(f"all_{allnum(b)}")
    b._z=r
    return r
_alln={}
def allnum(b):
    if b not in _alln: _alln[b]=len(_alln)
    return _alln[b]
_sk={}
def skolem(b):
    if b not in _sk: _sk[b]=fresh('sk','i',0)
    return _sk[b]
def atoms_of_b(b,acc):
    if b.k in('le','lt','eq'): atoms_of_p(b.a[0],acc)
    elif b.k in('and','or','not'):
        for x in b.a: atoms_of_b(x,acc)
    elif b.k=='all': acc.add(('all',b)); atoms_of_p(b.a[0],acc)
def atoms_of_p(p,acc):
    for mon in p.m:
        for a,e in mon:
            if a not in acc: acc.add(a)
            if e<0: acc.add(('inv',a))
