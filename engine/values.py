"""Runtime values of the symbolic executor. All values are immutable."""
from terms import *

class V:
    __slots__=()
    def _t(s): return tuple(getattr(s,x) for x in s.__slots__)
    def __eq__(a,b): return a is b or (type(a) is type(b) and a._t()==b._t())
    def __hash__(a): return hash((type(a).__name__,a._t()))
    def __repr__(s): return f"{type(s).__name__}{s._t()!r}"
def mk(name,*fields):
    ns={'__slots__':fields}
    def __init__(self,*a):
        for f,v in zip(fields,a): object.__setattr__(self,f,v)
    ns['__init__']=__init__
    return type(name,(V,),ns)
FV=mk('FV','k','p')          # float: k in r|nan|inf|ninf
Agg=mk('Agg','f')            # struct / tuple / closure environment
En=mk('En','v','f')          # enum value
Ptr=mk('Ptr','o','path','meta')
Seq=mk('Seq','ch')           # tuple of chunks
VecV=mk('VecV','s')
BoxV=mk('BoxV','p')
StrP=mk('StrP','s')          # &'static str (or a symbolic string name)
FnV=mk('FnV','i')
Lazy=mk('Lazy','name','ty','args','ext')
It=mk('It','node','pos','end')
Opq=mk('Opq','name')
Tok=mk('Tok','kind','d')     # opaque text, path, file handle, encoding
Undef=mk('Undef')
UNDEF=Undef()
# chunks
L=mk('L','v')                # explicit values
M=mk('M','n','t','l')        # n elements, template t over bnd(l)
O=mk('O','n','name','ty','args','off','ext')   # n arbitrary elements
UNIT=Agg(())
NAN=FV('nan',ZERO); INF=FV('inf',ZERO); NINF=FV('ninf',ZERO)
def R(p): return FV('r',topoly(p))

def vmap(v,fp,fb):
    """structural map over the polynomials and Booleans inside a value"""
    if isinstance(v,Poly): return fp(v)
    if isinstance(v,B): return fb(v)
    if isinstance(v,FV): return FV(v.k,fp(v.p)) if v.k=='r' else v
    if isinstance(v,Agg): return Agg(tuple(vmap(x,fp,fb) for x in v.f))
    if isinstance(v,En): return En(v.v,tuple(vmap(x,fp,fb) for x in v.f))
    if isinstance(v,Ptr):
        path=tuple((e[0],fp(e[1])) if e[0] in('x','sub') else e for e in v.path)
        o=v.o
        if isinstance(o,tuple) and len(o)>2: o=(o[0],o[1],tuple(fp(x) for x in o[2]))+o[3:]
        return Ptr(o,path,fp(v.meta) if isinstance(v.meta,Poly) else v.meta)
    if isinstance(v,VecV): return VecV(vmap(v.s,fp,fb))
    if isinstance(v,Seq): return Seq(tuple(x for x in (cmap(c,fp,fb) for c in v.ch) if isinstance(x,L) or x.n is not ZERO))
    if isinstance(v,BoxV): return BoxV(vmap(v.p,fp,fb))
    if isinstance(v,Lazy): return Lazy(v.name,v.ty,tuple(fp(a) for a in v.args),v.ext)
    if isinstance(v,It): return It(tuple(vmap(x,fp,fb) if isinstance(x,(V,Poly,B)) else x for x in v.node),fp(v.pos),fp(v.end) if v.end is not None else None)
    return v
def cmap(c,fp,fb):
    if isinstance(c,L): return L(tuple(vmap(x,fp,fb) for x in c.v))
    if isinstance(c,M): return M(fp(c.n),vmap(c.t,fp,fb),c.l)
    if isinstance(c,O): return O(fp(c.n),c.name,c.ty,tuple(fp(a) for a in c.args),fp(c.off),c.ext)
    return c
def vlvl(v):
    m=[0]
    def fp(p):
        if p.lvl>m[0]: m[0]=p.lvl
        return p
    vmap(v,fp,fp)
    return m[0]
def vsubst(v,mp):
    memo={}
    return vmap(v,lambda p:subst(p,mp,memo),lambda b:subst_b(b,mp,memo))
def vmentions(v,ga):
    r=[False]
    def fp(p):
        if arg_mentions(p,ga): r[0]=True
        return p
    vmap(v,fp,fp)
    return r[0]
def vatoms(v):
    s=set()
    def walk(x):
        if isinstance(x,Poly):
            for m in x.m:
                for a,_ in m:
                    if a not in s:
                        s.add(a)
                        for y in a.data: walk(y)
        elif isinstance(x,B):
            for y in x.a: walk(y)
        elif isinstance(x,tuple):
            for y in x: walk(y)
    def fp(p): walk(p); return p
    vmap(v,fp,fp)
    return s
def mk_M(n,g,val):
    """chunk of n copies of val, with generic index g abstracted"""
    l=vlvl(val)+1
    return M(n,vsubst(val,{single_atom(g):bnd(l)}),l)
def m_at(c,i): return vsubst(c.t,{single_atom(bnd(c.l)):i})
def clen(c):
    if isinstance(c,L): return topoly(len(c.v))
    return c.n
def slen(s):
    r=ZERO
    for c in s.ch: r=r+clen(c)
    return r
def norm_chunks(chs):
    out=[]
    for c in chs:
        if isinstance(c,L):
            if not c.v: continue
            if out and isinstance(out[-1],L): out[-1]=L(out[-1].v+c.v); continue
        elif c.n is ZERO: continue
        elif c.n.is_const() and isinstance(c,M):
            k=int(c.n.const())
            vs=tuple(m_at(c,topoly(i)) for i in range(k))
            if out and isinstance(out[-1],L): out[-1]=L(out[-1].v+vs)
            else: out.append(L(vs))
            continue
        out.append(c)
    # merge adjacent M chunks that continue the same template
    return tuple(out)
def mkseq(*chs): return Seq(norm_chunks(chs))
EMPTY=Seq(())
def drop_shift(c,k):
    """chunk c without its first k elements (k Poly, 0<=k<=len)"""
    if isinstance(c,L): return L(c.v[int(k.const()):])
    if isinstance(c,M): return M(c.n-k,vsubst(c.t,{single_atom(bnd(c.l)):bnd(c.l)+k}),c.l)
    return O(c.n-k,c.name,c.ty,c.args,c.off+k,c.ext)
def take_chunk(c,k):
    if isinstance(c,L): return L(c.v[:int(k.const())])
    if isinstance(c,M): return M(k,c.t,c.l)
    return O(k,c.name,c.ty,c.args,c.off,c.ext)
