"""Symbolic executor / obligation generator over monomorphic MIR."""
import sys, json, math, time, re, os
from fractions import Fraction
from terms import *
from values import *
JOINDBG=bool(os.environ.get("VERIF_JOINDBG"))
FORKDBG=bool(os.environ.get("VERIF_FORKDBG"))
import solver
sys.setrecursionlimit(100000)

class Unsupported(Exception):
    site=None
class NeedBranch(Exception):
    def __init__(s,c): s.c=c
class Infeasible(Exception): pass
class Budget(Exception): pass

INT={'u8':(0,2**8-1),'u16':(0,2**16-1),'u32':(0,2**32-1),'u64':(0,2**64-1),'usize':(0,2**64-1),'u128':(0,2**128-1),
     'i8':(-2**7,2**7-1),'i16':(-2**15,2**15-1),'i32':(-2**31,2**31-1),'i64':(-2**63,2**63-1),'isize':(-2**63,2**63-1),'i128':(-2**127,2**127-1)}
LENMAX=2**60-1     # isize::MAX/8: no Vec<f64> is longer

def double_to_rational(bits):
    import struct
    d=struct.unpack('<d',struct.pack('<Q',bits))[0]
    if d!=d: return NAN
    if d==math.inf: return INF
    if d==-math.inf: return NINF
    return R(simplest(d))
_simpl={}
def simplest(d):
    """the simplest rational that rounds to the double d"""
    if d in _simpl: return _simpl[d]
    if d==0: r=Fraction(0)
    elif d<0: r=-simplest(-d)
    else:
        x=Fraction(d)
        up=math.nextafter(d,math.inf)
        lo=(Fraction(math.nextafter(d,0))+x)/2; hi=(Fraction(up)+x)/2 if up!=math.inf else x
        r=_sr(lo,hi)
        if float(r)!=d: r=x
    _simpl[d]=r
    return r
def _sr(lo,hi):
    fl=lo.numerator//lo.denominator
    if fl==lo: return Fraction(fl)
    if fl+1<=hi: return Fraction(fl+1)
    return fl+1/_sr(1/(hi-fl),1/(lo-fl))

class St:
    __slots__=('mem','pc','gh','pcs')
    def copy(s):
        n=St(); n.mem=dict(s.mem); n.pc=s.pc; n.gh=dict(s.gh); n.pcs=s.pcs
        return n
    def assume(s,c):
        if c is TRUE: return
        if c.k=='and':
            for x in c.a: s.assume(x)
            return
        if c not in s.pcs:
            s.pc=s.pc+(c,); s.pcs=s.pcs|{c}
def new_state():
    s=St(); s.mem={}; s.pc=(); s.gh={}; s.pcs=frozenset()
    return s

class Frame:
    __slots__=('f','fid','loc','depth')

class Loop:
    __slots__=('header','blocks')

class Engine:
    def __init__(self,dump,verbose=False):
        self.T=dump['types']; self.F=dump['fns']; self.roots=dump['roots']; self.files=dump['files']
        self.virt={(m,c):i for m,c,i in dump['virt']}
        self.statics=dump.get('statics',{})
        self.objn=0; self.gmem={}; self.objty={}
        self.obls=[]; self.reached=set(); self.used_fns={}; self.models_used={}; self.real_fns=set(); self.amb=set()
        self.overrides=[]   # (regex, handler)
        self.verbose=verbose; self.deadline=None
        self.span=None; self.stack=[]; self.assumptions=set()
        self.steps=0; self.nz=0; self.depth=0; self.loop_invs=0
        self.byname={}
        for i,f in enumerate(self.F):
            self.byname.setdefault(f['def'],[]).append(i)
            if 'blocks' in f: f['_loops']=None
        import models
        self.models=models
    # ------------------------------------------------------------ types
    def ty(self,t): return self.T[t]
    def tk(self,t): return self.T[t]['k']
    def is_float(self,t): return self.T[t]['k']=='float'
    def irange(self,t):
        d=self.T[t]
        if d['k']=='char': return (0,0x10FFFF)
        if d['k']=='pat': return self.irange(d['e'])
        return INT[d['n']]
    def adt(self,t):
        d=self.T[t]
        return d['def'] if d['k']=='adt' else None
    def pointee(self,t):
        d=self.T[t]
        if d['k'] in('ref','ptr'): return d['e']
        if d['k']=='adt' and d['def'] in('std::boxed::Box','alloc::boxed::Box'): return d['args'][0]
        if d['k']=='adt' and d['def'] in('std::ptr::NonNull','std::ptr::Unique'): return d['args'][0]
        raise Unsupported('pointee of '+d['s'])
    def strip_ty(self,t):
        while self.adt(t) in('std::mem::MaybeUninit','std::mem::ManuallyDrop','core::mem::MaybeUninit'): t=self.T[t]['args'][0]
        return t
    def is_box(self,t): return self.adt(t) in('std::boxed::Box','alloc::boxed::Box')
    # ------------------------------------------------------------ objects
    def newobj(self,ty=None):
        self.objn+=1
        if ty is not None: self.objty[self.objn]=ty
        return self.objn
    def alloc(self,st,v,ty=None):
        o=self.newobj(ty); st.mem[o]=v
        return o
    # ------------------------------------------------------------ feasibility
    def decide(self,st,c):
        if c is TRUE: return True
        if c is FALSE: return False
        if c in st.pcs: return True
        nc=bnot(c)
        if nc in st.pcs: return False
        if c.k=='and':
            und=None
            for x in c.a:
                try:
                    if not self.decide(st,x): return False
                except NeedBranch as e:
                    und=und or e
            if und is None: return True
            raise und
        if c.k=='or':
            und=None
            for x in c.a:
                try:
                    if self.decide(st,x): return True
                except NeedBranch as e:
                    und=und or e
            if und is None: return False
            raise und
        if c.k=='not' and c.a[0].k in('and','or'):
            return not self.decide(st,c.a[0])
        if solver.quick_false(c): return False
        if solver.quick_false(nc): return True
        self.check_time()
        a=solver.sat(st.pc,(c,),solver.DECIDE_MS)
        if a=='unsat':
            st.assume(nc) if False else None
            return False
        b=solver.sat(st.pc,(nc,),solver.DECIDE_MS)
        if b=='unsat': return True
        raise NeedBranch(c)
    def known(self,st,c):
        """True/False when the path condition settles c, None otherwise (never forks)"""
        try: return self.decide(st,c)
        except NeedBranch: return None
    def check_time(self):
        if self.deadline and time.time()>self.deadline: raise Budget('time budget exhausted')
    # ------------------------------------------------------------ obligations
    def where(self):
        sp=self.span
        return f"{self.files[sp[0]]}:{sp[1]}" if sp else '?'
    def oblige(self,st,kind,name,goal):
        self.check_time()
        loc=self.where()
        t=time.time()
        r,info=solver.prove(st.pc,goal)
        o={'kind':kind,'name':name,'at':loc,'res':r,'by':info if r=='proved' else None,'t':time.time()-t}
        if r!='proved':
            o['goal']=repr(goal)[:1500]
            o['pc']=[repr(c)[:300] for c in st.pc][-40:]
            o['model']=solver.model_values(info) if info is not None else {}
            o['definite']=r=='failed' and info is not None and solver.definite(st.pc,goal)
            o['fn']=self.stack[-1] if self.stack else ''
        self.obls.append(o)
        if self.verbose and r!='proved': print('  OBL',r,kind,name,loc,repr(goal)[:300])
        return r=='proved'
    # ------------------------------------------------------------ memory
    def getobj(self,st,o):
        v=st.mem.get(o)
        if v is not None: return v
        if isinstance(o,tuple) and o[0]=='lz': return Lazy(o[1],o[3],o[2],o[4])
        v=self.gmem.get(o)
        if v is not None: return v
        return UNDEF
    def force(self,st,v):
        """one level of structure out of an arbitrary value"""
        while isinstance(v,Lazy): v=self.materialise(st,v)
        return v
    def lz_int(self,z,lo,hi):
        if z.args: return app(z.name,*z.args,sort='i',lo=lo,hi=hi)
        return sym(z.name,'i',lo,hi)
    def lz_real(self,z):
        return app(z.name,*z.args) if z.args else sym(z.name)
    def materialise(self,st,z):
        t=z.ty
        if isinstance(t,tuple) and t[0]=='kf':
            return self.kfloat(st,z,t[1])
        d=self.T[t]; k=d['k']; sub=lambda s,ty: Lazy(z.name+s,ty,z.args,z.ext)
        if k=='bool': return eq(self.lz_int(z,0,1),ONE)
        if k in('int','char','pat'):
            lo,hi=self.irange(t); return self.lz_int(z,lo,hi)
        if k=='float':
            if z.ext: return self.kfloat(st,z,('r','nan','inf','ninf'))
            return FV('r',self.lz_real(z))
        if k=='tuple': return Agg(tuple(sub(f".{i}",e) for i,e in enumerate(d['e'])))
        if k=='array':
            n=d['len']
            return mkseq(L(tuple(sub(f"[{i}]",d['e']) for i in range(n))))
        if k in('ref','ptr'):
            e=self.T[d['e']]
            if e['k'] in('slice','str','dyn'): raise Unsupported('arbitrary fat pointer')
            return Ptr(('lz',z.name+'*',z.args,d['e'],z.ext),(),None)
        if k=='adt':
            n=d['def']
            if n in('std::vec::Vec','alloc::vec::Vec'):
                e=d['args'][0]
                ln=self.lz_int(Lazy(z.name+'#len',t,z.args,False),0,LENMAX)
                return VecV(mkseq(self.ochunk(ln,z.name,e,z.args,ZERO,z.ext)))
            if self.is_box(t): return BoxV(Ptr(('lz',z.name+'*',z.args,d['args'][0],z.ext),(),None))
            if n in('std::string::String','alloc::string::String'): return Opq(z.name)
            if d['kind']=='struct': return Agg(tuple(sub('.'+nm,ty) for nm,ty in d['v'][0]['f']))
            if d['kind']=='enum':
                nv=len(d['v'])
                dv=self.lz_int(Lazy(z.name+'#v',t,z.args,False),0,nv-1)
                for i in range(nv-1):
                    if self.decide(st,eq(dv,topoly(i))): break
                else: i=nv-1
                return En(i,tuple(sub('.'+d['v'][i]['n']+'.'+nm,ty) for nm,ty in d['v'][i]['f']))
        raise Unsupported('arbitrary value of type '+d['s'])
    def kfloat(self,st,z,kinds):
        kinds=tuple(kinds)
        if len(kinds)>1:
            kv=self.lz_int(Lazy(z.name+'#k',None,z.args,False),0,len(kinds)-1)
            for i in range(len(kinds)-1):
                if self.decide(st,eq(kv,topoly(i))): break
            else: i=len(kinds)-1
        else: i=0
        k=kinds[i]
        return FV('r',self.lz_real(z)) if k=='r' else FV(k,ZERO)
    def ochunk(self,n,name,ety,args,off,ext):
        if not ext and isinstance(ety,int):
            k=self.T[ety]['k']
            if k=='float':
                l=max([0]+[a.lvl for a in args])+1
                return M(n,FV('r',app(name,*args,bnd(l)+off)),l)
            if k=='int':
                lo,hi=self.irange(ety); l=max([0]+[a.lvl for a in args])+1
                return M(n,app(name,*args,bnd(l)+off,sort='i',lo=lo,hi=hi),l)
        return O(n,name,ety,tuple(args),off,ext)
    def step_val(self,st,v,e):
        v=self.force(st,v)
        k=e[0]
        if k=='f':
            if isinstance(v,Agg): return v.f[e[1]]
            if isinstance(v,En): return v.f[e[1]]
            if isinstance(v,BoxV): return v
            if isinstance(v,Ptr) : return v     # NonNull / Unique wrappers are transparent
            if isinstance(v,It): raise Unsupported('field of a std iterator')
            if isinstance(v,VecV): raise Unsupported('private field of Vec')
            raise Unsupported(f'field of {type(v).__name__}')
        if k=='v':
            if isinstance(v,En):
                if v.v!=e[1]: raise Unsupported('downcast to another variant')
                return v
            raise Unsupported('downcast')
        if k=='buf':
            if isinstance(v,VecV): return v.s
            if isinstance(v,Seq): return v
            raise Unsupported('buf of '+type(v).__name__)
        if k=='x':
            if isinstance(v,VecV): v=v.s
            if isinstance(v,Seq): return self.seq_get(st,v,e[1])
            raise Unsupported('index of '+type(v).__name__)
        if k=='sub': 
            if isinstance(v,VecV): v=v.s
            return ('subseq',v,e[1])
        raise Unsupported(k)
    def read(self,st,o,path):
        v=self.getobj(st,o)
        i=0;n=len(path)
        while i<n:
            e=path[i]
            if e[0]=='sub':
                if i+1<n and path[i+1][0]=='x':
                    v=self.step_val(st,v,('x',path[i+1][1]+e[1])); i+=2; continue
                if i+1==n:
                    v=self.force(st,v)
                    if isinstance(v,VecV): v=v.s
                    return self.seq_from(st,v,e[1])
                raise Unsupported('sub path')
            v=self.step_val(st,v,e); i+=1
        return v
    def write(self,st,o,path,val):
        if not path: st.mem[o]=val; return
        old=self.getobj(st,o)
        st.mem[o]=self.upd(st,old,path,val)
    def upd(self,st,v,path,val):
        if not path: return val
        e=path[0]
        if e[0]=='sub':
            if len(path)>1 and path[1][0]=='x': return self.upd(st,v,(('x',path[1][1]+e[1]),)+path[2:],val)
            v=self.force(st,v)
            s=v.s if isinstance(v,VecV) else v
            head=self.seq_slice(st,s,ZERO,e[1]); n=slen(val); tail=self.seq_from(st,s,e[1]+n)
            r=mkseq(*(head.ch+val.ch+tail.ch))
            return VecV(r) if isinstance(v,VecV) else r
        v=self.force(st,v)
        if e[0]=='f':
            if v is UNDEF or isinstance(v,Undef):
                f=[UNDEF]*(e[1]+1); f[e[1]]=self.upd(st,UNDEF,path[1:],val); return Agg(tuple(f))
            if isinstance(v,(Agg,En)):
                f=list(v.f)
                while len(f)<=e[1]: f.append(UNDEF)
                f[e[1]]=self.upd(st,f[e[1]],path[1:],val)
                return Agg(tuple(f)) if isinstance(v,Agg) else En(v.v,tuple(f))
            if isinstance(v,BoxV): return self.upd(st,v,path[1:],val)
            raise Unsupported('field write into '+type(v).__name__)
        if e[0]=='v':
            if isinstance(v,En) and v.v==e[1]: return self.upd(st,v,path[1:],val)
            if isinstance(v,Undef): 
                f=self.upd(st,UNDEF,path[1:],val)
                return En(e[1],f.f)
            raise Unsupported('downcast write')
        if e[0]=='buf':
            if isinstance(v,VecV): return VecV(self.upd(st,v.s,path[1:],val))
            return self.upd(st,v,path[1:],val)
        if e[0]=='x':
            s=v.s if isinstance(v,VecV) else v
            if not isinstance(s,Seq): raise Unsupported('index write')
            if len(path)>1: val=self.upd(st,self.seq_get(st,s,e[1]),path[1:],val)
            r=self.seq_set(st,s,e[1],val)
            return VecV(r) if isinstance(v,VecV) else r
        raise Unsupported('write path')
    # ------------------------------------------------------------ sequences
    def seq_locate(self,st,s,i):
        """(chunk number, offset in chunk) of index i (assumed within bounds)"""
        off=ZERO
        for k,c in enumerate(s.ch):
            n=clen(c)
            if k==len(s.ch)-1 and not isinstance(c,L):
                return k,i-off
            rel=i-off
            if rel.is_const() and n.is_const():
                if rel.const()<n.const(): return k,rel
            elif self.decide(st,lt(rel,n)):
                return k,rel
            off=off+n
        raise Unsupported('index out of range in executor')
    def seq_get(self,st,s,i):
        k,rel=self.seq_locate(st,s,i)
        return self.chunk_at(st,s.ch[k],rel)
    def chunk_at(self,st,c,rel):
        if isinstance(c,L):
            if not rel.is_const():
                for j in range(len(c.v)-1):
                    if self.decide(st,eq(rel,topoly(j))): return c.v[j]
                return c.v[-1]
            return c.v[int(rel.const())]
        if isinstance(c,M): return m_at(c,rel)
        return Lazy(c.name,c.ty,c.args+(c.off+rel,),c.ext)
    def seq_set(self,st,s,i,val):
        k,rel=self.seq_locate(st,s,i)
        c=s.ch[k]
        if isinstance(c,L):
            if not rel.is_const():
                for j in range(len(c.v)):
                    if j==len(c.v)-1 or self.decide(st,eq(rel,topoly(j))): rel=topoly(j); break
            v=list(c.v); v[int(rel.const())]=val; mid=(L(tuple(v)),)
        else:
            mid=(take_chunk(c,rel),L((val,)),drop_shift(c,rel+1))
        return mkseq(*(s.ch[:k]+mid+s.ch[k+1:]))
    def seq_slice(self,st,s,a,b):
        """elements a..b (0<=a<=b<=len assumed)"""
        return self.seq_take(st,self.seq_from(st,s,a),b-a)
    def seq_from(self,st,s,a):
        if a is ZERO: return s
        rest=a; chs=list(s.ch)
        while chs:
            if rest is ZERO: break
            n=clen(chs[0])
            if rest is n: rest=ZERO; chs.pop(0); break
            if len(chs)==1 and not isinstance(chs[0],L):
                chs[0]=drop_shift(chs[0],rest); rest=ZERO; break
            if self.decide(st,le(n,rest)): rest=rest-n; chs.pop(0); continue
            if isinstance(chs[0],L) and not rest.is_const():
                for j in range(len(chs[0].v)):
                    if self.decide(st,eq(rest,topoly(j))): rest=topoly(j); break
            chs[0]=drop_shift(chs[0],rest); rest=ZERO
        return mkseq(*chs)
    def seq_take(self,st,s,n):
        out=[];rest=n
        for i,c in enumerate(s.ch):
            if rest is ZERO: break
            m=clen(c)
            if rest is m: out.append(c); rest=ZERO; break
            if i==len(s.ch)-1 and not isinstance(c,L): out.append(take_chunk(c,rest)); break
            if self.decide(st,le(m,rest)): out.append(c); rest=rest-m; continue
            if isinstance(c,L) and not rest.is_const():
                for j in range(len(c.v)):
                    if self.decide(st,eq(rest,topoly(j))): rest=topoly(j); break
            out.append(take_chunk(c,rest)); break
        return mkseq(*out)
    def seq_eq(self,st,a,b,elem):
        """Boolean term: a and b have the same length and pairwise `elem`-equal elements"""
        if a==b and elem is self.val_eq and self.self_equal(a): return TRUE
        na,nb=slen(a),slen(b)
        ln=eq(na,nb)
        if ln is FALSE: return FALSE
        if ln is not TRUE:
            if not self.decide(st,ln): return FALSE
        out=[]
        ca,cb=list(a.ch),list(b.ch)
        while ca and cb:
            x,y=ca[0],cb[0]
            if isinstance(x,L) and isinstance(y,L):
                k=min(len(x.v),len(y.v))
                for p,q in zip(x.v[:k],y.v[:k]): out.append(elem(st,p,q))
                ca[0]=L(x.v[k:]); cb[0]=L(y.v[k:])
                if not ca[0].v: ca.pop(0)
                if not cb[0].v: cb.pop(0)
                continue
            n,m=clen(x),clen(y)
            if n is ZERO: ca.pop(0); continue
            if m is ZERO: cb.pop(0); continue
            if n is m or (len(ca)==1 and len(cb)==1) or self.known(st,eq(n,m)):
                out.append(self.chunk_eq(st,x,y,n,elem)); ca.pop(0); cb.pop(0); continue
            lx,ly=isinstance(x,L),isinstance(y,L)
            if lx or ly:
                # one explicit element against the first of a symbolic chunk
                if lx:
                    if not self.decide(st,lt(ZERO,m)): cb.pop(0); continue
                    out.append(elem(st,x.v[0],self.chunk_at(st,y,ZERO))); ca[0]=L(x.v[1:]); cb[0]=drop_shift(y,ONE)
                else:
                    if not self.decide(st,lt(ZERO,n)): ca.pop(0); continue
                    out.append(elem(st,self.chunk_at(st,x,ZERO),y.v[0])); cb[0]=L(y.v[1:]); ca[0]=drop_shift(x,ONE)
                if isinstance(ca[0],L) and not ca[0].v: ca.pop(0)
                if isinstance(cb[0],L) and not cb[0].v: cb.pop(0)
                continue
            if self.decide(st,le(n,m)):
                out.append(self.chunk_eq(st,x,take_chunk(y,n),n,elem)); ca.pop(0); cb[0]=drop_shift(y,n)
            else:
                out.append(self.chunk_eq(st,take_chunk(x,m),y,m,elem)); cb.pop(0); ca[0]=drop_shift(x,m)
        return band(*out)
    def self_equal(self,v):
        return True
    def chunk_eq(self,st,x,y,n,elem):
        if x==y: return TRUE
        if isinstance(x,L) and isinstance(y,L): return band(*[elem(st,p,q) for p,q in zip(x.v,y.v)])
        if isinstance(x,O) and isinstance(y,O) and (x.name,x.ty,x.args,x.off)==(y.name,y.ty,y.args,y.off): return TRUE
        g=fresh('g','i')
        s2=st.copy(); s2.assume(le0(-g)); s2.assume(lt(g,n))
        b=elem(s2,self.chunk_at(s2,x,g),self.chunk_at(s2,y,g))
        if b is TRUE: return TRUE
        l=max(b.lvl,n.lvl)+1
        return mkb('all',(n,subst_b(b,{single_atom(g):bnd(l)}),l))
    def val_eq(self,st,a,b):
        """structural equality (what derived PartialEq computes) as a Boolean term"""
        if isinstance(a,Lazy) and isinstance(b,Lazy) and a==b and not a.ext: return TRUE
        a=self.force(st,a); b=self.force(st,b)
        if isinstance(a,FV):
            if a.k=='nan' or b.k=='nan': return FALSE
            if a.k=='r' and b.k=='r': return eq(a.p,b.p)
            return bbool(a.k==b.k)
        if isinstance(a,Poly): return eq(a,b)
        if isinstance(a,B): return biff(a,b)
        if isinstance(a,Agg): return band(*[self.val_eq(st,x,y) for x,y in zip(a.f,b.f)])
        if isinstance(a,En):
            if a.v!=b.v: return FALSE
            return band(*[self.val_eq(st,x,y) for x,y in zip(a.f,b.f)])
        if isinstance(a,VecV): return self.seq_eq(st,a.s,b.s,self.val_eq)
        if isinstance(a,Seq): return self.seq_eq(st,a,b,self.val_eq)
        if isinstance(a,BoxV): return self.val_eq(st,self.read(st,a.p.o,a.p.path),self.read(st,b.p.o,b.p.path))
        if isinstance(a,Ptr): return self.val_eq(st,self.deref_val(st,a),self.deref_val(st,b))
        if isinstance(a,StrP) and isinstance(b,StrP): return bbool(a.s==b.s)
        if isinstance(a,Tok) and a==b: return TRUE
        if isinstance(a,Opq) and isinstance(b,Opq):
            if a==b: return TRUE
            return mkb('sym',(f"eq:{min(a.name,b.name)}={max(a.name,b.name)}",))
        raise Unsupported('equality of '+type(a).__name__+' and '+type(b).__name__)
    def deref_val(self,st,p):
        """value behind a thin or slice pointer"""
        if isinstance(p,StrP): return p
        if isinstance(p,BoxV): p=p.p
        v=self.read(st,p.o,p.path)
        if isinstance(p.meta,Poly):
            v=self.force(st,v)
            s=v.s if isinstance(v,VecV) else v
            return s if slen(s) is p.meta else self.seq_take(st,s,p.meta)
        return v
    # ------------------------------------------------------------ floats
    def fneg(self,a):
        if a.k=='r': return FV('r',-a.p)
        return {'nan':NAN,'inf':NINF,'ninf':INF}[a.k]
    def fsign(self,st,p):
        """-1/0/1 of a real (forks)"""
        if self.decide(st,lt(ZERO,p)): return 1
        if self.decide(st,eq(p,ZERO)): return 0
        return -1
    def fbin(self,st,op,a,b):
        if op=='Sub': return self.fbin(st,'Add',a,self.fneg(b))
        if a.k=='r' and b.k=='r':
            if op=='Add': return FV('r',a.p+b.p)
            if op=='Mul': return FV('r',a.p*b.p)
            if op=='Div':
                if self.decide(st,eq(b.p,ZERO)):
                    sg=self.fsign(st,a.p)
                    self.assumptions.add('division of a real by zero is taken as by +0 (no signed zeros)')
                    return {0:NAN,1:INF,-1:NINF}[sg]
                return FV('r',pdiv(a.p,b.p))
            if op=='Rem': 
                raise Unsupported('float remainder')
        if a.k=='nan' or b.k=='nan': return NAN
        if op=='Add':
            if a.k=='r': return b
            if b.k=='r': return a
            return a if a.k==b.k else NAN
        if op=='Mul':
            sa=self.xsign(st,a); sb=self.xsign(st,b)
            if sa==0 or sb==0: return NAN
            return INF if sa*sb>0 else NINF
        if op=='Div':
            if a.k!='r' and b.k!='r': return NAN
            if a.k=='r': return R(0)
            sb=self.xsign(st,b) or 1
            sa=1 if a.k=='inf' else -1
            return INF if sa*sb>0 else NINF
        raise Unsupported('float op '+op)
    def xsign(self,st,a):
        if a.k=='inf': return 1
        if a.k=='ninf': return -1
        return self.fsign(st,a.p)
    def fcmp(self,op,a,b):
        if a.k=='nan' or b.k=='nan': return bbool(op=='Ne')
        if a.k=='r' and b.k=='r':
            return {'Lt':lambda:lt(a.p,b.p),'Le':lambda:le(a.p,b.p),'Gt':lambda:lt(b.p,a.p),'Ge':lambda:le(b.p,a.p),
                    'Eq':lambda:eq(a.p,b.p),'Ne':lambda:bnot(eq(a.p,b.p))}[op]()
        rank={'ninf':-1,'r':0,'inf':1}
        x,y=rank[a.k],rank[b.k]
        return bbool({'Lt':x<y,'Le':x<=y,'Gt':x>y,'Ge':x>=y,'Eq':x==y,'Ne':x!=y}[op])
    def fmin(self,st,a,b,mx=False):
        if a.k=='nan': return b
        if b.k=='nan': return a
        c=self.fcmp('Ge' if mx else 'Le',a,b)
        k=self.known(st,c)
        if k is not None: return a if k else b
        return FV('r',ite(c,a.p,b.p))
    # ------------------------------------------------------------ places and operands
    def place_ty(self,fr,pl):
        t=fr.f['locals'][pl[0]]
        for e in pl[1]:
            if e=='*': t=self.pointee(t)
            elif e[0]=='f': t=e[2]
            elif e[0] in('i','ci'):
                d=self.T[t]; t=d['e'] if d['k'] in('array','slice') else d['args'][0]
        return t
    def place(self,fr,st,pl):
        """(obj, path, meta)"""
        o=fr.loc[pl[0]]; path=(); meta=None
        for e in pl[1]:
            if e=='*':
                v=self.force(st,self.read(st,o,path))
                if isinstance(v,BoxV): v=v.p
                while isinstance(v,Agg) and len(v.f)>=1 and isinstance(v.f[0],(Ptr,Agg,BoxV)): v=v.f[0]
                if isinstance(v,BoxV): v=v.p
                if isinstance(v,(StrP,Tok)): return (('str',v),(),v)
                if not isinstance(v,Ptr): raise Unsupported('deref of '+repr(v)[:80])
                o,path,meta=v.o,v.path,v.meta
            elif e[0]=='f': path=path+(('f',e[1]),); meta=meta if meta is not None and not isinstance(meta,Poly) else None
            elif e[0]=='d': path=path+(('v',e[1]),)
            elif e[0]=='i':
                i=self.force(st,self.read(st,fr.loc[e[1]],()))
                path=self.padd(path,i); meta=None
            elif e[0]=='ci':
                off,mn,fe=e[1],e[2],e[3]
                if fe:
                    n=meta if isinstance(meta,Poly) else slen(self.as_seq(st,self.read(st,o,path)))
                    i=n-off
                else: i=topoly(off)
                path=self.padd(path,i); meta=None
            elif e[0]=='ss':
                n=meta if isinstance(meta,Poly) else slen(self.as_seq(st,self.read(st,o,path)))
                frm,to,fe=e[1],e[2],e[3]
                end=n-to if fe else topoly(to)
                path=self.psub(path,topoly(frm)); meta=end-frm
            elif e[0]=='oc': pass
            else: raise Unsupported('projection '+str(e))
        return o,path,meta
    def as_seq(self,st,v):
        v=self.force(st,v)
        if isinstance(v,VecV): return v.s
        if isinstance(v,Seq): return v
        if isinstance(v,(Ptr,BoxV)): return self.as_seq(st,self.deref_val(st,v))
        raise Unsupported('sequence from '+type(v).__name__)
    def padd(self,path,i):
        if path and path[-1][0]=='sub': return path[:-1]+(('x',path[-1][1]+i),)
        return path+(('x',i),)
    def psub(self,path,a):
        if a is ZERO: return path
        if path and path[-1][0]=='sub': return path[:-1]+(('sub',path[-1][1]+a),)
        return path+(('sub',a),)
    def operand(self,fr,st,op):
        k=op['o']
        if k in('c','m'):
            o,path,meta=self.place(fr,st,op['p'])
            if isinstance(o,tuple) and o[0]=='str': return o[1]
            return self.read(st,o,path)
        if k=='k': return self.const(op['c']['v'],op['c']['t'])
        if k=='rc':
            return bbool('Overflow' in op['v'])
        raise Unsupported('operand '+k)
    def op_ty(self,fr,op):
        if op['o'] in('c','m'): return self.place_ty(fr,op['p'])
        if op['o']=='k': return op['c']['t']
        return None
    def const(self,v,t):
        k=v['k']
        if k=='bool': return bbool(v['v'])
        if k=='int': return topoly(v['v'])
        if k=='float':
            return double_to_rational(v['bits'])
        if k=='zst':
            d=self.T[t]
            if d['k']=='fndef': return FnV(('d',t))
            if d['k']=='adt' and d['kind']=='enum': return En(0,())
            if d['k']=='array': return EMPTY
            if d['k']=='adt' and d['v']: return Agg(tuple(self.const({'k':'zst'},ft) for _,ft in d['v'][0]['f']))
            if d['k']=='tuple': return Agg(tuple(self.const({'k':'zst'},e) for e in d['e']))
            return UNIT
        if k=='agg':
            d=self.T[t]
            if d['k']=='tuple': ts=d['e']
            elif d['k']=='adt':
                if d['def'] in('std::vec::Vec','alloc::vec::Vec'): return VecV(EMPTY)
                if d['def'] in('std::string::String','alloc::string::String'): return StrP('')
                ts=[x[1] for x in d['v'][0]['f']]
            else: raise Unsupported('const agg '+d['s'])
            return Agg(tuple(self.const(x,y) for x,y in zip(v['f'],ts)))
        if k=='arr':
            return mkseq(L(tuple(self.const(x,self.T[t]['e']) for x in v['f'])))
        if k=='enum':
            d=self.T[t]
            return En(v['v'],tuple(self.const(x,y[1]) for x,y in zip(v['f'],d['v'][v['v']]['f'])))
        if k=='ref':
            e=self.pointee(t); to=v['to']
            if to['k']=='str': return StrP(to['v'])
            key=('c',id(v))
            if key not in self.gmem:
                try: val=self.const(to,e) if self.T[e]['k']!='slice' else mkseq(L(tuple(self.const(x,self.T[e]['e']) for x in to['f'])))
                except (Unsupported,KeyError) as ex: val=Opq('const:'+str(ex))
                self.gmem[key]=val
                self.objty[key]=e
            val=self.gmem[key]
            meta=slen(val) if self.T[e]['k']=='slice' else None
            return Ptr(key,(),meta)
        if k=='fn': return FnV(('i',v['inst']))
        if k=='opaque': return Opq('const:'+v.get('why',''))
        if k=='str': return StrP(v['v'])
        if k=='addr': return Opq('addr')
        if k=='static': return Ptr(('static',v['n']),(),None)
        raise Unsupported('constant '+k)
    # ------------------------------------------------------------ rvalues
    def rvalue(self,fr,st,rv,dty):
        k=rv['r']
        if k=='use': return self.operand(fr,st,rv['a'])
        if k in('ref','reborrow'):
            o,path,meta=self.place(fr,st,rv['p'])
            if isinstance(o,tuple) and o[0]=='str': return o[1]
            return Ptr(o,path,meta)
        if k=='agg':
            vs=tuple(self.operand(fr,st,a) for a in rv['a'])
            kk=rv['k']
            if kk[0]=='array': return mkseq(L(vs))
            if kk[0] in('tuple','closure'): return Agg(vs)
            if kk[0]=='adt':
                d=self.T[kk[1]]
                if d['kind']=='enum': return En(kk[2],vs)
                if d['kind']=='union': return vs[0] if vs else UNDEF
                return Agg(vs)
            if kk[0]=='rawptr':
                p=vs[0]; m=vs[1]
                if isinstance(p,Ptr): return Ptr(p.o,p.path,m if isinstance(m,Poly) else p.meta)
                return p
            raise Unsupported('aggregate '+str(kk))
        if k in('bin','cbin'):
            a=self.force(st,self.operand(fr,st,rv['a'])); b=self.force(st,self.operand(fr,st,rv['b']))
            op=rv['op']
            if k=='cbin' and not op.endswith('WithOverflow'): op=op.replace('Unchecked','')+'WithOverflow'
            return self.binop(st,op,a,b,self.op_ty(fr,rv['a']),self.op_ty(fr,rv['b']))
        if k=='un':
            a=self.force(st,self.operand(fr,st,rv['a'])); op=rv['op']
            if op=='Not':
                if isinstance(a,B): return bnot(a)
                t=self.op_ty(fr,rv['a']); lo,hi=self.irange(t)
                return (topoly(hi)-a) if lo==0 else (-a-1)
            if op=='Neg':
                if isinstance(a,FV): return self.fneg(a)
                return -a
            if op=='PtrMetadata':
                if isinstance(a,Ptr):
                    if isinstance(a.meta,Poly): return a.meta
                    return UNIT
                if isinstance(a,StrP): return self.models.str_len(self,a)
            raise Unsupported('unary '+op)
        if k=='cast': return self.cast(st,rv['k'],self.operand(fr,st,rv['a']),rv['from'],rv['t'])
        if k=='discr':
            o,path,_=self.place(fr,st,rv['p'])
            v=self.force(st,self.read(st,o,path))
            if isinstance(v,En): return topoly(int(self.T[rv['t']]['v'][v.v]['d']))
            if isinstance(v,Agg): return ZERO
            raise Unsupported('discriminant of '+type(v).__name__)
        if k=='len':
            o,path,meta=self.place(fr,st,rv['p'])
            if isinstance(meta,Poly): return meta
            return slen(self.as_seq(st,self.read(st,o,path)))
        if k=='repeat':
            v=self.operand(fr,st,rv['a'])
            return mkseq(L((v,)*rv['n']))
        raise Unsupported('rvalue '+k)
    def in_range(self,st,p,ty):
        lo,hi=self.irange(ty)
        return band(le(topoly(lo),p),le(p,topoly(hi)))
    def binop(self,st,op,a,b,ta,tb):
        if isinstance(a,FV) and isinstance(b,FV):
            if op in('Lt','Le','Gt','Ge','Eq','Ne'): return self.fcmp(op,a,b)
            return self.fbin(st,op,a,b)
        if isinstance(a,Poly) and isinstance(b,Poly):
            if op in('Lt','Le','Gt','Ge','Eq','Ne'):
                return {'Lt':lambda:lt(a,b),'Le':lambda:le(a,b),'Gt':lambda:lt(b,a),'Ge':lambda:le(b,a),'Eq':lambda:eq(a,b),'Ne':lambda:bnot(eq(a,b))}[op]()
            base=op.replace('WithOverflow','').replace('Unchecked','')
            if base in('Add','Sub','Mul'):
                r={'Add':lambda:a+b,'Sub':lambda:a-b,'Mul':lambda:a*b}[base]()
                if op.endswith('WithOverflow'):
                    return Agg((r,bnot(self.in_range(st,r,ta))))
                if op.endswith('Unchecked'): return r
                if self.decide(st,self.in_range(st,r,ta)): return r
                lo,hi=self.irange(ta)
                return app('imod',r,topoly(hi-lo+1),sort='i',lo=lo,hi=hi) if lo==0 else self.unsup('signed wrap')
            if base in('Div','Rem'):
                if a.is_const() and b.is_const():
                    x,y=int(a.const()),int(b.const()); q=abs(x)//abs(y)*(1 if (x<0)==(y<0) else -1)
                    return topoly(q if base=='Div' else x-q*y)
                lo,_=self.irange(ta)
                if lo<0 and not (self.decide(st,le(ZERO,a)) and self.decide(st,lt(ZERO,b))): raise Unsupported('signed division')
                return app('idiv' if base=='Div' else 'imod',a,b,sort='i',lo=0)
            if base in('BitAnd','BitOr','BitXor','Shl','Shr'):
                if a.is_const() and b.is_const():
                    x,y=int(a.const()),int(b.const())
                    return topoly({'BitAnd':x&y,'BitOr':x|y,'BitXor':x^y,'Shl':x<<y,'Shr':x>>y}[base])
                if base=='Shr' and b.is_const(): return app('idiv',a,topoly(2**int(b.const())),sort='i',lo=0)
                if base=='BitAnd' and b.is_const() and (int(b.const())+1)&int(b.const())==0: return app('imod',a,b+1,sort='i',lo=0)
                raise Unsupported('bit operation')
            if op=='Cmp':
                if self.decide(st,lt(a,b)): return En(0,())
                if self.decide(st,eq(a,b)): return En(1,())
                return En(2,())
        if isinstance(a,B) and isinstance(b,B):
            if op=='Eq': return biff(a,b)
            if op in('Ne','BitXor'): return bnot(biff(a,b)) if not(a.k in'TF' or b.k in 'TF') else (b if a is FALSE else a if b is FALSE else bnot(b) if a is TRUE else bnot(a))
            if op=='BitAnd': return band(a,b)
            if op=='BitOr': return bor(a,b)
            if op in('Lt','Le','Gt','Ge'):
                return {'Lt':band(bnot(a),b),'Le':bor(bnot(a),b),'Gt':band(a,bnot(b)),'Ge':bor(a,bnot(b))}[op]
        if op=='Offset' and isinstance(a,Ptr):
            if a.path and a.path[-1][0]=='x': return Ptr(a.o,a.path[:-1]+(('x',a.path[-1][1]+b),),a.meta)
        if op in('Eq','Ne') and isinstance(a,(Ptr,BoxV)) and isinstance(b,(Ptr,BoxV)):
            r=bbool(a==b); return r if op=='Eq' else bnot(r)
        raise Unsupported(f'{op} on {type(a).__name__},{type(b).__name__}')
    def unsup(self,m): raise Unsupported(m)
    def cast(self,st,k,v,frm,to):
        if k.startswith('PointerCoercion'):
            if 'Unsize' in k:
                d=self.T[to]
                e=self.T[self.pointee(to)]
                fe=self.pointee(frm)
                p=v.p if isinstance(v,BoxV) else v
                if e['k']=='slice': r=Ptr(p.o,p.path,topoly(self.T[fe]['len']))
                elif e['k']=='dyn':
                    r=p if isinstance(p.meta,tuple) and p.meta[0]=='vt' else Ptr(p.o,p.path,('vt',fe))
                else: raise Unsupported('unsize to '+e['s'])
                return BoxV(r) if isinstance(v,BoxV) else r
            return v
        v=self.force(st,v)
        if k=='IntToInt':
            if isinstance(v,B): return ite(v,ONE,ZERO)
            if isinstance(v,En): return topoly(int(self.T[frm]['v'][v.v]['d']))
            lo,hi=self.irange(to); l2,h2=self.irange(frm) if self.T[frm]['k']!='bool' else (0,1)
            if lo<=l2 and h2<=hi: return v
            if v.is_const():
                n=int(v.const()); m=hi-lo+1
                return topoly((n-lo)%m+lo)
            if self.decide(st,self.in_range(st,v,to)): return v
            if lo==0: return app('imod',v,topoly(hi+1),sort='i',lo=0,hi=hi)
            raise Unsupported('narrowing signed cast')
        if k=='IntToFloat': return FV('r',v if not isinstance(v,B) else ite(v,ONE,ZERO))
        if k=='FloatToFloat': return v
        if k=='FloatToInt':
            lo,hi=self.irange(to)
            if v.k=='nan': return ZERO
            if v.k=='inf': return topoly(hi)
            if v.k=='ninf': return topoly(lo)
            if v.p.is_const():
                n=int(v.p.const()); return topoly(max(lo,min(hi,n)))
            if is_int_poly(v.p) and all(c.denominator==1 for c in v.p.m.values()): t=v.p
            elif self.decide(st,le(ZERO,v.p)): t=app('floor',v.p,sort='i')
            else: t=-app('floor',-v.p,sort='i')
            if not self.decide(st,le(topoly(lo),t)): return topoly(lo)
            if not self.decide(st,le(t,topoly(hi))): return topoly(hi)
            return t
        if k in('PtrToPtr','FnPtrToPtr') or k.startswith('Transmute') or k.startswith('BoxDerefTransmute') or 'Subtype' in k or 'Subtype' in k:
            while isinstance(v,Agg) and self.T[to]['k'] in('ref','ptr'):
                v=v.f[0]
            if isinstance(v,BoxV) and self.T[to]['k'] in('ref','ptr'): return v.p
            if isinstance(v,Ptr) and self.is_box(to):
                if v.o not in self.objty and not v.path: self.objty[v.o]=self.strip_ty(self.T[to]['args'][0])
                return BoxV(v)
            if isinstance(v,(Ptr,BoxV,StrP,FnV,Opq)): return v
            td=self.T[to]
            if isinstance(v,Poly) and td['k'] in('int','char'):
                if td['k']==self.T[frm]['k']=='int':
                    l1,h1=self.irange(frm); l2,h2=self.irange(to)
                    if (l1,h1)==(l2,h2): return v
            if td['k']=='adt' or self.T[frm]['k']=='adt': return v
            raise Unsupported('transmute '+self.T[frm]['s']+' -> '+td['s'])
        if 'Pointer' in k: return v
        raise Unsupported('cast '+k)
    # ------------------------------------------------------------ control flow
    def loops(self,f):
        if f['_loops'] is not None: return f['_loops']
        bl=f['blocks']; n=len(bl)
        succ=[self.succs(b['t']) for b in bl]
        pred=[[] for _ in range(n)]
        # reachable
        order=[];seen={0}
        stack=[(0,iter(succ[0]))]
        while stack:
            b,itr=stack[-1]
            for s in itr:
                if s not in seen: seen.add(s); stack.append((s,iter(succ[s]))); break
            else: order.append(b); stack.pop()
        order.reverse()
        for b in order:
            for s in succ[b]: pred[s].append(b)
        pos={b:i for i,b in enumerate(order)}
        idom={0:0}; ch=True
        while ch:
            ch=False
            for b in order[1:]:
                ps=[p for p in pred[b] if p in idom]
                x=ps[0]
                for p in ps[1:]:
                    a,c=x,p
                    while a!=c:
                        while pos[a]>pos[c]: a=idom[a]
                        while pos[c]>pos[a]: c=idom[c]
                    x=a
                if idom.get(b)!=x: idom[b]=x; ch=True
        def dom(a,b):
            while True:
                if a==b: return True
                if b==0: return False
                b=idom[b]
        loops={}
        for b in order:
            for s in succ[b]:
                if dom(s,b):
                    body=loops.setdefault(s,{s})
                    w=[b]
                    while w:
                        x=w.pop()
                        if x in body: continue
                        body.add(x); w.extend(pred[x])
                elif pos[s]<=pos[b]: f['_irr']=True
        # liveness of locals at headers
        live=self.liveness(f,order,succ)
        f['_rpo']={b:i for i,b in enumerate(order)}; f['_live']=live
        f['_loops']={h:(b,live[h]) for h,b in loops.items()}
        return f['_loops']
    def succs(self,t):
        k=t[0]
        if k=='goto': return [t[1]]
        if k=='switch': return [b for _,b in t[2]]+[t[3]]
        if k=='drop': return [t[2]]
        if k=='call': return [t[4]] if t[4] is not None else []
        if k=='assert': return [t[4]]
        return []
    def liveness(self,f,order,succ):
        """locals that may be read before being overwritten or declared dead (borrowed locals: until StorageDead)"""
        bl=f['blocks']; use={};de={}
        borrowed=set()
        def pl_use(p,u,d):
            if p[0] not in d: u.add(p[0])
            for e in p[1]:
                if e!='*' and e[0]=='i' and e[1] not in d: u.add(e[1])
        def walk(x,u,d):
            if isinstance(x,dict):
                if x.get('o') in('c','m'): pl_use(x['p'],u,d)
                elif x.get('r') in('ref','reborrow','discr','len'):
                    pl_use(x['p'],u,d)
                    if x['r']=='ref' and not any(e=='*' for e in x['p'][1]): borrowed.add(x['p'][0])
                else:
                    for y in x.values(): walk(y,u,d)
            elif isinstance(x,list):
                for y in x: walk(y,u,d)
        for b in order:
            u=set();d=set()
            for s in bl[b]['s']:
                if s[0]=='=':
                    walk(s[2],u,d)
                    if s[1][1]: pl_use(s[1],u,d)
                    else: d.add(s[1][0])
                elif s[0]=='dead': d.add(s[1])
                elif s[0] in('assume','cpy'): walk(s[1:],u,d)
                elif s[0]=='sd': pl_use(s[1],u,d)
            t=bl[b]['t']
            if t[0]=='call':
                walk(t[1],u,d); walk(t[2],u,d)
                if t[3][1]: pl_use(t[3],u,d)
                else: d.add(t[3][0])
            elif t[0] in('switch','assert'): walk(t[1],u,d)
            elif t[0]=='ret':
                if 0 not in d: u.add(0)
            use[b]=u;de[b]=d
        live={b:set() for b in order}
        ch=True
        while ch:
            ch=False
            for b in reversed(order):
                o=set()
                for s in succ[b]: o|=live.get(s,set())
                n=use[b]|(o-de[b])
                if n!=live[b]: live[b]=n; ch=True
        f['_borrowed']=borrowed
        return live
    def exec_fn(self,st,fid,args):
        f=self.F[fid]
        if 'blocks' not in f:
            raise Unsupported('no body: '+f['name'])
        self.depth+=1
        if self.depth>150: self.depth-=1; raise Unsupported('recursion')
        if f['krate'] not in('core','alloc','std'):
            if f['krate'] in('dess','dess_examples','dess_proc_macros') or f['name'].startswith('vh::python::ext::'): self.real_fns.add(f['name'])
            self.used_fns[f['name']]=self.used_fns.get(f['name'],0)+1
        self.stack.append(f['name'])
        sp=self.span
        try:
            fr=Frame(); fr.f=f; fr.fid=fid
            tys=f['locals']
            fr.loc=[self.newobj(t) for t in tys]
            st=st.copy()
            if f['spread'] is not None and len(args)!=f['argc']:
                k=f['spread']-1
                args=list(args[:k])+[Agg(tuple(args[k:]))]
            if len(args)!=f['argc']: raise Unsupported(f'arity of {f["name"]}: {len(args)} vs {f["argc"]}')
            for i,a in enumerate(args): st.mem[fr.loc[i+1]]=a
            outs=self.run(fr,st,0,None)
            res=[]
            for o in outs:
                s=o[1]
                r=s.mem.get(fr.loc[0],UNDEF)
                if isinstance(r,Undef): r=UNIT
                for l in fr.loc: s.mem.pop(l,None)
                res.append((s,r))
            return res
        except Unsupported as ex:
            if ex.site is None: ex.site=(self.where(),list(self.stack[-3:]))
            raise
        finally:
            self.depth-=1; self.stack.pop(); self.span=sp
    paths=0
    def run_root(self,fid):
        st=new_state()
        f=self.F[fid]
        f.setdefault('spread',None)
        self.stack=[]
        outs=self.exec_fn(st,fid,[])
        self.paths=len(outs)
        return outs
    PEEK=12
    def peek(self,fr,st,h,loop):
        """a state at the header of a loop whose next test is already decided to leave the loop: the states it
        leaves with (the loop unrolled once for this state); ('fork',c) if the test depends on c; else None"""
        f=fr.f; xd=f.setdefault('_xd',{}).get(h)
        if xd is None:
            bl=f['blocks']; xd={}; layer={b for b in loop[1] if any(s not in loop[1] for s in self.succs(bl[b]['t']))}; d=1
            while layer:
                for b in layer: xd[b]=d
                layer={b for b in loop[1] if b not in xd and b!=h and any(xd.get(s)==d and s!=h for s in self.succs(bl[b]['t']))} | ({h} if h not in xd and any(xd.get(s)==d for s in self.succs(bl[h]['t'])) else set()); d+=1
            f['_xd'][h]=xd
        if xd.get(h,99)>self.PEEK: return None
        m=(len(self.obls),self.reached); self.reached=set(self.reached)
        try: outs=self.run(fr,st.copy(),h,loop,xd)
        except NeedBranch as e: outs=('fork',e.c)
        if isinstance(outs,tuple) or len(outs)!=1 or outs[0][0]=='stay':
            del self.obls[m[0]:]; self.reached=m[1]
            return outs if isinstance(outs,tuple) else None
        return outs
    def run(self,fr,st,bb,loop,peek=None):
        """executes until return / loop back edge / loop exit"""
        f=fr.f; lps=self.loops(f); out=[]
        work=[(st,bb,0,True)]
        blocks=f['blocks']
        while work:
            if len(work)+len(out)>400: raise Budget('too many paths in '+f['name'])
            st,bb,i,first=self.pick(fr,work,loop)
            if i==0:
                if loop is not None:
                    if peek is not None and not first and bb in loop[1] and (bb==loop[0] or bb in lps or peek.get(bb,99)>self.PEEK): out.append(('stay',st)); continue
                    if bb==loop[0] and not first: out.append(('back',st)); continue
                    if bb not in loop[1]: out.append(('exit',st,bb)); continue
                if bb in lps and not (loop is not None and bb==loop[0]):
                    for r in self.do_loop(fr,st,bb,lps[bb]):
                        if r[0]=='ret': out.append(r)
                        else: work.append((r[1],r[2],0,False))
                    continue
            b=blocks[bb]
            try:
                ss=b['s']
                while i<len(ss):
                    s=ss[i]; self.steps+=1
                    if s[0]=='=':
                        self.span=s[3]
                        v=self.rvalue(fr,st,s[2],None)
                        o,path,_=self.place(fr,st,s[1])
                        self.write(st,o,path,v)
                    elif s[0]=='dead': st.mem.pop(fr.loc[s[1]],None)
                    elif s[0]=='sd':
                        o,path,_=self.place(fr,st,s[1])
                        v=self.read(st,o,path)
                        self.write(st,o,path,En(s[2],v.f if isinstance(v,(En,Agg)) else ()))
                    elif s[0]=='assume': pass
                    elif s[0]=='cpy': raise Unsupported('copy_nonoverlapping')
                    i+=1
                t=b['t']; k=t[0]; self.steps+=1
                if k=='goto': work.append((st,t[1],0,False))
                elif k=='switch':
                    self.span=t[4]
                    v=self.force(st,self.operand(fr,st,t[1]))
                    work.append((st,self.switch(st,v,t[2],t[3]),0,False))
                elif k=='ret': out.append(('ret',st))
                elif k=='drop':
                    self.drop_check(t[3])
                    work.append((st,t[2],0,False))
                elif k=='assert':
                    self.span=t[5]
                    c=self.force(st,self.operand(fr,st,t[1]))
                    if not t[2]: c=bnot(c)
                    ok=self.known(st,c)
                    if ok is True:
                        self.obls.append({'kind':'safety','name':t[3],'at':self.where(),'res':'proved','by':'z3' if c is not TRUE else 'normaliser','t':0})
                    else: self.oblige(st,'safety','no '+t[3],c)
                    if ok is not False:
                        st.assume(c); work.append((st,t[4],0,False))
                elif k=='call':
                    self.span=t[5]
                    for (s2,v) in self.call(fr,st,t):
                        if t[4] is None: continue
                        o,path,_=self.place(fr,s2,t[3])
                        self.write(s2,o,path,v)
                        work.append((s2,t[4],0,False))
                elif k=='unreach':
                    if self.feasible(st): self.oblige(st,'safety','unreachable code is not reached',FALSE)
                else: raise Unsupported('terminator '+k)
            except Infeasible: pass
            except NeedBranch as e:
                if peek is not None: raise
                self.nz+=1
                if FORKDBG: print("   FORK",self.where(),self.stack[-1][-50:],repr(e.c)[:150])
                a=st.copy(); a.assume(e.c)
                b2=st; b2.assume(bnot(e.c))
                work.append((b2,bb,i,True)); work.append((a,bb,i,True))
        if len(out)>=self.MERGE: out=self.join_outs(fr,out)
        return out
    def join_outs(self,fr,out):
        groups={}
        for o in out: groups.setdefault((o[0],)+tuple(o[2:]),[]).append(o[1])
        res=[]
        for k,g in groups.items():
            if len(g)>1:
                if k[0]=='ret':
                    for s in g:
                        for l in fr.loc[1:]: s.mem.pop(l,None)
                    g=self.jg(g,0)
                elif k[0]=='exit': g=self.join(g,fr,k[1])
            res+=[(k[0],s)+k[1:] for s in g]
        return res
    MERGE=int(os.environ.get('VERIF_MERGE','3'))
    def pick(self,fr,work,loop):
        """next state to run: mid-block states first, then the block earliest in reverse postorder,
        joining the states that wait there when there are many"""
        if len(work)==1: return work.pop()
        f=fr.f
        for j in range(len(work)-1,-1,-1):
            if work[j][2]!=0 or work[j][3]: return work.pop(j)
        rpo=f.get('_rpo')
        if rpo is None: self.loops(f); rpo=f['_rpo']
        if loop is None: key=lambda b:rpo.get(b,0)
        else: key=lambda b:(1 if b==loop[0] or b not in loop[1] else 0,rpo.get(b,0))
        bb=min((w[1] for w in work),key=key)
        here=[w for w in work if w[1]==bb]
        if len(here)>=self.MERGE and not(loop is not None and (bb==loop[0] or bb not in loop[1])):
            rest=[w for w in work if w[1]!=bb]
            sts=self.join([w[0] for w in here],fr,bb)
            work[:]=rest+[(s,bb,0,False) for s in sts]
            # joined once: run them all before looking at this block again
            x=work.pop()
            for j in range(len(work)):
                if work[j][1]==bb: work[j]=(work[j][0],bb,0,'j')
            return x
        for j in range(len(work)-1,-1,-1):
            if work[j][1]==bb: return work.pop(j)
    def join(self,sts,fr,bb):
        """merges sibling states (complementary branch conditions) whose memories differ in scalars only"""
        live=fr.f['_live'].get(bb); bor_=fr.f['_borrowed']
        if live is not None:
            for s in sts:
                for i,l in enumerate(fr.loc):
                    if i and i not in live and i not in bor_: s.mem.pop(l,None)
        return self.jg(sts,0)
    def jg(self,sts,d):
        if len(sts)==1: return sts
        keys=set(sts[0].mem)
        for s in sts[1:]: keys&=s.mem.keys()
        # only objects that differ somewhere matter for the shape
        diff=[o for o in keys if any(s.mem[o] is not sts[0].mem[o] and s.mem[o]!=sts[0].mem[o] for s in sts[1:])]
        groups={}
        for s in sts: groups.setdefault(tuple(self.shape(s.mem[o]) for o in diff),[]).append(s)
        out=[]
        for g in groups.values(): out+=self.jtrie(g,0) if len(g)>1 else g
        return out
    def shape(self,v):
        if isinstance(v,FV): return ('f',v.k) if v.k=='r' else v
        if isinstance(v,Poly): return 'p'
        if isinstance(v,B): return 'b'
        if isinstance(v,Agg): return ('a',)+tuple(self.shape(x) for x in v.f)
        if isinstance(v,En): return ('e',v.v)+tuple(self.shape(x) for x in v.f)
        return v
    def jtrie(self,sts,d):
        if len(sts)==1: return sts
        p0=sts[0].pc
        while True:
            if any(len(s.pc)<=d for s in sts): return self.jpairs(sts)
            if any(s.pc[d] is not p0[d] for s in sts): break
            d+=1
        parts={}
        for s in sts: parts.setdefault(s.pc[d],[]).append(s)
        res=[]
        for c,g in parts.items(): res+=self.jtrie(g,d+1)
        return self.jpairs(res)
    def jpairs(self,sts):
        out=[]
        for b in sts:
            for k,a in enumerate(out):
                n=0
                while n<len(a.pc) and n<len(b.pc) and a.pc[n] is b.pc[n]: n+=1
                m=self.join2(a,b,n)
                if m is not None: out[k]=m; break
            else: out.append(b)
        return out
    def join2(self,a,b,n):
        if a.gh!=b.gh:
            if JOINDBG: print('   NOJOIN gh',[(k,a.gh.get(k),b.gh.get(k)) for k in set(a.gh)|set(b.gh) if a.gh.get(k)!=b.gh.get(k)])
            return None
        ra,rb=a.pc[n:],b.pc[n:]
        if ra and rb and bnot(ra[0]) is rb[0]: c=ra[0]
        else:
            if len(rb)<len(ra): a,b,ra,rb=b,a,rb,ra
            if not ra: return None
            c=band(*ra)
            # the two states must exclude each other
            if not any(bnot(x) in rb for x in ra) and solver.sat(ra+rb,(),500)!='unsat':
                if JOINDBG: print('   NOJOIN not exclusive',[repr(x)[:100] for x in ra],[repr(x)[:100] for x in rb])
                return None
        upd={}
        for o in set(a.mem)|set(b.mem):
            x,y=a.mem.get(o),b.mem.get(o)
            if x is y: continue
            if x is None or y is None:
                if isinstance(o,tuple) and o[0]=='lz':
                    x,y=self.getobj(a,o),self.getobj(b,o)
                else:
                    upd[o]=x if x is not None else y     # exists on one side only: unreachable from the other
                    continue
            if x==y: continue
            try: upd[o]=self.merge3(a,b,c,x,y)
            except Unsupported:
                if JOINDBG: print('   NOJOIN',o,str(x)[:150],'|',str(y)[:150])
                return None
        m=a.copy(); m.mem=dict(a.mem); m.mem.update(upd)
        m.pc=a.pc[:n]; m.pcs=frozenset(m.pc)
        common=[x for x in ra if x in rb]
        for x in common: m.assume(x)
        g=bor(band(*[x for x in ra if x not in common]),band(*[x for x in rb if x not in common]))
        if g is not TRUE: m.assume(g)
        return m
    def merge3(self,sa,sb,c,a,b):
        if a==b: return a
        if isinstance(a,Lazy) and isinstance(b,Lazy): raise Unsupported('merge')
        if isinstance(a,Lazy): a=self.force_nf(sa,a)
        if isinstance(b,Lazy): b=self.force_nf(sb,b)
        if isinstance(a,(Agg,)) and isinstance(b,Agg) and len(a.f)==len(b.f): return Agg(tuple(self.merge3(sa,sb,c,x,y) for x,y in zip(a.f,b.f)))
        if isinstance(a,En) and isinstance(b,En) and a.v==b.v and len(a.f)==len(b.f): return En(a.v,tuple(self.merge3(sa,sb,c,x,y) for x,y in zip(a.f,b.f)))
        if isinstance(a,(FV,Poly,B)): return self.merge2(c,a,b)
        raise Unsupported('merge')
    def force_nf(self,st,v):
        try: return self.force(st.copy(),v)
        except NeedBranch: raise Unsupported('merge')
    def feasible(self,st): return solver.sat(st.pc,(),solver.DECIDE_MS)!='unsat'
    def switch(self,st,v,brs,otherwise):
        if isinstance(v,B):
            # targets are 0 (false) / 1
            m={int(x):b for x,b in brs}
            if self.decide(st,v): return m.get(1,otherwise)
            return m.get(0,otherwise)
        if isinstance(v,Poly):
            if v.is_const():
                n=v.const()
                for x,b in brs:
                    x=int(x)
                    if x==n: return b
                    if n<0 and any(x==n+2**w for w in(8,16,32,64,128)): return b
                return otherwise
            for x,b in brs:
                if self.decide(st,eq(v,topoly(int(x)))): return b
            return otherwise
        raise Unsupported('switch on '+type(v).__name__)
    def drop_check(self,t):
        if t is None: return
        d=self.T[t]
        if d['k']=='adt' and d.get('dtor') and d['krate'] not in('core','alloc','std','anyhow'): raise Unsupported('user destructor '+d['s'])
    # ------------------------------------------------------------ calls
    def call(self,fr,st,t):
        fop=t[1]
        ft=self.op_ty(fr,fop); d=self.T[ft]
        args=[self.operand(fr,st,a) for a in t[2]]
        atys=[self.op_ty(fr,a) for a in t[2]]
        if d['k']=='fndef':
            return self.call_def(st,d,args,atys,t)
        fv=self.force(st,self.operand(fr,st,fop))
        if isinstance(fv,FnV): return self.call_fnv(st,fv,args,atys,t)
        raise Unsupported('call through '+d['k'])
    def call_fnv(self,st,fv,args,atys,t=None):
        if fv.i[0]=='i': return self.call_inst(st,fv.i[1],args,atys,t)
        return self.call_def(st,self.T[fv.i[1]],args,atys,t)
    def call_def(self,st,d,args,atys,t=None):
        inst=d['inst']
        if inst=='virtual':
            p=self.force(st,args[0])
            if isinstance(p,BoxV): p=p.p
            if isinstance(p,Ptr) and isinstance(p.meta,tuple) and p.meta[0]=='vt':
                if re.search(r'ops::(function::)?Fn(Mut|Once)?::call',d['def']):
                    return self.call_closure(st,Ptr(p.o,p.path,None) if self.T[p.meta[1]]['k']=='closure' else self.read(st,p.o,p.path),p.meta[1],list(self.force(st,args[1]).f))
                i=self.virt.get((d['def'],p.meta[1]))
                if i is not None:
                    return self.call_inst(st,i,[Ptr(p.o,p.path,None)]+list(args[1:]),atys,t)
            raise Unsupported('virtual call '+d['def'])
        if inst is None: raise Unsupported('unresolved call '+d['def'])
        f=self.F[inst]
        if d['def'].split('::')[-1] in('call','call_mut','call_once') and re.search(r'ops::(function::)?Fn(Mut|Once)?::call',d['def']):
            if f['kind']=='item' or not re.search(r'ops::(function::)?Fn',f['def']):
                # closure body / fn item: untuple the arguments
                tup=self.force(st,args[1])
                return self.call_closure_body(st,inst,args[0],list(tup.f),t)
            if f['kind']=='shim':
                return self.call_shim(st,f,inst,args,atys,t)
        return self.call_inst(st,inst,args,atys,t)
    def call_shim(self,st,f,inst,args,atys,t):
        # FnOnce::call_once shim for a closure taken by value, or Fn for fn items/references
        st2=st.copy()
        selfty=atys[0]
        tup=self.force(st,args[1])
        return self.call_closure(st2,args[0],selfty,list(tup.f))
    def call_closure_body(self,st,inst,env,args,t=None):
        f=self.F[inst]
        if 'blocks' not in f or len(args)+1!=f['argc']:
            if 'blocks' in f and f['argc']==len(args) : return self.call_inst(st,inst,args,None,t)   # fn item
            return self.call_inst(st,inst,[env]+args,None,t)
        want=self.T[f['locals'][1]]['k']
        if want=='ref' and not isinstance(env,Ptr):
            st=st.copy(); env=Ptr(self.alloc(st,env),(),None)
        elif want=='closure' and isinstance(env,Ptr): env=self.read(st,env.o,env.path)
        return self.call_inst(st,inst,[env]+args,None,t)
    def call_closure(self,st,val,ty,args):
        """calls a closure / fn item / reference to one with plain arguments"""
        d=self.T[ty]
        while d['k'] in('ref','ptr') or self.is_box(ty):
            ty=self.pointee(ty); d=self.T[ty]
            p=self.force(st,val); p=p.p if isinstance(p,BoxV) else p
            if d['k']=='dyn':
                if not (isinstance(p,Ptr) and isinstance(p.meta,tuple)): raise Unsupported('dyn closure')
                ty=p.meta[1]; d=self.T[ty]; val=Ptr(p.o,p.path,None); break
            if d['k']=='closure': val=p; break
            val=self.read(st,p.o,p.path)
        if d['k']=='closure':
            if d['inst'] is None: raise Unsupported('closure instance')
            return self.call_closure_body(st,d['inst'],val,args)
        if d['k']=='fndef': return self.call_def(st,d,args,None)
        if d['k']=='fnptr': return self.call_fnv(st,self.force(st,val),args,None)
        raise Unsupported('call of '+d['s'])
    def call_inst(self,st,inst,args,atys,t=None):
        f=self.F[inst]
        self.check_time()
        for rx,h in self.overrides:
            if rx.search(f['name']):
                r=h(self,st,f,args)
                if r is not NotImplemented: return r
        for rx,ty,h in st.gh.get('ctr',()):
            if rx.search(f['name']): return self.call_closure(st,h,ty,args)
        m=self.models.lookup(self,f)
        if m is not None:
            s2=st.copy()
            r=m(self,s2,f,args,atys)
            if r is not NotImplemented:
                key=f['def']
                if not key.startswith('vh::vrt'): self.models_used[key]=self.models_used.get(key,0)+1
                return r if isinstance(r,list) else [(s2,r)]
        if f.get('ret') is not None:     # a constructor used as a function
            d=self.T[f['ret']]; n=f['def'].split('::')[-1]
            if d['k']=='adt' and d.get('v'):
                for i,v in enumerate(d['v']):
                    if v['n']==n and len(v['f'])==len(args): return [(st,En(i,tuple(args)) if d['kind']=='enum' else Agg(tuple(args)))]
        if t is not None and t[4] is None and 'blocks' not in f or self.models.is_panic(f):
            if self.feasible(st): self.oblige(st,'safety','no panic: '+f['def'].split('::')[-1]+self.models.panic_msg(args),FALSE)
            return []
        if f.get('cut') or f.get('nobody') or 'intr' in f: raise Unsupported('call to '+f['name'])
        return self.exec_fn(st,inst,args)
    # ------------------------------------------------------------ generic evaluation and merging
    def generic(self,st,n,fn,hint='g'):
        """value of fn(state,g) for an arbitrary index g<n; side effects not allowed. returns (g,value)"""
        g=fresh(hint,'i')
        s=st.copy(); s.assume(le0(-g)); s.assume(lt(g,n))
        k=len(s.pc)
        outs=fn(s,g)
        return g,self.merge_vals(s,outs,k)
    def merge_vals(self,s,outs,k):
        if not outs: raise Unsupported('no outcome in generic evaluation')
        for o,v in outs:
            for ob,val in s.mem.items():
                nv=o.mem.get(ob)
                if nv is not val and nv!=val: raise Unsupported('side effect in generic evaluation')
        r=outs[-1][1]
        for o,v in reversed(outs[:-1]):
            r=self.merge2(band(*o.pc[k:]),v,r)
        return r
    def merge2(self,c,a,b):
        if a==b: return a
        if isinstance(a,FV) and isinstance(b,FV) and a.k==b.k=='r': return FV('r',ite(c,a.p,b.p))
        if isinstance(a,Poly) and isinstance(b,Poly): return ite(c,a,b)
        if isinstance(a,B) and isinstance(b,B): return bor(band(c,a),band(bnot(c),b))
        if isinstance(a,Agg) and isinstance(b,Agg): return Agg(tuple(self.merge2(c,x,y) for x,y in zip(a.f,b.f)))
        if isinstance(a,En) and isinstance(b,En) and a.v==b.v: return En(a.v,tuple(self.merge2(c,x,y) for x,y in zip(a.f,b.f)))
        raise Unsupported('merge of '+repr(type(a))+repr(type(b)))
    # ------------------------------------------------------------ loops
    def do_loop(self,fr,st,h,info):
        blocks,live=info
        loop=(h,blocks)
        dead=[l for i,l in enumerate(fr.loc) if i not in live and i not in fr.f['_borrowed']]
        st=st.copy()
        for l in dead: st.mem.pop(l,None)
        mark=(len(self.obls),set(self.reached))
        frontier=[st]; done=[]; n=0; key=(tuple(self.stack),fr.fid,h); ambiguous=key in self.amb
        while frontier and not ambiguous:
            nf=[]
            for s in frontier:
                s=s.copy(); c0=s.gh.get('cnext',0)
                for l in dead: s.mem.pop(l,None)
                outs=self.run(fr,s,h,loop)
                backs=[o for o in outs if o[0]=='back']; ex=[o for o in outs if o[0]!='back']
                conc=any(o[1].gh.get('cnext',0)>c0 for o in outs)
                if backs and ex and not conc: ambiguous=True; break
                if len(backs)>1 and len(nf)>40: ambiguous=True; break
                nf+=[o[1] for o in backs]; done+=ex
            if ambiguous: break
            n+=1
            if n>300 or len(nf)>64: ambiguous=True; break
            frontier=nf
        if not ambiguous: return done
        self.amb.add(key)
        del self.obls[mark[0]:]; self.reached=mark[1]
        import loops
        return loops.invariant_mode(self,fr,st,loop,dead)
