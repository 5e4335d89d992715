"""Contracts of the standard-library leaf functions (trusted), and the meaning of the specification
primitives in contracts/src/vrt.rs."""
import re, math
from fractions import Fraction
from terms import *
from values import *
import exec as X
from exec import Unsupported, NeedBranch
import solver

EXACT={}; RX=[]; _cache={}
def model(*names):
    def d(fn):
        for n in names: EXACT[n]=fn
        return fn
    return d
def rx(*pats):
    def d(fn):
        for p in pats: RX.append((re.compile(p),fn))
        return fn
    return d
def intr(*names):
    def d(fn):
        for n in names: EXACT['intr:'+n]=fn
        return fn
    return d
def lookup(e,f):
    k=f.get('_m',0)
    if k!=0: return k
    d=f['def']; m=EXACT.get(d)
    if m is None and 'intr' in f: m=EXACT.get('intr:'+f['intr'])
    if m is None:
        for p,fn in RX:
            if p.search(d): m=fn; break
    f['_m']=m
    return m
PANIC=re.compile(r'^(core::panicking::|std::rt::(panic|begin_panic)|std::panicking::|std::option::(unwrap_failed|expect_failed)|std::result::unwrap_failed|core::slice::index::slice_|core::slice::(copy_from_slice|split)|alloc::raw_vec::(handle_error|capacity_overflow)|std::alloc::handle_alloc_error|core::cell::panic|std::cell::panic|core::str::slice_error|std::process::abort|std::thread::local::panic|core::option::|std::vec::Vec::<T, A>::(remove|insert|swap_remove|split_off)::assert_failed)|::panic_')
def is_panic(f): return bool(PANIC.search(f['def'])) and ('blocks' not in f or f['def'].startswith(('core::panicking','std::rt')))
def panic_msg(args):
    for a in args or ():
        if isinstance(a,StrP): return ' ('+a.s[:60]+')'
    return ''
def deref(e,st,p): return e.deref_val(st,p)
def thin(p): return Ptr(p.o,p.path,None)
def selfseq(e,st,p):
    """(Ptr to container, its Seq) for &[T], &Vec<T>, &[T;N]"""
    return e.as_seq(st,e.deref_val(st,p))
def slice_ptr(e,st,p):
    """fat slice pointer for &[T] / &Vec<T> / &[T;N]"""
    if isinstance(p,BoxV): p=p.p
    if isinstance(p.meta,Poly): return p
    v=e.force(st,e.read(st,p.o,p.path))
    if isinstance(v,VecV): return Ptr(p.o,p.path+(('buf',),),slen(v.s))
    if isinstance(v,Tok): return v
    if isinstance(v,Seq): return Ptr(p.o,p.path,slen(v))
    if isinstance(v,(Ptr,BoxV)): return slice_ptr(e,st,v)
    raise Unsupported('slice of '+type(v).__name__)
def some(v): return En(1,(v,))
NONE=En(0,())
def last_ty(f):
    for a in reversed(f['args']):
        if isinstance(a,int): return a
def elem_ptr(p,i,e): return Ptr(p.o,e.padd(p.path,i),None)

# ================================================================ specification primitives
def uniq(st,name):
    it=st.gh.get('iter')
    if it: name=f"{name}@{it}"     # a value chosen inside a loop body: a different one in each iteration
    k='n:'+name; c=st.gh.get(k,0); st.gh[k]=c+1
    return name if c==0 else f"{name}'{c}"
def sarg(a):
    if isinstance(a,StrP): return a.s
    raise Unsupported('symbolic name')
P='vh::vrt::'
@model(P+'any_f64')
def _(e,st,f,a,t): return R(sym(uniq(st,sarg(a[0]))))
@model(P+'any_xf64')
def _(e,st,f,a,t): return Lazy(uniq(st,sarg(a[0])),last_float(e),(),True)
def last_float(e):
    for i,t in enumerate(e.T):
        if t['k']=='float': return i
@model(P+'any_pos')
def _(e,st,f,a,t):
    p=sym(uniq(st,sarg(a[0]))); st.assume(lt(ZERO,p)); return R(p)
@model(P+'any_nonneg')
def _(e,st,f,a,t):
    p=sym(uniq(st,sarg(a[0]))); st.assume(le(ZERO,p)); return R(p)
@model(P+'any_usize')
def _(e,st,f,a,t): return sym(uniq(st,sarg(a[0])),'i',0,2**64-1)
@model(P+'any_u8')
def _(e,st,f,a,t): return sym(uniq(st,sarg(a[0])),'i',0,255)
@model(P+'any_bool')
def _(e,st,f,a,t): return eq(sym(uniq(st,sarg(a[0])),'i',0,1),ONE)
@model(P+'any_len')
def _(e,st,f,a,t): return sym(uniq(st,sarg(a[0])),'i',0,X.LENMAX)
@model(P+'any_vec')
def _(e,st,f,a,t): return VecV(mkseq(e.ochunk(a[1],uniq(st,sarg(a[0])),last_float(e),(),ZERO,False)))
@model(P+'any_xvec')
def _(e,st,f,a,t): return VecV(mkseq(e.ochunk(a[1],uniq(st,sarg(a[0])),last_float(e),(),ZERO,True)))
@model('<std::option::Option<T> as std::clone::Clone>::clone')
def _(e,st,f,a,t):
    """a clone of an optional primitive is that value"""
    if e.T[last_ty(f)]['k'] in('float','int','bool','char'): return deref(e,st,a[0])
    return NotImplemented
@model(P+'any_vec_u8',P+'any_vec_usize')
def _(e,st,f,a,t):
    w='u8' if f['def'].endswith('u8') else 'usize'
    ty=[i for i,d in enumerate(e.T) if d['k']=='int' and d['s']==w][0]
    return VecV(mkseq(e.ochunk(a[1],uniq(st,sarg(a[0])),ty,(),ZERO,False)))
@model(P+'any_vec_of')
def _(e,st,f,a,t): return VecV(mkseq(e.ochunk(a[1],uniq(st,sarg(a[0])),last_ty(f),(),ZERO,False)))
@model(P+'any')
def _(e,st,f,a,t): return Lazy(uniq(st,sarg(a[0])),last_ty(f),(),False)
@model(P+'any_string')
def _(e,st,f,a,t): return Opq('str:'+uniq(st,sarg(a[0])))
@model(P+'assume')
def _(e,st,f,a,t):
    c=a[0]
    if c is FALSE: return []
    st.assume(c)
    if not e.feasible(st): return []
    return UNIT
@model(P+'ensures')
def _(e,st,f,a,t):
    e.oblige(st,'ensures',sarg(a[0]),a[1]); return UNIT
@model(P+'native')
def _(e,st,f,a,t): return FALSE
@model(P+'reach')
def _(e,st,f,a,t):
    n=sarg(a[0])
    if n not in e.reached and e.feasible(st): e.reached.add(n)
    return UNIT
@model(P+'req')
def _(e,st,f,a,t):
    x,y=e.force(st,a[0]),e.force(st,a[1])
    if x.k=='nan' and y.k=='nan': return TRUE
    return e.val_eq(st,x,y)
@model(P+'seq_eq',P+'same_seq')
def _(e,st,f,a,t): return e.seq_eq(st,selfseq(e,st,a[0]),selfseq(e,st,a[1]),e.val_eq)
@model(P+'same')
def _(e,st,f,a,t): return e.val_eq(st,a[0],a[1])
def lam_of(st,e,s):
    """canonical argument describing a sequence of reals"""
    if len(s.ch)==0: return ('L',)
    if len(s.ch)==1:
        c=s.ch[0]
        if isinstance(c,M):
            if not isinstance(c.t,FV) or c.t.k!='r': raise Unsupported('sequence argument')
            return (c.n,c.t.p,c.l)
        if isinstance(c,L):
            vs=[e.force(st,x) for x in c.v]
            if any(v.k!='r' for v in vs): raise Unsupported('nonfinite argument of rhs')
            return ('L',)+tuple(v.p for v in vs)
    raise Unsupported('irregular sequence argument')
@model(P+'rhs')
def _(e,st,f,a,t):
    p,tt=e.force(st,a[0]),e.force(st,a[1]); s=selfseq(e,st,a[2])
    if p.k!='r' or tt.k!='r': raise Unsupported('nonfinite argument of rhs')
    lam=lam_of(st,e,s); n=slen(s)
    if lam[0]=='L':
        return VecV(mkseq(L(tuple(R(app('rhs',p.p,tt.p,lam,topoly(i))) for i in range(len(lam)-1)))))
    base=app('rhs',p.p,tt.p,lam,ZERO)
    l=base.lvl+1
    return VecV(mkseq(M(n,R(app('rhs',p.p,tt.p,lam,bnd(l))),l)))
@model(P+'fun')
def _(e,st,f,a,t):
    """uninterpreted real function of (name, index, reals)"""
    name=sarg(a[0]); s=selfseq(e,st,a[2]); lam=lam_of(st,e,s)
    return R(app('fun:'+name,a[1],lam))
@model(P+'fun_vec')
def _(e,st,f,a,t):
    """vector of n uninterpreted reals depending on (name, reals)"""
    name=sarg(a[0]); n=a[1]; s=selfseq(e,st,a[2]); lam=lam_of(st,e,s)
    base=app('funv:'+name,lam,ZERO); l=max(base.lvl,n.lvl)+1
    return VecV(mkseq(M(n,R(app('funv:'+name,lam,bnd(l))),l)))
@model(P+'vdot')
def _(e,st,f,a,t):
    raise Unsupported('vdot')
@model(P+'forall')
def _(e,st,f,a,t):
    n=a[0]; env=Ptr(e.alloc(st,a[1]),(),None); ty=last_ty(f)
    if n.is_const() and n.const()<=6:
        outs=[(st,TRUE)]
        for i in range(int(n.const())):
            nx=[]
            for s,b in outs:
                for s2,v in e.call_closure(s,env,ty,[topoly(i)]): nx.append((s2,band(b,v)))
            outs=nx
        return outs
    g=fresh('q','i'); s=st.copy(); s.assume(le0(-g)); s.assume(lt(g,n)); k=len(s.pc)
    outs=e.call_closure(s,env,ty,[g])
    if not outs and solver.prove(s.pc,FALSE)[0]=='proved': return TRUE     # no index in range
    v=e.merge_vals(s,outs,k)
    if v is TRUE: return TRUE
    if s.pcs and e.known(s,v) is True: return TRUE
    l=max(v.lvl,n.lvl)+1
    return mkb('all',(n,subst_b(v,{single_atom(g):bnd(l)}),l))
@model(P+'loop_inv')
def _(e,st,f,a,t):
    """loop_inv(name, closure): a candidate invariant for every symbolic loop from here on"""
    env=Ptr(e.alloc(st,a[1]),(),None)
    st.gh['inv']=st.gh.get('inv',())+((sarg(a[0]),env,last_ty(f)),)
    return UNIT
@model(P+'loop_inv_over')
def _(e,st,f,a,t):
    """loop_inv_over(name, |v| ..): the same, for every float a loop changes"""
    env=Ptr(e.alloc(st,a[1]),(),None)
    st.gh['invt']=st.gh.get('invt',())+((sarg(a[0]),env,last_ty(f)),)
    return UNIT
@model(P+'no_loop_inv')
def _(e,st,f,a,t):
    st.gh['inv']=(); st.gh['invt']=(); return UNIT
@model(P+'tick',P+'in_range')
def _(e,st,f,a,t): return UNIT
@model(P+'use_contract')
def _(e,st,f,a,t):
    """use_contract(name, f): calls of the functions whose name ends with `::name` go to f instead"""
    st.gh['ctr']=st.gh.get('ctr',())+((re.compile('::'+re.escape(sarg(a[0]))+'$'),last_ty(f),a[1]),)
    return UNIT
@model(P+'ghost_add')
def _(e,st,f,a,t):
    k='gc:'+sarg(a[0]); st.gh[k]=st.gh.get(k,0)+1; return UNIT
@model(P+'ghost_get')
def _(e,st,f,a,t): return topoly(st.gh.get('gc:'+sarg(a[0]),0))

# ================================================================ intrinsics
@intr('fabs','fabsf64')
def _(e,st,f,a,t):
    v=e.force(st,a[0])
    if v.k=='r':
        k=e.known(st,le(ZERO,v.p))
        return v if k else FV('r',-v.p) if k is False else FV('r',ite(le(ZERO,v.p),v.p,-v.p))
    return NAN if v.k=='nan' else INF
@intr('sqrt','sqrtf64')
def _(e,st,f,a,t):
    v=e.force(st,a[0])
    if v.k=='r':
        if e.decide(st,lt(v.p,ZERO)): return NAN
        return FV('r',psqrt(v.p))
    return INF if v.k=='inf' else NAN
def psqrt(p):
    if p.is_const():
        c=p.const(); n,d=math.isqrt(c.numerator),math.isqrt(c.denominator)
        if n*n==c.numerator and d*d==c.denominator: return topoly(Fraction(n,d))
    return app('sqrt',p)
@intr('powi','powif64')
def _(e,st,f,a,t):
    v=e.force(st,a[0]); n=a[1]
    if not n.is_const(): raise Unsupported('powi with symbolic exponent')
    return fpowi(e,st,v,int(n.const()))
def fpowi(e,st,v,n):
    if n==0: return R(1)
    if v.k=='r':
        if n>0: return FV('r',ppow(v.p,n))
        return e.fbin(st,'Div',R(1),FV('r',ppow(v.p,-n)))
    if v.k=='nan': return NAN
    if n>0: return INF if v.k=='inf' or n%2==0 else NINF
    return R(0)
@intr('powf','powf64')
def _(e,st,f,a,t):
    return fpow(e,st,e.force(st,a[0]),e.force(st,a[1]))
def fpow(e,st,x,y):
    if y.k!='r' : raise Unsupported('powf exponent')
    ia=[a for a in (x for m in y.p.m for x,_ in m) if a.kind=='ite']
    if ia and not ia[0].fr:
        a=ia[0]; b=e.decide(st,a.data[0])
        return fpow(e,st,x,FV('r',subst(y.p,{a:a.data[1] if b else a.data[2]})))
    if y.p.is_const():
        c=y.p.const()
        if c.denominator==1 and abs(c)<=32: return fpowi(e,st,x,int(c))
        if x.k=='nan': return NAN
        if x.k=='inf': return INF if c>0 else R(0)
        if x.k=='ninf': return INF if c>0 else R(0)
        if e.decide(st,lt(x.p,ZERO)): return NAN
        if e.decide(st,eq(x.p,ZERO)): return R(0) if c>0 else INF
        return FV('r',ppowf(x.p,c))
    if x.k!='r': raise Unsupported('powf of nonfinite with symbolic exponent')
    if e.decide(st,lt(ZERO,x.p)): return FV('r',app('powf',x.p,y.p))
    raise Unsupported('powf base')
def ppowf(p,c):
    """p^c for p>0, canonical orientation"""
    if p.is_const() and p.const()==1: return ONE
    if c<0: return pinv(ppowf(p,-c))
    if len(p.m)==1:
        (mon,k),=p.m.items()
        if mon and mon[0][1]<0: return pinv(ppowf(pinv(p),c))
    if c==Fraction(1,2): return psqrt(p)
    return app('powf',p,topoly(c))
@intr('minimum_number_nsz_f64','minnumf64','minimum_number_f64')
def _(e,st,f,a,t): return e.fmin(st,e.force(st,a[0]),e.force(st,a[1]))
@intr('maximum_number_nsz_f64','maxnumf64','maximum_number_f64')
def _(e,st,f,a,t): return e.fmin(st,e.force(st,a[0]),e.force(st,a[1]),True)
@intr('fmaf64','fma','fmuladdf64')
def _(e,st,f,a,t):
    x,y,z=[e.force(st,v) for v in a]
    return e.fbin(st,'Add',e.fbin(st,'Mul',x,y),z)
@intr('sin','cos','exp','log','sinf64','cosf64','expf64','logf64','exp2','log2','log10','tan')
def _(e,st,f,a,t):
    v=e.force(st,a[0]); n=f['intr'].replace('f64','')
    if v.k!='r': raise Unsupported(n+' of nonfinite')
    return FV('r',app(n,v.p))
@intr('floor','floorf64')
def _(e,st,f,a,t):
    v=e.force(st,a[0]); return FV('r',app('floor',v.p,sort='i')) if v.k=='r' else v
@intr('ceil','ceilf64')
def _(e,st,f,a,t):
    v=e.force(st,a[0]); return FV('r',-app('floor',-v.p,sort='i')) if v.k=='r' else v
@intr('trunc','truncf64')
def _(e,st,f,a,t):
    v=e.force(st,a[0])
    if v.k!='r': return v
    if e.decide(st,le(ZERO,v.p)): return FV('r',app('floor',v.p,sort='i'))
    return FV('r',-app('floor',-v.p,sort='i'))
@intr('copysign','copysignf64')
def _(e,st,f,a,t):
    x,y=[e.force(st,v) for v in a]
    if x.k=='r' and y.k=='r':
        m=ite(le(ZERO,x.p),x.p,-x.p)
        return FV('r',ite(le(ZERO,y.p),m,-m))
    raise Unsupported('copysign')
@model('core::f64::<impl f64>::is_nan')
def _(e,st,f,a,t): return bbool(e.force(st,a[0]).k=='nan')
@model('core::f64::<impl f64>::is_finite')
def _(e,st,f,a,t): return bbool(e.force(st,a[0]).k=='r')
@model('core::f64::<impl f64>::is_infinite')
def _(e,st,f,a,t): return bbool(e.force(st,a[0]).k in('inf','ninf'))
@model('core::f64::<impl f64>::signum')
def _(e,st,f,a,t):
    v=e.force(st,a[0])
    if v.k=='r': return R(1) if e.decide(st,le(ZERO,v.p)) else R(-1)
    return {'nan':NAN,'inf':R(1),'ninf':R(-1)}[v.k]
@model('core::f64::<impl f64>::is_sign_negative','core::f64::<impl f64>::is_sign_positive')
def _(e,st,f,a,t):
    v=e.force(st,a[0]); neg=lt(v.p,ZERO) if v.k=='r' else bbool(v.k=='ninf')
    return neg if 'negative' in f['def'] else bnot(neg)
@model('core::f64::<impl f64>::total_cmp')
def _(e,st,f,a,t):
    x,y=e.force(st,deref(e,st,a[0])),e.force(st,deref(e,st,a[1]))
    if e.decide(st,e.fcmp('Lt',x,y)): return En(0,())
    if e.decide(st,e.fcmp('Eq',x,y)): return En(1,())
    return En(2,())
@model('std::f64::<impl f64>::hypot')
def _(e,st,f,a,t):
    x,y=[e.force(st,v) for v in a]
    if x.k!='r' or y.k!='r': raise Unsupported('hypot')
    return FV('r',psqrt(x.p*x.p+y.p*y.p))
@model('std::f64::<impl f64>::cbrt')
def _(e,st,f,a,t):
    x=e.force(st,a[0])
    if x.k=='r' and e.decide(st,lt(ZERO,x.p)): return FV('r',ppowf(x.p,Fraction(1,3)))
    raise Unsupported('cbrt')
@intr('integer_min')
def _(e,st,f,a,t):
    k=e.known(st,le(a[0],a[1])); return (a[0] if k else a[1]) if k is not None else ite(le(a[0],a[1]),a[0],a[1])
@intr('integer_max')
def _(e,st,f,a,t):
    k=e.known(st,le(a[1],a[0])); return (a[0] if k else a[1]) if k is not None else ite(le(a[1],a[0]),a[0],a[1])
@intr('cold_path','assert_inhabited','assert_zero_valid','assert_mem_uninitialized_valid','assume')
def _(e,st,f,a,t): return UNIT
@intr('likely','unlikely','black_box')
def _(e,st,f,a,t): return a[0]
@intr('saturating_add','saturating_sub')
def _(e,st,f,a,t):
    ty=f['args'][0]; lo,hi=e.irange(ty)
    r=a[0]+a[1] if f['intr']=='saturating_add' else a[0]-a[1]
    if e.decide(st,lt(r,topoly(lo))): return topoly(lo)
    if e.decide(st,lt(topoly(hi),r)): return topoly(hi)
    return r
@intr('wrapping_add','wrapping_sub','wrapping_mul')
def _(e,st,f,a,t):
    op={'add':'Add','sub':'Sub','mul':'Mul'}[f['intr'][9:]]
    return e.binop(st,op,a[0],a[1],f['args'][0],f['args'][0])
@intr('add_with_overflow','sub_with_overflow','mul_with_overflow')
def _(e,st,f,a,t):
    op={'add':'Add','sub':'Sub','mul':'Mul'}[f['intr'][:3]]
    return e.binop(st,op+'WithOverflow',a[0],a[1],f['args'][0],f['args'][0])
@intr('unchecked_add','unchecked_sub','unchecked_mul')
def _(e,st,f,a,t):
    op={'add':'Add','sub':'Sub','mul':'Mul'}[f['intr'][10:]]
    return e.binop(st,op+'Unchecked',a[0],a[1],f['args'][0],f['args'][0])
@intr('discriminant_value')
def _(e,st,f,a,t):
    v=e.force(st,deref(e,st,a[0])); ty=f['args'][0]
    if isinstance(v,En): return topoly(int(e.T[ty]['v'][v.v]['d']))
    raise Unsupported('discriminant_value')
@intr('read_via_copy','volatile_load')
def _(e,st,f,a,t): return deref(e,st,a[0])
@model('std::ptr::read','core::ptr::read')
def _(e,st,f,a,t): return deref(e,st,a[0])
@intr('write_via_move')
def _(e,st,f,a,t): e.write(st,a[0].o,a[0].path,a[1]); return UNIT
@model('std::ptr::write','core::ptr::write')
def _(e,st,f,a,t): e.write(st,a[0].o,a[0].path,a[1]); return UNIT
@intr('size_of','min_align_of','align_of','size_of_val')
def _(e,st,f,a,t):
    s=e.T[f['args'][0]].get('size')
    if f['intr']=='size_of' and s is not None: return topoly(s)
    return topoly(8)
@intr('needs_drop')
def _(e,st,f,a,t): return FALSE
@intr('ub_checks','contract_checks','is_val_statically_known')
def _(e,st,f,a,t): return FALSE
@rx(r'precondition_check$|::check_language_ub$')
def _(e,st,f,a,t): return UNIT
@rx(r'ptr::drop_in_place|ptr::drop_glue|^std::mem::(drop|forget)$')
def _(e,st,f,a,t): return UNIT
@model('std::mem::replace')
def _(e,st,f,a,t):
    o=deref(e,st,a[0]); e.write(st,a[0].o,a[0].path,a[1]); return o
@model('std::mem::swap')
def _(e,st,f,a,t):
    x=deref(e,st,a[0]); y=deref(e,st,a[1])
    e.write(st,a[0].o,a[0].path,y); e.write(st,a[1].o,a[1].path,x); return UNIT
@model('core::slice::<impl [T]>::swap')
def _(e,st,f,a,t):
    p=slice_ptr(e,st,a[0]); s=selfseq(e,st,a[0])
    for i in a[1:]: bounds(e,st,i,p.meta)
    x=e.seq_get(st,s,a[1]); y=e.seq_get(st,s,a[2])
    e.write(st,p.o,e.padd(p.path,a[1]),y); e.write(st,p.o,e.padd(p.path,a[2]),x); return UNIT

# ================================================================ cloning
def clone_val(e,st,v,ty=None,depth=0):
    """value of <T as Clone>::clone for owned data (derived or std clone)"""
    if isinstance(v,BoxV):
        inner=clone_val(e,st,e.read(st,v.p.o,v.p.path),None,depth+1)
        return BoxV(Ptr(e.alloc(st,inner),(),v.p.meta))
    if isinstance(v,Agg): return Agg(tuple(clone_val(e,st,x,None,depth+1) for x in v.f))
    if isinstance(v,En): return En(v.v,tuple(clone_val(e,st,x,None,depth+1) for x in v.f))
    if isinstance(v,VecV): return VecV(clone_val(e,st,v.s))
    if isinstance(v,Seq): return Seq(tuple(L(tuple(clone_val(e,st,x,None,depth+1) for x in c.v)) if isinstance(c,L) else c for c in v.ch))
    return v
def clone_elem(e,st,v,ty):
    """[(st,value)]: clone of one element of type ty, through the type's own Clone when it is user code"""
    if ty is not None:
        d=e.T[ty]
        if d['k']=='adt' and d['krate'] not in('core','alloc','std'):
            for i in e.byname.get(f"<{d['def']} as std::clone::Clone>::clone",()):
                if [x for x in e.F[i]['args']]==[x for x in d['args']]:
                    s=st.copy(); p=Ptr(e.alloc(s,v),(),None)
                    return e.call_inst(s,i,[p],None)
    return [(st,clone_val(e,st,v))]
def clone_seq(e,st,s,ty):
    outs=[(st,())]
    for c in s.ch:
        if isinstance(c,L) and c.v and isinstance(c.v[0],(Agg,En,BoxV,Lazy)) and ty is not None and e.T[ty]['k']=='adt':
            acc=[(x,o,()) for x,o in outs]
            for v in c.v:
                acc=[(s3,o,vs+(nv,)) for s2,o,vs in acc for s3,nv in clone_elem(e,s2,v,ty)]
            outs=[(s2,o+(L(vs),)) for s2,o,vs in acc]
        else: outs=[(s2,o+(clone_val(e,s2,Seq((c,))).ch if isinstance(c,L) else (c,))) for s2,o in outs]
    return [(s2,mkseq(*o)) for s2,o in outs]
@model('<std::vec::Vec<T, A> as std::clone::Clone>::clone')
def _(e,st,f,a,t):
    x=a[0] if isinstance(a[0],Tok) else e.force(st,deref(e,st,a[0]))
    if isinstance(x,Tok): return x
    return [(s,VecV(q)) for s,q in clone_seq(e,st,selfseq(e,st,a[0]),f['args'][0])]
@rx(r'^<std::vec::Vec<T, A> as std::clone::Clone>::clone_from$',r'^<std::vec::Vec<T, A> as std::clone::Clone>::clone_from')
def _(e,st,f,a,t):
    r=[]
    for s,q in clone_seq(e,st,selfseq(e,st,a[1]),f['args'][0]):
        s=s.copy(); e.write(s,a[0].o,a[0].path,VecV(q)); r.append((s,UNIT))
    return r
@model('core::slice::<impl [T]>::contains')
def _(e,st,f,a,t):
    q=selfseq(e,st,a[0]); x=whole(e,st,a[1]); n=slen(q)
    if not n.is_const() or not all(isinstance(c,L) for c in q.ch): raise Unsupported('contains')
    r=FALSE
    for c in q.ch:
        for v in c.v: r=bor(r,e.val_eq(st,whole(e,st,v),x))
    return r
@model('std::slice::<impl [T]>::to_vec','std::slice::<impl std::borrow::ToOwned for [T]>::to_owned')
def _(e,st,f,a,t):
    x=a[0] if isinstance(a[0],Tok) else e.force(st,deref(e,st,a[0]))
    if isinstance(x,Tok): return x
    return [(s,VecV(q)) for s,q in clone_seq(e,st,selfseq(e,st,a[0]),f['args'][0])]
@rx(r'array::<impl std::clone::Clone for \[T; N\]>::clone')
def _(e,st,f,a,t): return clone_seq(e,st,selfseq(e,st,a[0]),f['args'][0])
@model('<std::boxed::Box<T, A> as std::clone::Clone>::clone')
def _(e,st,f,a,t):
    b=e.force(st,deref(e,st,a[0]))
    v=e.read(st,b.p.o,b.p.path)
    return [(s,BoxV(Ptr(e.alloc(s,nv,f['args'][0]),(),None))) for s,nv in clone_elem(e,st,v,f['args'][0])]
@rx(r'^<std::(slice::Iter|iter::\w+|ops::Range\w*|vec::IntoIter).* as std::clone::Clone>::clone$',r'<impl std::clone::Clone for (&T|\(\))>::clone')
def _(e,st,f,a,t): return deref(e,st,a[0])

# ================================================================ Box
@model('std::boxed::Box::<T>::new','std::boxed::Box::<T>::pin','std::boxed::Box::<T, A>::new_in')
def _(e,st,f,a,t): return BoxV(Ptr(e.alloc(st,a[0],f['args'][0]),(),None))
@model('std::boxed::box_new_uninit')
def _(e,st,f,a,t): return Ptr(e.alloc(st,UNDEF),(),None)
@rx(r'^<std::boxed::Box<T(, A)?> as std::(ops::Deref(Mut)?|convert::As(Ref|Mut)<T>|borrow::Borrow(Mut)?<T>)>::\w+$')
def _(e,st,f,a,t):
    b=e.force(st,deref(e,st,a[0])); return b.p
@rx(r'^std::boxed::Box::<T, A>::(as_ptr|as_mut_ptr|into_raw|leak)$')
def _(e,st,f,a,t):
    b=a[0]
    if isinstance(b,Ptr) and not isinstance(b,BoxV): b=e.force(st,deref(e,st,b))
    return b.p
@rx(r'^std::boxed::Box::<std::mem::MaybeUninit<T>, A>::assume_init')
def _(e,st,f,a,t): return a[0]
@rx(r'^std::boxed::Box::<T(, A)?>::new_uninit(_in)?$')
def _(e,st,f,a,t): return BoxV(Ptr(e.alloc(st,UNDEF,f['args'][0]),(),None))
@rx(r'box_assume_init_into_vec|^std::slice::<impl \[T\]>::into_vec$')
def _(e,st,f,a,t):
    b=a[0]; p=b.p if isinstance(b,BoxV) else b
    v=e.force(st,e.read(st,p.o,p.path))
    while isinstance(v,Agg):    # MaybeUninit / ManuallyDrop wrappers
        d=[x for x in v.f if not isinstance(x,Undef)]
        if len(d)!=1: break
        v=e.force(st,d[0])
    return VecV(e.as_seq(st,v))
@rx(r'^std::vec::Vec::<T, A>::into_boxed_slice$')
def _(e,st,f,a,t):
    v=e.force(st,a[0]); return BoxV(Ptr(e.alloc(st,v.s),(),slen(v.s)))

# ================================================================ Vec
VEC=r'^std::vec::Vec::<T(, A)?>::'
def vec_self(e,st,p):
    v=e.force(st,e.read(st,p.o,p.path))
    if not isinstance(v,VecV): raise Unsupported('Vec method on '+type(v).__name__)
    return v
@rx(VEC+r'(new|with_capacity|new_in|with_capacity_in)$',r'^<std::vec::Vec<T> as std::default::Default>::default$',r'^<std::vec::Vec<T(, A)?> as std::default::Default>::default$')
def _(e,st,f,a,t): return VecV(EMPTY)
@rx(VEC+r'(reserve|reserve_exact|shrink_to_fit|shrink_to)$')
def _(e,st,f,a,t): return UNIT
@rx(VEC+'push$')
def _(e,st,f,a,t):
    v=vec_self(e,st,a[0]); e.write(st,a[0].o,a[0].path,VecV(mkseq(*(v.s.ch+(L((a[1],)),))))); return UNIT
@rx(VEC+'push_mut$')
def _(e,st,f,a,t):
    v=vec_self(e,st,a[0]); n=slen(v.s); e.write(st,a[0].o,a[0].path,VecV(mkseq(*(v.s.ch+(L((a[1],)),)))))
    return Ptr(a[0].o,a[0].path+(('buf',),('x',n)),None)
@rx(VEC+'pop$')
def _(e,st,f,a,t):
    v=vec_self(e,st,a[0]); n=slen(v.s)
    if e.decide(st,eq(n,ZERO)): return NONE
    ch=list(v.s.ch)
    while True:
        c=ch[-1]; m=clen(c)
        if m is not ZERO and not (not m.is_const() and e.decide(st,eq(m,ZERO))): break
        ch.pop()
    x=e.chunk_at(st,c,m-1); ch[-1]=take_chunk(c,m-1)
    e.write(st,a[0].o,a[0].path,VecV(mkseq(*ch)))
    return some(x)
@rx(VEC+'len$')
def _(e,st,f,a,t): return slen(vec_self(e,st,a[0]).s)
@rx(VEC+'capacity$')
def _(e,st,f,a,t):
    n=fresh('cap','i',0,X.LENMAX); st.assume(le(slen(vec_self(e,st,a[0]).s),n)); return n
@rx(VEC+'is_empty$')
def _(e,st,f,a,t): return eq(slen(vec_self(e,st,a[0]).s),ZERO)
@rx(VEC+'clear$')
def _(e,st,f,a,t): e.write(st,a[0].o,a[0].path,VecV(EMPTY)); return UNIT
@rx(VEC+'truncate$')
def _(e,st,f,a,t):
    v=vec_self(e,st,a[0])
    if e.decide(st,lt(a[1],slen(v.s))): e.write(st,a[0].o,a[0].path,VecV(e.seq_take(st,v.s,a[1])))
    return UNIT
@rx(VEC+'append$')
def _(e,st,f,a,t):
    v=vec_self(e,st,a[0]); w=vec_self(e,st,a[1])
    e.write(st,a[0].o,a[0].path,VecV(mkseq(*(v.s.ch+w.s.ch)))); e.write(st,a[1].o,a[1].path,VecV(EMPTY)); return UNIT
@rx(VEC+'extend_from_slice$')
def _(e,st,f,a,t):
    v=vec_self(e,st,a[0]); q=selfseq(e,st,a[1]); r=[]
    for s,c in clone_seq(e,st,q,f['args'][0]):
        s=s.copy(); e.write(s,a[0].o,a[0].path,VecV(mkseq(*(v.s.ch+c.ch)))); r.append((s,UNIT))
    return r
@rx(VEC+'insert$')
def _(e,st,f,a,t):
    v=vec_self(e,st,a[0]); i=a[1]; n=slen(v.s)
    bounds(e,st,i,n+1)
    h=e.seq_take(st,v.s,i); tl=e.seq_from(st,v.s,i)
    e.write(st,a[0].o,a[0].path,VecV(mkseq(*(h.ch+(L((a[2],)),)+tl.ch)))); return UNIT
@rx(VEC+'(remove|swap_remove)$')
def _(e,st,f,a,t):
    v=vec_self(e,st,a[0]); i=a[1]; n=slen(v.s)
    bounds(e,st,i,n)
    x=e.seq_get(st,v.s,i); h=e.seq_take(st,v.s,i); tl=e.seq_from(st,v.s,i+1)
    if f['def'].endswith('swap_remove') and not e.decide(st,eq(slen(tl),ZERO)):
        m=slen(tl); last=e.seq_get(st,tl,m-1); tl=mkseq(L((last,)),*e.seq_take(st,tl,m-1).ch)
    e.write(st,a[0].o,a[0].path,VecV(mkseq(*(h.ch+tl.ch)))); return x
@rx(VEC+'split_off$')
def _(e,st,f,a,t):
    v=vec_self(e,st,a[0]); bounds(e,st,a[1],slen(v.s)+1)
    h=e.seq_take(st,v.s,a[1]); tl=e.seq_from(st,v.s,a[1])
    e.write(st,a[0].o,a[0].path,VecV(h)); return VecV(tl)
@rx(VEC+'resize$')
def _(e,st,f,a,t):
    v=vec_self(e,st,a[0]); n=slen(v.s)
    if e.decide(st,le(a[1],n)): r=e.seq_take(st,v.s,a[1])
    else: r=mkseq(*(v.s.ch+rep(e,st,a[2],a[1]-n).ch))
    e.write(st,a[0].o,a[0].path,VecV(r)); return UNIT
def rep(e,st,v,n):
    if n.is_const(): return mkseq(L((v,)*int(n.const())))
    return mkseq(M(n,v,vlvl(v)+1))
@rx(r'^std::vec::from_elem$',r'^std::vec::from_elem_in$')
def _(e,st,f,a,t): return VecV(rep(e,st,a[0],a[1]))
@rx(r'^<std::vec::Vec<T, A> as std::(ops::Deref(Mut)?|convert::As(Ref|Mut)<\[T\]>|borrow::Borrow(Mut)?<\[T\]>)>::\w+$',VEC+r'as_(mut_)?slice$')
def _(e,st,f,a,t): return slice_ptr(e,st,a[0])
@rx(r'^<std::vec::Vec<T, A> as std::convert::As(Ref|Mut)<std::vec::Vec<T, A>>>')
def _(e,st,f,a,t): return a[0]
@rx(VEC+'drain$')
def _(e,st,f,a,t):
    v=vec_self(e,st,a[0]); lo,hi=range_of(e,st,a[1],last_ty(f),slen(v.s))
    mid=e.seq_slice(st,v.s,lo,hi); h=e.seq_take(st,v.s,lo); tl=e.seq_from(st,v.s,hi)
    e.write(st,a[0].o,a[0].path,VecV(mkseq(*(h.ch+tl.ch))))
    return It(('val',mid),ZERO,slen(mid))
@rx(r'^<std::vec::Vec<T> as std::convert::From<(&\'?\w* ?(mut )?\[T(; N)?\]|\[T; N\]|std::boxed::Box<\[T.*)>>::from$',r'^<std::vec::Vec<.*> as std::convert::From<.*>>::from$')
def _(e,st,f,a,t): return VecV(e.as_seq(st,a[0]))
@rx(r'^<std::vec::Vec<T, A> as std::iter::Extend<')
def _(e,st,f,a,t):
    it=to_it(e,st,a[1],last_ty(f)); v=vec_self(e,st,a[0]); r=[]
    byref=bool(re.search(r'Extend<&',f['def']))
    for s,q in drain(e,st,it):
        s=s.copy()
        if byref: q=deref_seq(e,s,q)
        cur=vec_self(e,s,a[0])
        e.write(s,a[0].o,a[0].path,VecV(mkseq(*(cur.s.ch+q.ch)))); r.append((s,UNIT))
    return r
def deref_seq(e,st,q):
    out=[]
    for c in q.ch:
        if isinstance(c,L): out.append(L(tuple(deref(e,st,x) for x in c.v)))
        elif isinstance(c,M):
            g=fresh('g','i'); s=st.copy(); s.assume(le0(-g)); s.assume(lt(g,c.n))
            out.append(mk_M(c.n,g,deref(e,s,m_at(c,g))))
        else: raise Unsupported('deref of opaque elements')
    return mkseq(*out)
def bounds(e,st,i,n):
    c=lt(i,n)
    if e.known(st,c) is True:
        e.obls.append({'kind':'safety','name':'BoundsCheck','at':e.where(),'res':'proved','by':'z3','t':0})
    else:
        e.oblige(st,'safety','no BoundsCheck',c); st.assume(c)
        if not e.feasible(st): raise X.Infeasible()

# ================================================================ slices
SL=r'^core::slice::<impl \[T\]>::'
@rx(SL+r'(iter|iter_mut)$')
def _(e,st,f,a,t):
    p=slice_ptr(e,st,a[0]); return It(('ptr',Ptr(p.o,p.path,None)),ZERO,p.meta)
@rx(SL+r'windows$')
def _(e,st,f,a,t):
    p=slice_ptr(e,st,a[0]); k=a[1]
    if not k.is_const(): raise Unsupported('windows size')
    n=p.meta-k+1
    c=e.known(st,le(ZERO,n))
    if c is False: n=ZERO
    elif c is None: n=ite(le(ZERO,n),n,ZERO)
    return It(('win',Ptr(p.o,p.path,None),k),ZERO,n)
@rx(SL+r'(chunks|chunks_exact|chunks_mut)$')
def _(e,st,f,a,t):
    p=slice_ptr(e,st,a[0]); k=a[1]
    if not (k.is_const() and p.meta.is_const()): raise Unsupported('chunks')
    n,k=int(p.meta.const()),int(k.const()); out=[]
    for i in range(0,n,k):
        m=min(k,n-i)
        if m<k and 'exact' in f['def']: break
        out.append(Ptr(p.o,e.psub(p.path,topoly(i)),topoly(m)))
    s=mkseq(L(tuple(out))); return It(('val',s),ZERO,slen(s))
@rx(SL+r'(split_at|split_at_mut)$')
def _(e,st,f,a,t):
    p=slice_ptr(e,st,a[0]); bounds(e,st,a[1],p.meta+1)
    return Agg((Ptr(p.o,p.path,a[1]),Ptr(p.o,e.psub(p.path,a[1]),p.meta-a[1])))
@rx(SL+r'(copy_from_slice|clone_from_slice)$')
def _(e,st,f,a,t):
    p=slice_ptr(e,st,a[0]); q=selfseq(e,st,a[1]); n=slen(q)
    e.oblige(st,'safety','copy_from_slice lengths agree',eq(p.meta,n))
    st.assume(eq(p.meta,n))
    write_slice(e,st,p,q); return UNIT
def write_slice(e,st,p,q):
    v=e.force(st,e.read(st,p.o,p.path if not(p.path and p.path[-1][0]=='sub') else p.path[:-1]))
    whole=slen(e.as_seq(st,v))
    start=p.path[-1][1] if p.path and p.path[-1][0]=='sub' else ZERO
    base=p.path[:-1] if p.path and p.path[-1][0]=='sub' else p.path
    s=e.as_seq(st,v)
    if start is ZERO and (whole is p.meta): r=q
    else:
        h=e.seq_take(st,s,start); tl=e.seq_from(st,s,start+p.meta); r=mkseq(*(h.ch+q.ch+tl.ch))
    e.write(st,p.o,base,VecV(r) if isinstance(v,VecV) else r)
@rx(SL+r'fill$')
def _(e,st,f,a,t):
    p=slice_ptr(e,st,a[0]); write_slice(e,st,p,rep(e,st,a[1],p.meta)); return UNIT
@rx(SL+r'(reverse)$')
def _(e,st,f,a,t):
    p=slice_ptr(e,st,a[0]); s=selfseq(e,st,a[0])
    g=fresh('g','i'); st2=st.copy(); st2.assume(le0(-g)); st2.assume(lt(g,p.meta))
    if p.meta.is_const():
        n=int(p.meta.const()); q=mkseq(L(tuple(e.seq_get(st,s,topoly(n-1-i)) for i in range(n))))
    else: q=mkseq(mk_M(p.meta,g,e.seq_get(st2,s,p.meta-1-g)))
    write_slice(e,st,p,q); return UNIT
@rx(r'^std::slice::<impl \[T\]>::concat$')
def _(e,st,f,a,t):
    s=selfseq(e,st,a[0]); out=()
    for c in s.ch:
        if not isinstance(c,L): raise Unsupported('concat')
        for x in c.v: out=out+e.as_seq(st,x).ch
    return VecV(mkseq(*out))
@rx(r'^<usize as std::slice::SliceIndex<\[T\]>>::(get|get_mut)$')
def _(e,st,f,a,t):
    p=slice_ptr(e,st,a[1])
    if e.decide(st,lt(a[0],p.meta)): return some(elem_ptr(p,a[0],e))
    return NONE
@rx(r'^<usize as std::slice::SliceIndex<\[T\]>>::(index|index_mut)$')
def _(e,st,f,a,t):
    p=slice_ptr(e,st,a[1]); bounds(e,st,a[0],p.meta); return elem_ptr(p,a[0],e)
@rx(r'^<usize as std::slice::SliceIndex<\[T\]>>::get_unchecked')
def _(e,st,f,a,t): 
    p=a[1]; return elem_ptr(p,a[0],e)
def range_of(e,st,r,ty,n,check=True):
    d=e.T[ty]['s']; r=e.force(st,r)
    if 'RangeFull' in d: lo,hi=ZERO,n
    elif 'RangeFrom' in d: lo,hi=r.f[0],n
    elif 'RangeToInclusive' in d: lo,hi=ZERO,r.f[0]+1
    elif 'RangeTo' in d: lo,hi=ZERO,r.f[0]
    elif 'RangeInclusive' in d:
        if isinstance(r,It): lo=r.node[1]+r.pos; hi=r.node[1]+r.end
        else: lo,hi=r.f[0],r.f[1]+1
    else: lo,hi=r.f[0],r.f[1]
    c=band(le(lo,hi),le(hi,n))
    if check and e.known(st,c) is not True:
        e.oblige(st,'safety','slice range in bounds',c); st.assume(c)
        if not e.feasible(st): raise X.Infeasible()
    return lo,hi
@rx(r'^<std::ops::Range\w*(<usize>)? as std::slice::SliceIndex<\[T\]>>::(index|index_mut)$')
def _(e,st,f,a,t):
    p=slice_ptr(e,st,a[1]); m=re.match(r'^<(std::ops::\w+)',f['def']).group(1)
    lo,hi=range_val(e,st,a[0],m,p.meta)
    c=band(le(lo,hi),le(hi,p.meta))
    if e.known(st,c) is not True:
        e.oblige(st,'safety','slice range in bounds',c); st.assume(c)
        if not e.feasible(st): raise X.Infeasible()
    return Ptr(p.o,e.psub(p.path,lo),hi-lo)
@rx(r'^<std::ops::Range\w*(<usize>)? as std::slice::SliceIndex<\[T\]>>::(get|get_mut)$')
def _(e,st,f,a,t):
    p=slice_ptr(e,st,a[1]); m=re.match(r'^<(std::ops::\w+)',f['def']).group(1)
    lo,hi=range_val(e,st,a[0],m,p.meta)
    if e.decide(st,le(lo,hi)) and e.decide(st,le(hi,p.meta)): return some(Ptr(p.o,e.psub(p.path,lo),hi-lo))
    return NONE
def range_val(e,st,r,m,n):
    r=e.force(st,r); k=m.split('::')[-1]
    if k=='RangeFull': return ZERO,n
    if k=='RangeFrom': return r.f[0],n
    if k=='RangeToInclusive': return ZERO,r.f[0]+1
    if k=='RangeTo': return ZERO,r.f[0]
    if k=='RangeInclusive':
        if isinstance(r,It): return r.node[1]+r.pos,r.node[1]+r.end
        return r.f[0],r.f[1]+1
    return r.f[0],r.f[1]
@rx(r'PartialEq<.*> for (\[T\]|\[T; N\]|std::vec::Vec<T, A1?>|&.*\[.*)>::(eq|ne)$',r'^<(std::vec::Vec<T, A1?>|\[T(; N)?\]|&.*\[.*\]) as std::cmp::PartialEq<.*>>::(eq|ne)$',
    r'(vec::partial_eq|slice::cmp|array::equality)::<impl std::cmp::PartialEq.*::(eq|ne)$')
def _(e,st,f,a,t):
    b=e.seq_eq(st,e.as_seq(st,deref(e,st,a[0])),e.as_seq(st,deref(e,st,a[1])),e.val_eq)
    return bnot(b) if f['def'].endswith('::ne') else b

# ================================================================ iterators
class NotRA(Exception): pass
def is_ra(it):
    k=it.node[0]
    if k in('ptr','val','range','win','repeat'): return True
    if k in('map','enum','rev','copied','step'): return is_ra(it.node[1])
    if k in('zip','chain'): return is_ra(it.node[1]) and is_ra(it.node[2])
    return False
def to_it(e,st,v,ty=None):
    v=e.force(st,v)
    if isinstance(v,It): return v
    if isinstance(v,Agg):
        if len(v.f)==2 and all(isinstance(e.force(st,x),Poly) for x in v.f):
            a,b=[e.force(st,x) for x in v.f]
            n=b-a; k=e.known(st,le(ZERO,n))
            if k is False: n=ZERO
            elif k is None: n=ite(le(ZERO,n),n,ZERO)
            return It(('range',a),ZERO,n)
        if len(v.f)==1 and isinstance(v.f[0],Poly): return It(('range',v.f[0]),ZERO,topoly(2**63))
        raise Unsupported('iteration over a struct')
    if isinstance(v,VecV): return It(('val',v.s),ZERO,slen(v.s))
    if isinstance(v,Seq): return It(('val',v),ZERO,slen(v))
    if isinstance(v,En):
        s=mkseq(L(v.f)) if v.f else EMPTY
        return It(('val',s),ZERO,slen(s))
    if isinstance(v,(Ptr,BoxV)):
        p=v.p if isinstance(v,BoxV) else v
        if isinstance(p.meta,Poly): return It(('ptr',Ptr(p.o,p.path,None)),ZERO,p.meta)
        w=e.force(st,e.read(st,p.o,p.path))
        if isinstance(w,(VecV,Seq)):
            p=slice_ptr(e,st,p); return It(('ptr',Ptr(p.o,p.path,None)),ZERO,p.meta)
        if isinstance(w,En):
            s=mkseq(L((Ptr(p.o,p.path+(('v',w.v),('f',0)),None),))) if w.f else EMPTY
            return It(('val',s),ZERO,slen(s))
        if isinstance(w,(It,Agg)): return It(('byref',p),ZERO,None)
        if isinstance(w,(Ptr,BoxV)): return to_it(e,st,w)
    raise Unsupported('iteration over '+type(v).__name__)
def ra_at(e,st,it,i):
    """[(st,value)] of absolute position i"""
    n=it.node; k=n[0]
    if k=='ptr': return [(st,elem_ptr(n[1],i,e))]
    if k=='val': return [(st,e.seq_get(st,n[1],i))]
    if k=='range': return [(st,n[1]+i)]
    if k=='win': return [(st,Ptr(n[1].o,e.psub(n[1].path,i),n[2]))]
    if k=='repeat': return [(st,n[1])]
    if k=='zip':
        r=[]
        for s,x in ra_at(e,st,n[1],n[1].pos+i):
            for s2,y in ra_at(e,s,n[2],n[2].pos+i): r.append((s2,Agg((x,y))))
        return r
    if k=='map':
        r=[]
        for s,x in ra_at(e,st,n[1],n[1].pos+i): r+=e.call_closure(s,n[2],n[3],[x])
        return r
    if k=='enum': return [(s,Agg((i,x))) for s,x in ra_at(e,st,n[1],n[1].pos+i)]
    if k=='rev': return ra_at(e,st,n[1],n[1].end-1-i)
    if k=='copied':
        r=[]
        for s,x in ra_at(e,st,n[1],n[1].pos+i):
            v=deref(e,s,x)
            r+=clone_elem(e,s,v,n[2])
        return r
    if k=='step': return ra_at(e,st,n[1],n[1].pos+i*n[2])
    if k=='chain':
        m=n[1].end-n[1].pos
        if e.decide(st,lt(i,m)): return ra_at(e,st,n[1],n[1].pos+i)
        return ra_at(e,st,n[2],n[2].pos+i-m)
    raise NotRA()
def it_next(e,st,it):
    """[(st, it', Option value)]"""
    if is_ra(it):
        c=lt(it.pos,it.end)
        if it.pos.is_const() and it.end.is_const() or (it.end-it.pos).is_const(): st.gh['cnext']=st.gh.get('cnext',0)+1
        if not e.decide(st,c): return [(st,it,NONE)]
        return [(s,It(it.node,it.pos+1,it.end),some(x)) for s,x in ra_at(e,st,it,it.pos)]
    n=it.node; k=n[0]
    if k=='byref':
        cur=to_it(e,st,e.read(st,n[1].o,n[1].path)); isr=isinstance(e.read(st,n[1].o,n[1].path),Agg)
        r=[]
        for s,i2,o in it_next(e,st,cur):
            s=s.copy()
            if isr:
                b=i2.node[1]; e.write(s,n[1].o,n[1].path,Agg((b+i2.pos,b+i2.end)))
            else: e.write(s,n[1].o,n[1].path,i2)
            r.append((s,it,o))
        return r
    if k in('map','enum','copied','inspect'):
        r=[]
        for s,i2,o in it_next(e,st,n[1]):
            if o.v==0: r.append((s,It((k,i2)+n[2:],it.pos,None),o)); continue
            nit=It((k,i2)+n[2:],it.pos+1,None)
            if k=='map': r+=[(s2,nit,some(v)) for s2,v in e.call_closure(s,n[2],n[3],[o.f[0]])]
            elif k=='enum': r.append((s,nit,some(Agg((it.pos,o.f[0])))))
            elif k=='copied': r+=[(s2,nit,some(v)) for s2,v in clone_elem(e,s,deref(e,s,o.f[0]),n[2])]
            else:
                s=s.copy(); p=Ptr(e.alloc(s,o.f[0]),(),None)
                r+=[(s2,nit,o) for s2,_ in e.call_closure(s,n[2],n[3],[p])]
        return r
    if k=='zip':
        r=[]
        for s,a2,o in it_next(e,st,n[1]):
            if o.v==0: r.append((s,It((k,a2,n[2]),it.pos,None),NONE)); continue
            for s2,b2,o2 in it_next(e,s,n[2]):
                nit=It((k,a2,b2),it.pos,None)
                r.append((s2,nit,NONE if o2.v==0 else some(Agg((o.f[0],o2.f[0])))))
        return r
    if k in('filter','filter_map','skip_while','take_while','map_while'):
        r=[]; work=[(st,it)]; guard=0
        while work:
            s,cur=work.pop(); guard+=1
            if guard>200: raise Unsupported('long filter')
            m=cur.node
            if k in('take_while','map_while') and m[4]: r.append((s,cur,NONE)); continue
            for s2,i2,o in it_next(e,s,m[1]):
                nit=It((k,i2)+m[2:],cur.pos,None)
                if o.v==0: r.append((s2,nit,NONE)); continue
                x=o.f[0]
                if k=='skip_while' and m[4]: r.append((s2,nit,o)); continue
                s3=s2.copy()
                arg=x if k in('filter_map','map_while') else Ptr(e.alloc(s3,x),(),None)
                for s4,v in e.call_closure(s3,m[2],m[3],[arg]):
                    v=e.force(s4,v)
                    if k=='filter_map':
                        if v.v==1: r.append((s4,nit,v))
                        else: work.append((s4,nit))
                        continue
                    if k=='map_while':
                        r.append((s4,nit if v.v==1 else It((k,i2,m[2],m[3],True),cur.pos,None),v)); continue
                    for s5,b in split(e,s4,v):
                        if k=='filter':
                            if b: r.append((s5,nit,o))
                            else: work.append((s5,nit))
                        elif k=='skip_while':
                            if b: work.append((s5,nit))
                            else: r.append((s5,It((k,i2,m[2],m[3],True),cur.pos,None),o))
                        else:
                            if b: r.append((s5,nit,o))
                            else: r.append((s5,It((k,i2,m[2],m[3],True),cur.pos,None),NONE))
        return r
    if k=='chain':
        r=[]
        for s,a2,o in it_next(e,st,n[1]):
            if o.v==1: r.append((s,It((k,a2,n[2]),it.pos,None),o))
            else:
                for s2,b2,o2 in it_next(e,s,n[2]): r.append((s2,It((k,a2,b2),it.pos,None),o2))
        return r
    if k=='take':
        if n[2] is ZERO: return [(st,it,NONE)]
        return [(s,It((k,i2,n[2]-1),it.pos,None),o) for s,i2,o in it_next(e,st,n[1])]
    if k=='flat':   # ('flat', outer, env, ty, current or None)
        r=[]; work=[(st,it)]; guard=0
        while work:
            s,cur=work.pop(); guard+=1
            if guard>200: raise Unsupported('long flatten')
            m=cur.node
            if m[4] is not None:
                for s2,i2,o in it_next(e,s,m[4]):
                    if o.v==1: r.append((s2,It((k,m[1],m[2],m[3],i2),ZERO,None),o))
                    else: work.append((s2,It((k,m[1],m[2],m[3],None),ZERO,None)))
                continue
            for s2,i2,o in it_next(e,s,m[1]):
                if o.v==0: r.append((s2,It((k,i2,m[2],m[3],None),ZERO,None),NONE)); continue
                if m[2] is None: work.append((s2,It((k,i2,m[2],m[3],to_it(e,s2,o.f[0])),ZERO,None))); continue
                for s3,v in e.call_closure(s2,m[2],m[3],[o.f[0]]):
                    work.append((s3,It((k,i2,m[2],m[3],to_it(e,s3,v)),ZERO,None)))
        return r
    if k=='scan':
        r=[]
        for s,i2,o in it_next(e,st,n[1]):
            if o.v==0: r.append((s,It((k,i2)+n[2:],it.pos,None),NONE)); continue
            for s2,v in e.call_closure(s,n[2],n[3],[n[4],o.f[0]]):
                r.append((s2,It((k,i2)+n[2:],it.pos,None),e.force(s2,v)))
        return r
    if k=='peek':   # ('peek', inner, Seq with 0/1 peeked option)
        if n[2] is not None: return [(st,It(('peek',n[1],None),ZERO,None),n[2])]
        return [(s,It(('peek',i2,None),ZERO,None),o) for s,i2,o in it_next(e,st,n[1])]
    if k=='rev' or k=='step': raise Unsupported(k+' over sequential iterator')
    if k=='fromfn':
        return [(s,it,e.force(s,v)) for s,v in e.call_closure(st,n[1],n[2],[])]
    if k=='succ':
        o=n[3]
        if o.v==0: return [(st,it,NONE)]
        s=st.copy(); p=Ptr(e.alloc(s,o.f[0]),(),None)
        return [(s2,It((k,n[1],n[2],e.force(s2,v)),ZERO,None),o) for s2,v in e.call_closure(s,n[1],n[2],[p])]
    raise Unsupported('iterator '+k)
def split(e,st,b):
    """[(st,bool)]"""
    try: return [(st,e.decide(st,b))]
    except NeedBranch as x:
        s1=st.copy(); s1.assume(b); s2=st.copy(); s2.assume(bnot(b))
        return [(s1,True),(s2,False)]
def drain(e,st,it,limit=600):
    """[(st,Seq of all remaining elements)]"""
    if is_ra(it):
        n=it.end-it.pos
        if not n.is_const():
            k=e.known(st,le(n,ZERO))
            if k is True: return [(st,EMPTY)]
        if not (n.is_const() and n.const()<=limit):
            if it.node[0]=='val' and it.pos is ZERO and it.end is slen(it.node[1]): return [(st,it.node[1])]
            if it.node[0]=='chain':
                a,b=it.node[1],it.node[2]; m=a.end-a.pos
                if it.pos is ZERO and it.end is m+(b.end-b.pos):
                    return [(s2,mkseq(*(x.ch+y.ch))) for s,x in drain(e,st,a) for s2,y in drain(e,s,b)]
            st2=st.copy()
            try:
                g,v=e.generic(st2,n,lambda s,g:ra_at(e,s,it,it.pos+g))
            except NeedBranch as ex: 
                raise Unsupported('generic element depends on its index: '+repr(ex.c)[:80])
            v=forced(e,st,v)
            return [(st,mkseq(mk_M(n,g,v)))]
        outs=[(st,())]
        for i in range(int(n.const())):
            outs=[(s2,vs+(v,)) for s,vs in outs for s2,v in ra_at(e,s,it,it.pos+i)]
        return [(s,mkseq(L(vs))) for s,vs in outs]
    outs=[]; work=[(st,it,())]
    while work:
        s,i,vs=work.pop()
        if len(vs)>limit: raise Unsupported('unbounded sequential iterator')
        for s2,i2,o in fork_next(e,s,i):
            if o.v==0: outs.append((s2,mkseq(L(vs))))
            else: work.append((s2,i2,vs+(o.f[0],)))
    return outs
def forced(e,st,v):
    return v
def fork_next(e,st,it):
    """it_next with its own forking"""
    out=[];work=[st]
    while work:
        s=work.pop()
        try: out+=it_next(e,s.copy(),it)
        except NeedBranch as x:
            a=s.copy(); a.assume(x.c); b=s.copy(); b.assume(bnot(x.c)); work+=[a,b]
        if len(out)>200: raise Unsupported('too many iterator paths')
    return out
def mkenv(e,st,v,ty):
    d=e.T[ty]
    if d['k']=='closure': return Ptr(e.alloc(st,v),(),None)
    return v
ITER=r'(^std::iter::Iterator|as std::iter::Iterator>|impl std::iter::Iterator for .*>)::'
DEI=r'(^std::iter::DoubleEndedIterator|as std::iter::DoubleEndedIterator>|impl std::iter::DoubleEndedIterator for .*>)::'
@rx(r'IntoIterator>::into_iter$',r'IntoIterator for .*>::into_iter$',r'^std::iter::IntoIterator::into_iter$')
def _(e,st,f,a,t):
    if f['krate'] not in('core','alloc','std'): return NotImplemented
    v=e.force(st,a[0])
    if isinstance(v,Agg): 
        if len(v.f)==2 and all(isinstance(x,Poly) for x in v.f): return v
        if len(v.f)==1 and isinstance(v.f[0],Poly): return v
        return NotImplemented
    if isinstance(v,Ptr) and not isinstance(v.meta,Poly):
        w=e.force(st,e.read(st,v.o,v.path))
        if isinstance(w,It) or (isinstance(w,Agg)): return v      # &mut I
    return to_it(e,st,v)
def cell_it(e,st,p):
    return e.force(st,e.read(st,p.o,p.path))
def put_it(e,st,p,cur,it):
    if isinstance(cur,Agg):
        b=it.node[1]
        e.write(st,p.o,p.path,Agg((b+it.pos,b+it.end)) if len(cur.f)==2 else Agg((b+it.pos,)))
    else: e.write(st,p.o,p.path,it)
@rx(ITER+'next$')
def _(e,st,f,a,t):
    cur=cell_it(e,st,a[0])
    if isinstance(cur,(Ptr,)): return next_through(e,st,cur)
    if isinstance(cur,Agg):
        if len(cur.f)==2 and all(isinstance(x,Poly) for x in cur.f):
            s0,e0=cur.f
            if (e0-s0).is_const(): st.gh['cnext']=st.gh.get('cnext',0)+1
            if not e.decide(st,lt(s0,e0)): return NONE
            e.write(st,a[0].o,a[0].path,Agg((s0+1,e0))); return some(s0)
        if len(cur.f)==1 and isinstance(cur.f[0],Poly):
            e.write(st,a[0].o,a[0].path,Agg((cur.f[0]+1,))); return some(cur.f[0])
        return NotImplemented
    if not isinstance(cur,It): return NotImplemented
    r=[]
    for s,it2,o in it_next(e,st,cur):
        s=s.copy(); e.write(s,a[0].o,a[0].path,it2); r.append((s,o))
    return r
def next_through(e,st,p):
    it=It(('byref',p),ZERO,None)
    return [(s,o) for s,_,o in it_next(e,st,it)]
@rx(DEI+'next_back$')
def _(e,st,f,a,t):
    cur=cell_it(e,st,a[0]); it=to_it(e,st,cur)
    if not is_ra(it): raise Unsupported('next_back')
    if not e.decide(st,lt(it.pos,it.end)): return NONE
    r=[]
    for s,x in ra_at(e,st,it,it.end-1):
        s=s.copy(); put_it(e,s,a[0],cur,It(it.node,it.pos,it.end-1)); r.append((s,some(x)))
    return r
@rx(ITER+r'(map|filter|filter_map|skip_while|take_while|map_while|inspect|flat_map)$')
def _(e,st,f,a,t):
    k=f['def'].split('::')[-1]; it=to_it(e,st,a[0]); ty=last_ty(f); env=mkenv(e,st,a[1],ty)
    if k=='map':
        return It(('map',it,env,ty),ZERO,it.end-it.pos if is_ra(it) else None)
    if k=='flat_map': return It(('flat',it,env,ty,None),ZERO,None)
    if k in('skip_while','take_while','map_while'): return It((k,it,env,ty,False),ZERO,None)
    return It((k,it,env,ty),ZERO,None)
@rx(ITER+'flatten$')
def _(e,st,f,a,t): return It(('flat',to_it(e,st,a[0]),None,None,None),ZERO,None)
@rx(ITER+'scan$')
def _(e,st,f,a,t):
    ty=last_ty(f); return It(('scan',to_it(e,st,a[0]),mkenv(e,st,a[2],ty),ty,Ptr(e.alloc(st,a[1]),(),None)),ZERO,None)
@rx(ITER+'(zip|chain)$',r'^std::iter::zip$',r'^std::iter::chain$')
def _(e,st,f,a,t):
    x,y=to_it(e,st,a[0]),to_it(e,st,a[1]); k=f['def'].split('::')[-1]
    if is_ra(x) and is_ra(y):
        n,m=x.end-x.pos,y.end-y.pos
        if k=='chain': return It((k,x,y),ZERO,n+m)
        if n is m: l=n
        else:
            kk=e.known(st,le(n,m))
            l=n if kk is True else m if kk is False else ite(le(n,m),n,m)
        return It((k,x,y),ZERO,l)
    return It((k,x,y),ZERO,None)
@rx(ITER+'enumerate$')
def _(e,st,f,a,t):
    it=to_it(e,st,a[0]); return It(('enum',it),ZERO,it.end-it.pos if is_ra(it) else None)
@rx(ITER+'rev$')
def _(e,st,f,a,t):
    it=to_it(e,st,a[0])
    if not is_ra(it): raise Unsupported('rev')
    return It(('rev',it),ZERO,it.end-it.pos)
@rx(ITER+'(copied|cloned)$')
def _(e,st,f,a,t):
    it=to_it(e,st,a[0]); return It(('copied',it,None),ZERO,it.end-it.pos if is_ra(it) else None)
@rx(ITER+'(by_ref|fuse)$')
def _(e,st,f,a,t): return a[0]
@rx(ITER+'peekable$')
def _(e,st,f,a,t): return It(('peek',to_it(e,st,a[0]),None),ZERO,None)
@rx(r'^std::iter::Peekable::<I>::peek(_mut)?$')
def _(e,st,f,a,t):
    cur=cell_it(e,st,a[0]); r=[]
    for s,i2,o in ([(st,cur,cur.node[2])] if cur.node[2] is not None else it_next(e,st,cur)):
        s=s.copy(); inner=i2.node[1]
        nit=It(('peek',inner,o),ZERO,None); e.write(s,a[0].o,a[0].path,nit)
        r.append((s,NONE if o.v==0 else some(Ptr(e.alloc(s,o.f[0]),(),None))))
    return r
@rx(ITER+'take$')
def _(e,st,f,a,t):
    it=to_it(e,st,a[0]); n=a[1]
    if not is_ra(it): return It(('take',it,n),ZERO,None)
    m=it.end-it.pos; k=e.known(st,le(n,m))
    l=n if k is True else m if k is False else ite(le(n,m),n,m)
    return It(it.node,it.pos,it.pos+l)
@rx(ITER+'skip$')
def _(e,st,f,a,t):
    it=to_it(e,st,a[0]); n=a[1]
    if not is_ra(it): raise Unsupported('skip')
    m=it.end-it.pos; k=e.known(st,le(n,m))
    l=n if k is True else m if k is False else ite(le(n,m),n,m)
    return It(it.node,it.pos+l,it.end)
@rx(ITER+'step_by$')
def _(e,st,f,a,t):
    it=to_it(e,st,a[0]); k=a[1]; n=it.end-it.pos
    if not (is_ra(it) and k.is_const()): raise Unsupported('step_by')
    m=topoly(-((-int(n.const()))//int(k.const()))) if n.is_const() else app('idiv',n+k-1,k,sort='i',lo=0)
    return It(('step',it,k),ZERO,m)
@rx(r'^std::iter::(repeat|repeat_n|once|empty)$')
def _(e,st,f,a,t):
    k=f['def'].split('::')[-1]
    if k=='empty': return It(('val',EMPTY),ZERO,ZERO)
    if k=='once': return It(('val',mkseq(L((a[0],)))),ZERO,ONE)
    return It(('repeat',a[0]),ZERO,a[1] if k=='repeat_n' else topoly(2**63))
@rx(r'^std::iter::from_fn$')
def _(e,st,f,a,t):
    ty=last_ty(f); return It(('fromfn',mkenv(e,st,a[0],ty),ty),ZERO,None)
@rx(r'^std::iter::successors$')
def _(e,st,f,a,t):
    ty=last_ty(f); return It(('succ',mkenv(e,st,a[1],ty),ty,e.force(st,a[0])),ZERO,None)
@rx(r'^std::ops::RangeInclusive::<Idx>::new$')
def _(e,st,f,a,t):
    n=a[1]-a[0]+1; k=e.known(st,le(ZERO,n))
    if k is False: n=ZERO
    elif k is None: n=ite(le(ZERO,n),n,ZERO)
    return It(('range',a[0]),ZERO,n)
@rx(r'^std::ops::RangeInclusive::<Idx>::contains$')
def _(e,st,f,a,t):
    r=e.force(st,deref(e,st,a[0])); x=e.force(st,deref(e,st,a[1]))
    if isinstance(r,It): return band(le(r.node[1]+r.pos,x),lt(x,r.node[1]+r.end))
    return NotImplemented
@rx(r'^std::iter::ExactSizeIterator::len$',r'as std::iter::ExactSizeIterator>::len$',ITER+'count$')
def _(e,st,f,a,t):
    v=e.force(st,a[0])
    if isinstance(v,Ptr) and not isinstance(v.meta,Poly): v=e.force(st,deref(e,st,v))
    it=to_it(e,st,v)
    if is_ra(it): return it.end-it.pos
    return [(s,slen(q)) for s,q in drain(e,st,it)]
@rx(ITER+'size_hint$')
def _(e,st,f,a,t):
    it=to_it(e,st,deref(e,st,a[0]))
    if not is_ra(it): raise Unsupported('size_hint')
    n=it.end-it.pos; return Agg((n,some(n)))
@rx(ITER+'collect$')
def _(e,st,f,a,t):
    ty=last_ty(f); d=e.T[ty]
    if d['k']=='adt' and d['def'] in('std::vec::Vec','alloc::vec::Vec'):
        it=to_it(e,st,a[0])
        return [(s,VecV(q)) for s,q in drain(e,st,it)]
    if d['k']=='adt' and d['def']=='std::boxed::Box' and e.T[d['args'][0]]['k']=='slice':
        it=to_it(e,st,a[0])
        return [(s,BoxV(Ptr(e.alloc(s,q),(),slen(q)))) for s,q in drain(e,st,it)]
    if d['k']=='adt' and d['def'] in('std::option::Option','std::result::Result') and e.adt(d['args'][0])=='std::vec::Vec':
        it=to_it(e,st,a[0]); r=[]
        good=1 if d['def'].endswith('Option') else 0
        for s,q in drain(e,st,it):
            vs=[]; bad=None
            for c in q.ch:
                if not isinstance(c,L): raise Unsupported('collect of symbolic options')
                for x in c.v:
                    x=e.force(s,x)
                    if x.v!=good: bad=x; break
                    vs.append(x.f[0])
                if bad: break
            r.append((s,bad if bad is not None else En(good,(VecV(mkseq(L(tuple(vs)))),))))
        return r
    return NotImplemented
@rx(r'^<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter$')
def _(e,st,f,a,t):
    it=to_it(e,st,a[0]); return [(s,VecV(q)) for s,q in drain(e,st,it)]
@rx(ITER+'unzip$')
def _(e,st,f,a,t):
    it=to_it(e,st,a[0]); r=[]
    for s,q in drain(e,st,it):
        xs=[];ys=[]
        for c in q.ch:
            if isinstance(c,L): xs.append(L(tuple(v.f[0] for v in c.v))); ys.append(L(tuple(v.f[1] for v in c.v)))
            elif isinstance(c,M): xs.append(M(c.n,c.t.f[0],c.l)); ys.append(M(c.n,c.t.f[1],c.l))
            else: raise Unsupported('unzip')
        r.append((s,Agg((VecV(mkseq(*xs)),VecV(mkseq(*ys))))))
    return r
def fsum(e,st,q,init,op='Add'):
    acc=init
    for c in q.ch:
        if isinstance(c,L):
            for x in c.v:
                x=e.force(st,x)
                if isinstance(x,(Ptr,)): x=e.force(st,deref(e,st,x))
                if isinstance(x,FV): acc=e.fbin(st,op,acc,x)
                else: acc=acc+x if op=='Add' else acc*x
        else:
            if op!='Add': raise Unsupported('symbolic product')
            if isinstance(c,O): raise Unsupported('sum of opaque elements')
            g=fresh('g','i'); s2=st.copy(); s2.assume(le0(-g)); s2.assume(lt(g,c.n))
            x=m_at(c,g)
            if isinstance(x,Ptr): x=e.force(s2,deref(e,s2,x))
            if isinstance(x,FV):
                if x.k!='r': raise Unsupported('sum of nonfinite')
                body=x.p
            elif isinstance(x,Poly): body=x
            else: raise Unsupported('sum of '+type(x).__name__)
            ga=single_atom(g)
            r=psum(c.n,lambda i:subst(body,{ga:i}))
            if solver.is_nonneg(body): solver.note_nonneg(r)
            if isinstance(x,FV): acc=e.fbin(st,'Add',acc,FV('r',r))
            else: acc=acc+r
    return acc
@rx(ITER+'(sum|product)$')
def _(e,st,f,a,t):
    ty=last_ty(f); it=to_it(e,st,a[0]); op='Add' if f['def'].endswith('sum') else 'Mul'
    z=0 if op=='Add' else 1
    if e.T[ty]['k'] not in('float','int'): return NotImplemented
    init=R(z) if e.T[ty]['k']=='float' else topoly(z)
    return [(s,fsum(e,s,q,init,op)) for s,q in drain(e,st,it)]
def run_loop(e,st,it,init,step):
    """for x in it { acc = step(acc,x) } with sequential semantics; step(st,acc,x)->[(st,('go',acc)|('stop',val))]
       returns [(st,'done',acc)|(st,'stop',val)]"""
    import loops
    st=st.copy(); ci=e.alloc(st,it); ca=e.alloc(st,init)
    stops=[]
    def iterate(s):
        outs=[]
        for s2,i2,o in fork_next(e,s,e.getobj(s,ci)):
            s2=s2.copy(); s2.mem[ci]=i2
            if o.v==0: outs.append(('exit',s2,('done',s2.mem[ca]))); continue
            for s3,r in step(s2,e.getobj(s2,ca),o.f[0]):
                s3=s3.copy()
                if r[0]=='go': s3.mem[ca]=r[1]; outs.append(('back',s3))
                else: outs.append(('exit',s3,('stop',r[1])))
        return outs
    res=loops.drive(e,st,iterate,[])
    out=[]
    for o in res:
        s=o[1]
        kind,v=o[2]
        if kind=='done': v=e.getobj(s,ca)
        out.append((s,kind,v))
    return out
@rx(ITER+'(fold|for_each)$',DEI+'rfold$')
def _(e,st,f,a,t):
    it=to_it(e,st,a[0]); ty=last_ty(f); k=f['def'].split('::')[-1]
    if k=='rfold': it=It(('rev',it),ZERO,it.end-it.pos)
    if k=='for_each':
        env=mkenv(e,st,a[1],ty)
        return [(s,UNIT) for s,_,_ in run_loop(e,st,it,UNIT,lambda s,acc,x:[(s2,('go',UNIT)) for s2,_ in e.call_closure(s,env,ty,[x])])]
    env=mkenv(e,st,a[2],ty)
    return [(s,v) for s,_,v in run_loop(e,st,it,a[1],lambda s,acc,x:[(s2,('go',v)) for s2,v in e.call_closure(s,env,ty,[acc,x])])]
@rx(ITER+'(all|any)$')
def _(e,st,f,a,t):
    k=f['def'].split('::')[-1]
    v=e.force(st,a[0]); p=v if isinstance(v,Ptr) and not isinstance(v.meta,Poly) else None
    it=to_it(e,st,deref(e,st,p) if p else v); ty=last_ty(f); env=mkenv(e,st,a[1],ty)
    n=it.end-it.pos if is_ra(it) else None
    if n is not None and not n.is_const():
        def el(s,g):
            r=[]
            for s2,x in ra_at(e,s,it,it.pos+g): r+=e.call_closure(s2,env,ty,[x])
            return r
        g,b=e.generic(st,n,el)
        if k=='any': b=bnot(b)
        if b is TRUE: r=TRUE
        else:
            l=max(b.lvl,n.lvl)+1
            r=mkb('all',(n,subst_b(b,{single_atom(g):bnd(l)}),l))
        return r if k=='all' else bnot(r)
    out=[]
    for s,kind,v in run_loop(e,st,it,UNIT,lambda s,acc,x:[(s3,('go',UNIT) if b==(k=='all') else ('stop',FALSE if k=='all' else TRUE)) for s2,v in e.call_closure(s,env,ty,[x]) for s3,b in split(e,s2,e.force(s2,v))]):
        out.append((s,v if kind=='stop' else bbool(k=='all')))
    return out
@rx(ITER+'(find|position|find_map)$')
def _(e,st,f,a,t):
    k=f['def'].split('::')[-1]; p=a[0]; cur=cell_it(e,st,p); it=to_it(e,st,cur); ty=last_ty(f); env=mkenv(e,st,a[1],ty)
    def step(s,acc,x):
        s=s.copy()
        arg=Ptr(e.alloc(s,x),(),None) if k=='find' else x
        r=[]
        for s2,v in e.call_closure(s,env,ty,[arg]):
            v=e.force(s2,v)
            if k=='find_map': r.append((s2,('stop',v) if v.v==1 else ('go',acc))); continue
            for s3,b in split(e,s2,v):
                if b: r.append((s3,('stop',some(x if k=='find' else acc))))
                else: r.append((s3,('go',acc+1)))
        return r
    return [(s,v if kind=='stop' else NONE) for s,kind,v in run_loop(e,st,it,ZERO,step)]
@rx(ITER+'(last|nth)$')
def _(e,st,f,a,t):
    if f['def'].endswith('nth'):
        p=a[0]; cur=cell_it(e,st,p); it=to_it(e,st,cur); i=it.pos+a[1]
        if not is_ra(it): raise Unsupported('nth')
        if not e.decide(st,lt(i,it.end)):
            put_it(e,st,p,cur,It(it.node,it.end,it.end)); return NONE
        r=[]
        for s,x in ra_at(e,st,it,i):
            s=s.copy(); put_it(e,s,p,cur,It(it.node,i+1,it.end)); r.append((s,some(x)))
        return r
    it=to_it(e,st,a[0])
    if not is_ra(it): raise Unsupported('last')
    if not e.decide(st,lt(it.pos,it.end)): return NONE
    return [(s,some(x)) for s,x in ra_at(e,st,it,it.end-1)]
@rx(ITER+'(max_by|min_by|max|min|reduce|try_fold|try_for_each|max_by_key|min_by_key|cmp|partial_cmp|eq)$')
def _(e,st,f,a,t):
    k=f['def'].split('::')[-1]
    if k=='reduce':
        it=to_it(e,st,a[0]); ty=last_ty(f); env=mkenv(e,st,a[1],ty); r=[]
        for s,i2,o in fork_next(e,st,it):
            if o.v==0: r.append((s,NONE)); continue
            for s2,_,v in run_loop(e,s,i2,o.f[0],lambda s,acc,x:[(s2,('go',v)) for s2,v in e.call_closure(s,env,ty,[acc,x])]): r.append((s2,some(v)))
        return r
    if k in('max_by','min_by','max','min'):
        it=to_it(e,st,a[0]); ty=last_ty(f); r=[]
        env=mkenv(e,st,a[1],ty) if len(a)>1 else None
        if is_ra(it) and not (it.end-it.pos).is_const(): raise Unsupported(k)
        def step(s,acc,x):
            out=[]
            if env is not None:
                s=s.copy(); pa=Ptr(e.alloc(s,acc),(),None); px=Ptr(e.alloc(s,x),(),None)
                for s2,o in e.call_closure(s,env,ty,[pa,px]):
                    o=e.force(s2,o); v=o.v-1
                    out.append((s2,('go',(x if v<=0 else acc) if k=='max_by' else (acc if v<=0 else x))))
                return out
            A=e.force(s,deref(e,s,acc)) if isinstance(acc,Ptr) else e.force(s,acc); Xv=e.force(s,deref(e,s,x)) if isinstance(x,Ptr) else e.force(s,x)
            for s2,b in split(e,s,le(A,Xv)): out.append((s2,('go',(x if b else acc) if k=='max' else (acc if b else x))))
            return out
        for s,i2,o in fork_next(e,st,it):
            if o.v==0: r.append((s,NONE)); continue
            for s2,_,v in run_loop(e,s,i2,o.f[0],step): r.append((s2,some(v)))
        return r
    if k in('eq','cmp','partial_cmp'):
        if k!='eq': raise Unsupported('iterator '+k)
        x=to_it(e,st,a[0]); y=to_it(e,st,a[1]); r=[]
        strip=lambda s,q: q
        for s,p in drain(e,st,x):
            for s2,q in drain(e,s,y): r.append((s2,e.seq_eq(s2,p,q,lambda s3,u,v:e.val_eq(s3,whole(e,s3,u),whole(e,s3,v)))))
        return r
    if k in('try_fold','try_for_each'):
        p=a[0]; cur=cell_it(e,st,p); it=to_it(e,st,cur); n=1 if k=='try_for_each' else 2
        tys=[x for x in f['args'] if isinstance(x,int)]; ty=[x for x in tys if e.T[x]['k'] in('closure','fndef','fnptr','ref')][-1]
        rt=e.T[tys[-1]]['def'] if e.T[tys[-1]]['k']=='adt' else ''
        if rt not in('std::option::Option','std::result::Result'): raise Unsupported('iterator '+k)
        good=1 if rt.endswith('Option') else 0
        env=mkenv(e,st,a[n],ty)
        def tstep(s,acc,x):
            r=[]
            for s2,v in e.call_closure(s,env,ty,([acc] if n==2 else [])+[x]):
                v=e.force(s2,v); r.append((s2,('go',v.f[0]) if v.v==good else ('stop',v)))
            return r
        out=[]
        for s,kind,v in run_loop(e,st,it,a[1] if n==2 else UNIT,tstep): out.append((s,v if kind=='stop' else En(good,(v,))))
        return out
    raise Unsupported('iterator '+k)
@rx(r'^std::array::from_fn$')
def _(e,st,f,a,t):
    ty=last_ty(f); env=mkenv(e,st,a[0],ty); n=[x['c'] for x in f['args'] if isinstance(x,dict)][0]
    it=It(('map',It(('range',ZERO),ZERO,topoly(n)),env,ty),ZERO,topoly(n))
    return drain(e,st,it)
@rx(r'^std::array::<impl \[T; N\]>::(iter|as_slice|each_ref)$',r'^core::array::<impl \[T; N\]>::(as_slice|as_mut_slice|each_ref)$')
def _(e,st,f,a,t): return slice_ptr(e,st,a[0])
@rx(r'array::<impl \[T; N\]>::map$')
def _(e,st,f,a,t):
    s=e.as_seq(st,a[0]); ty=f['args'][2]; env=mkenv(e,st,a[1],ty)
    it=It(('map',It(('val',s),ZERO,slen(s)),env,ty),ZERO,slen(s))
    return drain(e,st,it)
@rx(r'<impl std::ops::Index(Mut)?<I> for \[T(; N)?\]>::index(_mut)?$')
def _(e,st,f,a,t):
    if 'N]' in f['def']:
        p=slice_ptr(e,st,a[0])
        i=e.force(st,a[1])
        if isinstance(i,Poly): bounds(e,st,i,p.meta); return elem_ptr(p,i,e)
        lo,hi=range_of(e,st,i,last_ty(f) if not isinstance(last_ty(f),type(None)) else None,p.meta)
        return Ptr(p.o,e.psub(p.path,lo),hi-lo)
    return NotImplemented
@rx(r'^<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$')
def _(e,st,f,a,t):
    p=slice_ptr(e,st,a[0]); i=e.force(st,a[1])
    if isinstance(i,Poly): bounds(e,st,i,p.meta); return elem_ptr(p,i,e)
    lo,hi=range_of(e,st,i,f['args'][1],p.meta)
    return Ptr(p.o,e.psub(p.path,lo),hi-lo)
# ================================================================ strings, formatting
@rx(r'^(core|std|alloc)::fmt::(format|Arguments|rt::Argument|Formatter)',r'^std::fmt::Arguments',r'ToString>::to_string$',r'^std::hint::must_use$')
def _(e,st,f,a,t):
    if f['def']=='std::hint::must_use': return a[0]
    if f['def'].endswith('to_string') and a and isinstance(a[0],StrP): return a[0]
    if f['def'].startswith('std::fmt::Formatter') or 'Formatter' in f['def'].split('::<')[0]: return NotImplemented
    return Opq('text')
@rx(r'^std::string::String::(new|with_capacity)$')
def _(e,st,f,a,t): return StrP('')
def str_len(e,a): return topoly(len(a.s.encode()))
@rx(r'PartialEq.* for str>::eq$',r'^<str as std::cmp::PartialEq>::eq$')
def _(e,st,f,a,t):
    x,y=strval(e,st,a[0]),strval(e,st,a[1])
    if isinstance(y,Tok): x,y=y,x
    if isinstance(x,Tok) and x.kind=='ext' and isinstance(y,StrP): return eq(ext_sym(x.d),topoly(ext_code(y.s)))
    return e.val_eq(st,x,y)
def strval(e,st,v):
    while isinstance(v,Ptr): v=e.force(st,deref(e,st,v))
    return v
@rx(r'^<std::string::String as std::(ops::Deref|convert::AsRef<str>|borrow::Borrow<str>)>',r'^std::string::String::as_str$')
def _(e,st,f,a,t): return strval(e,st,a[0])
@rx(r'^<std::string::String as std::(convert::From<&str>|clone::Clone)>',r'^<str as std::borrow::ToOwned>|impl std::borrow::ToOwned for str')
def _(e,st,f,a,t): return strval(e,st,a[0])
@rx(r'^std::io::_(e)?print$')
def _(e,st,f,a,t): return UNIT

# ================================================================ files and codecs
# Contracts assumed on std::fs, std::path, serde_json, serde_yaml, bincode and anyhow: every call may fail;
# what it did is recorded in the path's ghost trace.  A codec is a partial function of the text; encoders
# of whole values do not fail.  The extension of a name is what std::path::Path::extension says.
_EXT={'json':1,'yaml':2}
def ext_code(s): return _EXT.setdefault(s,len(_EXT)+1)
def ext_sym(file): return sym('ext:'+file,'i',0,2**31)     # 0: none
def fx(st): return st.gh.get('fx',())
def note_fx(st,*ev): st.gh['fx']=fx(st)+(ev,)
def tok(e,st,v):
    v=e.force(st,v)
    while isinstance(v,(Ptr,BoxV)): v=e.force(st,deref(e,st,v))
    return v
def fname(e,st,v):
    v=tok(e,st,v)
    if isinstance(v,Tok) and v.kind=='name': return v.d
    raise Unsupported('file name '+repr(v)[:60])
def whole(e,st,v):
    """the value behind any number of references"""
    v=e.force(st,v)
    while isinstance(v,Ptr): v=e.force(st,deref(e,st,v))
    return v
def may_fail(e,st,key): return split(e,st,eq(sym('ok:'+key,'i',0,1),ONE))
def ok(v): return En(0,(v,))
def err(k): return En(1,(Opq(k+' error'),))
FMT={'serde_json':1,'serde_yaml':2,'bincode':3}
def fmt_of(d): return FMT[d.split('::')[0].lstrip('<')]
def serial(st,k):
    c=st.gh.get('n#'+k,0); st.gh['n#'+k]=c+1; return '%s#%d'%(k,c)
@model(P+'any_file')
def _(e,st,f,a,t): return Tok('name',uniq(st,sarg(a[0])))
@model(P+'any_text',P+'any_bytes')
def _(e,st,f,a,t): return Tok('text',uniq(st,sarg(a[0])))
@model(P+'wanted_format')
def _(e,st,f,a,t):
    x=ext_sym(fname(e,st,a[0])); r=[]
    for s,b in split(e,st,eq(x,topoly(1))):
        if b: r.append((s,topoly(1))); continue
        for s2,b2 in split(e,s,eq(x,topoly(2))): r.append((s2,topoly(2) if b2 else ZERO))
    return r
@model(P+'files_untouched')
def _(e,st,f,a,t): return bbool(not any(ev[0] in('create','write','remove') for ev in fx(st)))
@model(P+'only_touched')
def _(e,st,f,a,t):
    n=fname(e,st,a[0]); return bbool(all(ev[1]==n for ev in fx(st) if ev[0] in('create','write','remove')))
@model(P+'save_fails')
def _(e,st,f,a,t): return FALSE
@model(P+'saving_failed')
def _(e,st,f,a,t): return bbool(any(ev[0] in('create','write') and not ev[-1] for ev in fx(st)))
@model(P+'holds')
def _(e,st,f,a,t):
    n=fname(e,st,a[0]); fmt=e.force(st,a[1]); evs=[ev for ev in fx(st) if ev[0] in('create','write','remove') and ev[1]==n]
    if len(evs)<2 or evs[-2][0]!='create' or evs[-1][0]!='write' or not evs[-2][-1] or not evs[-1][-1]: return FALSE
    _,_,wf,wv,_=evs[-1]
    return band(eq(fmt,topoly(wf)),e.val_eq(st,wv,whole(e,st,a[2])))
def decode(e,st,key,fmt,ty):
    """the codec as a partial function of the text: [(state, value or None)]"""
    k='dec:%s:%d'%(key,fmt); r=[]
    for s,b in may_fail(e,st,k): r.append((s,Lazy(k,ty,(),False) if b else None))
    return r
def fmt_cases(e,st,x):
    """[(state, format)] for a possibly symbolic format"""
    x=e.force(st,x); r=[]
    if x.is_const(): return [(st,int(x.const()))]
    for k in(1,2,3):
        go=None
        for s,b in split(e,st,eq(x,topoly(k))):
            if b: r.append((s,k))
            else: go=s
        if go is None or not e.feasible(go): return r
        st=go
    raise Unsupported('unknown format')
@model(P+'in_file')
def _(e,st,f,a,t):
    n=fname(e,st,a[0]); r=[]
    for s0,fmt in fmt_cases(e,st,a[1]):
        for s,b in may_fail(e,s0,'open:'+n):
            if not b: r.append((s,NONE)); continue
            r+=[(s2,NONE if v is None else some(v)) for s2,v in decode(e,s,'content of '+n,fmt,f['args'][0])]
    return r
@model(P+'encodes')
def _(e,st,f,a,t):
    x=tok(e,st,a[0])
    if not (isinstance(x,Tok) and x.kind=='enc'): return FALSE
    return band(eq(e.force(st,a[1]),topoly(x.d[0])),e.val_eq(st,x.d[1],whole(e,st,a[2])))
def text_key(e,st,v):
    x=tok(e,st,v)
    if isinstance(x,Tok) and x.kind in('text','content'): return x.d
    raise Unsupported('decoding of '+repr(x)[:60])
@model(P+'in_text')
def _(e,st,f,a,t):
    k=text_key(e,st,a[0])
    return [(s,NONE if v is None else some(v)) for s0,fmt in fmt_cases(e,st,a[1]) for s,v in decode(e,s0,k,fmt,f['args'][0])]
@rx(r'^serde_json::(ser::)?to_writer(_pretty)?$',r'^serde_yaml::(ser::)?to_writer$',r'^bincode::serialize_into$')
def _(e,st,f,a,t):
    h=tok(e,st,a[0])
    if not (isinstance(h,Tok) and h.kind in('handle','buffered')): raise Unsupported('writer '+repr(h)[:60])
    fmt=fmt_of(f['def']); v=whole(e,st,a[1]); r=[]
    if h.kind=='buffered': return held(e,st,h.d,fmt,v,'codec')
    for s,b in may_fail(e,st,serial(st,'write')):
        note_fx(s,'write',h.d,fmt,v,b); r.append((s,ok(UNIT) if b else err('codec')))
    return r
@rx(r'^std::fs::File::(create|open)$')
def _(e,st,f,a,t):
    n=fname(e,st,a[0]); op=f['def'].split('::')[-1]; r=[]
    for s,b in may_fail(e,st,'open:'+n if op=='open' else serial(st,'create')):
        note_fx(s,op,n,b); r.append((s,ok(Tok('handle',n)) if b else err('io')))
    return r
@rx(r'^std::fs::(File::options|OpenOptions::new)$')
def _(e,st,f,a,t): return Tok('options',frozenset())
@rx(r'^std::fs::OpenOptions::(read|write|create|truncate)$')
def _(e,st,f,a,t):
    o=deref(e,st,a[0]); k=f['def'].split('::')[-1]
    if not (isinstance(o,Tok) and o.kind=='options') or a[1] not in (TRUE,FALSE): raise Unsupported('OpenOptions')
    e.write(st,a[0].o,a[0].path,Tok('options',o.d|{k} if a[1]==TRUE else o.d-{k})); return a[0]
@rx(r'^std::fs::OpenOptions::open$')
def _(e,st,f,a,t):
    o=deref(e,st,a[0]); n=fname(e,st,a[1]); r=[]
    op={frozenset({'read'}):'open',frozenset({'write','create','truncate'}):'create'}.get(o.d) if isinstance(o,Tok) and o.kind=='options' else None
    if op is None: raise Unsupported('OpenOptions::open')
    for s,b in may_fail(e,st,'open:'+n if op=='open' else serial(st,'create')):
        note_fx(s,op,n,b); r.append((s,ok(Tok('handle',n)) if b else err('io')))
    return r
@rx(r'^std::fs::remove_file$')
def _(e,st,f,a,t):
    n=fname(e,st,a[0]); r=[]
    for s,b in may_fail(e,st,serial(st,'remove')): note_fx(s,'remove',n,b); r.append((s,ok(UNIT) if b else err('io')))
    return r
@rx(r'^std::fs::(read|read_to_string)$')
def _(e,st,f,a,t):
    n=fname(e,st,a[0]); return [(s,ok(Tok('content','content of '+n)) if b else err('io')) for s,b in may_fail(e,st,'open:'+n)]
def put(e,st,n,x):
    if not (isinstance(x,Tok) and x.kind=='enc'): raise Unsupported('writing '+repr(x)[:60])
    r=[]
    for s,b in may_fail(e,st,serial(st,'write')): note_fx(s,'write',n,x.d[0],x.d[1],b); r.append((s,ok(UNIT) if b else err('io')))
    return r
def held(e,st,n,fmt,v,why):
    """a write to a buffered writer: fails at once, or is accepted and has reached the file only when a later flush says so"""
    if st.gh.get('held#'+n) is not None: raise Unsupported('second write to a buffered writer')
    r=[]
    for s,b in may_fail(e,st,serial(st,'write')):
        if b: s.gh['held#'+n]=(fmt,v)
        else: note_fx(s,'write',n,fmt,v,False)
        r.append((s,ok(UNIT) if b else err(why)))
    return r
@rx(r'^std::fs::write$')
def _(e,st,f,a,t):
    n=fname(e,st,a[0]); x=tok(e,st,a[1]); r=[]
    for s,b in may_fail(e,st,serial(st,'create')):
        note_fx(s,'create',n,b)
        r+=put(e,s,n,x) if b else [(s,err('io'))]
    return r
@rx(r'Write>?::write_all$',r'Write for (&)?std::fs::File>::write_all$')
def _(e,st,f,a,t):
    h=tok(e,st,a[0])
    if not (isinstance(h,Tok) and h.kind in('handle','buffered')): raise Unsupported('write_all')
    x=tok(e,st,a[1])
    if h.kind=='handle': return put(e,st,h.d,x)
    if not (isinstance(x,Tok) and x.kind=='enc'): raise Unsupported('writing '+repr(x)[:60])
    return held(e,st,h.d,x.d[0],x.d[1],'io')
@rx(r'^std::io::BufReader::<.*>::(new|with_capacity)$')
def _(e,st,f,a,t): return tok(e,st,a[-1])
@rx(r'^std::io::BufWriter::<.*>::(new|with_capacity)$')
def _(e,st,f,a,t):
    h=tok(e,st,a[-1])
    if not (isinstance(h,Tok) and h.kind=='handle'): raise Unsupported('BufWriter')
    return Tok('buffered',h.d)
@rx(r'Write>?::flush$',r'^std::fs::File::sync_(all|data)$',r'^std::io::BufWriter::<.*>::into_inner$',r'Write for std::io::BufWriter<.*>>::flush$')
def _(e,st,f,a,t):
    h=tok(e,st,a[0]); inner=f['def'].endswith('into_inner')
    if not isinstance(h,Tok) or h.kind!='buffered':
        if inner: raise Unsupported('into_inner')
        return ok(UNIT)
    n=h.d; good=ok(Tok('handle',n)) if inner else ok(UNIT)
    p=st.gh.get('held#'+n)
    if p is None: return good
    r=[]
    for s,b in may_fail(e,st,serial(st,'write')):
        s.gh['held#'+n]=None; note_fx(s,'write',n,p[0],p[1],b); r.append((s,good if b else err('io')))
    return r
@rx(r'^serde_json::(de::)?from_reader$',r'^serde_yaml::(de::)?from_reader$',r'^bincode::deserialize_from$')
def _(e,st,f,a,t):
    h=tok(e,st,a[0])
    if not (isinstance(h,Tok) and h.kind=='handle'): raise Unsupported('reader '+repr(h)[:60])
    return [(s,err('codec') if v is None else ok(v)) for s,v in decode(e,st,'content of '+h.d,fmt_of(f['def']),last_ty(f))]
@rx(r'^(core|std)::str::(converts::)?from_utf8$',r'^std::string::String::from_utf8$')
def _(e,st,f,a,t):
    x=tok(e,st,a[0])
    if isinstance(x,Tok) and x.kind=='enc' and x.d[0] in(1,2): return ok(x)
    if not (isinstance(x,Tok) and x.kind in('text','content')): raise Unsupported('from_utf8 of '+repr(x)[:60])
    if x.kind=='text' and not x.d.startswith('bytes'): return ok(x)
    return [(s,ok(x) if b else err('utf8')) for s,b in may_fail(e,st,'utf8:'+x.d)]
@rx(r'^serde_json::(de::)?from_(str|slice)$',r'^serde_yaml::(de::)?from_(str|slice)$',r'^bincode::deserialize$')
def _(e,st,f,a,t): return [(s,err('codec') if v is None else ok(v)) for s,v in decode(e,st,text_key(e,st,a[0]),fmt_of(f['def']),last_ty(f))]
@rx(r'^serde_json::(ser::)?to_(string|vec)(_pretty)?$',r'^serde_yaml::(ser::)?to_string$',r'^bincode::serialize$')
def _(e,st,f,a,t): return ok(Tok('enc',(fmt_of(f['def']),whole(e,st,a[0]))))
@rx(r'^std::path::Path::new$',r'^<std::path::PathBuf as std::convert::From<',r'^<.* as std::convert::AsRef<(std::path::Path|std::ffi::OsStr|str|\[u8\])>>::as_ref$',r'AsRef<(std::path::Path|std::ffi::OsStr|str|\[u8\])> for .*>::as_ref$',r'^std::path::(Path::to_path_buf|PathBuf::as_path|Path::as_os_str)$',r'^<std::path::PathBuf as std::ops::Deref>::deref$',r'^std::string::String::(into_bytes|as_bytes)$',r'^(core|std)::str::<impl str>::as_bytes$')
def _(e,st,f,a,t):
    x=tok(e,st,a[0])
    if isinstance(x,(Tok,StrP)): return x
    return NotImplemented
@rx(r'^std::path::Path::extension$')
def _(e,st,f,a,t):
    n=fname(e,st,a[0]); return [(s,NONE if b else some(Tok('ext',n))) for s,b in split(e,st,eq(ext_sym(n),ZERO))]
@rx(r'^std::ffi::OsStr::to_str$')
def _(e,st,f,a,t): return some(tok(e,st,a[0]))
@rx(r'^std::ffi::OsStr::to_string_lossy$',r'^std::borrow::Cow::<.*>::(as_ref|into_owned)$')
def _(e,st,f,a,t):
    x=tok(e,st,a[0])
    return x if isinstance(x,(Tok,StrP)) else NotImplemented
@rx(r'^anyhow::.*Context.*::(with_)?context$')
def _(e,st,f,a,t):
    r=e.force(st,a[0])
    if isinstance(r,En) and 'Option' not in f['def']: return r if r.v==0 else err('anyhow')
    raise Unsupported('context')
@rx(r'^anyhow::__private::not$')
def _(e,st,f,a,t):
    x=a[0] if not isinstance(a[0],Ptr) else deref(e,st,a[0])
    return bnot(x)
@rx(r'^<?anyhow::')
def _(e,st,f,a,t): return Opq('anyhow error')

# ================================================================ serde's impls for Vec (C19)
def prim_seq(e,ty):
    d=e.T[ty]
    if d['k'] in('float','int','bool'): return True
    if d['k']=='adt' and d['s'].startswith(('std::vec::Vec<','alloc::vec::Vec<','std::option::Option<')): return prim_seq(e,[a for a in d.get('args',()) if isinstance(a,int)][0])
    return False
KEPT=11
@rx(r'^serde(_core)?::ser::impls::<impl serde(_core)?::(ser::)?Serialize for (std|alloc)::vec::Vec<T>>::serialize$')
def _(e,st,f,a,t):
    """a `Vec` of primitives is written as the sequence of its elements: kept whole"""
    tys=[x for x in f['args'] if isinstance(x,int)]
    if not prim_seq(e,tys[0]) or 'serial::Put' not in e.T[tys[1]]['s']: return NotImplemented
    return ok(En(KEPT,(Tok('kept',(whole(e,st,a[0]),tys[0])),)))
@rx(r"^serde(_core)?::de::impls::<impl serde(_core)?::(de::)?Deserialize<'de> for (std|alloc)::vec::Vec<T>>::deserialize$")
def _(e,st,f,a,t):
    tys=[x for x in f['args'] if isinstance(x,int)]
    if not prim_seq(e,tys[0]) or 'serial::Get' not in e.T[tys[1]]['s']: return NotImplemented
    x=e.force(st,e.force(st,a[0]).f[0])
    if isinstance(x,En) and x.v==KEPT and x.f: return ok(x.f[0].d[0]) if x.f[0].d[1]==tys[0] else err('bad')
    return err('bad')
@model('<vh::serial::Tree as std::clone::Clone>::clone')
def _(e,st,f,a,t): return whole(e,st,a[0])
@model('<vh::serial::Tree as std::cmp::PartialEq>::eq')
def _(e,st,f,a,t): return e.val_eq(st,whole(e,st,a[0]),whole(e,st,a[1]))
@rx(r'^<std::boxed::Box<.*> as std::ops::Drop>::drop$')
def _(e,st,f,a,t): return UNIT

# ================================================================ calls from Python (C20)
PYM='vh::python::'
def py_method(e,ty,names):
    if not hasattr(e,'pynames'): e.pynames={f['name']:i for i,f in enumerate(e.F) if 'blocks' in f and f['krate'] in('dess','dess_examples','vh') and not f['args']}
    for n in names:
        i=e.pynames.get(e.T[ty]['def']+'::'+n)
        if i is not None: return i
    raise Unsupported('no method %s of %s'%(names[0],e.T[ty]['s']))
def py_invoke(e,st,i,args,what):
    """runs the exposed method; [(state, value or None when it returns an error)]"""
    f=e.F[i]; full=[]; rest=list(args)
    for k in range(f['argc']):
        d=e.T[f['locals'][k+1]]
        if re.match(r'(pyo3|dess::prelude)::Python\b',d['s']) or d['k']=='ref' and e.T[e.pointee(f['locals'][k+1])]['s'].endswith('PyType'): full.append(Opq('python'))
        elif rest:
            x=rest.pop(0)
            if d['k']=='ref' and isinstance(x,Agg): x=Ptr(e.alloc(st,x),(),None)     # a Python object borrowed for the call
            full.append(x)
        else: full.append(None)
    if rest or None in full:
        e.oblige(st,'post',f"Python's call of {what} with {len(args)} argument{'s'*(len(args)!=1)} is accepted",FALSE)
        return []
    r=[]
    for s,v in e.exec_fn(st,i,full):
        d=e.T[f['locals'][0]]
        if d['k']=='adt' and d['def'].endswith('result::Result'):
            v=e.force(s,v)
            if not isinstance(v,En): raise Unsupported('symbolic result')
            r.append((s,v.f[0] if v.v==0 else None))
        else: r.append((s,v))
    return r
def opt_all(rs): return [(s,NONE if v is None else some(v)) for s,v in rs]
def tuple_items(e,st,v): return [e.force(st,x) if isinstance(x,Lazy) else x for x in e.force(st,v).f]
@model(PYM+'py_new')
def _(e,st,f,a,t):
    ty=[x for x in f['args'] if isinstance(x,int)][0]
    return opt_all(py_invoke(e,st,py_method(e,ty,['__new__','new_py','py_new']),tuple_items(e,st,a[0]),'the constructor'))
@model(PYM+'py_make')
def _(e,st,f,a,t):
    ty=[x for x in f['args'] if isinstance(x,int)][0]; n=sarg(a[0])
    return opt_all(py_invoke(e,st,py_method(e,ty,[n+'_py',n]),tuple_items(e,st,a[1]),n))
@model(PYM+'py_get')
def _(e,st,f,a,t):
    ty=[x for x in f['args'] if isinstance(x,int)][0]; n=sarg(a[1])
    return opt_all(py_invoke(e,st,py_method(e,ty,['get_'+n]),[a[0]],n))
@model(PYM+'py_call')
def _(e,st,f,a,t):
    ty=[x for x in f['args'] if isinstance(x,int)][0]; n=sarg(a[1])
    return opt_all(py_invoke(e,st,py_method(e,ty,[n+'_py',n]),[a[0]]+tuple_items(e,st,a[2]),n))
@model(PYM+'py_do')
def _(e,st,f,a,t):
    ty=[x for x in f['args'] if isinstance(x,int)][0]; n=sarg(a[1])
    return [(s,bbool(v is not None)) for s,v in py_invoke(e,st,py_method(e,ty,[n+'_py',n]),[a[0]]+tuple_items(e,st,a[2]),n)]
@model(PYM+'py_module_has')
def _(e,st,f,a,t):
    """executes the module's initialiser; `add_class` is assumed to succeed and to offer the class under its NAME"""
    ty=[x for x in f['args'] if isinstance(x,int)][0]; n=sarg(a[0])
    inits=[i for i,g in enumerate(e.F) if 'blocks' in g and g['krate']=='vh' and g['name'].startswith(PYM+'ext::') and g['argc']==2 and '{closure' not in g['name']
           and e.T[g['locals'][2]]['k']=='ref' and e.T[e.pointee(g['locals'][2])]['s'].endswith('PyModule')]
    named=[i for i in inits if e.F[i]['name']==PYM+'ext::dess_pyo3']
    if len(named or inits)!=1: raise Unsupported('the initialiser of the Python module')
    r=[]
    s0=st.copy()
    for s,v in e.exec_fn(s0,(named or inits)[0],[Opq('python'),Ptr(e.alloc(s0,Opq('module')),(),None)]):
        v=e.force(s,v)
        if not isinstance(v,En): raise Unsupported('symbolic result')
        has=v.v==0 and ty in s.gh.get('classes',()) and sarg(a[1])==n
        r.append((st.copy(),bbool(has)))
    if len(r)!=1: raise Unsupported('initialiser with several outcomes')
    return r[0][1]
@rx(r'(^|::)PyModule::add_class$')
def _(e,st,f,a,t):
    ty=[x for x in f['args'] if isinstance(x,int)][0]
    st.gh['classes']=st.gh.get('classes',())+(ty,)
    return ok(UNIT)
def unboxed(e,st,v):
    if isinstance(v,BoxV): return ('box',unboxed(e,st,e.read(st,v.p.o,v.p.path)))
    if isinstance(v,(Agg,En)): return (type(v).__name__,getattr(v,'v',None))+tuple(unboxed(e,st,x) for x in v.f)
    return repr(v)
@model(PYM+'py_walk_is_a_function')
def _(e,st,f,a,t):
    seen={}
    def h(eng,st,f,args):
        s=st.copy(); p=args[0]
        if isinstance(p,BoxV): p=p.p
        v=eng.read(s,p.o,p.path); ty=eng.T[f['locals'][1]]; k=repr(unboxed(eng,s,v))
        nm=seen.setdefault(k,'walked%d'%len(seen))
        eng.write(s,p.o,p.path,Lazy(nm,eng.pointee(f['locals'][1]),(),False))
        return [(s,UNIT)]
    e.overrides.append((re.compile(r'::walk$'),h))
    return UNIT
@rx(r'^<?pyo3::.*From<.*> for pyo3::PyErr>::from$')
def _(e,st,f,a,t): return Opq('python exception')
@rx(r'(^|::)PyBytes::(new|as_bytes)$')
def _(e,st,f,a,t):
    x=e.force(st,a[-1])
    if isinstance(x,Ptr): x=e.force(st,e.deref_val(st,x))
    if isinstance(x,Agg) and len(x.f)==1: x=e.force(st,x.f[0])     # the contract's `Bytes`
    if not isinstance(x,Tok): raise Unsupported('python bytes')
    return x
