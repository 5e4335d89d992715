"""Loop rule: unrolling where the iteration count is concrete, otherwise inductive invariants
(closed forms in a ghost iteration counter, candidate facts filtered by Houdini, user-supplied
candidates).  Every invariant used is checked at entry and preserved by every path through the body."""
from terms import *
from values import *
import solver
from exec import Unsupported, NeedBranch, Infeasible
import exec as X
import os
from fractions import Fraction
from math import gcd,lcm
DEBUG=bool(os.environ.get('VERIF_LOOPDBG'))

def drive(e,st,iterate,dead):
    """used for library-level loops (fold, for_each, ...)"""
    mark=(len(e.obls),set(e.reached))
    frontier=[st]; done=[]; n=0; amb=False
    while frontier:
        nf=[]
        for s in frontier:
            c0=s.gh.get('cnext',0)
            outs=iterate(s.copy())
            backs=[o for o in outs if o[0]=='back']; ex=[o for o in outs if o[0]!='back']
            conc=any(o[1].gh.get('cnext',0)>c0 for o in outs)
            if backs and ex and not conc: amb=True; break
            nf+=[o[1] for o in backs]; done+=ex
        n+=1
        if amb or n>300 or len(nf)>64: amb=True; break
        frontier=nf
    if not amb: return done
    del e.obls[mark[0]:]; e.reached=mark[1]
    return invariant(e,st,iterate,dead)

def invariant_mode(e,fr,st,loop,dead):
    def settle(st,was):
        """a state at the header: what its next test is decided to do, deciding flags the test looks at"""
        r=e.peek(fr,st,loop[0],loop)
        if r is None:
            for l in fr.loc:
                v=st.mem.get(l)
                if isinstance(v,B) and v not in (TRUE,FALSE) and v is not was.get(l):
                    w=e.known(st,v)
                    if w is not None: st.mem[l]=TRUE if w else FALSE
            return [('back',st)]
        if not isinstance(r,tuple): return r
        # the next test depends on r[1]: when that is what a variable holds, leave the loop where it says so
        ls=[l for l in fr.loc if isinstance(st.mem.get(l),B) and st.mem[l] not in (TRUE,FALSE) and st.mem[l] is not was.get(l)]
        if DEBUG: print('  PEEK fork on',repr(r[1])[:150],'locals',len(ls))
        for l in ls:
            res=[]; left=False
            for side,v in ((st.mem[l],TRUE),(bnot(st.mem[l]),FALSE)):
                b=st.copy()
                try: b.assume(side)
                except X.Infeasible: continue
                if not e.feasible(b): left=True; continue
                for l2 in ls:
                    w=e.known(b,b.mem[l2]) if l2!=l else v is TRUE
                    if w is not None: b.mem[l2]=TRUE if w else FALSE
                q=e.peek(fr,b,loop[0],loop)
                if q is None or isinstance(q,tuple): res.append(('back',b))
                else: res+=q; left=True
            if left: return res
        return [('back',st)]
    def iterate(s):
        outs=[]; was=dict(s.mem)
        for o in e.run(fr,s,loop[0],loop):
            if o[0]!='back': outs.append(o); continue
            for l in dead: o[1].mem.pop(l,None)
            outs+=settle(o[1],was)
        return outs
    first=settle(st.copy(),{l:v for l,v in st.mem.items() if l not in fr.loc or l in dead})
    res=[o for o in first if o[0]!='back']
    for o in first:
        if o[0]!='back': continue
        s=o[1]
        ls=[l for l in fr.loc if isinstance(s.mem.get(l),En) and l not in dead]
        if ls:
            # a local that holds nothing before the first iteration and something after it (or the like): that iteration by itself
            mark=(len(e.obls),set(e.reached))
            outs=iterate(s.copy()); bs=[x[1] for x in outs if x[0]=='back']
            ch=[l for l in ls if bs and all(isinstance(b.mem.get(l),En) and b.mem[l].v!=s.mem[l].v for b in bs)]
            if ch and len(bs)==1:
                b=bs[0]; outs2=iterate(b.copy()); bs2=[x[1] for x in outs2 if x[0]=='back']
                if all(isinstance(x.mem.get(l),En) and x.mem[l].v==b.mem[l].v for x in bs2 for l in ch):
                    del e.obls[mark[0]:]; e.reached=mark[1]
                    outs=iterate(s.copy())
                    for x in outs:
                        if x[0]=='back': res+=invariant(e,x[1],iterate,dead)
                        else: res.append(x)
                    continue
            del e.obls[mark[0]:]; e.reached=mark[1]
        res+=invariant(e,s,iterate,dead)
    return res

# ---------------------------------------------------------------- cells
def diff(e,a,b,path,out):
    """paths at which value b differs from a (structure of a)"""
    if a is b or a==b: return
    if isinstance(a,Agg) and isinstance(b,Agg) and len(a.f)==len(b.f):
        for i,(x,y) in enumerate(zip(a.f,b.f)): diff(e,x,y,path+(('f',i),),out)
        return
    if isinstance(a,En) and isinstance(b,En) and a.v==b.v:
        for i,(x,y) in enumerate(zip(a.f,b.f)): diff(e,x,y,path+(('v',a.v),('f',i)),out)
        return
    if isinstance(a,It) and isinstance(b,It):
        if a.node==b.node and a.end==b.end: out.add(path+(('itpos',),)); return
    if isinstance(a,Ptr) and isinstance(b,Ptr) and a.o==b.o and a.meta==b.meta and len(a.path)==len(b.path):
        # a reference that moves along a sequence: its index
        d=[j for j,(x,y) in enumerate(zip(a.path,b.path)) if x!=y]
        if len(d)==1 and a.path[d[0]][0]=='x'==b.path[d[0]][0]: out.add(path+(('ptrix',d[0]),)); return
    out.add(path)
def get(e,st,o,path):
    if path and path[-1]==('itpos',):
        v=getp(e,st,o,path[:-1])
        return v.pos if isinstance(v,It) else v
    if path and path[-1][0]=='ptrix':
        v=getp(e,st,o,path[:-1]); j=path[-1][1]
        return v.path[j][1] if isinstance(v,Ptr) and len(v.path)>j and v.path[j][0]=='x' else v
    return getp(e,st,o,path)
def getp(e,st,o,path):
    v=e.getobj(st,o)
    for x in path:
        if isinstance(v,Lazy): return v
        if x[0]=='f':
            if not isinstance(v,(Agg,En)): return None
            v=v.f[x[1]]
        elif x[0]=='v':
            if not isinstance(v,En) or v.v!=x[1]: return None
    return v
def put(e,st,o,path,val):
    if path and path[-1]==('itpos',):
        it=getp(e,st,o,path[:-1]); e.write(st,o,path[:-1],It(it.node,val,it.end)); return
    if path and path[-1][0]=='ptrix':
        v=getp(e,st,o,path[:-1]); j=path[-1][1]
        e.write(st,o,path[:-1],Ptr(v.o,v.path[:j]+(('x',val),)+v.path[j+1:],v.meta)); return
    e.write(st,o,path,val)
def prefix(p,q): return len(p)<=len(q) and q[:len(p)]==p

def cell_type(e,o,path):
    t=e.objty.get(o)
    if t is None and isinstance(o,tuple) and o[0]=='lz': t=o[3]
    if t is None: return None
    var=0
    for x in path:
        d=e.T[t]
        if x[0]=='f':
            if d['k']=='tuple': t=d['e'][x[1]]
            elif d['k']=='adt':
                if var>=len(d['v']) or x[1]>=len(d['v'][var]['f']): return None
                t=d['v'][var]['f'][x[1]][1]
            elif d['k']=='closure':
                u=e.T[d['ups']] if isinstance(d.get('ups'),int) else None
                t=u['e'][x[1]] if u and u['k']=='tuple' else None
                if t is None: return None
            else: return None
            var=0
        elif x[0]=='v': var=x[1]
        else: return None
    return t

def lazy_of(e,name,ty,val,ext):
    """an arbitrary value of the same kind as val"""
    if isinstance(val,FV): return FV('r',sym(name))
    if isinstance(val,Poly):
        lo=hi=None
        if ty is not None and e.T[ty]['k'] in('int','char'): lo,hi=e.irange(ty)
        return sym(name,'i' if True else 'r',lo,hi)
    if isinstance(val,B): return eq(sym(name,'i',0,1),ONE)
    if ty is not None: return Lazy(name,ty,(),ext)
    raise Unsupported('havoc of '+type(val).__name__)

class Cell:
    __slots__=('o','path','ty','entry','mode','sym','val','kinds','closed','deps','ext','off','need')
    # mode: 'havoc' | 'append' | 'fixlen' | 'sweep' | 'arb' | 'arb2' | 'closed'
    #  append: the entry sequence followed by arbitrary elements; fixlen: an arbitrary sequence of the entry's length;
    #  sweep: the entry sequence of which elements off..off+k were replaced by arbitrary ones (k iterations done)

def covers(e,st,c,v):
    """is v an instance of the havoc pattern of cell c? (may upgrade the pattern; returns False if upgraded)"""
    if c.mode=='havoc' and isinstance(c.entry,FV):
        if not isinstance(v,FV):
            v=e.force(st,v)
        if v.k not in c.kinds: c.kinds=tuple(c.kinds)+(v.k,); return False
        return True
    if c.mode=='havoc' and isinstance(c.entry,(Poly,B)): return True
    if c.ext or finite(v): return True
    c.ext=True
    return False
def finite(v):
    """v is an instance of a havocked value whose floats are finite"""
    if isinstance(v,FV): return v.k=='r'
    if isinstance(v,(Poly,B,StrP)): return True
    if isinstance(v,Lazy): return not v.ext and not(isinstance(v.ty,tuple) and v.ty[0]=='kf' and set(v.ty[1])-{'r'})
    if isinstance(v,(Agg,En)): return all([finite(x) for x in v.f])
    if isinstance(v,VecV): v=v.s
    if isinstance(v,Seq): return all([finite(x) for c in v.ch for x in (c.v if isinstance(c,L) else (c.t,) if isinstance(c,M) else ())]) and not any(isinstance(c,O) and c.ext for c in v.ch)
    if isinstance(v,Ptr): raise Unsupported('pointer changes across iterations')
    if isinstance(v,BoxV): raise Unsupported('box changes across iterations')
    return True
def sweepable(v): return isinstance(v,VecV) and len(v.s.ch)==1 and not isinstance(v.s.ch[0],L)
def sweep_el(c,v,k):
    """the element at off+k after an iteration, when that is all that changed in back value v (None otherwise)"""
    en=c.entry.s.ch[0]; off=c.off[1]
    if v==c.val:
        if isinstance(en,M): return m_at(en,off+k)
        return Lazy(en.name,en.ty,en.args+(en.off+off+k,),en.ext)
    if not isinstance(v,VecV): return None
    pre=c.val.s.ch[:-1]; post=mkseq(drop_shift(en,off+k+1)).ch
    ch=v.s.ch
    if len(ch)!=len(pre)+1+len(post) or ch[:len(pre)]!=pre or ch[len(pre)+1:]!=post: return None
    x=ch[len(pre)]
    return x.v[0] if isinstance(x,L) and len(x.v)==1 else None
def write_at(c,v):
    """index of the only element at which back value v of a 'fixlen' cell differs from its header value"""
    if not isinstance(v,VecV) or len(c.val.s.ch)!=1: return None
    h=c.val.s.ch[0]; ch=v.s.ch
    i=next((i for i,x in enumerate(ch) if isinstance(x,L)),None)
    if i is None or i>1 or len(ch[i].v)!=1: return None
    at=clen(ch[0]) if i else ZERO
    return at if mkseq(take_chunk(h,at),ch[i],drop_shift(h,at+1))==v.s else None

def havoc_value(e,c,name):
    if isinstance(c.entry,FV):
        if len(c.kinds)==1 and c.kinds[0]=='r': return FV('r',sym(name))
        return Lazy(name,('kf',tuple(c.kinds)),(),False)
    if isinstance(c.entry,VecV):
        ety=None
        if c.ty is not None and e.adt(c.ty)=='std::vec::Vec': ety=e.T[c.ty]['args'][0]
        else:
            for k in c.entry.s.ch:
                if isinstance(k,O): ety=k.ty
        if c.mode=='append':
            n=sym(name+'#n','i',0,X.LENMAX)
            if ety is None: raise Unsupported('havoc of a Vec of unknown type')
            return VecV(mkseq(*(c.entry.s.ch+(e.ochunk(n,name,ety,(),ZERO,c.ext),))))
        if ety is None: raise Unsupported('havoc of a Vec of unknown type')
        if c.mode=='sweep':
            en=c.entry.s.ch[0]; k,off=c.off
            return VecV(mkseq(take_chunk(en,off),e.ochunk(k,name,ety,(),ZERO,c.ext),drop_shift(en,off+k)))
        n=slen(c.entry.s) if c.mode=='fixlen' else sym(name+'#n','i',0,X.LENMAX)
        return VecV(mkseq(e.ochunk(n,name,ety,(),ZERO,c.ext)))
    if c.path and c.path[-1][0] in('itpos','ptrix'): return sym(name,'i',0,None)
    v=lazy_of(e,name,c.ty,c.entry,c.ext)
    return v

def invariant(e,st,iterate,dead):
    e.loop_invs+=1
    if e.loop_invs>600: raise X.Budget('too many loop inferences')
    entry=st.copy()
    for l in dead: entry.mem.pop(l,None)
    k=fresh('k','i',0)
    cells={}
    order=len(HVORD)
    def header(cands=()):
        h=entry.copy()
        h.gh['iter']=repr(k)
        h.assume(le0(-k))
        for c in sorted(cells.values(),key=lambda c:len(c.path)): put(e,h,c.o,c.path,c.val)
        return h
    def add_user(h,users):
        """assume the user-supplied candidates in h; may fork"""
        states=[h]
        for u in users:
            nx=[]
            for s in states:
                alt=[]; n0=len(s.pc)
                for s2,v in quiet(e,s,u):
                    v=e.force(s2,v)
                    if v is FALSE: continue
                    alt.append(band(v,*s2.pc[n0:]))
                v=bor(*alt)
                if v is FALSE: continue
                s3=s.copy()
                if v is not TRUE: s3.assume(v)
                nx.append(s3)
            states=nx
        return states
    def quiet(e,s,u):
        m=len(e.obls); r=e.call_closure(s.copy(),u[1],u[2],[get(e,s,cells[u[3]].o,cells[u[3]].path)] if len(u)>3 else []); del e.obls[m:]
        return r
    def user_holds(s,u):
        for s2,v in quiet(e,s,u):
            v=e.force(s2,v)
            if v is TRUE: continue
            r,_=solver.prove(s2.pc,v)
            if r!='proved':
                if DEBUG: print('   user',u[0],'fails:',r,repr(v)[:300],'PC',[repr(t)[:120] for t in s2.pc])
                return False
        return True
    def explore(states):
        outs=[]
        for s in states: outs+=iterate(s.copy())
        return outs
    users=[u for u in entry.gh.get('inv',()) if user_holds(entry,u)]
    if DEBUG: print('LOOP at',e.where(),e.stack[-1] if e.stack else '', 'users',[u[0] for u in users])
    cands=[]    # (cell key, kind)
    ka=single_atom(k)
    def term_at(s,t,kv):
        """header formula t re-evaluated in state s (iteration count kv)"""
        mp={ka:kv}
        for key,c in cells.items():
            if c.mode=='closed': continue
            p=c.val.p if isinstance(c.val,FV) else c.val
            if isinstance(p,Poly) and not p.is_const():
                v=get(e,s,c.o,c.path)
                if isinstance(v,FV):
                    if v.k!='r': return None
                    v=v.p
                if isinstance(v,Poly): mp[single_atom(p)]=v
        return subst_b(t,mp)
    def guards(h,backs):
        out=[]
        n0=len(h.pc)
        scal=set([ka])
        bad=set()
        for c in cells.values():
            if c.mode=='closed': continue
            if isinstance(c.val,(FV,Poly)):
                p=c.val.p if isinstance(c.val,FV) else c.val
                if isinstance(p,Poly) and not p.is_const(): scal.add(single_atom(p)); continue
            bad|={a for a in vatoms(c.val) if a.kind!='bnd'}
        for b in backs:
            for t in b.pc[n0:]:
                if t.k not in('le','lt'): continue
                at=vatoms_b(t)
                if not at&scal or at&bad: continue
                if any(a.kind=='sym' and a.id>ka.id and a not in scal for a in at): continue
                w=le0(unit(t.a[0])-1) if t.k=='le' and is_int_poly(t.a[0]) else le0(t.a[0])
                if w not in out: out.append(w)
        return out[:12]
    rnd=0; refine=0; kcur=[k]; weak={}
    def cand_terms(s,cs):
        out=[]
        for key,kind in cs:
            if key=='term':
                out.append(term_at(s,kind,kcur[0])); continue
            c=cells[key]
            v=get(e,s,c.o,c.path)
            out.append(cand_term(c,kind,v))
        return out
    def with_cands(h,cs):
        for t in cand_terms(h,cs):
            if t is not None: h.assume(t)
        return h
    while True:
        rnd+=1
        if rnd>40: raise Unsupported('loop inference does not converge')
        m=(len(e.obls),e.reached); e.reached=set(e.reached)
        h=with_cands(header(),cands)
        outs=explore(add_user(h,users))
        keep=(e.obls[m[0]:],e.reached)
        del e.obls[m[0]:]; e.reached=m[1]
        backs=[o[1] for o in outs if o[0]=='back']
        # 1. newly modified cells
        changed=False
        for b in backs:
            new=set()
            for o in list(h.mem):
                x,y=h.mem[o],b.mem.get(o,UNDEF)
                if x is y: continue
                if isinstance(y,Undef): continue
                out=set(); diff(e,x,y,(),out)
                for p in out: new.add((o,p))
            for o in b.mem:
                if o not in h.mem and (isinstance(o,tuple) and o[0]=='lz'):
                    x=e.getobj(h,o); y=b.mem[o]
                    out=set(); 
                    try: diff2(e,h,x,y,(),out)
                    except NeedBranch: raise Unsupported('fork in loop diff')
                    for p in out: new.add((o,p))
            for key in new:
                if key in cells: continue
                # a wider cell already covers it?
                if any(k2[0]==key[0] and prefix(k2[1],key[1]) for k2 in cells): continue
                for k2 in [k2 for k2 in cells if k2[0]==key[0] and prefix(key[1],k2[1])]:
                    del cells[k2]; cands[:]=[x for x in cands if x[0]!=k2]; users=[u for u in users if len(u)<4 or u[3]!=k2]
                o,p=key
                c=Cell(); c.o=o;c.path=p
                c.entry=get(e,entry,o,p)
                c.ty=cell_type(e,o,p) if not(p and p[-1][0] in('itpos','ptrix')) else None
                lz=False
                if isinstance(c.entry,Lazy):
                    if c.ty is not None and e.T[c.ty]['k']=='adt' and len(e.T[c.ty]['v'])>1: lz=True
                    else: c.entry=e.force(entry,c.entry)
                c.kinds=(c.entry.k,) if isinstance(c.entry,FV) else ()
                c.need=c.off=c.deps=None
                c.ext=not (c.entry is None or isinstance(c.entry,(FV,Undef,VecV)) or finite(c.entry))
                if isinstance(c.entry,(FV,Poly,B)): c.mode='havoc'
                elif isinstance(c.entry,VecV): c.mode='append'
                else: c.mode='arb'
                c.closed=None
                if lz: c.mode='arb'; c.entry=None
                elif c.entry is None or isinstance(c.entry,Undef):
                    if c.ty is None: raise Unsupported('uninitialised cell written in loop')
                    c.mode='arb'; c.entry=None
                c.sym=f"hv{e.objn}.{fresh('h').m and len(cells)}.{k!r}"
                HVORD[c.sym]=HVORD[c.sym+'a']=HVORD[c.sym+'d']=len(HVORD)+1
                c.val=havoc_value(e,c,c.sym) if c.entry is not None else Lazy(c.sym,c.ty,(),c.ext)
                cells[key]=c; changed=True
                if DEBUG: print('  cell',key,type(c.entry).__name__,c.mode,repr(c.entry)[:60])
        if changed: continue
        # 2. patterns cover the back values; closed forms
        for key,c in list(cells.items()):
            vals=[get(e,b,c.o,c.path) for b in backs]
            if c.mode=='closed':
                want=c.closed(k+1)
                for b,v in zip(backs,vals):
                    if not same_val(e,b,v,want):
                        demote(e,c); changed=True
                        if DEBUG: print('  demote',key,repr(v)[:200],'vs',repr(want)[:200])
                        break
                continue
            if c.mode=='append':
                for v in vals:
                    if not (isinstance(v,VecV) and v.s.ch[:len(c.val.s.ch)]==c.val.s.ch or isinstance(v,VecV) and is_ext(c.val.s,v.s)):
                        c.mode='fixlen' if sweepable(c.entry) else 'arb2'; c.ext=not finite(c.entry); c.val=havoc_value(e,c,c.sym+'a'); changed=True; break
                    if not c.ext and not finite(Seq(v.s.ch[max(0,len(c.entry.s.ch)-1):] if c.entry.s.ch and v.s.ch[len(c.entry.s.ch)-1]!=c.entry.s.ch[-1] else v.s.ch[len(c.entry.s.ch):])):
                        c.ext=True; c.val=havoc_value(e,c,c.sym); changed=True; break
                continue
            for b,v in zip(backs,vals):
                if c.mode=='fixlen' and not(isinstance(v,VecV) and same_val(e,b,slen(v.s),slen(c.entry.s))):
                    c.mode='arb2'; c.val=havoc_value(e,c,c.sym+'b'); changed=True; break
                if c.mode=='sweep' and sweep_el(c,v,k) is None:
                    demote(e,c); changed=True; break
                if not covers(e,b,c,v):
                    c.val=havoc_value(e,c,c.sym) if c.entry is not None else Lazy(c.sym,c.ty,(),c.ext); changed=True; break
        if changed: continue
        # 3. try new closed forms
        hvs={}
        for key,c in cells.items():
            if c.mode!='closed':
                for a in vatoms(c.val):
                    if a.kind in('sym','app') and str(a.data[0]).startswith(c.sym): hvs[a]=key
        for key,c in cells.items():
            if c.mode=='closed' or getattr(c,'deps',None)=='no': continue
            cf=closed_form(e,c,backs,h,k,hvs,key,order)
            if cf is not None:
                c.mode='closed'; c.closed=cf; c.val=cf(k); changed=True
                cands=[x for x in cands if x[0]!=key]
                users=[u for u in users if len(u)<4]
                refine=0
                if DEBUG: print('  closed',key,repr(c.val)[:200])
        if changed: continue
        for key,c in cells.items():
            if c.mode!='fixlen' or c.deps=='no': continue
            ix={write_at(c,get(e,b,c.o,c.path)) for b in backs if get(e,b,c.o,c.path)!=c.val}
            if len(ix)!=1 or None in ix: c.deps='no'; continue
            off=ix.pop()-k
            need=le(off+k,slen(c.entry.s)); n0=subst_b(need,{ka:ZERO})
            if poly_mentions(off,ka) or any(a in hvs or a.kind=='sym' and a.id>ka.id for a in vatoms(off)) \
               or e.known(entry,le(ZERO,off)) is not True or e.known(entry,n0) is not True: c.deps='no'; continue
            c.mode='sweep'; c.off=(k,off); c.need=need; c.val=havoc_value(e,c,c.sym+'s'); changed=True
            if need is not TRUE and ('term',need) not in cands: cands.append(('term',need))
            if DEBUG: print('  sweep',key,repr(c.val)[:200])
        if changed: continue
        if refine==0:
            refine=1
            for key,c in cells.items():
                if c.mode=='havoc' and isinstance(c.entry,(FV,Poly)) :
                    for kind in ('le','ge','pos','nn'):
                        t=cand_term(c,kind,c.entry)
                        if t is not None and (t is TRUE or solver.prove(entry.pc,t)[0]=='proved'): cands.append((key,kind))
            for key,c in cells.items():
                p=c.val
                if isinstance(p,Poly) and c.ty is not None and e.T[c.ty]['k']=='int': 
                    t=le(p,topoly(e.irange(c.ty)[1]-1)); t0=term_at(entry,t,ZERO)
                    if t0 is TRUE or t0 is not None and solver.prove(entry.pc,t0)[0]=='proved': cands.append(('term',t))
            for t in guards(h,backs):
                t0=term_at(entry,t,ZERO)
                if t0 is None: continue
                if t0 is TRUE or solver.prove(entry.pc,t0)[0]=='proved': cands.append(('term',t))
                elif is_int_poly(t.a[0]):
                    # a range that may be empty the wrong way round: true from the first iteration on
                    cands.append(('term',bor(le0(k),t))); weak[repr(cands[-1][1])]=t
            for key,c in cells.items():
                if c.mode!='havoc' or not isinstance(c.entry,FV) or c.entry.k!='r': continue
                for name,env,ty in entry.gh.get('invt',()):
                    u=(name,env,ty,key)
                    if user_holds(entry,u): users.append(u)
            if cands or users: continue
        # 4. Houdini
        drop=set(); du=[]; kcur[0]=k+1
        for b in backs:
            for x in cands:
                if x in drop: continue
                t=cand_terms(b,[x])[0]
                if t is None: drop.add(x); continue
                if t is not TRUE and solver.prove(b.pc,t)[0]!='proved': drop.add(x)
            for u in users:
                if u in du: continue
                if not user_holds(b,u): du.append(u)
        kcur[0]=k
        if DEBUG: print('  houdini cands',len(cands),'drop',[(d[0][1],d[1]) for d in drop],'users drop',[u[0] for u in du])
        if drop or du:
            cands=[x for x in cands if x not in drop]
            for c in cells.values():
                if c.need is not None and c.mode in('sweep','closed') and c.need is not TRUE and ('term',c.need) not in cands: demote(e,c)
            users=[u for u in users if u not in du]
            continue
        break
    # the last exploration was made under exactly the invariants that survived: it is the real one
    e.obls+=keep[0]; e.reached=keep[1]
    if DEBUG: print('  LOOP done: cells',[(c.mode,repr(c.val)[:60]) for c in cells.values()],'cands',[(x[0][1],x[1]) for x in cands],'users',[u[0] for u in users],'exits',sum(o[0]!='back' for o in outs))
    res=[]
    tcs=[x[1] for x in cands if x[0]=='term']
    split=[]
    for o in outs:
        t=next((weak[repr(t)] for t in tcs if repr(t) in weak),None)
        if o[0]=='back' or t is None: split.append(o); continue
        s=o[1].copy(); s.assume(le(k,ZERO))
        if solver.prove(s.pc,FALSE)[0]!='proved': split.append((o[0],subst_state(s,{ka:ZERO}))+tuple(o[2:]))
        s=o[1]; s.assume(le(ONE,k)); s.assume(t); split.append(o)
    tcs=[weak.get(repr(t),t) for t in tcs]
    for o in split:
        if o[0]=='back': continue
        s=o[1]; s.gh['iter']=entry.gh.get('iter')
        for t in tcs:
            p=t.a[0]
            co=p.m.get(((ka,1),))
            if co is None or abs(co)!=1 or not is_int_poly(p): continue
            rest=p-topoly(ka)*co
            if poly_mentions(rest,ka): continue
            if e.known(s,eq0(p)) is True:
                s=subst_state(s,{ka:rest*(-co)}); o=(o[0],s)+tuple(o[2:]); break
        res.append(o)
    return res
def unit(p):
    """p scaled so that its coefficients other than the constant are coprime integers"""
    cs=[Fraction(c) for m,c in p.m.items() if m]
    if not cs: return p
    g=Fraction(gcd(*[c.numerator for c in cs]),lcm(*[c.denominator for c in cs]))
    return p*topoly(1/g)
def vatoms_b(t):
    return set(solver.cone(t))
def subst_state(s,mp):
    memo={}
    n=s.copy()
    fp=lambda p:subst(p,mp,memo); fb=lambda b:subst_b(b,mp,memo)
    for o in list(n.mem):
        v=n.mem[o]
        if isinstance(v,(V,Poly,B)): n.mem[o]=vmap(v,fp,fb)
        if isinstance(o,tuple) and o[0]=='lz':
            o2=(o[0],o[1],tuple(fp(x) for x in o[2]))+o[3:]
            if o2!=o: n.mem[o2]=n.mem.pop(o)
    pc=n.pc; n.pc=(); n.pcs=frozenset()
    for t in pc: n.assume(fb(t))
    return n

def diff2(e,st,a,b,path,out):
    """diff where a may be lazy"""
    if a==b: return
    if isinstance(a,Lazy) and isinstance(b,(Agg,En)): a=e.force(st,a)
    if isinstance(a,Agg) and isinstance(b,Agg) and len(a.f)==len(b.f):
        for i,(x,y) in enumerate(zip(a.f,b.f)): diff2(e,st,x,y,path+(('f',i),),out)
        return
    if isinstance(a,En) and isinstance(b,En) and a.v==b.v:
        for i,(x,y) in enumerate(zip(a.f,b.f)): diff2(e,st,x,y,path+(('v',a.v),('f',i)),out)
        return
    out.add(path)
def is_ext(s,t):
    """sequence t extends s by explicit elements"""
    a,b=s.ch,t.ch
    if not a: return True
    if len(b)<len(a): return False
    if a[:-1]!=b[:len(a)-1]: return False
    x,y=a[-1],b[len(a)-1]
    if x==y: return True
    return isinstance(x,L) and isinstance(y,L) and y.v[:len(x.v)]==x.v
def ext_vals(s,t):
    """explicit elements by which t extends s, or None"""
    a,b=s.ch,t.ch
    if not a: rest=b
    else:
        x,y=a[-1],b[len(a)-1]
        if x==y: rest=b[len(a):]
        else: rest=(L(y.v[len(x.v):]),)+b[len(a):]
    if not all(isinstance(c,L) for c in rest): return None
    return tuple(v for c in rest for v in c.v)
def cand_term(c,kind,v):
    if isinstance(v,Lazy) : return None
    if isinstance(v,FV):
        if v.k!='r': 
            return {'pos':bbool(v.k=='inf'),'nn':bbool(v.k=='inf')}.get(kind,FALSE) if v.k!='nan' else FALSE
        x=v.p; en=c.entry.p if isinstance(c.entry,FV) and c.entry.k=='r' else None
    elif isinstance(v,Poly): x=v; en=c.entry if isinstance(c.entry,Poly) else None
    else: return None
    if kind=='pos': return lt(ZERO,x)
    if kind=='nn': return le(ZERO,x)
    if en is None: return None
    return {'le':le(x,en),'ge':le(en,x)}[kind]
def demote(e,c):
    c.mode='havoc' if not isinstance(c.entry,VecV) else 'append' if c.need is None else 'fixlen'
    c.deps='no'
    c.val=havoc_value(e,c,c.sym+'d')
def same_val(e,st,a,b):
    if a==b: return True
    if isinstance(a,FV) and isinstance(b,FV) and a.k==b.k=='r': return e.known(st,eq(a.p,b.p)) is True
    if isinstance(a,Poly) and isinstance(b,Poly): return e.known(st,eq(a,b)) is True
    if isinstance(a,VecV) and isinstance(b,VecV):
        return seq_same(e,st,a.s,b.s)
    return False
def seq_same(e,st,a,b):
    """provable equality where the last M chunk of b has one more element than a's plus explicit tail"""
    # a: ... M(k,t) L(v)   b: ... M(k+1,t)
    while a.ch and b.ch and a.ch[-1]==b.ch[-1]: a,b=Seq(a.ch[:-1]),Seq(b.ch[:-1])
    if len(a.ch)==len(b.ch)+1 or len(a.ch)==len(b.ch):
        j=len(b.ch)-1
        if j>=0 and isinstance(b.ch[j],M) and isinstance(a.ch[j],M) and a.ch[:j]==b.ch[:j] and a.ch[j].t==b.ch[j].t and a.ch[j].l==b.ch[j].l and len(a.ch)==j+2 and isinstance(a.ch[j+1],L):
            n=a.ch[j].n; d=b.ch[j].n-n
            if d.is_const() and int(d.const())==len(a.ch[j+1].v):
                return all(same_val(e,st,x,m_at(b.ch[j],n+i)) or x==m_at(b.ch[j],n+i) for i,x in enumerate(a.ch[j+1].v))
    try:
        t=e.seq_eq(st.copy(),a,b,e.val_eq)
    except (NeedBranch,Unsupported): return False
    return t is TRUE or solver.prove(st.pc,t)[0]=='proved'
def merge_backs(e,h,backs,vals):
    r=vals[-1]
    n=len(h.pc)
    for b,v in reversed(list(zip(backs[:-1],vals[:-1]))):
        if v==r: continue
        r=e.merge2(band(*b.pc[n:]),v,r)
    return r
HVORD={}
def closed_form(e,c,backs,h,k,hvs,key,order):
    """function of the iteration count giving the cell's value, or None"""
    if not backs: return None
    ka=single_atom(k)
    vals=[get(e,b,c.o,c.path) for b in backs]
    def ok(v):
        for a in vatoms(v):
            if a in hvs: return False
            if a.kind=='sym' and a is not ka and a.id>ka.id: return False   # fresh unknowns of the iteration
            if a.kind=='app' and a.data[0].startswith('hv') and HVORD.get(a.data[0].split('#')[0],1<<60)>order: return False
        return True
    if isinstance(c.entry,VecV) and c.mode=='append':
        exts=[ext_vals(c.val.s,v.s) for v in vals]
        if any(x is None for x in exts) or len({len(x) for x in exts})!=1: return None
        m=len(exts[0])
        if m==0: return None
        try: els=[merge_backs(e,h,backs,[x[i] for x in exts]) for i in range(m)]
        except Unsupported: return None
        if DEBUG: print('   append els',[repr(x)[:300] for x in els],[[a for a in vatoms(x) if a in hvs or a.kind=='sym'] for x in els])
        if not all(ok(x) for x in els): return None
        ch=c.entry.s.ch
        if m==1:
            v=els[0]; l=vlvl(v)+1
            t=vsubst(v,{ka:bnd(l)})
            return lambda n:VecV(mkseq(*(ch+(M(n,t,l),))))
        return None
    if c.mode=='sweep':
        els=[sweep_el(c,v,k) for v in vals]
        try: v=merge_backs(e,h,backs,els)
        except Unsupported: return None
        if not ok(v): return None
        en=c.entry.s.ch[0]; off=c.off[1]; l=vlvl(v)+1
        t=vsubst(v,{ka:bnd(l)})
        return lambda n:VecV(mkseq(take_chunk(en,off),M(n,t,l),drop_shift(en,off+n)))
    if c.mode!='havoc': return None
    if isinstance(c.entry,FV):
        if c.entry.k!='r' or any(not isinstance(v,FV) or v.k!='r' for v in vals) or not isinstance(c.val,FV): return None
        try: nv=merge_backs(e,h,backs,vals)
        except Unsupported: return None
        hs=c.val.p; d=nv.p-hs; en=c.entry.p
    elif isinstance(c.entry,Poly):
        if any(not isinstance(v,Poly) for v in vals): return None
        try: nv=merge_backs(e,h,backs,vals)
        except Unsupported: return None
        hs=c.val; d=nv-hs; en=c.entry
    else: return None
    wrap=(lambda p:FV('r',p)) if isinstance(c.entry,FV) else (lambda p:p)
    if not ok(d):
        # what the last iteration left: a function of its number that also gives the value at entry
        v=nv.p if isinstance(nv,FV) else nv
        if ok(v) and subst(v,{ka:-ONE})==en: return lambda n:wrap(subst(v,{ka:n-1}))
        return None
    if d is ZERO: return lambda n:wrap(en)
    if not poly_mentions(d,ka): return lambda n:wrap(en+d*n)
    return lambda n:wrap(en+psum(n,lambda j:subst(d,{ka:j})))
