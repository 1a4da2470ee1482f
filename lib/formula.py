"""Equality of what a compiled entry point writes with a reference formula, for every input (one query per output and
path), counterexamples replayed on the native build against the same formula evaluated in floating point."""
import ctypes, time
from fractions import Fraction as F
import z3
import llir
from symx import Exec, State, Ptr, R, solve, mval, is_sym, ExecError, UNDEF, Undef
from pair import logrefine

def native_call(lib,fname,vin,ic,nout):
    A=(ctypes.c_double*max(1,len(vin)))(*vin); I=(ctypes.c_long*max(1,len(ic)))(*ic); O=(ctypes.c_double*max(1,nout))()
    getattr(lib,fname)(A,I,O); return list(O)

def run_entry(ex,fname,V,ic,nout,pre,user=None,logs=None):
    st=State(); st.pc=list(pre)
    if user: st.user.update(user)
    if logs: st.logs+=logs
    pin=st.alloc(8*max(1,len(V)),'in'); pic=st.alloc(8*max(1,len(ic)),'ic'); po=st.alloc(8*max(1,nout),'out')
    for i,q in enumerate(V): st.store(Ptr(pin.o,8*i),8,q)
    for i,q in enumerate(ic): st.store(Ptr(pic.o,8*i),8,q)
    for i in range(nout): st.store(Ptr(po.o,8*i),8,F(0))
    res=ex.run(fname,[pin,pic,po],st)
    for p in res: p.out=[p.st.load(Ptr(po.o,8*i),8,llir.F64) for i in range(nout)] if p.status=='ret' else None
    return res

def nodeval(e,env,memo):
    """exact value of an arithmetic term at a rational point; None when it has other variables"""
    i=e.get_id()
    if i in memo: return memo[i][0]
    v=None; k=e.decl().kind() if z3.is_app(e) else None
    if z3.is_rational_value(e): v=F(e.numerator_as_long(),e.denominator_as_long())
    elif e.num_args()==0: v=env.get(e.decl().name())
    elif z3.is_arith(e):
        a=[nodeval(c,env,memo) if z3.is_arith(c) else None for c in e.children()]
        if all(x is not None for x in a):
            if k==z3.Z3_OP_ADD: v=sum(a)
            elif k==z3.Z3_OP_SUB: v=a[0]-sum(a[1:])
            elif k==z3.Z3_OP_MUL:
                v=F(1)
                for x in a: v*=x
            elif k==z3.Z3_OP_UMINUS: v=-a[0]
            elif k==z3.Z3_OP_DIV and a[1]!=0: v=a[0]/a[1]
            elif k==z3.Z3_OP_POWER and a[1].denominator==1 and a[1]>=0: v=a[0]**int(a[1])
    else:
        for c in e.children(): nodeval(c,env,memo)
    memo[i]=(v,e); return v
def freevars(e,memo):
    i=e.get_id()
    if i not in memo:
        if e.num_args()==0: memo[i]=(frozenset([e.decl().name()]) if not z3.is_rational_value(e) and e.decl().kind()==z3.Z3_OP_UNINTERPRETED else frozenset(),e)
        else:
            r=frozenset()
            for c in e.children(): r|=freevars(c,memo)
            memo[i]=(r,e)
    return memo[i][0]
class Abst:
    """Replaces sub-terms that are provably equal (under pre) to one of the cut expressions by the cut's abstract form;
    facts that still mention the base variables are dropped (a weakening, so unsat answers are sound).
    cuts: (abstract, reference over the base variables); points: rational points satisfying pre"""
    def __init__(self,cuts,points,pre,stat):
        self.pre=list(pre); self.points=points; self.stat=stat; self.memos=[{} for _ in points]
        self.base=set(points[0]); self.fm={}; self.cache={}; self.nodesub={}
        self.refs=[(ab,rf,[nodeval(rf,pt,m) for pt,m in zip(points,self.memos)]) for ab,rf in cuts]
        self.absnames=set()
        for ab,_ in cuts: self.absnames|=freevars(ab,{})
    def nodes(self,e,out,seen):
        i=e.get_id()
        if i in seen: return
        seen.add(i)
        if z3.is_arith(e) and e.num_args(): out.append(e)
        for c in e.children(): self.nodes(c,out,seen)
    def absn(self,e):
        """the abstraction of one expression"""
        i=e.get_id()
        if i in self.cache: return self.cache[i][0]
        if e.num_args()==0:
            r=next((ab for ab,rf,_ in self.refs if rf.eq(e)),e)
        else:
            ch=e.children(); n=[self.absn(c) for c in ch]
            r=e if all(a.eq(b) for a,b in zip(ch,n)) else rebuild(e,n)
            if z3.is_arith(e) and freevars(r,self.fm)&self.base:
                q=self.match(e)
                if q is not None: r=q
        self.cache[i]=(r,e); return r
    def match(self,e):
        vs=[]
        for pt,m in zip(self.points,self.memos):
            v=nodeval(e,pt,m)
            if v is None: return None
            vs.append(v)
        if not any(vs): return None
        for ab,rf,rv in self.refs:
            for sg in (1,-1):
                if vs==[sg*x for x in rv]:
                    q,_=solve(self.pre+[e!=(rf if sg==1 else -rf)],1500); self.stat['lemmas']=self.stat.get('lemmas',0)+1
                    if q=='unsat': return ab if sg==1 else -ab
        return None
    def flat(self,es):
        o=[]
        for e in es:
            if z3.is_and(e): o+=self.flat(e.children())
            elif z3.is_not(e) and z3.is_not(e.arg(0)): o+=self.flat([e.arg(0).arg(0)])
            else: o.append(e)
        return o
    def facts(self,es):
        return [x for x in (self.absn(e) for e in self.flat(es)) if not (freevars(x,self.fm)&self.base)]
    def decide(self,pcs,neg,timeout,model=None,qcand=()):
        g=self.absn(neg)
        if freevars(g,self.fm)&self.base: return 'unknown'
        f=self.facts(pcs)
        if model is not None and qcand:
            g=qsweep(f,g,model,qcand,self.stat,self.absnames)
            g=itesimp(f,g)
            if z3.is_false(z3.simplify(g,som=True)): return solve([g],2000)[0]
            gg=z3.simplify(g,som=True)
            if solve([gg],2000)[0]=='unsat': return 'unsat'
        return solve(f+[g],timeout)[0]
    def const(self,e):
        """the constant this term is provably equal to, if any"""
        vs={nodeval(e,pt,m) for pt,m in zip(self.points,self.memos)}
        if len(vs)!=1 or None in vs: return None
        c=vs.pop(); self.stat['lemmas']=self.stat.get('lemmas',0)+1
        return c if solve(self.pre+[e!=R(c)],3000)[0]=='unsat' else None
    def hook(self,seeds):
        def h(ex,st,base,lit):
            if self.decide(base,lit,1000)=='unsat': return 'unsat',None
            for sd in seeds:
                r,m=solve(base+[lit]+sd,1000)
                if r=='sat': return r,m
            return solve(base+[lit],600)
        return h
def itesimp(facts,g):
    """decide the conditions of if-then-else terms that the facts settle"""
    conds={}
    def walk(e,seen):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_app_of(e,z3.Z3_OP_ITE): conds[e.arg(0).get_id()]=e.arg(0)
        for c in e.children(): walk(c,seen)
    walk(g,set())
    fm={}
    for c in conds.values():
        v=freevars(c,fm)
        rel=[f for f in facts if freevars(f,fm)<=v or (len(freevars(f,fm))<=len(v)+2 and freevars(f,fm)&v)]
        for val in (True,False):
            if solve(rel+[z3.Not(c) if val else c],2000)[0]=='unsat':
                g=z3.substitute(g,(c,z3.BoolVal(val))); break
    return z3.simplify(g)
def qsweep(facts,g,model,qcand,stat,qbase=(),tol=F(1,10**7)):
    """replace auxiliary quotient / root variables of the goal by the reference expression they are provably equal to"""
    vs={}; fm={}
    for n in freevars(g,fm):
        if '!' in n: vs[n]=z3.Real(n)
    key=lambda n:int(n.split('!')[1])
    fv=[(f,freevars(f,fm)) for f in facts]
    def top(vset): 
        b=[n for n in vset if '!' in n]
        return max(b,key=key) if b else None
    iseq=lambda f: z3.is_eq(f) or z3.is_and(f)
    # auxiliary variables that the variables of the goal are defined from
    todo=list(vs); need=dict(vs)
    while todo:
        x=todo.pop()
        for f,v in fv:
            if x in v and iseq(f) and top(v)==x:
                for y in v:
                    if '!' in y and y not in need: need[y]=z3.Real(y); todo.append(y)
    subs=[]; known=[]
    for n in sorted(need,key=key):
        q=need[n]
        try: x=mval(model,q)
        except ExecError: continue
        for c,y in qcand:
            if y is None: continue
            for sg in (1,-1):
                if abs(x-sg*y)<=tol*(1+abs(x)):
                    e=c if sg==1 else -c
                    S=set([n])|freevars(c,fm); ok=True
                    # closure over definitions
                    while True:
                        T=set(S)
                        for f,v in fv:
                            if iseq(f) and (v&S) and not z3.is_and(f):
                                t=top(v)
                                if t is None:
                                    if not all(w in qbase for w in (v&S)) : T|=v
                                elif t in S: T|=v
                        if T==S: break
                        S=T
                    rel=[f for f,v in fv if v<=S and v]+[kf for kf,kv in known if kv<=S|freevars(kf,fm)]
                    rel=[z3.substitute(f,*subs) for f in rel] if subs else rel
                    r=solve(rel+[q!=e],3000)[0]
                    stat['lemmas']=stat.get('lemmas',0)+1
                    if r=='unsat': subs.append((q,e)); break
            else: continue
            break
    return z3.substitute(g,*subs) if subs else g
def rebuild(e,ch):
    k=e.decl().kind()
    if k==z3.Z3_OP_ADD: return z3.Sum(ch)
    if k==z3.Z3_OP_MUL:
        r=ch[0]
        for c in ch[1:]: r=r*c
        return r
    if k==z3.Z3_OP_AND: return z3.And(*ch)
    if k==z3.Z3_OP_OR: return z3.Or(*ch)
    if k==z3.Z3_OP_SUB:
        r=ch[0]
        for c in ch[1:]: r=r-c
        return r
    return e.decl()(*ch)
def close(a,b,tol=1e-6): return a==b or abs(a-b)<=tol*(1+max(abs(a),abs(b)))

def check(mod,lib,case,fname,V,ic,nout,pre,expect,ref,timeout=30000,deadline=None,names=None,ex=None,log=False,
          allow=(),max_paths=4000,replay_tol=1e-6,user=None,feas=1500,cuts=None,points=None,cutpre=()):
    """V: inputs (Fractions / z3 reals); pre: assumptions; expect(ex,p) -> list of (name, z3 Bool or bool 'holds') for a
    returning path (p.out), may add definitions through p.extra; ref(vin,ic) -> list of expected doubles (None = any)
    allow(p): accept a path that does not return normally"""
    ex=ex or Exec(mod,max_paths=max_paths,feas_timeout=feas,timeout=timeout,deadline=deadline); ex.no_eager=True; ex.keep_terms=bool(cuts)
    stat={}; ab=None
    if cuts:
        ab=Abst(cuts,points,cutpre,stat); ex.feas_hook=ab.hook((user or {}).get('seeds',())); ex.sqrt_hook=ab.const
    res=run_entry(ex,fname,V,ic,nout,pre,user)
    out=dict(case=case,paths=len(res),branches=ex.branches,steps=ex.steps,violations=[],undecided=[],validated=0,unvalidated=0,
             errors=[],functions=sorted(ex.functions),assumptions=sorted(ex.assumptions),obligations=0,samples=[])
    nret=0
    def dorep(m):
        vin=[float(mval(m,v)) if is_sym(v) else float(v) for v in V]
        nat=native_call(lib,fname,vin,ic,nout); e=ref(vin,ic)
        bad=[(names[i] if names else i,nat[i],e[i]) for i in range(nout) if e[i] is not None and not close(nat[i],e[i],replay_tol)]
        return dict(reproduced=bool(bad),entry=fname,inputs=vin,ic=list(ic),native_vs_expected=bad[:8])
    for p in res:
        if p.status=='infeasible': continue
        pcs=list(p.pc)
        goals=[]
        if p.status!='ret':
            if p.status in allow: continue
            goals=[('the run ends in %s %s'%(p.status,str(p.info)[:80]),None)]
        else:
            nret+=1; p.extra=[]
            goals=[(n,c) for n,c in expect(ex,p)]
            pcs+=p.extra
            asserts=[e for e in p.events if e[0]=='assert']
            if asserts: goals.append((asserts[0][1],None))
        m0=None
        # path replay
        if p.status=='ret':
            pl=[('log',x,l) for x,l in p.st.logs]
            if log: q,m,_=logrefine(pcs,pl,timeout)
            else:
                q='unknown'
                for sd in (user or {}).get('seeds',()):
                    q,m=solve(list(p.pc)+sd+(user or {}).get('fix',[]),3000)
                    if q=='sat': break
                if q!='sat': q,m=solve(list(p.pc),timeout)
            if q=='sat':
                m0=m
                vin=[float(mval(m,v)) if is_sym(v) else float(v) for v in V]
                if hasattr(p,'refenv'):
                    env={k:F(x) for k,x in p.refenv(vin).items()}; p.qcand=[(c,nodeval(c,env,{})) for c in p.qcand]
                nat=native_call(lib,fname,vin,ic,nout); bad=0; seen=0
                for i in range(nout):
                    e=p.out[i]
                    if isinstance(e,(Undef,Ptr)): continue
                    e=ex.real(e)
                    if isinstance(e,float): ev=e
                    else: ev=float(mval(m,e)) if is_sym(e) else float(e)
                    seen+=1
                    if not close(ev,nat[i],1e-5) and not (names and 'log' in str(names[i]) and not log): bad+=1
                if bad: out['unvalidated']+=1
                elif seen: out['validated']+=1
            elif q=='unsat': continue
            else: out['unvalidated']+=1
        for n,c in goals:
            out['obligations']+=1
            if c is True: continue
            g=[] if c is None else ([z3.Not(c)] if is_sym(c) else [])
            if cuts and c is not None:
                q=ab.decide(pcs,z3.Not(c),timeout,m0,getattr(p,'qcand',()))
                if q=='unsat': continue
                # look for a counterexample at the suggested points before asking in general
                q='unknown'
                for sd in (user or {}).get('seeds',()):
                    q,m=solve(pcs+g+sd,3000)
                    if q=='sat': break
                if q!='sat': q,m=solve(pcs+g,timeout)
            elif log: q,m,_=logrefine(pcs+g,[('log',x,l) for x,l in p.st.logs],timeout)
            else: q,m=solve(pcs+g,timeout)
            if q=='unsat': continue
            if q=='unknown': out['undecided'].append(n); continue
            rp=dorep(m)
            out['violations'].append(dict(what='%s [%s]'%(n,case),reproduced=rp['reproduced'],replay=rp))
            if len(out['violations'])>=3: return out
    if not out['validated'] and not out['violations']: out['errors'].append('no path was replayed on the native build (%d paths, %d returning)'%(len(res),nret))
    return out
