"""Path-enumerating symbolic executor for LLVM IR.

doubles  -> exact rationals (Fraction) or z3 Real terms ("real arithmetic" model; the real build uses
            -ffast-math, rounding is outside every claim and is stated in each evidence file)
integers -> concrete Python ints, or z3 Int terms (mathematical integers; no-wrap assumption recorded)
i1       -> 0/1 or z3 Bool
pointers -> Ptr(object, concrete offset); a symbolic index is resolved by forking on every feasible value
"""
import sys, time, math, itertools
from fractions import Fraction
import llir
from llir import VOID
import z3
sys.setrecursionlimit(100000)

class Ptr:
    __slots__=('o','off')
    def __init__(self,o,off): self.o=o; self.off=off
    def __eq__(self,x): return isinstance(x,Ptr) and x.o==self.o and x.off==self.off
    def __hash__(self): return hash((self.o,self.off))
    def __repr__(self): return 'Ptr(%s+%s)'%(self.o,self.off)

class Undef:
    def __repr__(self): return 'undef'
UNDEF=Undef()

class ExecError(Exception): pass
class PathEnd(Exception):
    def __init__(self,status,info=None): self.status=status; self.info=info

class Obj:
    __slots__=('size','data','owner','name')
    def __init__(self,size,name,owner): self.size=size; self.data={}; self.name=name; self.owner=owner

def is_sym(v): return isinstance(v,z3.ExprRef)
def R(v):
    if isinstance(v,Fraction):
        return z3.RealVal(v)
    if isinstance(v,bool): raise ExecError('bool real')
    if isinstance(v,int): return z3.RealVal(v)
    if isinstance(v,float): raise ExecError('non-finite concrete %r used in real arithmetic'%v)
    return v
INF=float('inf')

def isnf(v): return isinstance(v,float)

# ------------------------------------------------------------------ solver
class Stats:
    def __init__(self):
        self.queries=0; self.sat=0; self.unsat=0; self.unknown=0; self.time=0.0; self.slowest=0.0
    def add(self,r,dt):
        self.queries+=1; self.time+=dt; self.slowest=max(self.slowest,dt)
        if r=='sat': self.sat+=1
        elif r=='unsat': self.unsat+=1
        else: self.unknown+=1
    def dict(self):
        return dict(queries=self.queries,sat=self.sat,unsat=self.unsat,unknown=self.unknown,
                    solver_time_s=round(self.time,3),slowest_query_s=round(self.slowest,3))
STATS=Stats()

def _has_int(es):
    seen=set()
    st=list(es)
    while st:
        e=st.pop()
        i=e.get_id()
        if i in seen: continue
        seen.add(i)
        if e.sort_kind()==z3.Z3_INT_SORT and not z3.is_int_value(e): return True
        if z3.is_app(e) and e.num_args()==0 and e.decl().kind()==z3.Z3_OP_UNINTERPRETED and e.sort_kind() not in (z3.Z3_REAL_SORT,z3.Z3_BOOL_SORT): return True
        if z3.is_app(e) and e.num_args()>0 and e.decl().kind()==z3.Z3_OP_UNINTERPRETED: return True
        st.extend(e.children())
    return False

def solve(cs, timeout=20000, want_model=True):
    """returns ('sat',model)|('unsat',None)|('unknown',None)"""
    t0=time.time()
    cs=[c for c in cs if not (c is True)]
    if any(c is False for c in cs):
        STATS.add('unsat',0.0); return 'unsat',None
    r='unknown'; m=None
    tries=[]
    mixed=_has_int(cs)
    if not mixed:
        tries=[('nlsat',0.06),('simple',0.15),('nlsat',0.25),('smt',0.2),('nlsat',1.0)]
    else:
        tries=[('smt',1.0)]
    for kind,frac in tries:
        if kind=='nlsat': s=z3.Then('simplify','purify-arith','propagate-values','solve-eqs','elim-term-ite','tseitin-cnf','qfnra-nlsat').solver() if False else z3.SolverFor('QF_NRA')
        elif kind=='simple': s=z3.SimpleSolver()
        else: s=z3.Solver()
        s.set('timeout',int(timeout*frac))
        s.add(*cs)
        try: q=s.check()
        except z3.Z3Exception: q=z3.unknown
        if q==z3.sat:
            r='sat'; m=s.model(); break
        if q==z3.unsat:
            r='unsat'; break
    STATS.add(r,time.time()-t0)
    return r,m

def mval(m,e):
    """numeric value (Fraction) of z3 expr e under model m (algebraic numbers approximated)"""
    v=m.eval(e,model_completion=True)
    return numval(v)
def numval(v):
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(),v.denominator_as_long())
    if z3.is_int_value(v): return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a=v.approx(30); return Fraction(a.numerator_as_long(),a.denominator_as_long())
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    raise ExecError('cannot evaluate %s'%v)

# ------------------------------------------------------------------ state
class Frame:
    __slots__=('fn','blk','ins','idx','regs','dst','normal','allocas','prev')
    def copy(self):
        f=Frame(); f.fn=self.fn; f.blk=self.blk; f.ins=self.ins; f.idx=self.idx; f.regs=dict(self.regs)
        f.dst=self.dst; f.normal=self.normal; f.allocas=self.allocas; f.prev=self.prev
        return f

class State:
    def __init__(self):
        self.frames=[]; self.mem={}; self.pc=[]; self.defs=[]; self.events=[]; self.model=None
        self.fn_memo={}; self.logs=[]; self.nobj=1; self.steps=0; self.forks=0
        self.user={}; self.prefix=[]; self.pos=0; self.dec=[]
    def copy0(self):
        """copy of an initial state (before execution), for re-execution"""
        s=State()
        s.mem={}
        for k,o in self.mem.items():
            n=Obj(o.size,o.name,0); n.data=dict(o.data); s.mem[k]=n
        s.pc=list(self.pc); s.defs=list(self.defs); s.fn_memo=dict(self.fn_memo); s.logs=list(self.logs)
        s.nobj=self.nobj; s.user=dict(self.user); s.model=self.model
        return s
    def alloc(self,size,name=''):
        i=self.nobj; self.nobj+=1
        self.mem[i]=Obj(size,name,0)
        return Ptr(i,0)
    def wobj(self,i): return self.mem[i]
    def store(self,p,size,val):
        if not isinstance(p,Ptr): raise PathEnd('memfault',('store to %r'%(p,)))
        if p.o not in self.mem: raise PathEnd('memfault',('use after free/bad object store %r'%(p,)))
        o=self.wobj(p.o); off=p.off
        if off<0 or off+size>o.size: raise PathEnd('memfault','store out of bounds %r size %d (object %s of %d)'%(p,size,o.name,o.size))
        d=o.data
        if off in d and d[off][0]==size:
            d[off]=(size,val); return
        for k in range(off-15,off+size):
            if k in d:
                s,v=d[k]
                if k+s>off:
                    if k>=off and k+s<=off+size: del d[k]
                    else:
                        # partial overlap: split concrete ints into bytes
                        if isinstance(v,int):
                            del d[k]
                            for b in range(s): d[k+b]=(1,(v>>(8*b))&255)
                            for b in range(s):
                                if off<=k+b<off+size: d.pop(k+b,None)
                        else: raise ExecError('partial overwrite of non-int')
        d[off]=(size,val)
    def load(self,p,size,kind):
        if not isinstance(p,Ptr): raise PathEnd('memfault','load from %r'%(p,))
        if isinstance(p.o,tuple): raise ExecError('load from function %r'%(p,))
        if p.o not in self.mem: raise PathEnd('memfault','use after free/bad object load %r'%(p,))
        o=self.mem[p.o]; off=p.off
        if off<0 or off+size>o.size: raise PathEnd('memfault','load out of bounds %r size %d (object %s of %d)'%(p,size,o.name,o.size))
        e=o.data.get(off)
        if e is not None and e[0]==size: return e[1]
        # compose
        out=0; any_=False
        for b in range(size):
            k=off+b; found=None
            for kk in range(k,k-16,-1):
                e=o.data.get(kk)
                if e is not None:
                    if kk+e[0]>k: found=(kk,e)
                    break
            if found is None: return UNDEF
            kk,(s,v)=found
            if isinstance(v,Fraction) and v==0: v=0
            if isinstance(v,Undef): return UNDEF
            if not isinstance(v,int): raise ExecError('mixed-size load of symbolic/pointer at %r size %d: have (%d,%d,%r)'%(p,size,kk,s,v))
            out|=((v>>(8*(k-kk)))&255)<<(8*b)
        return out

# ------------------------------------------------------------------ executor
class Result:
    def __init__(self,st,status,info): self.st=st; self.status=status; self.info=info
    @property
    def pc(self): return self.st.defs+self.st.pc
    @property
    def events(self): return self.st.events

class Exec:
    def __init__(self,mod,max_paths=20000,max_steps=3000000,timeout=10000,intercept=None,feas_timeout=3000,
                 deadline=None):
        self.mod=mod; self.max_paths=max_paths; self.max_steps=max_steps
        self.timeout=timeout; self.feas_timeout=feas_timeout
        self.gobj={}; self.intercept=intercept or {}
        self.fresh=itertools.count()
        self.functions=set(); self.paths=0; self.steps=0; self.branches=0; self.infeasible=0; self.unknown_feas=0
        self.on_recursive=None; self.deadline=deadline
        self.int_concretize_limit=200
        self.assumptions=set()
        self.on_call=None
        self.no_eager=False; self.keep_terms=False; self.feas_hook=None; self.sqrt_hook=None
    # -- helpers
    def newreal(self,base): return z3.Real('%s!%d'%(base,next(self.fresh)))
    def global_ptr(self,st,name):
        if name in self.gobj:
            p=self.gobj[name]
            if not isinstance(p.o,tuple): self.ensure_global(st,p)
            return p
        if name in self.mod.aliases: return self.global_ptr(st,self.mod.aliases[name])
        if name in self.mod.funcs or name in self.mod.decls:
            p=Ptr(('fn',name),0); self.gobj[name]=p; return p
        rest=self.mod.globals.get(name)
        if rest is None: raise ExecError('unknown global '+name)
        toks=llir.tokenize(rest); p=llir.P(toks)
        ext=False
        alias=False
        while p.peek() in llir.LINKAGE or p.peek()=='alias':
            x=p.next()
            if x in('external','extern_weak'): ext=True
            if x=='alias': alias=True
            if x=='thread_local' and p.peek()=='(': p.skip_paren()
            if x in ('constant','global'): break
        t=self.mod.ptype(p)
        if alias:
            p.expect(','); self.mod.ptype(p); c=self.mod.pconst(p,llir.PTR)
            self.mod.aliases[name]=c[1]; return self.global_ptr(st,c[1])
        try: size=self.mod.sizeof(t)
        except Exception: size=64
        # globals must have stable object ids across states: use string ids
        oid='g:'+name
        ptr=Ptr(oid,0)
        self.gobj[name]=ptr
        self._ginit=getattr(self,'_ginit',{})
        o=Obj(size,name,-1)
        self._ginit[oid]=o
        if not ext:
            c=self.mod.pconst(p,t)
            self._init(st,o,0,t,c)
        self.ensure_global(st,ptr)
        return ptr
    def ensure_global(self,st,p):
        if isinstance(p,Ptr) and isinstance(p.o,str) and p.o not in st.mem:
            g=self._ginit[p.o]; o=Obj(g.size,g.name,0); o.data=dict(g.data); st.mem[p.o]=o
    def _init(self,st,o,off,t,c):
        t=self.mod.resolve(t)
        if c[0]=='zero' :
            if t[0] in('arr','struct','vec'):
                n=self.mod.sizeof(t)
                if t[0]=='arr':
                    es=self.mod.sizeof(t[2])
                    for i in range(t[1]): self._init(st,o,off+i*es,t[2],('zero',t[2]))
                elif t[0]=='struct':
                    for i in range(len(t[1])):
                        f,e=self.mod.offset(t,i); self._init(st,o,off+f,e,('zero',e))
            elif t[0] in('f64','f32'): o.data[off]=(self.mod.sizeof(t),Fraction(0))
            else: o.data[off]=(self.mod.sizeof(t),0)
            return
        if c[0]=='bytes':
            for i,b in enumerate(c[1]): o.data[off+i]=(1,b)
            return
        if c[0]=='agg':
            for i,(et,e) in enumerate(c[1]):
                f,_=self.mod.offset(t,i); self._init(st,o,off+f,et,e)
            return
        if c[0]=='undef': return
        o.data[off]=(self.mod.sizeof(t),self.const(st,c,t))
    def const(self,st,c,t):
        k=c[0]
        if k=='int': return c[1]
        if k=='fp': return c[1]
        if k=='undef': return UNDEF
        if k=='glob':
            return self.global_ptr(st,c[1])
        if k=='zero':
            t=self.mod.resolve(t)
            if t[0]=='struct': return [self.const(st,('zero',e),e) for e in t[1]]
            if t[0] in('arr','vec'): return [self.const(st,('zero',t[2]),t[2])]*t[1]
            if t[0] in('f64','f32'): return Fraction(0)
            return 0
        if k=='agg': return [self.const(st,e,et) for et,e in c[1]]
        if k=='gep':
            b=self.const(st,c[2],llir.PTR)
            return self.gep(st,c[1],b,[(llir.I64,self.const(st,i,llir.I64)) for i in c[3]])
        if k=='cbin':
            a=self.const(st,c[2],t); b=self.const(st,c[3],t)
            return (a-b if c[1]=='sub' else a+b)&((1<<64)-1)
        raise ExecError('const %r'%(c,))
    def sx(self,v,n):
        return v-(1<<n) if v>>(n-1) else v
    def gep(self,st,bt,base,idx):
        off=0; t=bt; first=True
        for it,v in idx:
            if isinstance(v,int):
                n=it[1] if it[0]=='i' else 64
                v=self.sx(v,n)
            if first:
                s=self.mod.sizeof(t); first=False
                if is_sym(v): v=self.concretize_int(st,v)
                off+=s*v
            else:
                t=self.mod.resolve(t)
                if is_sym(v): v=self.concretize_int(st,v)
                o,t2=self.mod.offset(t,v) if t[0]=='struct' else (v*self.mod.sizeof(t[2]),t[2])
                off+=o; t=t2
        if isinstance(base,Ptr): return Ptr(base.o,base.off+off)
        if isinstance(base,int): return base+off if base+off else 0
        if isinstance(base,Undef): raise ExecError('gep on undef')
        raise ExecError('gep base %r'%(base,))
    # -- values
    def val(self,st,op,t):
        k=op[0]
        if k=='reg':
            return st.frames[-1].regs[op[1]]
        if k=='int' or k=='fp': return op[1]
        v=self.const(st,op,t)
        if k in('glob','gep'): self.ensure_global(st,v)
        return v
    def real(self,v):
        if isinstance(v,Undef): raise PathEnd('undef','uninitialised value used in arithmetic')
        if isinstance(v,int): 
            # i64 bit pattern loaded as double: only zero / known patterns
            if v==0: return Fraction(0)
            import struct
            f=struct.unpack('<d',struct.pack('<Q',v))[0]
            return Fraction(f) if f==f and abs(f)!=INF else f
        return v
    def fop(self,op,a,b):
        a=self.real(a); b=self.real(b)
        if isnf(a) or isnf(b):
            if is_sym(a) or is_sym(b):
                # inf +- finite
                if op=='fadd': return a if isnf(a) else b
                if op=='fsub': return a if isnf(a) else -b
                raise ExecError('inf arithmetic with symbolic')
            x=float(a); y=float(b)
            try:
                r={'fadd':lambda:x+y,'fsub':lambda:x-y,'fmul':lambda:x*y,'fdiv':lambda:x/y}[op]()
            except ZeroDivisionError: r=float('nan')
            if r!=r or abs(r)==INF: return r
            return Fraction(r)
        ca=isinstance(a,Fraction); cb=isinstance(b,Fraction)
        if ca and cb:
            if op=='fadd': return a+b
            if op=='fsub': return a-b
            if op=='fmul': return a*b
            if op=='fdiv':
                if b==0: return float('nan') if a==0 else (INF if a>0 else -INF)
                return a/b
        if op=='fadd':
            if ca and a==0: return b
            if cb and b==0: return a
            return R(a)+R(b)
        if op=='fsub':
            if cb and b==0: return a
            if not ca and not cb and a.eq(b): return Fraction(0)
            return R(a)-R(b)
        if op=='fmul':
            if ca:
                if a==0: return Fraction(0)
                if a==1: return b
            if cb:
                if b==0: return Fraction(0)
                if b==1: return a
            return R(a)*R(b)
        if op=='fdiv':
            if cb and b==1: return a
            if cb and b==0: return float('nan')
            if cb: return R(a)*R(Fraction(1)/b)
            return ('div',a,b)
        raise ExecError(op)
    def fdiv(self,st,a,b):
        r=self.fop('fdiv',a,b)
        if isinstance(r,tuple):
            a=R(self.real(a)); b=R(self.real(b))
            key=('div',a.get_id(),b.get_id())
            q=st.fn_memo.get(key)
            if q is not None: return q[0]
            # definedness: is b==0 feasible?
            if self.branch(st,b==0):
                st.events.append(('div0',None))
                raise PathEnd('div0',None)
            q=self.newreal('q')
            st.fn_memo[key]=(q,a,b)
            self.define(st,q*b==a)
            return q
        return r
    def define(self,st,c):
        st.defs.append(c)
        if st.pos>=len(st.prefix): st.model=None
    # -- path decisions
    def reseed(self,st):
        """try to get a model from the suggested input points (cheap) before asking for one from scratch"""
        if st.model is not None: return
        for seed in st.user.get('seeds',()):
            r,m=solve(st.defs+st.pc+seed,2000)
            if r=='sat': st.model=m; return
    def evalbool(self,st,c):
        if st.model is None: return None
        try:
            v=st.model.eval(c,model_completion=True)
            if z3.is_true(v): return True
            if z3.is_false(v): return False
        except z3.Z3Exception: pass
        return None
    def branch(self,st,c):
        """decide symbolic condition c: returns bool for this state; forks the other side"""
        if isinstance(c,(int,bool)): return bool(c)
        if isinstance(c,Undef): raise PathEnd('undef','branch on uninitialised value')
        c=z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        # already decided syntactically?
        for p in reversed(st.pc):
            if p.eq(c): return True
            if z3.is_not(p) and p.arg(0).eq(c): return False
            if z3.is_not(c) and c.arg(0).eq(p): return False
        if st.pos<len(st.prefix):
            d=st.prefix[st.pos]; st.pos+=1; st.dec.append(d)
            st.pc.append(c if d else z3.Not(c))
            if st.pos==len(st.prefix): st.model=st.prefix_model
            return d
        self.branches+=1
        sides={}
        self.reseed(st)
        g=self.evalbool(st,c)
        base=st.defs+st.pc
        models={}
        if g is not None:
            sides[g]='sat'; models[g]=st.model
        for side in (True,False):
            if side in sides: continue
            lit=c if side else z3.Not(c)
            r,m=solve(base+[lit],self.feas_timeout) if self.feas_hook is None else self.feas_hook(self,st,base,lit)
            sides[side]=r; models[side]=m
            if r=='unknown': self.unknown_feas+=1
            if r=='unsat': self.infeasible+=1
        t=sides[True]!='unsat'; f=sides[False]!='unsat'
        if t and f:
            self.work.append((st.dec+[False],models[False]))
            st.forks+=1; d=True
        elif t: d=True
        elif f: d=False
        else: raise PathEnd('infeasible')
        st.dec.append(d); st.pos+=1; st.prefix=st.dec
        st.pc.append(c if d else z3.Not(c)); st.model=models[d]
        return d
    def pick(self,st,kfn,condfn):
        """enumerate the feasible integer values of a symbolic quantity by forking"""
        n=0
        while True:
            if st.pos<len(st.prefix):
                k,d=st.prefix[st.pos]; st.pos+=1; st.dec.append((k,d))
                c=condfn(k); st.pc.append(c if d else z3.Not(c))
                if st.pos==len(st.prefix): st.model=st.prefix_model
                if d: return k
                continue
            self.reseed(st)
            if st.model is None:
                r,m=solve(st.defs+st.pc,self.timeout)
                if r=='unsat': raise PathEnd('infeasible')
                if r=='unknown': raise ExecError('cannot concretise: solver unknown')
                st.model=m
            k=kfn(st.model)
            c=z3.simplify(condfn(k))
            if z3.is_true(c): return k
            self.branches+=1
            r,m=solve(st.defs+st.pc+[z3.Not(c)],self.feas_timeout) if self.feas_hook is None else self.feas_hook(self,st,st.defs+st.pc,z3.Not(c))
            if r=='unknown': self.unknown_feas+=1
            if r!='unsat':
                self.work.append((st.dec+[(k,False)],m)); st.forks+=1
            st.dec.append((k,True)); st.pos+=1; st.prefix=st.dec
            st.pc.append(c)
            # the current model may be approximate (algebraic): keep it only if it satisfies c
            if self.evalbool(st,c) is not True: st.model=None
            return k
    def concretize_int(self,st,v):
        if not is_sym(v): return v
        return self.pick(st,lambda m:int(mval(m,v)),lambda k:v==k)
    def floorsym(self,st,v):
        return self.pick(st,lambda m:math.floor(mval(m,v)),lambda k:z3.And(v>=k,v<k+1))
    def fptosi(self,st,v):
        v=self.real(v)
        if isinstance(v,Fraction): return int(v)  # truncation toward zero
        if isnf(v): raise PathEnd('fptosi-nonfinite')
        return self.pick(st,lambda m:int(mval(m,v)),
            lambda k:z3.And(v>=k,v<k+1) if k>0 else (z3.And(v>-1,v<1) if k==0 else z3.And(v>k-1,v<=k)))
    # -- math functions
    def m_sqrt(self,st,x):
        x=self.real(x)
        if isinstance(x,Fraction):
            if x<0: st.events.append(('nan','sqrt of negative')); return float('nan')
            n=math.isqrt(x.numerator); d=math.isqrt(x.denominator)
            if n*n==x.numerator and d*d==x.denominator: return Fraction(n,d)
            x=R(x)
        if isnf(x): return x
        if self.sqrt_hook is not None:
            c=self.sqrt_hook(x)
            if c is not None: return self.m_sqrt(st,c) if isinstance(c,Fraction) else c
        xs=z3.simplify(x)
        key=('sqrt',xs.get_id())
        if key in st.fn_memo: return st.fn_memo[key][0]
        if self.branch(st,xs<0):
            raise PathEnd('nan','sqrt of negative')
        y=self.newreal('sqrt')
        st.fn_memo[key]=(y,xs)
        self.define(st,z3.And(y>=0,y*y==(x if self.keep_terms else xs)))
        return y
    def m_log(self,st,x):
        x=self.real(x)
        if isinstance(x,Fraction) and x==1: return Fraction(0)
        if isinstance(x,Fraction):
            if x<=0: return float('-inf') if x==0 else float('nan')
        if isnf(x): return x
        xs=z3.simplify(R(x))
        key=('log',xs.get_id())
        if key in st.fn_memo: return st.fn_memo[key][0]
        if is_sym(x):
            if self.branch(st,xs<=0):
                raise PathEnd('log-nonpositive')
        l=self.newreal('log')
        ax=[]
        if isinstance(x,Fraction):
            f=Fraction(math.log(x)); e=Fraction(1,10**13)*(1+abs(f)); ax+=[l>=R(f-e),l<=R(f+e)]
        ax.append(l<=xs-1)
        ax.append((l>0)==(xs>1)); ax.append((l==0)==(xs==1))
        for (hx,lo,hi) in st.user.get('loghints',()):
            if self._sqform(st,xs,st.user.get('logbase')) is not None:
                b=self._sqform(st,xs,st.user.get('logbase'))
                ax.append(z3.Implies(b<=R(hx),l<=2*R(hi))); ax.append(z3.Implies(b>=R(hx),l>=2*R(lo)))
            else:
                ax.append(z3.Implies(xs<=R(hx),l<=R(hi))); ax.append(z3.Implies(xs>=R(hx),l>=R(lo)))
        for (y,ly) in st.logs:
            ax.append((xs<y)==(l<ly)); ax.append((xs==y)==(l==ly))
            if self._is_square_of(st,xs,y): ax.append(l==2*ly)
            if self._is_square_of(st,y,xs): ax.append(ly==2*l)
        st.logs.append((xs,l))
        st.fn_memo[key]=(l,xs)
        self.define(st,z3.And(*ax))
        return l
    def _sqform(self,st,a,b):
        """b when a is syntactically b*b"""
        if b is None: return None
        d=z3.simplify(a-b*b,som=True)
        return b if z3.is_rational_value(d) and d.as_fraction()==0 else None
    def _is_square_of(self,st,a,b):
        # a == b*b where b is a sqrt variable of a
        r=st.fn_memo.get(('sqrt',a.get_id()))
        return r is not None and r[0].eq(b)
    def m_sincos(self,st,x):
        x=self.real(x)
        if isinstance(x,Fraction) and x==0: return Fraction(0),Fraction(1)
        xs=z3.simplify(R(x))
        key=('sincos',xs.get_id())
        if key in st.fn_memo: return st.fn_memo[key][:2]
        nk=('sincos',z3.simplify(-xs).get_id())
        if nk in st.fn_memo:
            s,c=st.fn_memo[nk][:2]; return -s,c
        s=self.newreal('sin'); c=self.newreal('cos')
        st.fn_memo[key]=(s,c,xs)
        self.define(st,s*s+c*c==1)
        if isinstance(x,Fraction):
            f=math.sin(x); g=math.cos(x)
            self.define(st,z3.And(s>=R(Fraction(f)-Fraction(1,10**13)),s<=R(Fraction(f)+Fraction(1,10**13)),
                                  c>=R(Fraction(g)-Fraction(1,10**13)),c<=R(Fraction(g)+Fraction(1,10**13))))
        return s,c
    def m_asin(self,st,x):
        x=self.real(x)
        if isinstance(x,Fraction):
            if x==0: return Fraction(0)
            x=R(x)
        xs=z3.simplify(x)
        key=('asin',xs.get_id())
        if key in st.fn_memo: return st.fn_memo[key][0]
        if self.branch(st,z3.Or(xs<-1,xs>1)): raise PathEnd('nan','asin out of domain')
        t=self.newreal('asin')
        st.fn_memo[key]=(t,xs)
        ax=[(t>0)==(xs>0),(t<0)==(xs<0),t<=R(Fraction(15707963267949,10**13)),t>=-R(Fraction(15707963267949,10**13))]
        ax+=[z3.Implies(xs>=0,z3.And(t>=xs,t<=xs*R(Fraction(15707963267949,10**13))))]
        for (k,v) in list(st.fn_memo.items()):
            if k[0]=='asin' and v[0] is not t:
                ax.append((v[1]<xs)==(v[0]<t)); ax.append((v[1]==xs)==(v[0]==t))
        # sin(t)=x
        st.fn_memo[('sincos',t.get_id())]=None
        c=self.newreal('cos')
        ax+=[c>=0,c*c==1-xs*xs]
        st.fn_memo[('sincos',t.get_id())]=(xs,c,t)
        self.define(st,z3.And(*ax))
        return t
    # -- main loop
    def m_atan2(self,st,y,x):
        """atan2(y,x) through the half angle h=sin(t/2), which is related to the other arcsines of the path"""
        y=self.real(y); x=self.real(x)
        if not is_sym(y) and not is_sym(x): 
            if y==0 and x>0: return Fraction(0)
        ys=z3.simplify(R(y)); xs=z3.simplify(R(x))
        key=('atan2',ys.get_id(),xs.get_id())
        if key in st.fn_memo: return st.fn_memo[key][0]
        neg=self.branch(st,ys<0)
        if neg: ys=z3.simplify(-ys)
        n=self.newreal('hyp'); h=self.newreal('sinhalf')
        self.define(st,z3.And(n>=0,n*n==xs*xs+ys*ys,h>=0,h<=1,2*h*h*n==n-xs))
        t=2*self.m_asin(st,h)
        if neg: t=-t
        st.fn_memo[key]=(t,ys,xs)
        return t
    def push(self,st,fn,args,dst,normal):
        fn.parse()
        f=Frame(); f.fn=fn; f.regs={}; f.blk=fn.entry; f.ins=fn.blocks[fn.entry]; f.idx=0
        f.dst=dst; f.normal=normal; f.allocas=[]; f.prev=None
        for n,a in zip(fn.params,args): f.regs[n]=a
        st.frames.append(f)
        self.functions.add(fn.name)
    def jump(self,st,lab):
        f=st.frames[-1]
        fn=f.fn
        ph=fn.phis[lab]
        if ph:
            vals=[(i[1],self.val(st,i[3][f.blk],i[2])) for i in ph]
            for d,v in vals: f.regs[d]=v
        f.prev=f.blk; f.blk=lab; f.ins=fn.blocks[lab]; f.idx=0
    def run(self,fname,args,setup_state):
        """explore every feasible path; returns list of Results"""
        init=setup_state
        nid=next(self.fresh)
        self.work=[([],init.model)]
        out=[]
        while self.work:
            prefix,model=self.work.pop()
            st=init.copy0()
            self.fresh=itertools.count(nid)
            st.prefix=prefix; st.prefix_model=model; st.pos=0; st.dec=[]
            if not prefix: st.model=model
            else: st.model=None
            self.push(st,self.mod.funcs[fname],args,None,None)
            r=self.runpath(st)
            if r is not None:
                out.append(r); self.paths+=1
                if self.paths>self.max_paths: raise ExecError('path limit %d'%self.max_paths)
            if self.deadline and time.time()>self.deadline: raise ExecError('exploration deadline')
        return out
    def runpath(self,st):
        try:
            while True:
                f=st.frames[-1]
                ins=f.ins[f.idx]
                op=ins[0]
                st.steps+=1; self.steps+=1
                if st.steps>self.max_steps: raise ExecError('step limit')
                h=SIMPLE.get(op)
                if h is not None:
                    h(self,st,f,ins); f.idx+=1
                    continue
                end=self.step(st,f,ins)
                if end is not None: return end
        except PathEnd as e:
            if e.status=='infeasible': return None
            return Result(st,e.status,e.info)
    def step(self,st,f,ins):
        op=ins[0]
        if op=='condbr':
            c=self.val(st,ins[2],llir.I1)
            self.jump(st, ins[3] if self.branch(st,c) else ins[4]); return
        if op=='switch':
            v=self.val(st,ins[3],ins[2])
            if is_sym(v): v=self.concretize_int(st,v) & ((1<<ins[2][1])-1)
            if isinstance(v,Undef): raise PathEnd('undef','switch on uninitialised value')
            for cv,l in ins[5]:
                if cv==v: self.jump(st,l); return
            self.jump(st,ins[4]); return
        if op=='ret':
            v=None if ins[3] is None else self.val(st,ins[3],ins[2])
            st.frames.pop()
            for o in f.allocas: st.mem.pop(o,None)
            if not st.frames: return Result(st,'ret',v)
            g=st.frames[-1]
            if f.dst is not None: g.regs[f.dst]=v
            if f.normal is not None: self.jump(st,f.normal)
            else: g.idx+=1
            return
        if op=='unreachable': raise PathEnd('unreachable')
        if op=='resume': raise PathEnd('throw')
        if op=='call': return self.call(st,f,ins)
        if op=='fbin':
            a=self.val(st,ins[4],ins[3]); b=self.val(st,ins[5],ins[3])
            f.regs[ins[1]]=self.fdiv(st,a,b) if ins[2]=='fdiv' else self.fop(ins[2],a,b)
            f.idx+=1; return
        if op=='select':
            c=self.val(st,ins[3],llir.I1)
            a=self.val(st,ins[4],ins[2]); b=self.val(st,ins[5],ins[2])
            if is_sym(c):
                t=self.mod.resolve(ins[2])
                ra,rb=a,b
                if t[0] in('f64','f32') and not isnf(a) and not isnf(b) and not isinstance(a,Undef) and not isinstance(b,Undef) and not self.no_eager:
                    f.regs[ins[1]]=z3.If(c,R(self.real(a)),R(self.real(b))); f.idx+=1; return
                if t==llir.I1:
                    f.regs[ins[1]]=z3.If(c,B(a),B(b)); f.idx+=1; return
                c=self.branch(st,c)
            f.regs[ins[1]]=a if c else b; f.idx+=1; return
        if op=='cast': return self.cast(st,f,ins)
        if op=='gep':
            b=self.val(st,ins[3],llir.PTR)
            idx=[(t,self.val(st,v,t)) for t,v in ins[4]]
            f.regs[ins[1]]=self.gep(st,ins[2],b,idx); f.idx+=1; return
        if op=='bin': 
            f.regs[ins[1]]=self.ibin(st,ins[2],ins[3],self.val(st,ins[4],ins[3]),self.val(st,ins[5],ins[3])); f.idx+=1; return
        if op=='alloca':
            n=1 if ins[3] is None else self.val(st,ins[3],llir.I64)
            p=st.alloc(self.mod.sizeof(ins[2])*n,'alloca '+f.fn.name[:40]+ins[1]); f.allocas=f.allocas+[p.o]
            f.regs[ins[1]]=p; f.idx+=1; return
        if op=='atomicrmw':
            p=self.val(st,ins[4],llir.PTR); v=self.val(st,ins[5],ins[3]); self.ensure_global(st,p)
            n=self.mod.sizeof(ins[3]); old=st.load(p,n,ins[3]); m=(1<<(8*n))-1
            new={'add':lambda:(old+v)&m,'sub':lambda:(old-v)&m,'xchg':lambda:v,'or':lambda:old|v,'and':lambda:old&v}[ins[2]]()
            st.store(p,n,new); f.regs[ins[1]]=old; f.idx+=1; return
        raise ExecError('unimplemented op '+op)
    def ibin(self,st,op,t,a,b):
        if t[0]=='vec': return [self.ibin(st,op,t[2],x,y) for x,y in zip(a,b)]
        n=t[1]
        if isinstance(a,Undef) or isinstance(b,Undef):
            raise PathEnd('undef','uninitialised integer used in arithmetic')
        if n==1:
            if not is_sym(a) and not is_sym(b):
                return {'and':a&b,'or':a|b,'xor':a^b,'add':a^b,'sub':a^b,'mul':a&b}[op]
            if op=='and':
                if not is_sym(a): return b if a else 0
                if not is_sym(b): return a if b else 0
                return z3.And(a,b)
            if op=='or':
                if not is_sym(a): return 1 if a else b
                if not is_sym(b): return 1 if b else a
                return z3.Or(a,b)
            if op=='xor': return z3.Xor(B(a),B(b))
            raise ExecError('i1 '+op)
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if op=='sub' and isinstance(a,Ptr) and isinstance(b,Ptr):
                if a.o==b.o: return (a.off-b.off)&((1<<n)-1)
                raise ExecError('ptr sub across objects')
            if op=='sub' and isinstance(a,Ptr) and isinstance(b,int): return Ptr(a.o,a.off-b)
            if op=='add' and isinstance(a,Ptr) and isinstance(b,int): return Ptr(a.o,a.off+self.sx(b,n))
            if op=='add' and isinstance(b,Ptr) and isinstance(a,int): return Ptr(b.o,b.off+self.sx(a,n))
            if op=='and' and isinstance(a,Ptr): return a.off&b
            raise ExecError('ptr int op %s %r %r'%(op,a,b))
        m=(1<<n)-1
        if is_sym(a) or is_sym(b):
            self.assumptions.add('symbolic integers are mathematical integers (no wrap-around)')
            A=a if is_sym(a) else self.sx(a,n); Bv=b if is_sym(b) else self.sx(b,n)
            if op=='add': return A+Bv
            if op=='sub': return A-Bv
            if op=='mul': return A*Bv
            if op=='shl' and not is_sym(b): return A*(1<<b)
            if op in('ashr',) and not is_sym(b): return A/(1<<b)
            a=self.concretize_int(st,A)&m if is_sym(a) else a
            b=self.concretize_int(st,Bv)&m if is_sym(b) else b
        if op=='add': return (a+b)&m
        if op=='sub': return (a-b)&m
        if op=='mul': return (a*b)&m
        if op=='and': return a&b
        if op=='or': return a|b
        if op=='xor': return a^b
        if op=='shl': return (a<<b)&m
        if op=='lshr': return a>>b
        if op=='ashr': return (self.sx(a,n)>>b)&m
        if op in('udiv','urem','sdiv','srem'):
            if b==0: raise PathEnd('div0','integer division by zero')
        if op=='udiv': return a//b
        if op=='urem': return a%b
        x,y=self.sx(a,n),self.sx(b,n)
        q=abs(x)//abs(y)
        if (x<0)!=(y<0): q=-q
        if op=='sdiv': return q&m
        if op=='srem': return (x-q*y)&m
        raise ExecError(op)
    def cast(self,st,f,ins):
        _,dst,op,t,v0,t2=ins
        v=self.val(st,v0,t)
        if op in('bitcast','ptrtoint','inttoptr','addrspacecast','fptrunc','fpext'):
            if op=='fptrunc':
                self.assumptions.add('float (single precision) storage treated as exact real')
            r=v
        elif isinstance(v,Undef): 
            r=UNDEF
        elif op in('sext','zext','trunc'):
            if t[1]==1 and is_sym(v):
                v=1 if self.branch(st,v) else 0
            if is_sym(v): r=v
            elif isinstance(v,Ptr):
                if op=='trunc': raise ExecError('trunc ptr')
                r=v
            elif op=='sext': r=self.sx(v,t[1])&((1<<t2[1])-1)
            elif op=='zext': r=v
            else: r=v&((1<<t2[1])-1)
        elif op=='fptosi': r=self.fptosi(st,v)&((1<<t2[1])-1)
        elif op=='fptoui': r=self.fptosi(st,v)
        elif op in('sitofp','uitofp'):
            if is_sym(v):
                if z3.is_bool(v): r=z3.If(v,z3.RealVal(1),z3.RealVal(0))
                else: r=z3.ToReal(v)
            else: r=Fraction(self.sx(v,t[1]) if op=='sitofp' else v)
        else: raise ExecError(op)
        f.regs[dst]=r; f.idx+=1
    def call(self,st,f,ins):
        _,dst,rt,callee,args,normal,unwind=ins
        if callee[0]=='reg':
            p=f.regs[callee[1]]
            if not(isinstance(p,Ptr) and isinstance(p.o,tuple)): raise PathEnd('memfault','call through %r'%(p,))
            name=p.o[1]
        else:
            c=self.const(st,callee,llir.PTR); name=c.o[1]
        av=[]
        for t,v,at in args:
            if t==('metadata',): av.append(None); continue
            x=self.val(st,v,t)
            if 'byval' in at:
                n=self.mod.sizeof(at['byval']); q=st.alloc(n,'byval'); self.memcpy(st,q,x,n); x=q
            av.append(x)
        name=self.mod.aliases.get(name,name)
        if self.on_call:
            r=self.on_call(self,st,name,av)
            if r is not None: return self.finish(st,f,dst,normal,r[0])
        h=self.intercept.get(name)
        if h is None: h=BUILTIN.get(name)
        if h is None and name.startswith('llvm.'):
            for k,v in LLVM.items():
                if name.startswith(k): h=v; break
            if h is None: raise ExecError('intrinsic '+name)
        if h is not None:
            r=h(self,st,av)
            return self.finish(st,f,dst,normal,r)
        fn=self.mod.funcs.get(name)
        if fn is None:
            r=self.external(st,name,av,rt)
            return self.finish(st,f,dst,normal,r)
        if self.on_recursive and any(g.fn is fn for g in st.frames):
            r=self.on_recursive(self,st,name,av)
            if r is not None: return self.finish(st,f,dst,normal,r[0])
        self.push(st,fn,av,dst,normal)
    def finish(self,st,f,dst,normal,r):
        if dst is not None: f.regs[dst]=r
        if normal is not None: self.jump(st,normal)
        else: f.idx+=1
    def external(self,st,name,av,rt):
        if 'ostream' in name or 'cerr' in name or 'basic_ios' in name or 'ios_base' in name:
            s=None
            if len(av)>1 and isinstance(av[1],Ptr) and isinstance(av[1].o,str):
                s=self.cstr(st,av[1])
            if s is not None and 'ailed' in s: st.events.append(('assert',s))
            elif s is not None and st.events and st.events[-1]==('assert','Failed Assert: '): st.events[-1]=('assert','Failed Assert: '+s)
            return av[0] if av else 0
        if '__throw_' in name: raise PathEnd('throw',name)
        raise ExecError('external function '+name)
    def cstr(self,st,p):
        self.ensure_global(st,p)
        o=st.mem[p.o]; out=[]
        i=p.off
        while i in o.data and o.data[i][1]!=0 and len(out)<200:
            out.append(chr(o.data[i][1])); i+=1
        return ''.join(out)
    def memcpy(self,st,d,s,n):
        if is_sym(n): n=self.concretize_int(st,n)
        if n==0: return
        self.ensure_global(st,s)
        if not isinstance(s,Ptr) or s.o not in st.mem: raise PathEnd('memfault','memcpy from %r'%(s,))
        so=st.mem[s.o]
        if s.off<0 or s.off+n>so.size: raise PathEnd('memfault','memcpy source out of bounds')
        ents=[]
        for k,(sz,v) in so.data.items():
            if k>=s.off and k+sz<=s.off+n: ents.append((k-s.off,sz,v))
            elif k<s.off+n and k+sz>s.off:
                if isinstance(v,int):
                    for b in range(sz):
                        if s.off<=k+b<s.off+n: ents.append((k+b-s.off,1,(v>>(8*b))&255))
                elif isinstance(v,Undef): pass
                else: raise ExecError('memcpy splits a non-int')
        # clear dest range
        if d.o not in st.mem: raise PathEnd('memfault','memcpy to freed object')
        do=st.wobj(d.o)
        if d.off<0 or d.off+n>do.size: raise PathEnd('memfault','memcpy dest out of bounds')
        for k in [k for k,(sz,v) in do.data.items() if k<d.off+n and k+sz>d.off]:
            sz,v=do.data[k]
            if k<d.off or k+sz>d.off+n:
                if not isinstance(v,int): raise ExecError('memcpy partial overwrite')
                for b in range(sz):
                    if not(d.off<=k+b<d.off+n): do.data[k+b]=(1,(v>>(8*b))&255)
            if do.data.get(k,(0,0))[0]==sz: del do.data[k]
        for k,sz,v in ents: do.data[d.off+k]=(sz,v)

def B(v):
    if is_sym(v): return v
    if isinstance(v,Undef): raise PathEnd('undef','uninitialised condition')
    return z3.BoolVal(bool(v))

# ---- simple (never forking) instructions
def s_load(ex,st,f,ins):
    p=ex.val(st,ins[3],llir.PTR)
    ex.ensure_global(st,p)
    t=ex.mod.resolve(ins[2])
    if t[0] in('struct','arr','vec'):
        n=t[1] if t[0]!='struct' else len(t[1])
        out=[]
        for i in range(n):
            o,e=ex.mod.offset(t,i); e=ex.mod.resolve(e)
            out.append(ldscalar(ex,st,Ptr(p.o,p.off+o),e))
        f.regs[ins[1]]=out; return
    f.regs[ins[1]]=ldscalar(ex,st,p,t)
def ldscalar(ex,st,p,t):
    v=st.load(p,ex.mod.sizeof(t),t)
    if t[0]=='f64' and isinstance(v,int): v=ex.real(v)
    elif t[0]=='f32' and isinstance(v,int):
        if v==0: v=Fraction(0)
        else:
            import struct
            v=Fraction(struct.unpack('<f',struct.pack('<I',v))[0])
    elif t[0]=='i' and isinstance(v,Fraction) :
        if v==0: v=0
    elif t[0]=='i' and t[1]<8 and isinstance(v,int): v&=(1<<t[1])-1
    return v
def s_store(ex,st,f,ins):
    v=ex.val(st,ins[3],ins[2]); p=ex.val(st,ins[4],llir.PTR)
    ex.ensure_global(st,p)
    t=ex.mod.resolve(ins[2])
    if t[0] in('struct','arr','vec'):
        n=t[1] if t[0]!='struct' else len(t[1])
        if isinstance(v,Undef): return
        for i in range(n):
            o,e=ex.mod.offset(t,i)
            st.store(Ptr(p.o,p.off+o),ex.mod.sizeof(e),v[i])
        return
    st.store(p,ex.mod.sizeof(t),v)
def s_icmp(ex,st,f,ins):
    _,dst,pred,t,a0,b0=ins
    a=ex.val(st,a0,t); b=ex.val(st,b0,t)
    f.regs[dst]=icmp(ex,st,pred,t,a,b)
def icmp(ex,st,pred,t,a,b):
    if isinstance(a,Undef) or isinstance(b,Undef): return UNDEF
    n=64 if t==llir.PTR else t[1]
    if isinstance(a,Ptr) or isinstance(b,Ptr):
        if isinstance(a,Ptr) and isinstance(b,Ptr):
            if pred=='eq': return int(a==b)
            if pred=='ne': return int(a!=b)
            if a.o==b.o:
                return int({'ult':a.off<b.off,'ule':a.off<=b.off,'ugt':a.off>b.off,'uge':a.off>=b.off,
                            'slt':a.off<b.off,'sgt':a.off>b.off,'sle':a.off<=b.off,'sge':a.off>=b.off}[pred])
            ka=(str(a.o),a.off); kb=(str(b.o),b.off)   # arbitrary but fixed total order of objects
            return int({'ult':ka<kb,'ule':ka<=kb,'ugt':ka>kb,'uge':ka>=kb,'slt':ka<kb,'sgt':ka>kb,'sle':ka<=kb,'sge':ka>=kb}[pred])
        if pred=='eq': return 0
        if pred=='ne': return 1
        pa=isinstance(a,Ptr)
        # pointer vs null-ish int
        if pred in('ugt','uge','sgt','sge'): return int(pa)
        return int(not pa)
    if n==1 and (is_sym(a) or is_sym(b)):
        if pred=='eq': return B(a)==B(b)
        if pred=='ne': return z3.Xor(B(a),B(b))
        raise ExecError('i1 icmp')
    if is_sym(a) or is_sym(b):
        if z3.is_real(a) if is_sym(a) else False: raise ExecError('icmp on real bits')
        A=a if is_sym(a) else ex.sx(a,n); C=b if is_sym(b) else ex.sx(b,n)
        if pred=='eq': return A==C
        if pred=='ne': return A!=C
        p=pred[1:]
        if pred[0]=='u': ex.assumptions.add('symbolic integers are non-negative where compared unsigned')
        return {'lt':A<C,'le':A<=C,'gt':A>C,'ge':A>=C}[p]
    if pred=='eq': return int(a==b)
    if pred=='ne': return int(a!=b)
    if pred[0]=='s': a=ex.sx(a,n); b=ex.sx(b,n)
    return int({'lt':a<b,'le':a<=b,'gt':a>b,'ge':a>=b}[pred[1:]])
def s_fcmp(ex,st,f,ins):
    _,dst,pred,t,a0,b0=ins
    a=ex.real(ex.val(st,a0,t)); b=ex.real(ex.val(st,b0,t))
    if pred in('true','false'): f.regs[dst]=int(pred=='true'); return
    if pred=='ord' or pred=='uno':
        nan=(isnf(a) and a!=a) or (isnf(b) and b!=b)
        f.regs[dst]=int(nan==(pred=='uno')); return
    p=pred[1:]
    if isnf(a) or isnf(b):
        nan=(isnf(a) and a!=a) or (isnf(b) and b!=b)
        if nan: f.regs[dst]=int(pred[0]=='u'); return
        x=a if isnf(a) else 0.0; y=b if isnf(b) else 0.0
        r={'lt':x<y,'le':x<=y,'gt':x>y,'ge':x>=y,'eq':x==y,'ne':x!=y}[p]
        f.regs[dst]=int(r); return
    if isinstance(a,Fraction) and isinstance(b,Fraction):
        r={'lt':a<b,'le':a<=b,'gt':a>b,'ge':a>=b,'eq':a==b,'ne':a!=b}[p]
        f.regs[dst]=int(r); return
    A=R(a); C=R(b)
    f.regs[dst]={'lt':A<C,'le':A<=C,'gt':A>C,'ge':A>=C,'eq':A==C,'ne':A!=C}[p]
def s_fneg(ex,st,f,ins):
    v=ex.real(ex.val(st,ins[3],ins[2])); f.regs[ins[1]]=-v
def s_br(ex,st,f,ins):
    ex.jump(st,ins[2]); f.idx-=1
def s_extractvalue(ex,st,f,ins):
    v=ex.val(st,ins[3],ins[2])
    for i in ins[4]: v=v[i] if not isinstance(v,Undef) else UNDEF
    f.regs[ins[1]]=v
def s_insertvalue(ex,st,f,ins):
    v=ex.val(st,ins[3],ins[2]); e=ex.val(st,ins[4],None) if ins[4][0]=='reg' else ex.val(st,ins[4],llir.F64)
    def blank(t):
        t=ex.mod.resolve(t)
        if t[0]=='struct': return [blank(x) for x in t[1]]
        if t[0] in('arr','vec'): return [blank(t[2]) for _ in range(t[1])]
        return UNDEF
    if isinstance(v,Undef): v=blank(ins[2])
    def ins_(v,idx):
        v=list(v)
        if len(idx)==1: v[idx[0]]=e
        else: v[idx[0]]=ins_(v[idx[0]],idx[1:])
        return v
    f.regs[ins[1]]=ins_(v,ins[5])
def s_freeze(ex,st,f,ins): f.regs[ins[1]]=ex.val(st,ins[3],ins[2])
def s_nop(ex,st,f,ins): pass
def s_landing(ex,st,f,ins): raise PathEnd('throw')
def s_ee(ex,st,f,ins):
    v=ex.val(st,ins[3],ins[2]); i=ex.val(st,ins[4],llir.I64); f.regs[ins[1]]=v[i]
def s_ie(ex,st,f,ins):
    v=ex.val(st,ins[3],ins[2]); e=ex.val(st,ins[4],ins[2][2]); i=ex.val(st,ins[5],llir.I64)
    if isinstance(v,Undef): v=[UNDEF]*ins[2][1]
    v=list(v); v[i]=e; f.regs[ins[1]]=v
def s_sv(ex,st,f,ins):
    n=ins[2][1]
    a=ex.val(st,ins[3],ins[2]); b=ex.val(st,ins[4],ins[2]); m=ex.val(st,ins[6],ins[5])
    if isinstance(a,Undef): a=[UNDEF]*n
    if isinstance(b,Undef): b=[UNDEF]*n
    ab=list(a)+list(b)
    f.regs[ins[1]]=[UNDEF if isinstance(k,Undef) else ab[k] for k in m]
SIMPLE={'load':s_load,'store':s_store,'icmp':s_icmp,'fcmp':s_fcmp,'fneg':s_fneg,'br':s_br,
        'extractvalue':s_extractvalue,'insertvalue':s_insertvalue,'freeze':s_freeze,'nop':s_nop,'landingpad':s_landing,
        'extractelement':s_ee,'insertelement':s_ie,'shufflevector':s_sv}

# ---- builtins
def b_new(ex,st,a):
    n=a[0]
    if is_sym(n): n=ex.concretize_int(st,n)
    return st.alloc(n,'heap')
def b_del(ex,st,a):
    p=a[0]
    if isinstance(p,Ptr):
        if p.o not in st.mem: raise PathEnd('memfault','double free')
        if p.off!=0: raise PathEnd('memfault','free of interior pointer')
        del st.mem[p.o]
    return None
def b_log(ex,st,a): return ex.m_log(st,a[0])
def b_sqrt(ex,st,a): return ex.m_sqrt(st,a[0])
def b_sin(ex,st,a): return ex.m_sincos(st,a[0])[0]
def b_cos(ex,st,a): return ex.m_sincos(st,a[0])[1]
def b_sincos(ex,st,a):
    s,c=ex.m_sincos(st,a[0]); st.store(a[1],8,s); st.store(a[2],8,c); return None
def b_asin(ex,st,a): return ex.m_asin(st,a[0])
def b_atan2(ex,st,a): return ex.m_atan2(st,a[0],a[1])
def b_fabs(ex,st,a):
    v=ex.real(a[0])
    if is_sym(v): return z3.If(v>=0,v,-v)
    return abs(v)
def b_floor(ex,st,a):
    v=ex.real(a[0])
    if not is_sym(v): return Fraction(math.floor(v))
    return Fraction(ex.floorsym(st,v))
def b_ceil(ex,st,a):
    v=ex.real(a[0])
    if not is_sym(v): return Fraction(math.ceil(v))
    return -b_floor(ex,st,[-v])
def b_strcmp(ex,st,a):
    x=ex.cstr(st,a[0]); y=ex.cstr(st,a[1]); return 0 if x==y else 1
def b_throw(ex,st,a): raise PathEnd('throw')
def b_nop(ex,st,a): return None
def b_memset(ex,st,a):
    p,v,n=a[:3]
    if n==0: return None
    ex.ensure_global(st,p)
    o=st.wobj(p.o)
    if p.off<0 or p.off+n>o.size: raise PathEnd('memfault','memset out of bounds')
    for k in [k for k,(s,_) in o.data.items() if k<p.off+n and k+s>p.off]:
        s,vv=o.data[k]
        if k<p.off or k+s>p.off+n:
            if not isinstance(vv,int): raise ExecError('memset partial')
            for b in range(s):
                if not(p.off<=k+b<p.off+n): o.data[k+b]=(1,(vv>>(8*b))&255)
            if o.data.get(k,(0,0))[0]==s and s!=1: del o.data[k]
        else: del o.data[k]
    i=0
    while i<n:
        if n-i>=8: s=8
        elif n-i>=4: s=4
        else: s=1
        o.data[p.off+i]=(s,int.from_bytes(bytes([v])*s,'little')); i+=s
    return None
def b_memcpy(ex,st,a):
    ex.memcpy(st,a[0],a[1],a[2]); return a[0]
def minmax(f):
    def g(ex,st,a):
        x,y=a[:2]
        if is_sym(x) or is_sym(y):
            return z3.If(f(x,y),x,y)
        X,Y=ex.sx(x,64),ex.sx(y,64)
        return x if f(X,Y) else y
    return g
def b_fpclass(ex,st,a):
    v=a[0]; mask=a[1]
    v=ex.real(v)
    if is_sym(v) or isinstance(v,Fraction):
        fin=0x1f8
        if mask & fin ==fin: return 1
        if mask & fin ==0: return 0
        raise ExecError('fpclass %x'%mask)
    if v!=v: return int(bool(mask&3))
    if v==INF: return int(bool(mask&0x200))
    return int(bool(mask&4))
def fminmax(ismax):
    def g(ex,st,a):
        x,y=ex.real(a[0]),ex.real(a[1])
        if isinstance(x,Fraction) and isinstance(y,Fraction): return max(x,y) if ismax else min(x,y)
        return z3.If(R(x)>=R(y),R(x),R(y)) if ismax else z3.If(R(x)<=R(y),R(x),R(y))
    return g
def b_memcmp(ex,st,a): raise ExecError('memcmp')
BUILTIN={'_Znwm':b_new,'_Znam':b_new,'malloc':b_new,'_ZdlPv':b_del,'_ZdlPvm':b_del,'_ZdaPv':b_del,'_ZdaPvm':b_del,'free':b_del,
 'log':b_log,'sqrt':b_sqrt,'sin':b_sin,'cos':b_cos,'sincos':b_sincos,'asin':b_asin,'atan2':b_atan2,'fabs':b_fabs,'floor':b_floor,'ceil':b_ceil,
 'strcmp':b_strcmp,'__cxa_throw':b_throw,'__cxa_pure_virtual':b_throw,'_ZSt9terminatev':b_throw,'memcpy':b_memcpy,'memmove':b_memcpy,
 '__cxa_guard_acquire':lambda ex,st,a:1,'__cxa_guard_release':b_nop,'__cxa_atexit':lambda ex,st,a:0,
 'fmin':fminmax(False),'fmax':fminmax(True)}
LLVM={'llvm.lifetime':b_nop,'llvm.dbg':b_nop,'llvm.memset':b_memset,'llvm.memcpy':b_memcpy,'llvm.memmove':b_memcpy,
 'llvm.assume':b_nop,'llvm.fabs':b_fabs,'llvm.sqrt':b_sqrt,'llvm.floor':b_floor,'llvm.ceil':b_ceil,'llvm.smax':minmax(lambda x,y:x>=y),
 'llvm.smin':minmax(lambda x,y:x<=y),'llvm.is.fpclass':b_fpclass,'llvm.log':b_log,'llvm.sin':b_sin,'llvm.cos':b_cos,
 'llvm.umax':minmax(lambda x,y:x>=y),'llvm.umin':minmax(lambda x,y:x<=y),'llvm.trap':b_throw,'llvm.experimental.noalias':b_nop,
 'llvm.invariant':b_nop,'llvm.expect':lambda ex,st,a:a[0],'llvm.minnum':fminmax(False),'llvm.maxnum':fminmax(True),
 'llvm.abs':lambda ex,st,a: (z3.If(a[0]>=0,a[0],-a[0]) if is_sym(a[0]) else (a[0] if ex.sx(a[0],32)>=0 else (-a[0])&0xffffffff)),
 'llvm.stacksave':lambda ex,st,a:0,'llvm.stackrestore':b_nop}
def b_fmuladd(ex,st,a): return ex.fop('fadd',ex.fop('fmul',a[0],a[1]),a[2])
LLVM['llvm.fmuladd']=b_fmuladd; LLVM['llvm.fma']=b_fmuladd
