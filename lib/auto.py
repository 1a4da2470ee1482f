"""Auto-correlation of three points through the real BaseCorr2::process(field): all of process, process2, process11
executed to the end (nothing cut), points at symbolic places; the counts must be those of the definition."""
import math, ctypes, itertools
from fractions import Fraction as F
import z3
from symx import Exec, State, Ptr, R, solve, mval, is_sym, ExecError
import pair
from pair import logbounds, logrefine, EDGE, allowed, Case
import llir

class Auto:
    def __init__(self,ex,B,M,C,n,minsep,binsize,shape):
        self.ex=ex; st=State(); self.st=st; A=[]
        self.B=B; self.M=M; self.C=C; self.n=n; self.minsep=F(minsep); self.bs=F(binsize); self.shape=shape
        self.case=Case(B,M,C,n,minsep,binsize,(1,1),'zero')
        V=[F(0)]*28
        d=z3.Real('d'); x=z3.Real('x'); y=z3.Real('y')
        A+=[d>0]
        u=(F(3,5),F(4,5),F(0)) if C=='Flat' else (F(1,3),F(2,3),F(-2,3))
        if B=='TwoD':
            # points (0,0), (dx,dy), (x,y): two free displacements
            # (on one line through the origin, like the others)
            pass
        if 1:
            P=[(F(0),)*3,tuple(R(q)*d if q else F(0) for q in u),tuple(R(q)*x if q else F(0) for q in u)]
        for i in range(3):
            for j in range(3): V[3*i+j]=P[i][j]
        add=lambda a,b: tuple(s+t for s,t in zip(a,b))
        mid=tuple(s/2 if is_sym(s) else s/2 for s in P[1]); cen=tuple(s/3 for s in add(P[1],P[2]))
        s12=z3.Real('s12'); sr=z3.Real('sr')
        V[9:12]=mid; V[12]=s12; V[13:16]=cen; V[16]=sr
        if self.minsep==0: A+=[x!=0,x!=d]
        if 1:
            A+=[s12==d/2,sr>0]
            for q in (F(0),d,x):
                e=(d+x)/3-q; A+=[sr>=e,sr>=-e]
        self.free=dict(d=d,x=x,sr=sr,s12=s12)
        V[20]=self.minsep; V[22]=self.bs; V[23]=F(0); V[24]=F(1)
        self.edges=[self.minsep+k*self.bs for k in range(n+1)]; self.nb=n
        if B=='Linear': V[21]=self.edges[-1]
        elif B=='TwoD': V[21]=n*self.bs/2; self.nb=n*n
        else:
            M_=z3.Real('maxsep'); l0=z3.Real('logmin'); lo,hi=logbounds(self.minsep); A+=[l0>=R(lo),l0<=R(hi)]
            es=[R(self.minsep)]
            st.logs=[(R(self.minsep),l0),(R(self.minsep**2),2*l0)]
            for k in range(1,n+1):
                e=M_ if k==n else z3.Real('edge%d'%k); f=F(float(self.minsep)*math.exp(k*float(self.bs)))
                A+=[e>=R(f*(1-F(1,10**13))),e<=R(f*(1+F(1,10**13)))]
                st.logs+=[(e,l0+R(k*self.bs)),(e*e,2*l0+R(2*k*self.bs))]
                es.append(e)
            V[21]=M_; self.edges=es; st.fn_memo[('log',z3.simplify(R(self.minsep)).get_id())]=(l0,R(self.minsep)); self._k=[R(self.minsep)]
            hints=[]
            for j in range(-2,n+3):
                xx=F(float(self.minsep)*math.exp(j*float(self.bs))).limit_denominator(10**9); lo,hi=logbounds(xx); hints.append((xx*xx,2*lo,2*hi))
            st.user['loghints']=hints
        V[25]=V[26]=V[27]=F(0)
        if M=='Periodic': raise ExecError('periodic not set up')
        self.V=V; self.P=P; st.pc=A
        self.pin=st.alloc(8*28,'in'); self.pic=st.alloc(16,'ic'); self.pout=st.alloc(8*self.nb*4,'out')
        for i,v in enumerate(V): st.store(Ptr(self.pin.o,8*i),8,v)
        for i,v in enumerate((self.nb,shape)): st.store(Ptr(self.pic.o,8*i),8,v)
    def seps(self):
        """per pair: (bin -> condition), and the condition of lying in no bin, with margin eps"""
        d,x=self.free['d'],self.free['x']; out=[]
        for (i,j) in ((0,1),(0,2),(1,2)):
            if self.B=='TwoD':
                D=[R(self.P[j][t])-R(self.P[i][t]) for t in (0,1)]
                out.append(('2',D))
            else:
                q=[R(F(0)),d,x]; r=q[j]-q[i]; out.append(('1',z3.If(r>=0,r,-r)))
        return out
    def inbin(self,sep,k):
        kind,v=sep
        if kind=='1':
            e=self.edges
            if k is None: return z3.Or(v<R(e[0]),v>=R(e[-1]))
            return z3.And(v>=R(e[k]),v<R(e[k+1]))
        dx,dy=v; M=R(self.n*self.bs/2); mn=R(self.minsep)
        ok=z3.And(dx*dx+dy*dy>=mn*mn,dx<M,dx>-M,dy<M,dy>-M)
        if k is None: return z3.Not(ok)
        i=k%self.n; j=k//self.n
        return z3.And(ok,dx>=-M+R(i*self.bs),dx<-M+R((i+1)*self.bs),dy>=-M+R(j*self.bs),dy<-M+R((j+1)*self.bs))
    def fname(self): return 'ha_%s_%s_0_%s'%(self.B,self.M,self.C)

def native(lib,au,vin):
    A=(ctypes.c_double*28)(*vin); I=(ctypes.c_long*2)(au.nb,au.shape); O=(ctypes.c_double*(4*au.nb))()
    getattr(lib,au.fname())(A,I,O); return list(O)

def check_auto(mod,lib,B,M,C,n,minsep,binsize,shape,timeout=20000,deadline=None,max_paths=6000):
    ex=Exec(mod,max_paths=max_paths,feas_timeout=500,timeout=timeout,deadline=deadline); ex.no_eager=True
    au=Auto(ex,B,M,C,n,minsep,binsize,shape)
    res=ex.run(au.fname(),[au.pin,au.pic,au.pout],au.st)
    out=dict(case='auto %s/%s/%s n=%d min=%s bs=%s shape=%d'%(B,M,C,n,minsep,binsize,shape),paths=len(res),branches=ex.branches,
             steps=ex.steps,violations=[],undecided=[],boundary=[],validated=0,unvalidated=0,mismatch=[],outcomes={},
             assumptions=sorted(ex.assumptions),functions=sorted(ex.functions))
    seps=au.seps(); ks=[None]+list(range(au.nb))
    for p in res:
        if p.status=='infeasible': continue
        base=list(p.pc); goal=[]; what=None
        asserts=[e for e in p.events if e[0]=='assert']
        if p.status!='ret': what='%s: %s'%(p.status,p.info)
        elif asserts: what=asserts[0][1]
        else:
            o=[ex.real(p.st.load(Ptr(au.pout.o,8*i),8,llir.F64)) for i in range(au.nb)]
            cnt=[int(v) if isinstance(v,F) else None for v in o]
            if None in cnt: what='symbolic count'
            else:
                what='counts %s are not those of the pairs'%cnt; ok=[]
                if B=='TwoD':
                    # every pair is counted in its own bin and in the reversed one
                    goal=[z3.Not(two_d_ok(au,seps,cnt))]
                else:
                    need=sum(cnt)
                    if need<=3:
                        for a in itertools.product(ks,repeat=3):
                            if all(sum(1 for t in a if t==k)==cnt[k] for k in range(au.nb)):
                                ok.append(z3.And(*[au.inbin(s,k) for s,k in zip(seps,a)]))
                    goal=[z3.Not(z3.Or(*ok))] if ok else []
        out['outcomes'][str(what)[:12]]=out['outcomes'].get(str(what)[:12],0)+1
        pairs=[('log',x,l) for x,l in p.st.logs] if B=='Log' else []
        q,m,_=logrefine(base+goal,pairs,timeout)
        if q=='sat':
            rep=replay(lib,au,m)
            (out['violations'] if rep['reproduced'] else out['boundary']).append(dict(what=what,model={k:float(mval(m,v)) for k,v in au.free.items()},replay=rep))
        elif q=='unknown': out['undecided'].append(what)
        if p.status=='ret':
            q,m,_=logrefine(base,[('log',x,l) for x,l in p.st.logs],3000)
            if q=='sat':
                vin=[float(mval(m,v)) if is_sym(v) else float(v) for v in au.V]
                nat=native(lib,au,vin); bad=[]
                for i in range(4*au.nb):
                    e=ex.real(p.st.load(Ptr(au.pout.o,8*i),8,llir.F64)); ev=float(mval(m,e)) if is_sym(e) else float(e)
                    if abs(ev-nat[i])>1e-6*(1+abs(ev)): bad.append((i,ev,nat[i]))
                if bad: out['unvalidated']+=1
                else: out['validated']+=1
            else: out['unvalidated']+=1
    return out
def two_d_ok(au,seps,cnt):
    """some choice of bin per pair (i<j) reproduces the counts with pair and reversed pair both counted"""
    n=au.n; nb=au.nb; ks=[None]+list(range(nb))
    # only bins with non-zero counts can be used
    use=[None]+[k for k in range(nb) if cnt[k]]
    rev=[('2',[-v[0],-v[1]]) for _,v in seps]
    ok=[]
    opts=[(a,b) for a in use for b in use if (a is None)==(b is None)]
    for combo in itertools.product(opts,repeat=3):
        c=[0]*nb; good=True
        for a,b in combo:
            if a is not None:
                c[a]+=1; c[b]+=1
        if c==cnt:
            ok.append(z3.And(*[z3.And(au.inbin(s,a),au.inbin(r,b)) for s,r,(a,b) in zip(seps,rev,combo)]))
    return z3.Or(*ok) if ok else z3.BoolVal(False)
def replay(lib,au,m):
    best=None
    for axis in (0,1):
        vin=[float(mval(m,v)) if is_sym(v) else float(v) for v in au.V]
        if axis==0 and au.B!='TwoD':
            g=lambda k: mval(m,au.free[k])
            d,x=g('d'),g('x')
            xs=[F(0),d,x,d/2,(d+x)/3]
            for i,o in enumerate((0,3,6,9,13)):
                vin[o]=float(xs[i]); vin[o+1]=vin[o+2]=0.
        nat=native(lib,au,vin)
        lo=[0]*au.nb; hi=[0]*au.nb
        pts=[[F(v) for v in vin[3*i:3*i+3]] for i in range(3)]
        for i,j in ((0,1),(0,2),(1,2)):
            D=[b-a for a,b in zip(pts[i],pts[j])]
            for sgn in ((1,-1) if au.B=='TwoD' else (1,)):
                al=allowed(au.case,F(vin[21]),sum(t*t for t in D),sgn*D[0],sgn*D[1],F(0))
                for k in al or ():
                    if k is not None:
                        hi[k]+=1
                        if len(al)==1: lo[k]+=1
        rep=any(nat[k]<lo[k]-1e-9 or nat[k]>hi[k]+1e-9 for k in range(au.nb))
        best=dict(reproduced=rep,entry=au.fname(),inputs=vin,ic=[au.nb,au.shape],npairs=nat[:au.nb],least=lo,most=hi)
        if rep: break
    return best
