"""2-point tree traversal: one symbolic step of the real recursion, entered through BaseCorr2::process with one
tree cell on each side.  The recursive calls are cut at the second activation (induction hypothesis: a recursive
call on two cells treats every pair of their points correctly), so a pass covers trees of any depth."""
import math, ctypes
from fractions import Fraction as F
import z3
import llir, symx
from symx import Exec, State, Ptr, R, STATS, solve, mval, is_sym, ExecError

NAMES='x1 y1 z1 s1 x2 y2 z2 s2 minsep maxsep binsize b a minrpar maxrpar xp yp zp w1 w2 wc'.split()+['q%d'%i for i in range(12)]

def flt(x): return F(float(x))

class Case:
    """bin: dict(type,minsep,n,binsize) with concrete rational minsep/binsize; geom: metric name and coordinate"""
    def __init__(self,B,M,C,n,minsep,binsize,kids,slop,amin=None):
        self.B=B; self.M=M; self.C=C; self.n=n; self.minsep=F(minsep); self.binsize=F(binsize); self.kids=kids
        self.slop=slop; self.aconc=amin
    def __repr__(self): return '%s/%s/%s n=%d min=%s bs=%s kids=%s slop=%s'%(self.B,self.M,self.C,self.n,self.minsep,self.binsize,self.kids,self.slop)

def logbounds(x):
    f=F(math.log(x)); e=F(1,10**13)*(1+abs(f)); return f-e,f+e

class Setup:
    def __init__(self,ex,case):
        self.case=c=case; self.ex=ex
        st=State(); self.st=st
        V={k:F(0) for k in NAMES}
        A=[]
        r=z3.Real('r'); self.r=r
        A+=[r>0]
        V['w1']=V['w2']=F(1); V['wc']=F(0)
        for i in (1,2):
            if c.kids[i-1]:
                s=z3.Real('s%d'%i); V['s%d'%i]=s; A+=[s>0]
            else: V['s%d'%i]=F(0)
        V['minsep']=c.minsep; V['binsize']=c.binsize
        self.logs=[]
        if c.B=='Log':
            M=z3.Real('maxsep'); l0=z3.Real('logmin'); self.l0=l0
            lo,hi=logbounds(c.minsep); A+=[l0>=R(lo),l0<=R(hi)]
            f=F(float(c.minsep)*math.exp(c.n*float(c.binsize))); A+=[M>=R(f*(1-F(1,10**13))),M<=R(f*(1+F(1,10**13)))]
            lM=l0+R(c.n*c.binsize)
            V['maxsep']=M; self.maxsep=M
            self.lM=lM; st.logs=[(R(c.minsep),l0),(M,lM),(R(c.minsep**2),2*l0),(M*M,2*lM)]
            key=('log',z3.simplify(R(c.minsep)).get_id()); st.fn_memo[key]=(l0,R(c.minsep))
            self._keep=[R(c.minsep)]
            hints=[]
            for j in range(-4,c.n+5):
                x=F(float(c.minsep)*math.exp(j*float(c.binsize))).limit_denominator(10**9); lo,hi=logbounds(x); hints.append((x,lo,hi))
            for x in (c.minsep/20,c.minsep*20):
                lo,hi=logbounds(x); hints.append((x,lo,hi))
            st.user['loghints']=hints; st.user['logbase']=r
        elif c.B=='Linear':
            V['maxsep']=c.minsep+c.n*c.binsize; self.maxsep=V['maxsep']
        else:
            # TwoD: nbins is n*n cells of a grid spanning [-maxsep,maxsep]
            V['maxsep']=c.n*c.binsize/2; self.maxsep=V['maxsep']
        nb=c.n if c.B!='TwoD' else c.n*c.n
        self.nb=nb; self.B=c.B
        if c.slop=='zero': V['b']=F(0)
        else:
            b=z3.Real('b'); V['b']=b; A+=[b>0,b<=R(c.binsize)]
            if c.B=='Log': A+=[b<=R(F(1,2))]
        if c.aconc is not None: V['a']=F(c.aconc)
        else:
            a=z3.Real('a'); V['a']=a; A+=[a>0,a<=1]
        V['minrpar']=F(-1.7976931348623157e308); V['maxrpar']=F(1.7976931348623157e308)
        self.V=V
        self.geometry(A)
        st.pc=A
        nin=len(NAMES)
        self.pin=st.alloc(8*nin,'in'); self.pic=st.alloc(24,'ic'); self.pout=st.alloc(8*nb*4,'out')
        for i,k in enumerate(NAMES): st.store(Ptr(self.pin.o,8*i),8,V[k])
        for i,k in enumerate((nb,)+tuple(c.kids)): st.store(Ptr(self.pic.o,8*i),8,k)
    def geometry(self,A):
        c=self.case; V=self.V; r=self.r
        if c.B=='TwoD':
            dx=z3.Real('dx'); dy=z3.Real('dy'); self.dx=dx; self.dy=dy
            V['x1'],V['y1']=F(1),F(2); V['x2'],V['y2']=1+dx,2+dy
            A+=[r*r==dx*dx+dy*dy]
            if c.M=='Periodic':
                P=(F(1000),F(1200),F(0)); V['xp'],V['yp'],V['zp']=P
                A+=[dx<=400,dx>=-400,dy<=400,dy>=-400]
                V['x2']=V['x2']+R(P[0]); V['y2']=V['y2']-R(P[1])
            return
        if c.M in('Euclidean','Periodic'):
            if c.C=='Flat': u=(F(3,5),F(4,5),F(0))
            else: u=(F(1,3),F(2,3),F(-2,3))
            self.u=u
            p=(F(1),F(2),F(3) if c.C!='Flat' else F(0))
            for i,k in enumerate('xyz'):
                V[k+'1']=p[i]; V[k+'2']=p[i]+R(u[i])*r if u[i]!=0 else p[i]
            if c.M=='Periodic':
                # the second point is shifted by a whole period along each axis
                P=(F(1000),F(1200),F(1400) if c.C!='Flat' else F(0))
                V['xp'],V['yp'],V['zp']=P
                V['x2']=V['x2']+R(P[0]); V['y2']=V['y2']-R(P[1])
                if c.C!='Flat': V['z2']=V['z2']+R(P[2])
                A+=[r<=400]
        elif c.M=='Arc':
            # points on the unit sphere (times a distance, for 3-d coordinates); h = sin(r/2), sizes are chords
            h=z3.Real('h'); si=z3.Real('si'); self.h=h
            pi=R(F(31415926535898,10**13))
            A+=[h>0,h<=1,si>=0,si*si==4*h*h*(1-h*h),r<=pi,r>=2*h]
            d1,d2=(F(1),F(1)) if c.C=='Sphere' else (F(2),F(3))
            self.d=(d1,d2)
            V['x1'],V['y1']=d1,F(0); V['x2'],V['y2']=R(d2)*(1-2*h*h),R(d2)*si
            self.arcs=[]
            self.asins=[(h,r/2)]
            for i in (1,2):
                s=V['s%d'%i]; d=self.d[i-1]
                if is_sym(s):
                    t=z3.Real('t%d'%i); self.arcs.append(t)
                    if c.C=='Sphere': A+=[s<=2,t>=s,t<=pi]; self.asins.append((s/2,t/2))
                    else: A+=[s<=R(d),t>=s/R(d),t<=pi/2]; self.asins.append((s/R(d),t))
                else: self.arcs.append(F(0))
            for a,(x,t) in enumerate(self.asins):
                for (y,u) in self.asins[:a]: A+=[(x<y)==(t<u),(x==y)==(t==u)]
                A+=[t>=x,t<=x*pi/2]
            for x,t in self.asins: 
                xs=z3.simplify(x); self.st.fn_memo[('asin',xs.get_id())]=(t,xs)
    def run(self,fname):
        ex=self.ex
        def rec(ex,st,name,av):
            g=ex.global_ptr(st,'hv_cells')
            ids={}
            for i in range(6):
                q=st.load(Ptr(g.o,8*i),8,llir.PTR)
                if isinstance(q,Ptr): ids[q]=i
            cc=tuple(ids[x] for x in av if isinstance(x,Ptr) and x in ids)
            if len(cc)==2:
                st.events.append(('rec',cc)); return (None,)
            return None
        ex.on_recursive=rec
        return ex.run(fname,[self.pin,self.pic,self.pout],self.st)
    def outputs(self,res):
        return [self.ex.real(res.st.load(Ptr(self.pout.o,8*i),8,llir.F64)) for i in range(4*self.nb)]

def fname(c): return 'hv_%s_%s_0_%s'%(c.B,c.M,c.C)
COVERS={(0,0):[], (1,0):[{(2,1),(3,1)}], (0,1):[{(0,4),(0,5)}],
        (1,1):[{(2,1),(3,1)},{(0,4),(0,5)},{(2,4),(2,5),(3,4),(3,5)}]}


def model_inputs(setup,m):
    return [float(mval(m,setup.V[k])) if is_sym(setup.V[k]) else float(setup.V[k]) for k in NAMES]

def native_run(lib,setup,vin,kids,nb):
    vin=list(vin)
    A=(ctypes.c_double*len(vin))(*vin); I=(ctypes.c_long*3)(nb,*kids); O=(ctypes.c_double*(4*nb))()
    getattr(lib,fname(setup.case))(A,I,O)
    return list(O)

LOGEPS=1e-10
def logrefine(cs,pairs,timeout,rounds=14):
    """solve; while the model's log (asin) values are off, add valid tangent bounds at the model point and repeat"""
    cs=list(cs); pairs=list(pairs)
    for it in range(rounds):
        q,m=solve(cs,timeout)
        if q!='sat' or not pairs: return q,m,cs
        added=False
        for kind,x,l in pairs:
            x0=mval(m,R(x)); l0=float(mval(m,R(l)))
            if kind=='log':
                if x0<=0: continue
                t=math.log(x0)
                if abs(t-l0)<=LOGEPS*(1+abs(t)): continue
                added=True
                xr=F(x0).limit_denominator(10**8)
                if xr<=0: xr=F(x0)
                lo,hi=logbounds(xr)
                cs.append(R(l)<=R(hi)+(R(x)-R(xr))/R(xr))
                cs.append(R(l)*R(x)>=(R(lo)+1)*R(x)-R(xr))
            else:
                if not 0<=x0<=1: continue
                t=math.asin(x0)
                if abs(t-l0)<=1e-9: continue
                added=True
                xr=F(x0).limit_denominator(10**6); xf=float(xr)
                if not 0<=xf<1: continue
                lo,hi=F(math.asin(xf))-F(1,10**13),F(math.asin(xf))+F(1,10**13)
                g=F(1/math.sqrt(1-xf*xf))*(1-F(1,10**12))
                # convex on [0,1]: above its tangents; monotone; chord bound towards 1
                cs.append(z3.Implies(R(x)>=R(xr),R(l)>=R(lo)+(R(x)-R(xr))*R(g)))
                cs.append(z3.Implies(R(x)<=R(xr),R(l)<=R(hi)))
                ch=(F(math.pi/2)-F(math.asin(xf)))/(1-xr)+F(1,10**9) if xr<1 else F(0)
                cs.append(z3.Implies(R(x)>=R(xr),R(l)<=R(hi)+(R(x)-R(xr))*R(ch)))
                if xr>0: cs.append(z3.Implies(R(x)<=R(xr),R(l)<=R(x)*R(hi/xr)+R(F(1,10**12))))
        if not added: return q,m,cs
    return 'unknown',None,cs

def check_case(mod,lib,case,timeout=20000,max_paths=4000,deadline=None,validate=True):
    ex=Exec(mod,max_paths=max_paths,feas_timeout=300,timeout=timeout,deadline=deadline)
    ex.no_eager=True
    su=Setup(ex,case)
    res=su.run(fname(case))
    out=dict(case=repr(case),paths=len(res),branches=ex.branches,steps=ex.steps,violations=[],undecided=[],boundary=[],validated=0,
             unvalidated=0,mismatch=[],outcomes={},assumptions=sorted(ex.assumptions),functions=sorted(ex.functions))
    n1=2 if case.kids[0] else 1; n2=2 if case.kids[1] else 1
    for p in res:
        if p.status=='infeasible': continue
        base=list(p.pc)
        asserts=[e for e in p.events if e[0]=='assert']
        recs=[e[1] for e in p.events if e[0]=='rec']
        what=None; goals=None; kind='other'
        if p.status!='ret':
            what='%s: %s'%(p.status,p.info); goals=[[]]
        elif asserts:
            what=asserts[0][1]; goals=[[]]
        else:
            o=su.outputs(p)
            nz=[k for k in range(su.nb) if not (isinstance(o[k],F) and o[k]==0)]
            if recs:
                kind='split'
                if nz or len(set(recs))!=len(recs) or set(recs) not in COVERS[tuple(case.kids)]:
                    what='recursion does not cover every pair exactly once: %s, accumulated %s'%(recs,nz); goals=[[]]
            elif not nz:
                kind='pruned'
                what='a pair of points inside the range is dropped'
                goals=su.goals(p,None)
            else:
                kind='direct'
                if len(nz)!=1 or o[nz[0]]!=n1*n2:
                    what='one cell pair accumulated into bins %s with counts %s'%(nz,[str(o[k]) for k in nz]); goals=[[]]
                else:
                    k=nz[0]; what='a pair of points is put into bin %d but its separation lies outside that bin'%k
                    goals=su.goals(p,k)
        out['outcomes'][kind]=out['outcomes'].get(kind,0)+1
        for gi,goal in enumerate(goals or []):
            if isinstance(goal,tuple):
                goal,weak=goal
                if any(su.refsolve(base+w,p,min(timeout,3000))[0]=='unsat' for w in weak): continue
            q,m,_=su.refsolve(base+goal,p,timeout)
            if q=='sat':
                rep=su.replay(lib,m)
                if gi==1 and not rep['reproduced']: out['boundary'].append(what)
                else: out['violations'].append(dict(what=what,model=su.describe(m),replay=rep))
                break
            elif q=='unknown': out['undecided'].append('%s (%s)'%(what,'margin' if gi==0 else 'edge'))
        # validation of the encoding: the same inputs through the native build give the same outcome
        if validate and p.status=='ret' and lib is not None and not recs:
            su.extra=[]; q,m,_=su.refsolve(base+su.link(p),p,2000,True)
            if q=='sat':
                vin=model_inputs(su,m); nat=native_run(lib,su,vin,case.kids,su.nb)
                bad=[]
                for i,e in enumerate(su.outputs(p)):
                    ev=float(mval(m,e)) if is_sym(e) else float(e)
                    if abs(ev-nat[i])>1e-6*(1+abs(ev)): bad.append((i,ev,nat[i]))
                if bad and su.nearedge(m): out['unvalidated']+=1
                elif bad: out['mismatch'].append(dict(inputs=dict(zip(NAMES,vin)),diff=bad))
                else: out['validated']+=1
            elif q=='unknown': out['unvalidated']+=1
    return out

EDGE=F(1,10**6)
def _refsolve(self,cs,p,timeout,full=False):
    pairs=[]
    if self.case.B=='Log' or full: pairs+=[('log',x,l) for x,l in list(p.st.logs)+getattr(self,'extra',[])]
    if self.case.M=='Arc': pairs+=[('asin',v[1],v[0]) for k,v in p.st.fn_memo.items() if k[0]=='asin' and v]
    return logrefine(cs,pairs,timeout)
def _link(self,p):
    """ties log r to the logs taken on the path"""
    if self.case.B!='Log': return []
    r=self.r
    lr=z3.Real('log_r')
    return [(r<x)==(lr<l) for x,l in p.st.logs]+[(r==x)==(lr==l) for x,l in p.st.logs]+self.sqlog(p,lr)
def _goals(self,p,k):
    """constraints of a violation, first with a margin at the bin edges, then exactly.
    k is None: the cells were dropped, so no pair may lie inside the range; else all pairs must be in bin k"""
    c=self.case; r=self.r; leaf=tuple(c.kids)==(0,0)
    V=self.V; s1,s2=R(V['s1']),R(V['s2'])
    tol=R(F(0))
    exact=c.slop=='zero' or leaf
    if not exact:
        b=R(V['b']); tol=b+b*b if c.B=='Log' else b
    out=[]
    if c.B=='TwoD':
        dx,dy=self.dx,self.dy
        ux,uy=z3.Real('dxp'),z3.Real('dyp'); rp=z3.Real('rp'); s=s1+s2
        link=[ux==dx,uy==dy,rp==r] if leaf else [(ux-dx)*(ux-dx)+(uy-dy)*(uy-dy)<=s*s,rp>=0,rp*rp==ux*ux+uy*uy]
        self.rp=rp
        M=R(self.maxsep); mn=R(c.minsep)
        for eps in (R(EDGE),R(F(0))):
            t=tol+eps
            if k is None:
                g=[ux<M-t,ux>-M+t,uy<M-t,uy>-M+t,rp>0,rp>=mn+t,rp*rp<2*M*M]
            else:
                i=k%c.n; j=k//c.n; bs=c.binsize
                xl,xh=-M+R(i*bs)-t,-M+R((i+1)*bs)+t; yl,yh=-M+R(j*bs)-t,-M+R((j+1)*bs)+t
                g=[z3.Or(ux<xl,ux>=xh,uy<yl,uy>=yh,rp<mn-t,*([rp<=0] if not isinstance(None,int) and exact else []))]
            # a weaker (implied) goal that is usually unsatisfiable already, and much easier
            ax=[ux-dx<=s,ux-dx>=-s,uy-dy<=s,uy-dy>=-s]; tr=[rp>=0,rp>=r-s,rp<=r+s]
            weak=[] if leaf else [tr+[rp*rp<2*M*M,rp>=mn+t],ax+g[:4]] if k is None else [ax+tr+g]
            out.append((link+g,weak))
        return out
    rp=z3.Real('rp'); self.rp=rp
    if c.M=='Arc':
        s=R(self.arcs[0])+R(self.arcs[1])
        pi=R(F(31415926535898,10**13))
        ext=[rp<=pi]
    else: s=s1+s2; ext=[]
    s=z3.simplify(s)
    lo_=R(c.minsep); hi_=R(self.maxsep)
    if c.B=='Linear':
        link=ext+([rp==r] if leaf else [rp>=r-s,rp<=r+s,rp>=0]); x=rp; xlo=lo_; xhi=hi_
        e=lambda j: R(c.minsep+j*c.binsize)
    else:
        lr=z3.Real('log_r')
        link=ext+self.link(p); x=lr
        xlo=self.l0; xhi=self.lM
        e=lambda j: self.l0+R(j*c.binsize)
        if leaf: link+=[rp==r]; self.extra=[]
        else:
            w=z3.Real('w'); lrp=z3.Real('log_rp'); t=z3.Real('t'); x=lrp
            link+=[t*r==s,t>=0,w>=-t,w<=t,rp==r*(1+w),rp>0,z3.Implies(w>0,lrp>lr),z3.Implies(w<0,lrp<lr),
                z3.Implies(w==0,lrp==lr),z3.Or(w==0,lrp<lr+w),
                z3.Implies(z3.And(w<0,w>=R(F(-68,100))),lrp>lr+w-w*w)]
            self.extra=[(rp,lrp),(r,lr)]
    for eps in (R(EDGE),R(F(0))):
        t=tol+eps
        if k is None:
            g=[x>=xlo+t,x<xhi-t]
            if c.B=='Log': g+=[rp>=lo_,rp<hi_]
        else:
            g=[z3.Or(x<e(k)-t,x>=e(k+1)+t if exact else x>e(k+1)+t)]
        out.append(link+g)
    return out
def _sqlog(self,p,lr):
    out=[]
    r=self.r
    for key,v in p.st.fn_memo.items():
        if key[0]=='log' and v is not None:
            d=z3.simplify(v[1]-r*r,som=True)
            if z3.is_rational_value(d) and d.as_fraction()==0: out.append(v[0]==2*lr)
            d=z3.simplify(v[1]-r,som=True)
            if z3.is_rational_value(d) and d.as_fraction()==0: out.append(v[0]==lr)
    return out
def _describe(self,m):
    d={k:float(mval(m,self.V[k])) for k in NAMES if is_sym(self.V[k])}
    d['r']=float(mval(m,self.r)); d['case']=repr(self.case)
    return d
def _nearedge(self,m):
    c=self.case
    def near(x,y): return abs(x-y)<1e-9*(1+abs(y))
    r=float(mval(m,self.r))
    if c.B=='Log': es=[float(c.minsep)*math.exp(float(c.binsize)*j) for j in range(c.n+1)]
    elif c.B=='Linear': es=[float(c.minsep+j*c.binsize) for j in range(c.n+1)]
    else:
        es=[float(c.minsep)]; g=[float(-self.maxsep+j*c.binsize) for j in range(c.n+1)]
        for v in (self.dx,self.dy):
            x=float(mval(m,v))
            if any(near(x,e) for e in g): return True
    b=self.V['b']; b=float(mval(m,b)) if is_sym(b) else float(b)
    s=sum(float(mval(m,R(self.V['s%d'%i]))) for i in (1,2)); 
    a=self.V['a']; a=float(mval(m,a)) if is_sym(a) else float(a)
    es=es+[e+q for e in es for q in (s,-s)]
    bb=b*r if c.B=='Log' else b
    for l,h in ((s,bb),(s,a*r)):
        if near(l,h) and s>0: return True
    if c.B=='Log' and s>0:
        for j in range(c.n+1):
            d=abs(math.log(r/(float(c.minsep)*math.exp(float(c.binsize)*j))))
            if near(s/r,d+b) or near(s/r,0.5*(float(c.binsize)+b)) or near(s/r+(s/r)**2,d+b): return True
    elif s>0:
        for e in es:
            if near(s,abs(r-e)+b): return True
        if near(s,0.5*(float(c.binsize)+b)): return True
    return any(near(r,e) for e in es)

# ---------------------------------------------------------------- replay on the native build
def allowed(case,maxsep,r2,dx,dy,tol):
    """the set of bins (None = not counted) a pair may legitimately fall in: exact Fractions for r2=r^2, dx, dy"""
    c=case; out=set()
    if c.B=='TwoD':
        M=maxsep; t=tol
        if r2==0: return {None} if t==0 else None
        cand=[]
        for d in (dx,dy):
            f=lambda v: math.floor((v+M)/c.binsize)
            cand.append({f(d-t),f(d+t)} if t else {f(d)})
        r=math.sqrt(r2); mn=float(c.minsep); tf=float(t)
        rin={r2>=c.minsep**2} if t==0 else {r>=mn-tf,r>=mn+tf}
        for i in cand[0]:
            for j in cand[1]:
                for ok in rin:
                    if ok and 0<=i<c.n and 0<=j<c.n: out.add(j*c.n+i)
                    else: out.add(None)
        return out
    r=math.sqrt(r2)
    def binof(x2,x):
        if c.B=='Linear':
            for j in range(c.n):
                if x2>=(c.minsep+j*c.binsize)**2 and x2<(c.minsep+(j+1)*c.binsize)**2: return j
            return None
        if x<float(c.minsep) or x>=float(maxsep): return None
        return min(c.n-1,int((math.log(x)-math.log(float(c.minsep)))/float(c.binsize)))
    tf=float(tol)
    if tol==0 and c.B=='Linear':
        out={binof(r2,r)}
        for j in range(c.n+1):
            e=(c.minsep+j*c.binsize)**2
            if r2!=e and abs(float(r2-e))<1e-9*float(e): out|={j-1 if j>0 else None,j if j<c.n else None}
        return out
    if c.B=='Linear': lo,hi=r-tf-1e-9,r+tf+1e-9
    else: lo,hi=r*math.exp(-tf-1e-9),r*math.exp(tf+1e-9)
    lo=max(lo,0.)
    out={binof(lo*lo,lo),binof(hi*hi,hi),binof(r*r,r)}
    for j in range(c.n+1):
        e=float(c.minsep)+j*float(c.binsize) if c.B=='Linear' else float(c.minsep)*math.exp(j*float(c.binsize))
        if lo<=e<=hi: out|={j-1 if j>0 else None,j if j<c.n else None}
    return out

def rational_near(x,den=64):
    y=F(x).limit_denominator(10**6)
    return y
def _replay(self,lib,m):
    """place real points realising the model, run the native build, compare with the counts by definition"""
    c=self.case
    g=lambda e: mval(m,e) if is_sym(e) else F(e)
    V=self.V
    leaf=tuple(c.kids)==(0,0)
    s1,s2=g(V['s1']),g(V['s2']); s=s1+s2
    b=g(V['b']); tol=F(0) if (c.slop=='zero' or leaf) else (b+b*b if c.B=='Log' else b)
    try: rp=mval(m,self.rp)
    except Exception: rp=g(self.r)
    best=None
    for axis in (0,1):
        vin={k:float(g(V[k])) for k in NAMES}
        if c.M=='Arc':
            if axis: continue
            r=float(g(self.r)); d1,d2=[float(x) for x in self.d]
            t1,t2=[float(g(R(x))) for x in self.arcs]
            dr=float(rp)-r; tt=t1+t2
            e1=-dr*t1/tt if tt else 0.; e2=dr*t2/tt if tt else 0.
            P=lambda th,d: (d*math.cos(th),d*math.sin(th),0.)
            pts1=[P(e1,d1),P(-e1,d1)] if c.kids[0] else [P(0.,d1)]
            pts2=[P(r+e2,d2),P(r-e2,d2)] if c.kids[1] else [P(r,d2)]
            for kk,q in zip('xyz',P(r,d2)): vin[kk+'2']=q
            seps=[]
            for a1 in ([e1,-e1] if c.kids[0] else [0.]):
                for a2 in ([e2,-e2] if c.kids[1] else [0.]):
                    x=abs(r+a2-a1); x=x if x<=math.pi else 2*math.pi-x
                    seps.append((F(x)**2,F(0),F(0)))
        else:
            if c.B=='TwoD':
                if axis and c.M!='Periodic': continue
                dx,dy=g(self.dx),g(self.dy)
                try: ux,uy=mval(m,z3.Real('dxp')),mval(m,z3.Real('dyp'))
                except Exception: ux,uy=dx,dy
                D=(ux-dx,uy-dy,F(0))
                d0=(dx,dy,F(0)); p1=(F(0),F(0),F(0)) if c.M!='Periodic' else (F(1),F(2),F(0))
            else:
                r=g(self.r); dr=rp-r
                u=(F(1),F(0),F(0)) if axis==0 else self.u
                p1=(F(0),)*3 if axis==0 else tuple(g(V[k+'1']) for k in 'xyz')
                D=tuple(x*dr for x in u); d0=tuple(x*r for x in u)
            f1=-s1/s if s else F(0); f2=s2/s if s else F(0)
            shift=(F(0),)*3
            if c.M=='Periodic': shift=(g(V['xp']),-g(V['yp']),g(V['zp']))
            fl=lambda t: tuple(float(x) for x in t)
            add=lambda a,bb,f=1: tuple(x+f*y for x,y in zip(a,bb))
            c1=p1; c2=add(p1,d0)
            pts1=[fl(add(c1,D,f1)),fl(add(c1,D,-f1))] if c.kids[0] else [fl(c1)]
            pts2=[fl(add(add(c2,D,f2),shift)),fl(add(add(c2,D,-f2),shift))] if c.kids[1] else [fl(add(c2,shift))]
            for i,kk in enumerate('xyz'): vin[kk+'1']=float(c1[i]); vin[kk+'2']=float(add(c2,shift)[i])
            seps=[]
            for a1 in pts1:
                for a2 in pts2:
                    d=[F(y)-F(x)-sh for x,y,sh in zip(a1,a2,shift)]
                    seps.append((sum(x*x for x in d),d[0],d[1]))
        q=[0.]*12
        for i,pts in ((0,pts1),(1,pts2)):
            for j,pt in enumerate(pts):
                if c.kids[i]: q[6*i+3*j:6*i+3*j+3]=pt
        for i in range(12): vin['q%d'%i]=float(q[i])
        vin['wc']=1.0; vin['w1']=float(len(pts1)); vin['w2']=float(len(pts2))
        vl=[vin[k] for k in NAMES]
        nat=native_run(lib,self,vl,c.kids,self.nb)
        lo=[0]*self.nb; hi=[0]*self.nb; free=False
        M=F(vin['maxsep'])
        for r2,dx_,dy_ in seps:
            al=allowed(c,M,r2,dx_,dy_,tol if c.M!='Arc' else tol+F(1,10**9))
            if al is None: free=True; continue
            for k in al:
                if k is not None:
                    hi[k]+=1
                    if len(al)==1: lo[k]+=1
        rep=any(nat[k]<lo[k]-1e-9 or nat[k]>hi[k]+1e-9 for k in range(self.nb)) and not free
        best=dict(reproduced=rep,entry=fname(c),inputs=vl,ic=[self.nb]+list(c.kids),npairs=nat[:self.nb],least=lo,most=hi,
                  separations=[math.sqrt(x[0]) for x in seps])
        if rep: break
    return best
for _f in ('refsolve','link','goals','sqlog','describe','nearedge','replay'): setattr(Setup,_f,globals()['_'+_f])
