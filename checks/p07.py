"""What one pair of cells adds to the sums, for the 18 kinds of two-point correlations."""
import time, math
import z3
import build, llir, formula, acc
from fractions import Fraction as F
from symx import R, is_sym
from acc import Cx
from report import run_cases
M={}
RAD={0:(2,3),1:(3,1),2:(4,5)}
INT=('HV_FLAT','HV_SPHERE','HV_3D')
def setup():
    h={d:build.start('acc2',(d,)) for d in INT}
    for d in INT:
        ll,so=build.finish(h[d]); M[d]=(llir.Module(open(ll).read()),build.native(so))
def refvals(D1,D2,C,B,n,vin,ic):
    p1,p2=vin[0:3],vin[3:6]; v1=Cx(*vin[6:8]); v2=Cx(*vin[8:10]); w1,w2=vin[10:12]; n1,n2,auto=ic[1:4]
    nb=n*n if B=='TwoD' else n; o=[0.]*(8*nb)
    def add(p1,p2,v1,v2,w1,w2,n1,n2,rev=None):
        if C=='Flat': t1,t2=acc.dirs_flat(p1,p2); dx,dy=p2[0]-p1[0],p2[1]-p1[1]; r=math.hypot(dx,dy)
        else:
            r=math.dist(p1,p2); q1,q2=p1,p2
            if C=='ThreeD':
                q1=[x/math.hypot(*p1) for x in p1]; q2=[x/math.hypot(*p2) for x in p2]
            t1,t2=acc.dirs_sphere(q1,q2)
        if B=='TwoD':
            k=int((dx+vin[13])//vin[14])+n*int((dy+vin[13])//vin[14])
        else: k=int((r-vin[12])//vin[14])
        if not 0<=k<nb: return
        for j,(nm,a,d) in enumerate(acc.products(D1,D2,w1,w2,v1,v2,t1,t2,math.hypot(t1.r,t1.i),math.hypot(t2.r,t2.i))): o[j*nb+k]+=a/d
        for j,x in enumerate((w1*w2*r,w1*w2*math.log(r),w1*w2,n1*n2)): o[(4+j)*nb+k]+=x
    add(p1,p2,v1,v2,w1,w2,n1,n2)
    if auto and B=='TwoD': add(p2,p1,v2,v1,w2,w1,n2,n1)
    nx=len(acc.products(D1,D2,1,1,Cx(1,0),Cx(1,0),Cx(1,0),Cx(1,0),1,1))
    for j in range(nx,4):
        for k in range(nb): o[j*nb+k]=None
    return o
def case(D1,D2,C,B,auto,timeout,deadline,mode=0):
    mod,lib=M[{'Flat':'HV_FLAT','Sphere':'HV_SPHERE','ThreeD':'HV_3D'}[C]]
    n=2; nb=n*n if B=='TwoD' else n
    v=[z3.Real('v%d'%i) for i in range(4)]; w=z3.Reals('w1 w2'); pre=[w[0]!=0,w[1]!=0]
    rho=z3.Real('rho'); user={}; CUT={}
    if C=='Flat':
        x1,y1,dx,dy=z3.Reals('x1 y1 dx dy'); P1=[x1,y1,F(0)]; P2=[x1+dx,y1+dy,F(0)]
        mn,mx,bs=(F(0),F(4),F(4)) if B=='TwoD' else (F(1),F(9),F(4))
        pre+=[dx*dx+dy*dy>0,dx<4,dx>-4,dy<4,dy>-4] if B=='TwoD' else [dx*dx+dy*dy>=1,dx*dx+dy*dy<81]
        t=Cx(dx,dy); T=(t,t)
        A1,B1=z3.Reals('A1 B1'); cuts=[(A1,dx),(B1,dy),(A1*A1+B1*B1,dx*dx+dy*dy)]
        points=[dict(x1=F(a),y1=F(b),dx=F(c),dy=F(d)) for a,b,c,d in ((3,-7,2,1),(F(1,3),2,-1,F(5,2)),(5,1,F(1,2),-3))]
        seeds=[(3,-7,F(3,2),2),(1,2,F(-3,2),2),(1,F(1,3),F(-3,2),-2),(-1,F(1,3),F(3,2),-2),(1,F(5,3),3,4),(1,2,F(3,2),-2)]
        user['seeds']=[[x1==R(F(a)),y1==R(F(b)),dx==R(F(c)),dy==R(F(d))] for a,b,c,d in seeds]
        user['fix']=[a==R(F(b)) for a,b in zip(v+list(w),(F(3,2),F(-2,3),F(5,4),F(1,3),F(2),F(3)))]
        CUT=dict(cuts=cuts,points=points,cutpre=[])
    else:
        # unit vectors (times fixed radii in 3d)
        r1,r2=(1,1) if C=='Sphere' else RAD[mode]
        P1=list(z3.Reals('x1 y1 z1')); P2=list(z3.Reals('x2 y2 z2'))
        pre+=[sum(a*a for a in p)==1 for p in (P1,P2)]
        U1,U2=P1,P2
        T=acc.dirs_sphere(P1,P2)
        cutpre=[sum(a*a for a in p)==1 for p in (P1,P2)]; nm=[str(a) for a in P1+P2]
        P1=[r1*a if r1>1 else a for a in P1]; P2=[r2*a if r2>1 else a for a in P2]
        dsq=sum((a-b)*(a-b) for a,b in zip(P1,P2))
        mn,mx,bs=(F(1,10),F(11,10),F(1,2)) if C=='Sphere' else (F(3,2),F(9,2),F(3,2)); pre+=[dsq>=R(mn*mn),dsq<R(mx*mx)]
        pre+=[U1[2]*U1[2]<1,U2[2]*U2[2]<1]
        okp=lambda s,t: mn<=F(math.dist([r1*a for a in s],[r2*a for a in t]))<mx and s!=t
        pts=[(F(2,3),F(1,3),F(2,3)),(F(2,7),F(3,7),F(6,7)),(F(1,9),F(4,9),F(8,9)),(F(-2,3),F(1,3),F(2,3)),(F(6,7),F(2,7),F(-3,7)),(F(2,7),F(6,7),F(-3,7)),(F(9,11),F(6,11),F(2,11))]
        user['seeds']=[[a==R(q) for a,q in zip(U1,s)]+[a==R(q) for a,q in zip(U2,t)] for s in pts for t in pts if okp(s,t)][:8]
        user['fix']=[a==R(F(b)) for a,b in zip(v+list(w),(F(3,2),F(-2,3),F(5,4),F(1,3),F(2),F(3)))]
        A1,B1,A2,B2,Q=z3.Reals('A1 B1 A2 B2 Q')
        cuts=[(Q,dsq)]
        for a,b,t in ((A1,B1,T[0]),(A2,B2,T[1])):
            m2,N2=a*a+b*b,t.r*t.r+t.i*t.i
            cuts+=[(a,t.r),(b,t.i)]
            z,Z=Cx(a,b),Cx(t.r,t.i); y,Y=z,Z
            for k in (1,2,3): cuts.append((acc.powr(m2,k),acc.powr(N2,k)))
            for k in (2,3,4):
                y,Y=y*z,Y*Z; cuts+=[(y.r,Y.r),(y.i,Y.i)]
        points=[dict(zip(nm,list(s)+list(t))) for s in pts for t in pts if okp(s,t)][::3][:4]
        pre+=[t.r*t.r+t.i*t.i>0 for t in T]
        CUT=dict(cuts=cuts,points=points,cutpre=cutpre)
    V=P1+P2+v+list(w)+[mn,mx,bs]+[F(0)]*3
    ic=[n,2,3,auto]; nout=8*nb
    names=['%s[%d]'%(nm,k) for nm in ('xi0','xi1','xi2','xi3','meanr','meanlogr','weight','npairs') for k in range(nb)]
    def expect(ex,p):
        o=[ex.real(q) for q in p.out]
        if C=='Flat': d1=d2=rho; p.extra+=[rho>0,rho*rho==dx*dx+dy*dy]; r=rho
        else:
            d1,d2=z3.Reals('rho1 rho2'); r=rho
            p.extra+=[d1>0,d1*d1==T[0].r*T[0].r+T[0].i*T[0].i,d2>0,d2*d2==T[1].r*T[1].r+T[1].i*T[1].i,r>0,r*r==dsq]
        g=[]
        # unit vectors along the line at the two points
        E1,E2=Cx(*z3.Reals('e1r e1i')),Cx(*z3.Reals('e2r e2i'))
        if C=='Flat': E2=E1
        p.extra+=[E1.r*d1==T[0].r,E1.i*d1==T[0].i,E2.r*d2==T[1].r,E2.i*d2==T[1].i]
        p.extra+=[E1.r*E1.r+E1.i*E1.i==1,E2.r*E2.r+E2.i*E2.i==1]   # (follows from the above)
        def refenv(vin):
            if C=='Flat': t1=t2=Cx(vin[3]-vin[0],vin[4]-vin[1]); r_=math.hypot(t1.r,t1.i)
            else: t1,t2=acc.dirs_sphere([x/r1 for x in vin[0:3]],[x/r2 for x in vin[3:6]]); r_=math.dist(vin[0:3],vin[3:6])
            n1,n2=math.hypot(t1.r,t1.i),math.hypot(t2.r,t2.i)
            return dict(rho=r_,rho1=n1,rho2=n2,e1r=t1.r/n1,e1i=t1.i/n1,e2r=t2.r/n2,e2i=t2.i/n2)
        p.refenv=refenv; p.qcand=[rho,rho*rho,rho*rho*rho]+([] if C=='Flat' else [acc.powr(d,k) for d in (d1,d2) for k in (1,2,3)])
        for E in (E1,E2):
            for k in (1,2,3,4):
                y=acc.rot(E,k); p.qcand+=[y.r,y.i]
        pr=acc.products(D1,D2,w[0],w[1],Cx(v[0],v[1]),Cx(v[2],v[3]),E1,E2,1,1)
        L=[l for x,l in p.st.logs if is_sym(x)]
        vals=[(j,nm,a,d) for j,(nm,a,d) in enumerate(pr)]
        ww=w[0]*w[1]
        vals+=[(4,'meanr',ww*r,1),(6,'weight',ww,1),(7,'npairs',6,1)]
        # which bin(s): the direct bin k and, for a TwoD auto-correlation, the bin of the reversed pair
        def inb(k,sx=1):
            if B=='TwoD':
                i,j=k%n,k//n; X,Y=sx*dx,sx*dy
                return z3.And(X>=R(-mx+i*bs),X<R(-mx+(i+1)*bs),Y>=R(-mx+j*bs),Y<R(-mx+(j+1)*bs))
            e0,e1=mn+k*bs,mn+(k+1)*bs
            q=dx*dx+dy*dy if C=='Flat' else dsq
            return z3.And(q>=R(e0*e0),q<R(e1*e1))
        for j,nm,a,d in vals:
            for k in range(nb):
                e=z3.If(inb(k),R(a) if not is_sym(a) else a,z3.RealVal(0))
                if auto and B=='TwoD':
                    rv=-a if nm=='xip_im' else a
                    e=e+z3.If(inb(k,-1),R(rv) if not is_sym(rv) else rv,z3.RealVal(0))
                lhs=R(o[j*nb+k])*d if is_sym(d) else R(o[j*nb+k])
                g.append(('%s[%d] is not what the pair contributes'%(nm,k),lhs==e))
        # mean log separation: proportional to the logarithm of the separation
        for k in range(nb):
            x=o[5*nb+k]; lr=[]
            for X,l in p.st.logs:
                lr.append(z3.And(X==r,R(x)==ww*l*(z3.If(inb(k),1,0)+(z3.If(inb(k,-1),1,0) if auto and B=='TwoD' else 0))))
                lr.append(z3.And(X==r*r,2*R(x)==ww*l*(z3.If(inb(k),1,0)+(z3.If(inb(k,-1),1,0) if auto and B=='TwoD' else 0))))
            g.append(('meanlogr[%d] is not the weighted log separation'%k,z3.Or(*lr) if lr else R(x)==0))
        return g
    fname='ac_%s_Euclidean_%s_%s_%s'%(B,C,D1,D2)
    return formula.check(mod,lib,'%s-%s %s %s%s%s'%(D1,D2,B,C,' auto' if auto else '',' radii %d:%d'%(r1,r2) if C=='ThreeD' else ''),fname,V,ic,nout,pre,expect,
        lambda vin,ic: refvals(D1,D2,C,B,n,vin,ic),timeout=timeout,deadline=time.time()+deadline,names=names,user=user,**CUT)
def run(tier,rep):
    setup(); q=tier=='quick'; T=[]; to=10000 if q else 60000
    for D1,D2 in acc.ALL:
        T.append((case,(D1,D2,'Flat','Linear',0,to,600)))
        if D1==D2: T.append((case,(D1,D2,'Flat','TwoD',1,to,600)))
        else: T.append((case,(D1,D2,'Flat','TwoD',0,to,600)))
        if D1==D2: T.append((case,(D1,D2,'Flat','Linear',1,to,600)))
        T.append((case,(D1,D2,'Sphere','Linear',0,to,600)))
        for m in ((0,) if q else (0,1,2)): T.append((case,(D1,D2,'ThreeD','Linear',0,to,600,m)))
        if not q:
            if D1==D2: T.append((case,(D1,D2,'Flat','TwoD',0,to,600)))
            if D1==D2: T.append((case,(D1,D2,'Sphere','Linear',1,to,600)))
    rep.bounds+=['one pair of leaf cells through the real BaseCorr2::process, 18 data-type combinations',
      'Flat: all positions with 1<=r<9 (linear bins) or |dx|,|dy|<4 (two-dimensional bins, cross and auto); Sphere: all pairs of unit vectors not at a pole, not antipodal or identical in projection; ThreeD: all directions at fixed radii '+str([RAD[m] for m in ((0,) if q else (0,1,2))]),
      'symbolic field values (both components) and weights; pair counts 2 x 3; linear bins n=2, two-dimensional bins 2x2',
      'all arithmetic exact over the reals: -ffast-math rounding is outside']
    rep.outside+=['logarithmic bins (same accumulation code, other bin index: covered by P01)','pairs at a pole or exactly antipodal, where the line is not defined','rounding']
    run_cases(rep,T,limit=800 if q else 5000)
