"""Two-point counts at zero bin slop are exactly those of the definition."""
import time
import build, llir, pair, auto
from fractions import Fraction as F
from report import run_cases
mod=lib=None
def conv(r):
    r=dict(r); r['obligations']=r['paths']; r['boundary_n']=len(r.get('boundary',()))
    vs=[]
    for v in r['violations']:
        rp=v.get('replay') or {}
        vs.append(dict(what='%s [%s] %s'%(v['what'],r['case'],v.get('model')),reproduced=bool(rp.get('reproduced')),replay=rp,model=v.get('model')))
    r['violations']=vs
    if r.get('mismatch'): r['errors']=['encoding disagrees with the native build: %s'%(str(r['mismatch'][0])[:500])]
    r['samples']=[dict(case=r['case'],outcomes=r['outcomes'])]
    if not r['validated']: r['vacuous']='no path was replayed on the native build'
    return r
def one(c,timeout,deadline):
    return conv(pair.check_case(mod,lib,c,timeout=timeout,deadline=time.time()+deadline))
def onea(args,timeout,deadline):
    r=auto.check_auto(mod,lib,*args,timeout=timeout,deadline=time.time()+deadline)
    return conv(r)
def case(B,M,C,kids,slop,n=3,ms=None,bs=None):
    if M=='Arc': d=(F(1,2),F(1,2)) if B=='Linear' else (F(1,4),F(1,4))
    elif B=='Log': d=(F(3),F(1,4))
    elif B=='Linear': d=(F(5),F(5)) if C=='Flat' else (F(3),F(3))
    else: d=(F(0),F(4))
    return pair.Case(B,M,C,n,d[0] if ms is None else F(ms),d[1] if bs is None else F(bs),kids,slop)
K=((0,0),(1,0),(1,1))
def setup():
    global mod,lib
    ll,so=build.build('pair2'); mod=llir.Module(open(ll).read()); lib=build.native(so)
def run(tier,rep):
    setup()
    q=tier=='quick'
    T=[]; A=[]
    cases=[]
    for k in K:
        cases+=[case('Linear','Euclidean','Flat',k,'zero'),case('Linear','Euclidean','ThreeD',k,'zero'),case('Log','Euclidean','Flat',k,'zero'),case('TwoD','Euclidean','Flat',k,'zero'),
                case('TwoD','Euclidean','Flat',k,'zero',ms=3),
                case('Linear','Arc','Sphere',k,'zero'),case('Linear','Periodic','ThreeD',k,'zero'),case('Log','Periodic','Flat',k,'zero')]
    cases+=[case('Linear','Euclidean','Flat',k,'zero',ms=0) for k in K]
    cases+=[case('Linear','Arc','ThreeD',k,'zero') for k in K[:2]]
    cases+=[case('Linear','Euclidean','Flat',(0,1),'zero'),case('Log','Euclidean','ThreeD',(0,1),'zero')]
    autos=[('Linear','Euclidean','Flat',2,5,5,s) for s in (0,1,2)]+[('Linear','Euclidean','Flat',2,0,5,0),('Linear','Euclidean','ThreeD',2,6,3,0)]+[('TwoD','Euclidean','Flat',2,0,4,s) for s in (0,1,2)]+[('TwoD','Euclidean','Flat',2,3,4,0),('Log','Euclidean','Flat',2,4,F(1,2),1)]
    if not q:
        for k in K: cases+=[case('Log','Arc','Sphere',k,'zero'),case('TwoD','Euclidean','Flat',k,'zero',n=5),case('Linear','Euclidean','Flat',k,'zero',n=6),case('Log','Euclidean','Flat',k,'zero',n=6,bs=F(1,10)),case('Log','Euclidean','ThreeD',k,'zero',n=3,bs=F(1,2))]
        cases+=[case('Linear','Arc','ThreeD',(1,1),'zero')]
        autos+=[('Linear','Euclidean','Flat',4,5,5,0),('Log','Euclidean','Flat',2,4,F(1,2),0),('Log','Euclidean','Flat',2,4,F(1,2),2),('TwoD','Euclidean','Flat',4,0,2,0)]
    d=700
    tasks=[(onea,(a,15000 if q else 60000,d)) for a in autos]+[(one,(c,15000 if q else 60000,d)) for c in cases]
    # longest first
    tasks.sort(key=lambda t: 0 if (len(t[1])>0 and 'Log' in str(t[1][0])) else 1)
    rep.bounds+=['one recursion step on a pair of cells (each a leaf or an inner cell with arbitrary size and children); by induction trees of any depth; recursive calls are assumed to treat their own pairs correctly',
       'auto-correlations: all trees over three points on a line, executed to the end',
       'bins: Linear (min 5, width 5; min 3, width 3; min 0), Log (min 3, bin size 1/4), TwoD (3x3 grid of width 4, min_sep 0 and 3), Arc (min 1/2, width 1/2); separations, sizes, angle slop symbolic',
       'bin slop zero; edges decided to within 1e-6 and, where the solver finds an exactly representable edge case, exactly']
    rep.outside+=['floating-point rounding (exact real arithmetic is used)','Rperp, Rlens, OldRperp and line-of-sight limits (first-order by design)','OpenMP scheduling','more than one pair of top-level cells in a cross-correlation']
    rep.assumptions|={'a cell lies within its size of its centre, and only cells of size 0 have no children (P05)','log and asin are known through monotonicity and tangent bounds refined at every solver model'}
    run_cases(rep,tasks,limit=800)
