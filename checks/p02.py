"""Non-zero bin slop: a pair ends up at most the slop away from its own bin."""
import p01
from p01 import one, case, K
from report import run_cases
def run(tier,rep):
    p01.setup()
    q=tier=='quick'; cases=[]
    for k in K:
        cases+=[case('Linear','Euclidean','Flat',k,'slop'),case('Linear','Periodic','ThreeD',k,'slop'),case('Log','Euclidean','Flat',k,'slop'),
                case('Linear','Arc','Sphere',k,'slop'),case('TwoD','Euclidean','Flat',k,'slop')]
        if not q: cases+=[case('Linear','Arc','ThreeD',k,'slop'),case('Log','Euclidean','ThreeD',k,'slop',bs='1/2'),case('Linear','Euclidean','ThreeD',k,'slop',ms=0),case('TwoD','Euclidean','Flat',k,'slop',ms=3),case('Linear','Euclidean','Flat',k,'slop',n=6),case('Log','Periodic','Flat',k,'slop')]
    d=700
    tasks=[(one,(c,15000 if q else 60000,d)) for c in cases]
    tasks.sort(key=lambda t: 0 if 'TwoD' in str(t[1][0]) else 1 if 'Log' in str(t[1][0]) else 2)
    rep.bounds+=['one recursion step on a pair of cells (leaf or inner, arbitrary size); slop symbolic in (0, bin width] (and at most 1/2 for logarithmic bins)',
       'bins: Linear (min 5, width 5; min 3 width 3), Log (min 3, size 1/4), TwoD 3x3 of width 4, Arc (min 1/2, width 1/2)']
    rep.outside+=['floating-point rounding','Rperp, Rlens, OldRperp and line-of-sight limits','slop larger than one bin']
    rep.assumptions|={'a cell lies within its size of its centre (P05)','logarithmic bins: allowance is b+b^2'}
    run_cases(rep,tasks,limit=800)
