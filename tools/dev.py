"""dev.py <id> [tier] [substring]: run the python-engine cases of a check in parallel and print the problems"""
import sys,os,time; H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,H+'/lib'); sys.path.insert(1,H+'/checks'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
for v in ('OMP_NUM_THREADS','OPENBLAS_NUM_THREADS'): os.environ.setdefault(v,'1')
import importlib
m=importlib.import_module(sys.argv[1].lower()); tier=sys.argv[2] if len(sys.argv)>2 else 'quick'; sub=sys.argv[3] if len(sys.argv)>3 else ''
import report
class R:
    def __init__(s): s.r=[]
    def merge(s,d): s.r.append(d)
rep=R(); ts=[(m.one,(n,h,a,0)) for n,h,a in m.tasks(tier) if sub in n]
t=time.time(); report.run_cases(rep,ts,limit=int(os.environ.get("LIM","150")))
shown=0
for (_,a),d in zip(ts,rep.r):
    bad=d.get('errors') or d.get('violations') or d.get('undecided') or d.get('vacuous') or d.get('unvalidated')
    if not bad: continue
    shown+=1
    if shown>int(os.environ.get('N','12')): continue
    print('==',a[0],'paths',d.get('paths'),'obl',d.get('obligations'),'%.0fs'%d.get('wall_s',0))
    for e in d.get('errors',[])[:1]: print('  ERR',e[-int(os.environ.get('L','300')):].replace('\n','\n      '))
    for v in d.get('violations',[])[:2]: print('  VIOL',v['what'][:250],v['reproduced'],str(v.get('observed'))[:300])
    for u in d.get('undecided',[])[:2]: print('  UND',u[:200])
    if d.get('vacuous'): print('  VAC',d['vacuous'])
    if d.get('unvalidated'): print('  unvalidated',d['unvalidated'])
print(len(ts),'cases',shown,'with problems; paths',sum(d.get('paths',0) for d in rep.r),'obl',sum(d.get('obligations',0) for d in rep.r),'%.0fs'%(time.time()-t), 'slowest',max((d.get('wall_s',0),a[0]) for (_,a),d in zip(ts,rep.r)))
