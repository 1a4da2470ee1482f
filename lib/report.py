"""Common driver for every check: tiers, parallel cases, known findings, evidence, exit codes."""
import os, sys, json, time, traceback, multiprocessing as mp
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID=os.path.join(HERE,'evidence')
KNOWN=os.path.join(HERE,'known_findings.jsonl')
class Inconclusive(Exception): pass
def known(prop):
    out=[]
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l=l.strip()
            if l and l.startswith('{'):
                d=json.loads(l)
                if d.get('property')==prop and d.get('status')=='known': out.append(d)
    return out

class Report:
    def __init__(self,prop,tier,technique='symbolic execution + SMT'):
        self.prop=prop; self.tier=tier; self.t0=time.time()
        self.paths=0; self.branches=0; self.steps=0; self.validated=0; self.unvalidated=0
        self.functions=set(); self.assumptions=set(); self.bounds=[]; self.samples=[]
        self.queries=dict(queries=0,sat=0,unsat=0,unknown=0,solver_time_s=0.0,slowest_query_s=0.0)
        self.violations=[]; self.undecided=[]; self.errors=[]; self.cases=[]; self.notes=[]
        self.outside=[]; self.vacuity=[]
        self.obligations=0
    def merge(self,r):
        """r: dict produced by a case"""
        self.paths+=r.get('paths',0); self.branches+=r.get('branches',0); self.steps+=r.get('steps',0)
        self.validated+=r.get('validated',0); self.unvalidated+=r.get('unvalidated',0)
        self.functions|=set(r.get('functions',())); self.assumptions|=set(r.get('assumptions',()))
        for k,v in r.get('stats',{}).items():
            if k=='slowest_query_s': self.queries[k]=max(self.queries[k],v)
            else: self.queries[k]+=v
        self.obligations+=r.get('obligations',0)
        self.cases.append({k:r[k] for k in ('case','paths','obligations','outcomes','validated','boundary_n','wall_s') if k in r})
        for u in r.get('undecided',()): self.undecided.append('%s: %s'%(r.get('case'),u))
        for v in r.get('violations',()): self.violations.append(dict(v,case=r.get('case')))
        for e in r.get('errors',()): self.errors.append('%s: %s'%(r.get('case'),e))
        for s in r.get('samples',())[:3]:
            if len(self.samples)<12: self.samples.append(s)
        if r.get('vacuous'): self.errors.append('%s: vacuous: %s'%(r.get('case'),r['vacuous']))
    def finish(self):
        os.makedirs(EVID,exist_ok=True)
        kn=known(self.prop); real=[]; seen=set()
        for v in self.violations:
            k=next((d for d in kn if d['key']==v.get('key')),None)
            if k is not None:
                if k['key'] not in seen:
                    seen.add(k['key']); print('KNOWN-FINDING: property=%s %s'%(self.prop,k['what']))
            else: real.append(v)
        repro=[v for v in real if v.get('reproduced',True)]
        unrepro=[v for v in real if not v.get('reproduced',True)]
        paths=[]
        for i,v in enumerate(repro[:5]):
            p=os.path.join(EVID,'replay_%s_%d.json'%(self.prop,i)); json.dump(v,open(p,'w'),indent=1,default=str); paths.append(p)
        status=0
        if repro: status=1
        elif unrepro or self.errors: status=2
        elif self.paths==0: status=2; self.errors.append('nothing was explored')
        ev=dict(property=self.prop,tier=self.tier,seed=int(os.environ.get('VERIF_SEED','1') or 1),level='model_checking',
            coverage=dict(states=max(1,self.paths),transitions=max(1,self.branches),traces_validated_against_impl=self.validated,
               samples=self.samples[:8] or [c for c in self.cases[:4]],
               functions_encoded=sorted(self.functions)[:400],functions_encoded_count=len(self.functions),
               bounds=self.bounds,outside_the_bounds=self.outside,obligations=self.obligations,solver=self.queries,
               ir_or_source_steps=self.steps,cases=self.cases,undecided=self.undecided,vacuity_checks=self.vacuity,
               unvalidated_paths=self.unvalidated,errors=self.errors,notes=self.notes,violation_replays=[dict(what=v.get('what'),replay=p) for v,p in zip(repro,paths)],
               meaning='states = symbolic paths explored to the end; transitions = solver-decided branch decisions; '
                       'traces_validated = solver models replayed on the natively compiled / plain CPython code with equal results'),
            assumptions=sorted(self.assumptions) or ['none'],violations=len(repro),
            wall_s=round(time.time()-self.t0,2))
        self.queries['solver_time_s']=round(self.queries['solver_time_s'],2)
        json.dump(ev,open(os.path.join(EVID,self.prop+'.json'),'w'),indent=1,default=str)
        for e in self.errors[:5]: print('check error:',str(e)[:600],file=sys.stderr)
        for v in unrepro[:3]: print('counterexample did not reproduce on the real code:',str(v)[:800],file=sys.stderr)
        for u in self.undecided[:5]: print('undecided:',u[:300],file=sys.stderr)
        for v,p in zip(repro,paths): print('%s'%str(v.get('what'))[:400]); print('VIOLATION property=%s replay=%s'%(self.prop,p))
        print('%s %s: %d paths, %d obligations, %d queries, %.1fs solver, %d replays agree, %d undecided, %d violations, %.1fs'%(self.prop,self.tier,self.paths,
            self.obligations,self.queries['queries'],self.queries['solver_time_s'],self.validated,len(self.undecided),len(repro),time.time()-self.t0))
        return status

def _worker(fn,args,q,idx):
    import symx, resource
    try:
        resource.setrlimit(resource.RLIMIT_AS,(8<<30,8<<30))
        symx.STATS.__init__()
        t=time.time()
        r=fn(*args)
        s=symx.STATS.dict()
        if 'stats' not in r: r['stats']=s
        r['wall_s']=round(time.time()-t,1)
    except MemoryError: r=dict(case=str(args)[:200],undecided=['memory limit'],stats=symx.STATS.dict())
    except Exception as e:
        import build
        r=dict(case=str(args)[:200],errors=['%s: %s'%(type(e).__name__,traceback.format_exc()[-1500:])],stats=symx.STATS.dict())
        if 'out of memory' in str(e) or 'Memory' in type(e).__name__: r['undecided']=['memory limit']; del r['errors']
    q.send((idx,r)); q.close()

def run_cases(rep,tasks,limit=780,workers=None,per_task=None):
    """tasks: list of (fn,args); each returns a dict for merge().  Every task runs in its own forked process."""
    ctx=mp.get_context('fork'); workers=workers or min(8,os.cpu_count() or 8)
    start=time.time(); pend=list(enumerate(tasks)); run={}; done={}
    while pend or run:
        while pend and len(run)<workers:
            i,(fn,args)=pend.pop(0); a,b=ctx.Pipe(False)
            p=ctx.Process(target=_worker,args=(fn,args,b,i)); p.start(); b.close(); run[i]=(p,a,time.time())
        mp.connection.wait([c for _,c,_ in run.values()],timeout=1.0)
        for i in list(run):
            p,c,t=run[i]
            if c.poll():
                try: done[i]=c.recv()[1]
                except EOFError: done[i]=dict(case=str(tasks[i][1])[:200],undecided=['worker ended (memory)'])
                p.join(); del run[i]
            elif not p.is_alive():
                done[i]=dict(case=str(tasks[i][1])[:200],undecided=['worker ended (memory)']); del run[i]
            elif time.time()-start>limit or (per_task and time.time()-t>per_task):
                p.kill(); p.join(); del run[i]
                done[i]=dict(case=str(tasks[i][1])[:200],undecided=['time limit'])
        if time.time()-start>limit:
            for i,(fn,args) in pend: done[i]=dict(case=str(args)[:200],undecided=['not started: time limit'])
            pend=[]
    for i in sorted(done): rep.merge(done[i])
    return [done[i] for i in sorted(done)]
