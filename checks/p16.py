"""P16: processing in patches counts every pair and triple exactly once, whatever the schedule"""
import numpy as np, itertools
import corrs, report
from pysym import Engine
class Fld:
    def __init__(self,cat): self.data=cat; self.nTopLevelNodes=1
class Cat:
    """a catalog (one patch): identity, weight and position; the objects themselves are behind the stand-in for the compiled code"""
    name=''; coords='flat'; loaded=True; z=None; ra=None; file_name=None
    def __init__(self,eng,side,i,npatch,single=True,num=None,pos=None):
        self.id=(side,i); self.npatch=npatch; self._single_patch=(i if num is None else num) if single else None
        self._w=eng.pos('w%s%d'%(side,i)); self.unloads=0
        self._p=float(i) if pos is None else pos
        self.x=np.array([self._p]); self.y=np.array([0.])
    @property
    def parts(self): return [self]
    @property
    def sumw(self): return self._w
    def get_patches(self,low_mem=False): return [self]
    def unload(self): self.unloads+=1
    def load(self): pass
    def _get_center_size(self): return (self._p,0.,0.,0.)
    def __getattr__(self,k):
        if k.startswith('get') and k.endswith('Field'): return lambda **kw: Fld(self)
        raise AttributeError(k)
class Whole(Cat):
    """a catalog that has patches"""
    def __init__(self,parts): self.parts_=parts; self.npatch=len(parts)
    def get_patches(self,low_mem=False): return list(self.parts_)
class Comb:
    name=''; coords='flat'
    def __init__(self,parts): self.parts=parts; self._sumw=None; self.npatch=1; self._single_patch=None
    @property
    def sumw(self): return self._sumw
    def unload(self): pass
    def _get_center_size(self): return self.parts[0]._get_center_size()
    def __getattr__(self,k):
        if k.startswith('get') and k.endswith('Field'): return lambda **kw: Fld(self)
        raise AttributeError(k)
class FakeCatalog:
    @staticmethod
    def combine(cats,mask_list=None,low_mem=False):
        return Comb([c for c,m in zip(cats,mask_list) if len(np.atleast_1d(m[0]))])
AR2=['_xi1','_xi2','_xi3','_xi4','meanr','meanlogr','weight','npairs']
class World:
    """what each job of the compiled code contributes: unknown numbers, one set per pair (triple) of patches, possibly zero"""
    def __init__(self,eng,three,flags,near=None): self.eng=eng; self.c={}; self.three=three; self.flags=flags; self.z={}; self.near=near; self.calls=[]
    def zero(self,key):
        if self.near is not None and not self.near(key): return True
        if not self.flags(key): return False
        if key not in self.z: self.z[key]=self.eng.bool('zero'+str(key))
        return self.z[key]
    def contrib(self,key,c):
        """the (unknown) sums of one job"""
        if self.zero(key): return None
        if key not in self.c:
            d={}
            nm=''.join(ch for ch in str(key) if ch.isalnum())
            for a in arrs(self.three,c):
                x=getattr(c,a,None)
                if isinstance(x,np.ndarray) and x.size: d[a]=self.eng.arr(nm+a,x.shape,'pos' if a in('npairs','ntri') else None)
            self.c[key]=d
        return self.c[key]
    def add(self,key,c):
        self.calls.append(key)
        d=self.contrib(key,c)
        if d is not None:
            for a,v in d.items():
                x=getattr(c,a); x[...]=x+v
class FakeCorr:
    def __init__(self,w,c): self.w=w; self.c=c
    # two-point
    def processAuto(self,f,dots,metric):
        if self.w.three: self.w.add(('A',f.id),self.c)
        else: self.w.add(('A',f.id),self.c)
    def processCross(self,*a):
        if self.w.three:
            f1,f2,f3,o=a[:4]
            for p in f1.parts:
                for q in f2.parts:
                    for r in f3.parts: self.w.add(key3(p.id,q.id,r.id,o),self.c)
        else:
            for p in a[0].parts:
                for q in a[1].parts: self.w.add(('C',p.id,q.id),self.c)
    def processCross12(self,f1,f2,o,dots,metric):
        for p in f1.parts:
            n=f2.parts
            for i in range(len(n)):
                for j in range(i,len(n)): self.w.add(key12(p.id,n[i].id,n[j].id,o),self.c)
    def triviallyZero(self,*a): raise RuntimeError
def key3(a,b,c,o):
    if o==1: return ('1',a)+tuple(sorted((b,c)))
    if o==0: return ('0',)+tuple(sorted((a,b,c)))
    return ('3',a,b,c)
def key12(a,b,c,o): return ('1' if o else '0',)+((a,)+tuple(sorted((b,c))) if o else tuple(sorted((a,b,c))))
def install(w,eng,three,triv):
    import treecorr, treecorr.corr2base as b2, treecorr.corr3base as b3
    base=b3.Corr3 if three else b2.Corr2
    base.corr=property(lambda self: FakeCorr(w,self))
    def tz(self,c1,c2,c3=None):
        """far apart: only ever said of jobs that contribute nothing"""
        if not triv: return False
        if three:
            ks=[]
            if c2 is c3:
                for o in (0,1):
                    ks+=[key12(p.id,q.id,q.id,o) for p in c1.parts for q in c2.parts]
            else: ks=[key3(p.id,q.id,r.id,o) for o in (0,1,3) for p in c1.parts for q in c2.parts for r in c3.parts]
            ks=[k for k in ks if k in w.want]
        else: ks=[('C',p.id,q.id) for p in c1.parts for q in c2.parts]
        return bool(ks) and all(w.zero(k) for k in ks) and eng.bool('far'+str(ks[0]))
    base._trivially_zero=tz
    b2.Catalog=FakeCatalog
    if hasattr(b3,'Catalog'): b3.Catalog=FakeCatalog
class Comm:
    """message passing between simulated ranks: objects travel through their pickled state"""
    def __init__(self,rank,size,box): self.rank=rank; self.size=size; self.box=box
    def Get_rank(self): return self.rank
    def Get_size(self): return self.size
    def send(self,obj,dest): assert dest==0; self.box[self.rank]=clone(obj)
    def recv(self,source): return self.box.pop(source)
def clone(o):
    """what arrives after pickling: the state, with its own arrays and its own copies of nested objects"""
    def cp(v):
        if isinstance(v,np.ndarray): return v.copy()
        if isinstance(v,dict): return {k:cp(x) for k,x in v.items()}
        if isinstance(v,list): return [cp(x) if not isinstance(x,Cat) else x for x in v]
        if hasattr(v,'__getstate__') and hasattr(v,'results'): return clone(v)
        return v
    n=o.__class__.__new__(o.__class__); n.__setstate__({k:(cp(v) if k!='config' else v) for k,v in o.__getstate__().items()}); return n
def arrs(three,c=None):
    if not three: return AR2
    return [a for a in corrs.ARR3 if not (a=='meanv' and c.bin_type!='LogRUV') and not (a=='weighti' and c.bin_type!='LogMultipole')]
def vals(c,a): return list(np.asarray(getattr(c,a)).ravel())
def expect(eng,w,c,three,jobs,tot,name):
    """jobs: {results key: [contribution keys]}, tot: {results key: number of possible pairs} or None"""
    for a in arrs(three,c):
        x=getattr(c,a,None)
        if not isinstance(x,np.ndarray) or not x.size: continue
        n=x.size; S=[0.]*n; R={}
        for k,ks in jobs.items():
            s=[0.]*n
            for q in ks:
                d=w.contrib(q,c)
                if d is not None: s=[u+v for u,v in zip(s,np.asarray(d[a]).ravel())]
            R[k]=s; S=[u+v for u,v in zip(S,s)]
        eng.eq('%s: sum over all jobs, %s'%(name,a),vals(c,a),S,key='total')
        for k,s in R.items():
            if k in c.results: eng.eq('%s: result %s, %s'%(name,k,a),vals(c.results[k],a),s,key='result')
            else: eng.eq('%s: missing result %s, %s'%(name,k,a),s,[0.]*n,key='missing')
        for k in c.results:
            if k not in R: eng.check('%s: unexpected result %s'%(name,k),False,key='extra')
    if tot is not None:
        eng.eq(name+': number of possible pairs',[c.tot],[sum(tot.values())],key='tot')
        for k,t in tot.items():
            eng.check('%s: results has %s'%(name,k),k in c.results,key='tot')
            if k in c.results: eng.eq('%s: tot of %s'%(name,k),[c.results[k].tot],[t],key='tot')
NBR=1.5
def build(k):
    three=k[:3] in ('NNN','KKK','GGG')
    if not three: return False,corrs.new(k,nbins=1,max_sep=NBR)
    kk,bt=k.split(':'); return True,corrs.new3(kk,bt=bt,max_sep=NBR)
def jobs2(A,Bs,local,num=lambda c:c._single_patch if c._single_patch is not None else c.id[1]):
    """two-point: the jobs that make up the whole, by results key"""
    J={};T={}
    def put(k,q,t): J.setdefault(k,[]).append(q); T[k]=T.get(k,0.)+t
    if Bs is None: A=sorted(A,key=lambda c:(num(c),c.id[1]))
    if local:
        for a in A:
            for b in (Bs if Bs is not None else A): put((num(a),num(a)),('C',a.id,b.id),a.sumw*b.sumw)
    elif Bs is None:
        for x,a in enumerate(A):
            put((num(a),num(a)),('A',a.id),a.sumw*a.sumw*0.5)
            for b in A[x+1:]: put((num(a),num(b)),('C',a.id,b.id),a.sumw*b.sumw)
    else:
        for a in A:
            for b in Bs: put((num(a),num(b)),('C',a.id,b.id),a.sumw*b.sumw)
    return J,T
def jobs3(A,B,C,local,ordered):
    J={};T={}
    n=lambda c:c._single_patch if c._single_patch is not None else c.id[1]
    def put(k,q,t): J.setdefault(k,[]).append(q); T[k]=T.get(k,0.)+t
    W=lambda L: sum(x.sumw for x in L)
    if not local:
        if B is None: A=sorted(A,key=lambda c:(n(c),c.id[1]))
        elif C is None: B=sorted(B,key=lambda c:(n(c),c.id[1]))
    if local:
        def prim(P,Q,R):
            for p in P:
                k=(n(p),)*3
                if Q is R:
                    for i in range(len(Q)):
                        for j in range(i,len(Q)): put(k,key12(p.id,Q[i].id,Q[j].id,1),0.)
                    T[k]=T[k]+p.sumw*W(Q)*W(Q)*0.5
                else:
                    for q in Q:
                        for r in R: put(k,key3(p.id,q.id,r.id,1),0.)
                    T[k]=T[k]+p.sumw*W(Q)*W(R)
        if B is None: prim(A,A,A)
        elif C is None:
            prim(A,B,B)
            if not ordered: prim(B,A,B)
        elif ordered is True:
            for p in A:
                for q in B:
                    for r in C: put((n(p),)*3,key3(p.id,q.id,r.id,3),0.)
                T[(n(p),)*3]+=p.sumw*W(B)*W(C)
        else:
            prim(A,B,C)
            if not ordered: prim(B,A,C); prim(C,A,B)
        return J,T
    if B is None:
        m=len(A)
        for i in range(m):
            for j in range(i,m):
                for l in range(j,m):
                    a,b,c=A[i],A[j],A[l]; key=(n(a),n(b),n(c))
                    if i==j==l: put(key,('A',a.id),a.sumw*a.sumw*a.sumw*(1./6.))
                    else:
                        t=a.sumw*b.sumw*c.sumw
                        put(key,key3(a.id,b.id,c.id,0),t*0.5 if i==j or j==l else t)
    elif C is None:
        o=1 if ordered else 0
        for a in A:
            for j in range(len(B)):
                for l in range(j,len(B)):
                    b,c=B[j],B[l]; t=a.sumw*b.sumw*c.sumw
                    put((n(a),n(b),n(c)),key3(a.id,b.id,c.id,o),t*0.5 if j==l else t)
    else:
        o=3 if ordered is True else 1 if ordered==1 else 0
        for a in A:
            for b in B:
                for c in C: put((n(a),n(b),n(c)),key3(a.id,b.id,c.id,o),a.sumw*b.sumw*c.sumw)
    return J,T
def flagset(which,jobs):
    ks=[q for v in jobs.values() for q in v]
    if which=='all': return lambda k: True
    if which=='none': return lambda k: False
    s=set(x for i,x in enumerate(ks) if i%3==which); return lambda k: k in s
def side(eng,s,shape,single=True,num=None):
    if shape==1: return [Cat(eng,s,0,1,single=False)]
    return [Cat(eng,s,i,shape,single=single,num=None if num is None else num[i]) for i in range(shape)]
def hide(e):
    return e
def run_(eng,c,cats,kw,ranks,mk):
    """one call of process, on one process or on several simulated ranks"""
    if ranks is None: c.process(*cats,finalize=False,**kw); return c
    box={}
    objs=[c]+[mk() for _ in range(ranks-1)]
    for r in range(ranks-1,-1,-1): objs[r].process(*cats,finalize=False,comm=Comm(r,ranks,box),**kw)
    return c
def h(eng,k,shapes,mode,ranks,flags,low_mem,ordered=True,single=True,wrap=False,num=None):
    """one call"""
    three,c=build(k); local=mode=='local'
    sides=[side(eng,'abc'[i],s,single,num) for i,s in enumerate(shapes)]
    S=sides+[None]*(3-len(sides))
    J,T=jobs3(S[0],S[1],S[2],local,ordered) if three else jobs2(S[0],S[1],local)
    near=None
    if local:
        def near(key):
            ps=[x[1] for x in key[1:]]
            return all(abs(ps[0]-p)<NBR for p in ps[1:]) if key[0]!='3' else all(abs(ps[0]-p)<NBR for p in ps[1:])
    w=World(eng,three,flagset(flags,J),near); w.want=set(q for v in J.values() for q in v)
    install(w,eng,three,True)
    kw=dict(low_mem=low_mem,patch_method=mode)
    if three: kw['ordered']=ordered; kw['algo']='triangle' if not k.endswith('Multipole') else 'multipole'
    single_job=all(len(s)==1 for s in sides)
    cats=[Whole(s) if wrap and len(s)>1 else s if len(s)>1 or not wrap else s[0] for s in sides]
    run_(eng,c,cats,kw,ranks,lambda: build(k)[1])
    if single_job:
        J={None:[q for v in J.values() for q in v]}
    nn=k[:2]=='NN' and (not three or k[:3]=='NNN')
    if single_job:
        key=list(J)[0]; ks=J.pop(key)
        for a in arrs(three,c):
            x=getattr(c,a,None)
            if not isinstance(x,np.ndarray) or not x.size: continue
            d=w.contrib(ks[0],c); eng.eq('single job %s'%a,vals(c,a),[0.]*x.size if d is None else list(np.asarray(d[a]).ravel()),key='total')
        if nn: eng.eq('tot',[c.tot],[sum(T.values())],key='tot')
        eng.check('no results',len(c.results)==0); return
    expect(eng,w,c,three,J,T if nn else None,mode)
def h_two(eng,k,shapes,mode,ranks,flags,ordered=True):
    """two calls on different data: the second keeps what the first accumulated; then a fresh start"""
    three,c=build(k); local=mode=='local'
    J={};T={};alls=[]
    for call in range(2):
        sides=[side(eng,'abc'[i]+str(call),s) for i,s in enumerate(shapes)]
        S=sides+[None]*(3-len(sides))
        j,t=jobs3(S[0],S[1],S[2],local,ordered) if three else jobs2(S[0],S[1],local)
        for q in j: J[q]=J.get(q,[])+j[q]; T[q]=T.get(q,0.)+t[q]
        alls.append(sides)
    near=(lambda key: all(abs(key[1][1]-x[1])<NBR for x in key[2:])) if local else None
    w=World(eng,three,flagset(flags,J),near); w.want=set(q for v in J.values() for q in v)
    install(w,eng,three,True)
    kw=dict(patch_method=mode)
    if three: kw['ordered']=ordered; kw['algo']='triangle' if not k.endswith('Multipole') else 'multipole'
    nn=k[:2]=='NN' and (not three or k[:3]=='NNN')
    objs=[c]+[build(k)[1] for _ in range((ranks or 1)-1)]
    for rnd in range(2):
        for call,sides in enumerate(alls):
            box={}
            for r in range((ranks or 1)-1,-1,-1):
                objs[r].process(*sides,finalize=False,initialize=call==0,comm=Comm(r,ranks,box) if ranks else None,**kw)
        expect(eng,w,c,three,J,T if nn else None,'round %d'%rnd)
# ------------------------------------------------------------- which objects and patches may be left out
class Patch:
    """a patch known by its centre c and size s, with one object at a distance of at most s from the centre"""
    name=''; loaded=True; sumw=1.
    def __init__(self,eng,nm,c,o,s):
        self.eng=eng; self.c=c; self.o=o; self.s=s; self.dim=len(c)
        self.x=self.col(0); self.y=self.col(1); self.z=self.col(2) if self.dim==3 else None
    def col(self,i):
        a=np.empty(1,dtype=object if self.eng.vals is None else float); a[0]=self.o[i]
        from pysym import SA
        return a.view(SA) if self.eng.vals is None else a
    def _get_center_size(self): return (self.c[0],self.c[1],self.c[2] if self.dim==3 else 0,self.s)
    def unload(self): pass
    def load(self): pass
def sub(a,b): return [x-y for x,y in zip(a,b)]
def add_(a,b): return [x+y for x,y in zip(a,b)]
def sq(a): return sum(x*x for x in a)
DIRS={2:[(1.,0.),(0.6,0.8),(-0.8,0.6),(0.,-1.)],3:[(1.,0.,0.),(2/3.,2/3.,1/3.),(-1/3.,2/3.,-2/3.),(0.,0.,-1.)]}
class Got(Exception): pass
def expand_case(eng,geom,three):
    import treecorr.corr2base as b2
    mx=2.
    P=(0,0,0)
    if geom in('TwoD','Flat','Periodic'): dim=2
    else: dim=3
    kw=dict(min_sep=1.,max_sep=mx,nbins=2)
    if geom=='TwoD': kw=dict(max_sep=mx,nbins=2,bin_type='TwoD',min_sep=0.)
    if geom=='Periodic': P=(11.,13.); kw.update(xperiod=P[0],yperiod=P[1])
    c=corrs.new3('KKK',bt='LogSAS',**{k:v for k,v in kw.items() if k!='bin_type'}) if three else corrs.new('KK',**kw)
    cs='flat' if dim==2 else '3d'
    a=[cs]*(3 if three else 2)
    c._set_metric('Periodic' if geom=='Periodic' else 'Euclidean',*a)
    return c,mx,P,dim
def h_expand(eng,geom,three,d1,d2,line=False):
    """an object closer than the largest separation to an object of the patch is always in the expanded patch"""
    import treecorr.corr2base as b2
    c,mx,P,dim=expand_case(eng,geom,three)
    cen=[eng.var('c'+'xyz'[i],0,P[i]) if P[i] else 0. for i in range(dim)]
    s1=eng.var('s1',0); s2=eng.var('s2',0); lo=None if line else 0; a=eng.var('a',lo); b=eng.var('b',lo); eng.assume(abs(a)<=s1); eng.assume(abs(b)<=s2)
    t=[eng.var('t'+'xyz'[i]) for i in range(dim)]
    if line: cen[1]=5.; t[1]=0.
    if geom=='TwoD': eng.assume(abs(t[0])<mx); eng.assume(abs(t[1])<mx)
    else: eng.assume(sq(t)<mx*mx)
    o1=[x+a*u for x,u in zip(cen,DIRS[dim][d1])]; o2=add_(o1,t); c2=[x-b*u for x,u in zip(o2,DIRS[dim][d2])]
    if geom=='Periodic':
        k=[eng.int('k%d'%i,-1,1) if i==0 or not line else 0 for i in range(dim)]; o2=[x+p*j for x,p,j in zip(o2,P,k)]; c2=[x+p*j for x,p,j in zip(c2,P,k)]
        for i in range(dim):
            for x in (o1[i],o2[i],c2[i]): eng.assume(x>=0); eng.assume(x<=P[i])
    A=Patch(eng,'a',cen,o1,s1); B_=Patch(eng,'b',c2,o2,s2)
    got={}
    class F:
        @staticmethod
        def combine(cats,mask_list=None,low_mem=False):
            got['n']=sum(len(np.atleast_1d(m[0])) for p,m in zip(cats,mask_list or [])  if p is B_); raise Got
    b2.Catalog=F
    far=[x+1000. for x in cen]; Z=Patch(eng,'f',far,far,0.)   # listed first: never close
    try: r=c._make_expanded_patch(A,[Z,B_],None,False); eng.check('not skipped',r is not None)
    except Got: eng.check('the close object is in the expanded patch',got['n']==1)
def h_triv3(eng,geom,bt,dirs,dim=2):
    """three patches are only skipped if no triangle of their objects can have its two shorter sides below the largest separation"""
    per=geom=='Periodic'
    kw=dict(min_sep=1.,max_sep=3.)
    c=corrs.new3('NNN',bt,**kw)
    c._coords=c._coords if hasattr(c,'_coords') else None
    P=[0]*3
    if per:
        c.metric='Periodic'
        for i in range(dim): setattr(c._ro,'xyz'[i]+'period',20.); P[i]=20.
    else: c.metric='Euclidean'
    import treecorr._treecorr as tc
    c._coords=tc.Flat
    U=[(1.,0.,0.),(0.6,0.8,0.),(-1.,0.,0.),(0.,-1.,0.)]
    cen=[eng.var('c'+'xyz'[i],0,P[i]) if P[i] else 0. for i in range(dim)]+[0.]*(3-dim)
    t=[eng.var('t'+'xyz'[i]) for i in range(dim)]+[0.]*(3-dim); v=[eng.var('v'+'xyz'[i]) for i in range(dim)]+[0.]*(3-dim)
    eng.assume(sq(t)<=9.); eng.assume(sq(v)<=9.)
    o1=None; Ps=[]
    for j,off in enumerate((None,t,v)):
        s=(0.5,1.,0.25)[j] if per else eng.var('s%d'%j,0); a=eng.var('a%d'%j,None if dim==1 else 0); eng.assume(abs(a)<=s)
        if j==0: o1=[x+a*u for x,u in zip(cen,U[dirs[0]])]; ce=cen
        else: ce=[x+y-a*u for x,y,u in zip(o1,off,U[dirs[j]])]
        if per and j:
            ce=[x+(P[i]*eng.int('k%d%d'%(j,i),-1,1) if P[i] else 0.) for i,x in enumerate(ce)]
        Ps.append((ce,s))
    class K:
        def __init__(s,p): s.p=p
        def _get_center_size(s): return tuple(s.p[0])+(s.p[1],)
    z=c._trivially_zero(*[K(p) for p in Ps])
    eng.check('patches with a triangle in range are not skipped',~z if hasattr(z,'e') else not z)
def h_center(eng,coords,n):
    """the size of a patch reaches every object, and its centre lies where the objects can lie"""
    import treecorr
    c=treecorr.Catalog.__new__(treecorr.Catalog)
    nd={'flat':2,'3d':3,'spherical':3}[coords]
    for i in range(3): setattr(c,'_'+'xyz'[i],None)
    X=[eng.arr('p'+'xyz'[i],n) for i in range(nd)]
    for i in range(nd): setattr(c,'_'+'xyz'[i],X[i])
    c._ra=c._dec=c._r=None; c._name='stand-in'; c._config={}; c._file_name=None; c.file_type=None
    if coords=='spherical':
        if n>1:
            # the first object is a symbolic point of the equator, the others are fixed
            F=[(0.6,0.8,0.),(0.,0.6,0.8)]
            X[2][0]=0.*X[2][0]
            for i in range(1,n):
                for k in range(3): X[k][i]=F[i-1][k]
        c._ra=X[0]; c._dec=X[1]
        for i in range(n if n==1 else 1): eng.assume(X[0][i]*X[0][i]+X[1][i]*X[1][i]+X[2][i]*X[2][i]==1.)
        eng.assume(abs(sum(X[0][i] for i in range(n)))>=0.01)
    r=c._get_center_size(); cen=r[:3]; s=r[3]
    for i in range(n):
        d=0.
        for k in range(nd): d=d+(X[k][i]-cen[k])**2
        eng.check('object %d lies within the size of its patch'%i,d<=s*s*(1.+1e-9)+1e-12)
    eng.check('the size is not negative',s>=0)
    if coords=='spherical': eng.eq('the centre of a patch on the sphere lies on the sphere',cen[0]*cen[0]+cen[1]*cen[1]+cen[2]*cen[2],1.)
    r2=c._get_center_size(); eng.check('same answer again',all(a is b for a,b in zip(r,r2)))
MOD=None; YES={}
def setup():
    global MOD
    import build,llir
    if MOD is None: ll,so=build.build('triv2'); MOD=llir.Module(open(ll).read()),build.native(so)
def triv(nm,f,a,lim):
    """the compiled skip test of patch pairs: true only when no object within s1 of the first centre and s2 of the second can be within range"""
    import z3,time,math,build,llir,formula
    from fractions import Fraction as F
    B,M,C=a
    setup(); mod,lib=MOD
    d=3 if C=='ThreeD' else 2
    x=[z3.Real('x%d'%i) for i in range(d)]; y=[F(3),F(2),F(22)][:d]; s1=z3.Real('s1'); s2=z3.Real('s2')
    per=[F(17),F(19),F(23)][:d] if M=='Periodic' else []
    mx=F(8); pad=[F(0)]*(3-d)
    V=x+pad+[s1]+y+pad+[s2]+[F(0) if B=='TwoD' else F(2),mx,F(1,2),F(0),F(0),F(-10**9),F(10**9)]+(per+[F(0)]*(3-len(per)))
    pre=[s1>=0,s2>=0]+[c for v,p in zip(x,per) for c in (v>=0,v<=p)]
    r=z3.Real('r')
    def d2sym(): 
        t=0
        for i in range(d):
            u=x[i]-y[i]; u=z3.If(u>=0,u,-u)
            if per: w=z3.RealVal(int(per[i]))-u; u=z3.If(u<=w,u,w)
            t=t+u*u
        return t
    def expect(ex,p):
        o=ex.real(p.out[0]); YES[nm]=YES.get(nm) or hasattr(o,'sexpr') or o!=0
        p.extra+=[r>=0,r*r==d2sym()]
        g=r-s1-s2  # shortest possible distance of two objects
        # a square grid reaches sqrt(2) times as far in the diagonal
        near=g<z3.RealVal('11.3136' if B=='TwoD' else '7.9999')
        return [('the answer is yes or no',z3.Or(o==0,o==1)),('patch pairs with objects in range are not skipped',z3.Implies(near,o==0))]
    def ref(vin,ic):
        X=vin[:d]; s1_,Y,s2_=vin[3],vin[4:4+d],vin[7]; t=0
        for i in range(d):
            u=abs(X[i]-Y[i])
            if per: u=min(u,float(per[i])-u)
            t+=u*u
        g=math.sqrt(t)-s1_-s2_
        return [0. if g<=0 or g*g<(128 if B=='TwoD' else 64)-1e-4 else None]
    R=formula.check(mod,lib,nm,'ht_%s_%s_%s'%(B,M,C),V,[],1,pre,expect,ref,timeout=30000,deadline=time.time()+400)
    if not R['violations'] and not YES.get(nm): R['vacuous']='no patch pair was ever skipped'
    return R
def one(nm,f,a,lim):
    if f is None: return triv(nm,f,a,lim)
    return Engine(nm,max_paths=3000).run(lambda eng: f(eng,*a),corrs.MODS)
QEXP={'Flat':[(0,0),(2,2)],'TwoD':[(0,0)],'3d':[(0,0)],'Periodic':[]}
def tasks(tier):
    T=[]; th=tier=='thorough'
    ks2=corrs.TWO if th else ['NN','KK','NG','GG','NK']
    def add(k,sh,mode,ranks,fl,lm=False,o=True,single=True,wrap=False,num=None):
        T.append(('%s %s %s ranks=%s zero=%s%s%s%s%s%s'%(k,sh,mode,ranks,fl,' low_mem' if lm else '','' if o is True else ' ordered=%s'%o,'' if single else ' files',' whole' if wrap else '','' if num is None else ' numbers=%s'%(num,)),h,(k,sh,mode,ranks,fl,lm,o,single,wrap,num)))
    for k in ks2:
        auto=k[0]==k[1]
        for sh in ([(1,),(2,),(3,)] if auto else [])+[(1,1),(2,2),(1,2),(2,1)]:
            add(k,sh,'global',None,'all' if sum(sh)<=3 or len(sh)==1 else 0,wrap=True)
            if sh!=(1,) and sh!=(1,1): add(k,sh,'local',None,'none' if k!='NN' else 0)
    k2=['NN','GG'] if not th else ['NN','KK','GG']
    for k in k2:
        for n in ((2,3,4,5) if not th else (2,3,4,5,6)):
            for r in ((2,3) if not th else (2,3,4,5)):
                add(k,(n,),'global',r,'none' if n>3 else 1); 
                add(k,(n,),'local',r,'none')
        for sh in [(3,3),(1,3),(3,1)]:
            for r in (2,3): add(k,sh,'global',r,'none'); add(k,sh,'local',r,'none')
        add(k,(3,),'global',None,2,lm=True); add(k,(3,3),'global',None,'none',lm=True,wrap=True); add(k,(3,),'local',None,'none',lm=True)
        add(k,(3,),'global',None,0,single=False); add(k,(3,),'global',None,0,num=(2,0,1)); add(k,(3,),'global',None,1,num=(0,0,1)); add(k,(2,3) if False else (2,2),'global',None,'none',num=(1,1))
    k3=['NNN:LogRUV','KKK:LogSAS','GGG:LogRUV'] if not th else [a+':'+b for a in corrs.THREE for b in ('LogRUV','LogSAS')]
    for k in k3:
        for sh in [(1,),(2,),(3,),(1,1),(2,2),(1,2),(2,1),(1,1,1),(2,2,2),(1,2,2),(2,1,2),(2,2,1),(2,1,1),(1,2,1),(1,1,2)]:
            for o in ((True,False) if len(sh)>1 else (True,)):
                if len(sh)==3 and sh!=(2,2,2) and k!='NNN:LogRUV' and not th: continue
                add(k,sh,'global',None,'all' if sum(sh)<=3 and len(sh)<3 and sh!=(3,) else 'none' if sh==(2,2,2) else 0,o=o,wrap=sh==(2,))
        add(k,(2,2,2),'global',None,'none',o=1)
    for k in (['NNN:LogRUV'] if not th else ['NNN:LogRUV','GGG:LogSAS']):
        for n in ((2,3,4,5) if not th else (2,3,4,5,6)):
            for r in (2,3): add(k,(n,),'global',r,'none')
        for sh in [(3,3),(1,3),(3,1),(1,4),(3,3,3),(1,3,3),(3,1,3),(3,3,1),(1,1,3),(1,3,1)]:
            for r in (2,3): add(k,sh,'global',r,'none',o=False if sum(sh)%2 else True)
        add(k,(3,),'global',None,'none',lm=True); add(k,(3,3),'global',None,'none',lm=True); add(k,(2,2,2),'global',None,'none',lm=True)
        add(k,(3,),'global',None,'none',single=False); add(k,(3,),'global',None,'none',num=(2,0,1)); add(k,(3,),'global',None,'none',num=(0,0,1)); add(k,(2,2),'global',None,'none',num=(1,1))
    for k in (['NNN:LogMultipole','GGG:LogMultipole'] if not th else [a+':LogMultipole' for a in corrs.THREE]):
        for sh in [(2,),(3,),(4,),(2,2),(3,3),(1,2),(2,1),(2,2,2),(3,3,3)]:
            for o in ((True,False) if len(sh)==2 else (True,1,False) if len(sh)==3 else (True,)): add(k,sh,'local',None,'none',o=o)
        for r in (2,3): add(k,(4,),'local',r,'none'); add(k,(3,3),'local',r,'none',o=False); add(k,(3,3,3),'local',r,'none',o=False)
        add(k,(3,),'local',None,'none',lm=True); add(k,(3,3),'local',None,'none',lm=True,o=False)
    for g in ('Flat','TwoD','3d','Periodic'):
        for t in (False,True):
            for d1 in range(4):
                for d2 in range(4):
                    if not(t and (g=='TwoD' or d1!=d2)) and (th or (d1,d2) in QEXP[g]): T.append(('expanded patch %s%s %d %d'%(g,' three-point' if t else '',d1,d2),h_expand,(g,t,d1,d2)))
    for g in ('Euclidean','Periodic'):
        for bt in (('LogRUV','LogSAS') if th or g=='Euclidean' else ('LogRUV',)):
            T.append(('skipped triple %s %s on a line'%(g,bt),h_triv3,(g,bt,(0,0,0),1)))
    for t in (False,True):
        for g in ('Periodic','Flat'): T.append(('expanded patch %s on a line%s'%(g,' three-point' if t else ''),h_expand,(g,t,0,0,True)))
    for g in (('Log','Euclidean','Flat'),('Linear','Euclidean','Flat'),('Linear','Euclidean','ThreeD'),('TwoD','Euclidean','Flat'),('Log','Periodic','Flat'),('Linear','Periodic','ThreeD'),('TwoD','Periodic','Flat')):
        T.append(('skipped pair %s/%s/%s'%g,None,g))
    for co in ('flat','3d','spherical'):
        for n in ((1,2,3) if th or co!='spherical' else (1,2)): T.append(('patch size %s %d'%(co,n),h_center,(co,n)))
    def two(k,sh,mode,r,fl,o=True): T.append(('two calls %s %s %s ranks=%s zero=%s ordered=%s'%(k,sh,mode,r,fl,o),h_two,(k,sh,mode,r,fl,o)))
    for k in (['NN','KK'] if not th else ['NN','KK','GG']):
        for sh in [(2,),(2,2),(1,2)]:
            for r in (None,2): two(k,sh,'global',r,'all' if sh!=(2,2) else 0); two(k,sh,'local',r,'none')
        two(k,(3,),'global',None,1); two(k,(3,),'global',3,'none')
    for k in ['NNN:LogRUV','KKK:LogSAS']:
        for sh in [(2,),(2,2),(2,2,2)]:
            for r in (None,2): two(k,sh,'global',r,'none' if sh==(2,2,2) else 1 if k[0]=='N' else 0)
    for sh in [(2,),(2,2)]: two('NNN:LogMultipole',sh,'local',2,'none')
    return T
def run(tier,rep):
    setup(); T=tasks(tier); lim=500 if tier=='quick' else 780
    report.run_cases(rep,[(one,(nm,f,a,lim)) for nm,f,a in T],limit=lim+40)
    rep.bounds=['1-5 patches on one process and on 2-3 simulated MPI ranks (thorough: 6 patches, 5 ranks), 1-3 patches per side for cross-correlations, one bin',
        'the sums a job (one patch, pair or triple of patches) contributes are free symbols and any of the flagged jobs may contribute nothing, be declared too far apart, or both',
        'one call, and two calls on different data (second with initialize=False), followed by a fresh start',
        'global and local patch methods, low_mem on and off, patches given as list, as one catalog with patches, as files without numbers, in any order and with repeated numbers']
    rep.outside=['what a job itself computes (P01-P15)','real MPI: ranks are run one after another with a mailbox, messages go through the pickled state','more patches than the bound','lists mixing catalogs with and without patches']
