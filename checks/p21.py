"""P21: a catalog holds exactly the included rows, and everything derived from it follows those rows"""
import numpy as np, sys, pickle
import corrs, report, treecorr
from pysym import Engine, S, SA
import treecorr.catalog as TC
Cat=treecorr.Catalog
COLS=['x','y','z','ra','dec','r','w','wpos','k','z1','z2','v1','v2','g1','g2','t1','t2','q1','q2']
FIELD={'k':('k',),'z':('z1','z2'),'v':('v1','v2'),'g':('g1','g2'),'t':('t1','t2'),'q':('q1','q2')}
class Ext:
    """stands for the compiled position conversions and nearest-center functions"""
    def __init__(self,real): self.real=real
    def __getattr__(self,n): return getattr(self.real,n)
    def GenerateXYZ(self,x,y,z,ra,dec,r):
        for i in range(len(x)):
            c=dec[i].cos() if isinstance(dec[i],S) else np.cos(dec[i]); s=dec[i].sin() if isinstance(dec[i],S) else np.sin(dec[i])
            cr=ra[i].cos() if isinstance(ra[i],S) else np.cos(ra[i]); sr=ra[i].sin() if isinstance(ra[i],S) else np.sin(ra[i])
            f=r[i] if len(r) else 1.
            x[i]=c*cr*f; y[i]=c*sr*f; z[i]=s*f
    def near(self,cen,x,y,z,i):
        best=None
        for j in range(len(cen)):
            d=(x[i]-cen[j][0])**2+(y[i]-cen[j][1])**2
            if len(z): d=d+(z[i]-cen[j][2])**2
            if best is None or d<best[0]: best=(d,j)
        return best[1]
    def QuickAssign(self,cen,np_,x,y,z,patch):
        for i in range(len(x)): patch[i]=self.near(cen,x,y,z,i)
    def SelectPatch(self,p,cen,np_,x,y,z,use):
        for i in range(len(x)): use[i]=int(self.near(cen,x,y,z,i)==p)
REAL=TC._treecorr; REALS={n:getattr(TC,n) for n in ('FitsReader','make_writer')}; REALF=TC.os.path.isfile
def ext(eng): TC._treecorr=Ext(REAL)
def mkcols(eng,n,names,nan=(),pos=('w','wpos','r'),nm=''):
    D={}
    for c in names:
        a=eng.arr(nm+c,n,'pos' if c in pos else None)
        for cc,i in nan:
            if cc==c: a[i]=np.nan
        D[c]=a
    return D
def kwpos(names):
    return dict(ra_units='rad',dec_units='rad') if 'ra' in names else {}
def rows(a,idx): return np.array([a[i] for i in idx],dtype=object) if len(idx) else np.array([],dtype=object)
def ssum(l):
    t=0
    for v in l: t=t+v
    return t
def compare(eng,c,D,idx,w,what,skip=()):
    """catalog c holds rows idx of columns D (after exclusion), with weights w (None: trivial)"""
    eng.check(what+' size',c.ntot==len(idx))
    if c.ntot!=len(idx): return
    for k in COLS:
        if k in ('w',) or k in skip: continue
        got=getattr(c,k)
        if k in D: eng.check('%s has %s'%(what,k),got is not None); 
        elif k in ('x','y','z') and 'ra' in D: continue
        else: eng.check('%s no %s'%(what,k),got is None); continue
        if got is not None: eng.eq('%s %s'%(what,k),got,rows(D[k],idx))
    ww=[1. for i in idx] if w is None else [w[i] for i in idx]
    eng.eq(what+' w',c.w,np.array(ww,dtype=object)); 
    eng.eq(what+' sumw',c.sumw,ssum(ww)); eng.eq(what+' sumw2',c.sumw2,ssum([v*v for v in ww]))
    n=ssum([1 if bool(v!=0) else 0 for v in ww]); eng.check(what+' nobj',int(c.nobj)==n)
def derived(eng,c,D,idx,w,what):
    """variances and centers from the rows"""
    ww=[1. for i in idx] if w is None else [w[i] for i in idx]
    W=ssum(ww)
    for f,cs in FIELD.items():
        if cs[0] not in D: continue
        vs=[]
        for q in cs:
            v=[D[q][i] for i in idx]; m=ssum([a*b for a,b in zip(ww,v)])/W
            vs.append(ssum([a*a*(b-m)*(b-m) for a,b in zip(ww,v)])/W)
        eng.eq('%s var%s'%(what,f),getattr(c,'var'+f),ssum(vs)/len(vs))
# ---- rows taken in from arrays
def h_intake(eng,n,names,nan,hasflag,keep,cfg):
    ext(eng)
    D=mkcols(eng,n,names,nan,pos=()) 
    for q in ('wpos',):
        if q in D:
            for i in range(n):
                if not (isinstance(D[q][i],float) and D[q][i]!=D[q][i]): eng.assume(D[q][i]>=0)
    kw=dict(cfg); fl=None
    if hasflag:
        fl=np.array([eng.int('flag%d'%i,0,3) for i in range(n)]); kw['flag']=fl
        opt=eng.int('flagopt',0,2)
        if opt==1: kw['ignore_flag']=eng.int('ign',0,3)
        if opt==2: kw['ok_flag']=eng.int('okf',0,3)
        ign=kw.get('ignore_flag',~kw.get('ok_flag',0))
    if keep: kw['keep_zero_weight']=True
    isn=lambda v: isinstance(v,(float,np.floating)) and v!=v
    bad=[(hasflag and (int(fl[i])&ign)!=0) or any(isn(D[q][i]) for q in D) for i in range(n)]
    O={q:np.array([0. if isn(v) else v for v in D[q]],dtype=object) for q in D}
    wp=None
    if 'wpos' in D: wp=[0. if bad[i] else O['wpos'][i] for i in range(n)]
    trivial=not('w' in D or hasflag or any(bad) or (wp is not None and any(bool(v==0) for v in wp)))
    w=None if trivial else [0. if bad[i] or (wp is not None and bool(wp[i]==0)) else (O['w'][i] if 'w' in D else 1.) for i in range(n)]
    if wp is not None: O['wpos']=np.array(wp,dtype=object)
    if 'ra' in D: kw.update(ra_units='rad',dec_units='rad')
    raised=False
    try: c=Cat(**{q:v.copy() for q,v in D.items()},**kw,logger=corrs.LOG)
    except ValueError as e: raised=True
    zero=w is not None and bool(ssum(w)==0)
    eng.check('no usable weight is refused',raised==zero)
    if raised: return
    p=wp if wp is not None else w
    idx=[i for i in range(n) if keep or p is None or w is None or not bool(p[i]==0)]
    sg={q:-1 for q in D if cfg.get('flip_'+q)}
    for q in sg: O[q]=np.array([-v for v in O[q]],dtype=object)
    compare(eng,c,O,idx,w,'catalog')
    if 'ra' in D and 'x' not in D:
        import pysym
        e=Ext(REAL); xyz=[np.zeros(n,dtype=object if eng.vals is None else float) for _ in range(3)]
        r=O['r'] if 'r' in D else np.array([])
        if eng.vals is None: e.GenerateXYZ(*xyz,O['ra'].view(SA),O['dec'].view(SA),r)
        else: e.GenerateXYZ(*xyz,O['ra'].astype(float),O['dec'].astype(float),r.astype(float))
        for q,v in zip('xyz',xyz): eng.eq('position '+q,getattr(c,q),rows(v,idx))
def h_rows(eng,n,cfg,flips,unit):
    """row selection, sign flips and units"""
    ext(eng)
    names=['x','y','w','k']+[q for f in 'zvgtq' for q in FIELD[f]]
    D=mkcols(eng,n,names)
    kw=dict(cfg); kw.update({'flip_'+f:True for f in flips})
    if unit: kw.update(x_units='arcmin',y_units='deg')
    c=Cat(**{q:v.copy() for q,v in D.items()},**kw,logger=corrs.LOG)
    a=kw.get('first_row',1); b=kw.get('last_row',n); st=kw.get('every_nth',1)
    idx=[i for i in range(n) if i>=a-1 and i<b and (i-a+1)%st==0]
    O={q:(np.array([-v for v in D[q]],dtype=object) if q in flips else D[q]) for q in D}
    if unit:
        O['x']=np.array([v*(np.pi/180/60) for v in D['x']],dtype=object); O['y']=np.array([v*(np.pi/180) for v in D['y']],dtype=object)
    compare(eng,c,O,idx,D['w'],'catalog')
def h_select(eng,n,names,touch,idx):
    ext(eng)
    D=mkcols(eng,n,names); kw=kwpos(names)
    c=Cat(**{q:v.copy() for q,v in D.items()},**kw,logger=corrs.LOG)
    if touch:
        for q in ('vark','varz','varv','varg','vart','varq','sumw','sumw2','nobj','patches','patch_centers','ntot'): getattr(c,q)
        c._get_center_size() if False else None
    c.select(np.array(idx)); W=D.get('w')
    compare(eng,c,D,list(idx),W,'selected'); derived(eng,c,D,list(idx),W,'selected')
    d=Cat(**{q:v[np.array(idx)] for q,v in D.items()},**kw,logger=corrs.LOG)
    eng.eq('centers',c.patch_centers,d.patch_centers)
    eng.check('patches',len(c.patches)==1 and c.patches[0].ntot==len(idx))
def h_combine(eng,names,ns,zeros,masked):
    ext(eng); cats=[]; DD=[]; kw=kwpos(names)
    for j,n in enumerate(ns):
        D=mkcols(eng,n,names,nm='c%d'%j); 
        for (jj,i) in zeros:
            if jj==j: D['w'][i]=0.
        DD.append(D); cats.append(Cat(**{q:v.copy() for q,v in D.items()},keep_zero_weight=True,**kw,logger=corrs.LOG))
    masks=None
    if masked:
        masks=[np.array([i for i in range(n) if eng.bool('m%d_%d'%(j,i))],dtype=int) for j,n in enumerate(ns)]
        if not any(len(m)*1 and any((j,int(i)) not in zeros for i in m) for j,m in enumerate(masks)): eng.check('nothing selected',True); return
    c=Cat.combine(cats,mask_list=masks)
    M=masks if masks is not None else [np.arange(n) for n in ns]
    O={q:np.array([DD[j][q][i] for j in range(len(ns)) for i in M[j]],dtype=object) for q in names}
    compare(eng,c,O,list(range(len(O['x' if 'x' in O else 'ra']))),O.get('w'),'combined')
    for j,n in enumerate(ns): compare(eng,cats[j],DD[j],list(range(n)),DD[j].get('w'),'input %d unchanged'%j)
def labels(eng,n,npatch): return np.array([eng.int('patch%d'%i,0,npatch-1) for i in range(n)])
def h_patches(eng,n,names,npatch,how):
    """every object is in exactly one patch, and patches, centers and totals agree with the rows"""
    ext(eng); D=mkcols(eng,n,names); kw=kwpos(names); sph='ra' in names
    if how=='label':
        lab=labels(eng,n,npatch); kw['patch']=lab
    else:
        cen=eng.arr('cen',(npatch,3 if 'z' in names or sph else 2)); kw['patch_centers']=cen if eng.vals is None else np.ascontiguousarray(cen)
    c=Cat(**{q:v.copy() for q,v in D.items()},**kw,logger=corrs.LOG)
    if how!='label':
        e=Ext(REAL); z=c.z if c.z is not None else []
        lab=np.array([e.near(cen,c.x,c.y,z,i) for i in range(n)])
        eng.check('nearest center',list(c.patch)==list(lab))
        for i in range(n):
            p=Cat(**{q:v.copy() for q,v in D.items()},**dict(kw,patch=int(lab[i])),logger=corrs.LOG)
            idx=[j for j in range(n) if lab[j]==lab[i]]
            compare(eng,p,D,idx,D.get('w'),'single patch of %d'%i)
    used=sorted(set(int(l) for l in lab)); W=D.get('w')
    ps=c.get_patches(); eng.check('patch count',len(ps)==len(used) if c.npatch>1 else len(ps)==1)
    eng.check('npatch',c.npatch==(max(used)+1 if how=='label' else npatch))
    if len(ps)!=len(used): return
    for l,p in zip(used,ps):
        idx=[i for i in range(n) if lab[i]==l]
        compare(eng,p,D,idx,W,'patch %d'%l,skip=() if c.npatch>1 else ())
        if c.npatch>1:
            eng.check('patch number %d'%l,p._single_patch==l)
            for q in 'xyz':
                if getattr(c,q) is not None: eng.eq('patch %d %s'%(l,q),getattr(p,q),rows(getattr(c,q),idx))
    if how=='label' and used==list(range(c.npatch)) and not sph:
        cs=c.patch_centers
        for l in used:
            idx=[i for i in range(n) if lab[i]==l]; ww=[1. if W is None else W[i] for i in idx]
            for a,q in enumerate('xyz'[:cs.shape[1]]): eng.eq('center %d %s'%(l,q),cs[l][a]*ssum(ww),ssum([v*D[q][i] for v,i in zip(ww,idx)]))
def h_copy(eng,n,names,how):
    ext(eng); D=mkcols(eng,n,names); kw=kwpos(names)
    if 'patch' in how: kw['patch']=np.arange(n)%2
    a=Cat(**{q:v.copy() for q,v in D.items()},**kw,logger=corrs.LOG)
    a.vark; a.patches
    b=a.copy() if 'copy' in how else pickle.loads(pickle.dumps(a))
    compare(eng,b,D,list(range(n)),D.get('w'),'copy'); eng.check('equal',a==b)
    eng.check('patches',len(a.patches)==len(b.patches))
    b.select(np.arange(n-1)); compare(eng,a,D,list(range(n)),D.get('w'),'original')
    for q in names:
        E={p:v.copy() for p,v in D.items()}; o=eng.arr('other'+q,1,'pos' if q in('w','wpos','r') else None)[0]
        eng.assume(o!=D[q][0]); E[q][0]=o
        d=Cat(**E,**kw,logger=corrs.LOG); eng.check('different '+q,not(a==d))
def h_var(eng,ns,f,weighted,given):
    """variance of a list of catalogs = variance of all the objects together"""
    cs=FIELD[f]; names=['x','y']+(['w'] if weighted else [])+list(cs); cats=[]; DD=[]
    for j,n in enumerate(ns):
        D=mkcols(eng,n,names,nm='c%d'%j); DD.append(D); kw={}
        if weighted=='mixed' and j==1: D.pop('w')
        cats.append(Cat(**D,logger=corrs.LOG,**({'var'+f:given} if given else {})))
    fn=getattr(TC,'calculateVar'+f.upper())
    w=[D['w'][i] if 'w' in D else 1. for D in DD for i in range(len(D['x']))]; W=ssum(w); vs=[]
    if given: 
        eng.eq('given variance',fn(cats),given); return
    for q in cs:
        v=[D[q][i] for D in DD for i in range(len(D['x']))]; m=ssum([a*b for a,b in zip(w,v)])/W
        vs.append(ssum([a*a*(b-m)*(b-m) for a,b in zip(w,v)])/W)
    eng.eq('variance',fn(cats if len(cats)>1 or weighted else cats[0]),ssum(vs)/len(vs))
# ---- files
class MemReader:
    """an in-memory table with the interface of the reader classes"""
    default_ext=1
    def __init__(self,t): self.t=t
    def __enter__(self): return self
    def __exit__(self,*a): return False
    def __contains__(self,e): return True
    def check_valid_ext(self,e): pass
    def names(self,ext=None): return list(self.t)
    def row_count(self,col=None,ext=None): return len(next(iter(self.t.values())))
    def read(self,cols,s=slice(None),ext=None):
        if isinstance(cols,str): return self.t[cols][s].copy()
        if len(cols)==0: raise OSError('no columns')
        return {c:self.t[c][s].copy() for c in cols}
class MemWriter:
    def __init__(self,fs,name): self.fs=fs; self.name=name
    def __enter__(self): return self
    def __exit__(self,*a): return False
    def write(self,names,cols,**k): self.fs[self.name]={n:c.copy() for n,c in zip(names,cols)}
def files(eng,fs):
    TC.FitsReader=lambda f,**k: MemReader(fs[f]); TC.make_writer=lambda f,**k: MemWriter(fs,f)
    TC.os=type('os',(),dict(path=type('p',(),dict(isfile=staticmethod(lambda f:f in fs),exists=staticmethod(lambda f:f in fs),join=__import__('os').path.join,splitext=__import__('os').path.splitext,basename=__import__('os').path.basename)),remove=staticmethod(lambda f:fs.pop(f))))
def same_cat(eng,a,b,what,skip=()):
    eng.check(what+' size',a.ntot==b.ntot)
    if a.ntot!=b.ntot: return
    for q in COLS:
        if q in skip: continue
        u,v=getattr(a,q),getattr(b,q); eng.check('%s has %s'%(what,q),(u is None)==(v is None))
        if u is not None and v is not None: eng.eq('%s %s'%(what,q),u,v)
    eng.eq(what+' sumw',a.sumw,b.sumw); eng.check(what+' trivial weights',bool(a.nontrivial_w)==bool(b.nontrivial_w))
def h_file(eng,n,names,mode,extra):
    """a catalog read from a file, whole, again after unload, or patch by patch in any way, has the same rows"""
    ext(eng); fs={}; files(eng,fs); D=mkcols(eng,n,names); tab=dict(D); cfg=dict(extra)
    num=cfg.pop('num',0); zero=cfg.pop('zero',()); ev=cfg.pop('ev',None)
    for i in zero: D['w'][i]=0.
    for q in names: cfg.setdefault(q+'_col',q)
    if num: 
        tab['dummy']=eng.arr('dummy',n,'pos'); cfg['k_col']=['dummy','k']; cfg['flip_g1']=[True,False]; cfg['w_col']=['dummy','w']
    if ev:
        tab['A']=eng.arr('A',n,'pos'); cfg['w_eval']='A*2'; cfg['k_eval']='A+%s'%('x' if ev==2 and 'x' in names else '1'); cfg['extra_cols']=['A']; cfg.pop('w_col',0); cfg.pop('k_col',0)
        D={q:v for q,v in D.items() if q not in('w','k')}; D['w']=tab['A']*2; D['k']=tab['A']+(D['x'] if ev==2 and 'x' in names else 1.)
    if 'ra' in names: cfg.update(ra_units='rad',dec_units='rad')
    kw={}
    sph='ra' in names
    if mode in('label','label low'):
        tab['p']=labels(eng,n,2); cfg['patch_col']='p'
    if mode in ('centers','centers low'):
        cen=eng.arr('cen',(2,3 if sph or 'z' in names else 2)); kw['patch_centers']=cen
    if mode=='saved': kw['patch']=None; 
    fs['f.fits']=tab
    mk=lambda **k: Cat('f.fits',cfg,num=num,logger=corrs.LOG,**kw,**k)
    a=mk()
    first,last,step=cfg.get('first_row',1),cfg.get('last_row',n),cfg.get('every_nth',1)
    idx=[i for i in range(n) if i>=first-1 and i<last and (i-first+1)%step==0 and (i not in zero or cfg.get('keep_zero_weight'))]
    if cfg.get('is_rand'): pass
    eng.check('not loaded early',not a.loaded)
    compare(eng,a,D,idx,D.get('w'),'from file')
    before={q:getattr(a,q) for q in COLS}
    a.unload(); eng.check('unloaded',not a.loaded); compare(eng,a,D,idx,D.get('w'),'reloaded')
    if mode=='whole': return
    lab=[int(a.patch[i]) for i in range(len(idx))]
    if zero:   # a patch of only zero-weight objects is refused
        al=[int(v) for v in tab['p']] if 'p' in tab else [Ext(REAL).near(cen,a.x,a.y,a.z if a.z is not None else [],i) for i in range(n)] if len(idx)==n else None
        if al is None: al=lab[:zero[0]]+[lab[0]]+lab[zero[0]:]; eng.assume(len(set(lab))==2)
        for l in set(al):
            if all(i in zero for i in range(n) if al[i]==l): eng.check('only zero weight',True); return
    if mode.endswith('low'):
        b=mk(); ps=b.get_patches(low_mem=True)
        if len(ps)>1:
            for p in ps: eng.check('patch left unloaded',not p.loaded)
    else: ps=a.get_patches()
    seen=[]
    for p in ps:
        l=p._single_patch if len(ps)>1 or p._single_patch is not None else lab[0]
        I=[idx[i] for i in range(len(idx)) if lab[i]==l]; seen+=I
        if not I: eng.check('empty patch',p.ntot==0); continue
        if len(ps)==1 and p._single_patch is None: I=idx
        compare(eng,p,D,I,D.get('w'),'patch %d'%l)
        p.unload(); compare(eng,p,D,I,D.get('w'),'patch %d reloaded'%l)
    eng.check('every row in one patch',sorted(seen)==idx)
def h_saved(eng,n,names,npatch,src,zero):
    """patches written to files and read back are the same patches"""
    ext(eng); fs={}; D=mkcols(eng,n,names); kw=kwpos(names)
    files(eng,fs)
    for i in zero: D['w'][i]=0.
    if zero: kw['keep_zero_weight']=True
    lab=np.array([i%npatch for i in range(n)])
    if src=='unit': kw.update(x_units='arcmin',y_units='arcmin')
    a=Cat(**{q:v.copy() for q,v in D.items()},patch=lab,logger=corrs.LOG,**kw)
    ref=a.get_patches(); b=Cat(**{q:v.copy() for q,v in D.items()},patch=lab,save_patch_dir='d',logger=corrs.LOG,**kw)
    low=src=='low'
    ps=b.get_patches(low_mem=low); c=Cat(**{q:v.copy() for q,v in D.items()},patch=lab,save_patch_dir='d',logger=corrs.LOG,**kw)
    for p,q in zip(ref,ps): same_cat(eng,p,q,'saved')
    qs=c.get_patches(low_mem=low); eng.check('count',len(qs)==len(ref)==len(ps))
    for p,q in zip(ref,qs): same_cat(eng,p,q,'read back'); eng.check('number',q._single_patch==p._single_patch)
def h_write(eng,n,names,unit):
    ext(eng); fs={}; files(eng,fs); D=mkcols(eng,n,names); kw=kwpos(names)
    if unit and 'ra' not in names: kw.update(x_units='arcmin',y_units='deg')
    if unit and 'ra' in names: kw.update(ra_units='hour',dec_units='deg')
    a=Cat(**{q:v.copy() for q,v in D.items()},patch=np.arange(n)%2,logger=corrs.LOG,**kw); cols=a.write('o.fits')
    eng.check('columns',list(cols)==list(fs['o.fits']))
    for q in names: eng.check('wrote '+q,q in cols); eng.eq('written '+q,fs['o.fits'][q],D[q])
    b=Cat('o.fits',dict({q+'_col':q for q in list(names)+['patch']},**kw),logger=corrs.LOG)
    same_cat(eng,a,b,'read back'); eng.check('patch numbers',list(a.patch)==list(b.patch))
XY=['x','y']; RD=['ra','dec']; ALL=['w','wpos','k']+[q for f in 'zvgtq' for q in FIELD[f]]
def tasks(tier):
    T=[]; th=tier=='thorough'; add=lambda nm,h,*a: T.append((nm,h,a))
    n=3 if not th else 4
    for names in (XY,XY+['w'],XY+['wpos'],XY+['w','wpos'],XY+['w','k'],XY+['z','w'],RD,RD+['w'],RD+['r','w'],RD+['wpos','g1','g2']):
        lab=''.join(names)
        for keep in (0,1): add('intake %s keep=%d'%(lab,keep),h_intake,n,names,(),0,keep,{}); add('intake %s flags keep=%d'%(lab,keep),h_intake,2,names,(),1,keep,{})
        for c in names: add('intake %s nan %s'%(lab,c),h_intake,2,names,((c,0),),0,0,{}); add('intake %s nan %s keep'%(lab,c),h_intake,2,names,((c,1),),0,1,{})
    for c in ALL: add('intake all nan %s'%c,h_intake,2,XY+ALL,((c,0),),0,0,{})
    for kw in ({},dict(first_row=2),dict(last_row=3),dict(every_nth=2),dict(first_row=2,every_nth=2),dict(first_row=2,last_row=4),dict(first_row=2,last_row=5,every_nth=3)):
        add('rows %s'%kw,h_rows,5,kw,(),0)
    for f in 'zvgtq':
        for q in FIELD[f]: add('flip '+q,h_rows,2,{},(q,),0)
        add('flip both '+f,h_rows,2,{},FIELD[f],1)
    for names in (XY+['w','k'],XY+['k'],XY+['z','w','g1','g2'],XY+['w']+list(FIELD['z'])+list(FIELD['q']),XY+list(FIELD['v'])+list(FIELD['t'])):
        for touch in (0,1):
            for idx in ((0,1),(2,),(1,0,2)) : add('select %s %d %s'%(''.join(names),touch,idx),h_select,3,names,touch,idx)
    for names in (XY+ALL,XY+['w','k'],XY+['k'],RD+['w','k'],RD+['r','k']):
        for ns in ((1,2),(2,1,1)):
            for z in ((),((0,0),),((1,0),)) if 'w' in names and 'wpos' not in names and ns==(1,2) else ((),):
                if z==((0,0),): ns2=(2,2)
                elif z: ns2=(1,2)
                else: ns2=ns
                for m in (0,1): add('combine %s %s zero %s mask %d'%(''.join(names),ns2,z,m),h_combine,names,ns2,z,m)
    for names in (XY,XY+['w','k'],XY+ALL,XY+['z','w'],RD+['w','k'],RD+['r','w'],RD):
        for np_ in (2,3): add('patches %s %d label'%(''.join(names),np_),h_patches,3,names,np_,'label')
        add('patches %s centers'%''.join(names),h_patches,2 if 'ra' in names or 'z' in names else 3,names,2,'centers')
    for names in (XY+ALL,RD+['r','w','k'],XY+['z','k'],RD):
        for how in ('copy','pickle','copy patch','pickle patch'): add('%s %s'%(how,''.join(names)),h_copy,2,names,how)
    for f in FIELD:
        for w in (False,True,'mixed'):
            for ns in ((2,),(1,2),(1,1,1)) + (((2,3),) if th else ()):
                if w=='mixed' and len(ns)==1: continue
                add('variance %s %s %s'%(f,ns,w),h_var,ns,f,w,None)
        add('variance %s given'%f,h_var,(1,2),f,True,0.37)
    for names in (XY+['w','k','g1','g2'],RD+['w','k'],XY+ALL,RD+['r','w']):
        lab=''.join(names); sp='ra' in names
        for mode in ('whole','label','label low','centers','centers low'):
            for ex in ({},dict(first_row=2),dict(every_nth=2),dict(zero=(1,)),dict(zero=(1,),keep_zero_weight=True),dict(num=1),dict(ev=1),dict(ev=2)):
                if ex.get('num') and 'k' not in names or ('num' in ex and 'g1' not in names): continue
                if 'wpos' in names and ('zero' in ex or 'ev' in ex): continue
                if ex.get('ev')==2 and sp or ('zero' in ex and 'keep_zero_weight' not in ex and sp and 'centers' in mode): continue
                nn=3 if 'centers' not in mode else (2 if sp and not th else 3)
                if 'every_nth' in ex or 'first_row' in ex: nn+=1 if 'centers' not in mode or not sp else 0
                add('file %s %s %s'%(lab,mode,ex),h_file,nn,names,mode,ex)
    for names in (XY+['w','k'],XY+ALL,RD+['w','g1','g2'],RD+['r','k'],XY+['z','k']):
        for src in ('mem','low','unit'):
            if src=='unit' and 'ra' in names: continue
            for z in ((),(1,)) if 'w' in names and 'wpos' not in names else ((),): add('saved %s %s %s'%(''.join(names),src,z),h_saved,4,names,2,src,z)
        for u in (0,1): add('write %s %d'%(''.join(names),u),h_write,3,names,u)
    return T
def one(nm,h,a,lim):
    e=Engine(nm,max_paths=3000 if not lim else lim)
    try: return e.run(lambda eng: h(eng,*a),corrs.MODS,expect_exc=())
    finally:
        TC._treecorr=REAL; TC.os=__import__('os')
        for k,v in REALS.items(): setattr(TC,k,v)
def run(tier,rep):
    report.run_cases(rep,[(one,(nm,h,a,0)) for nm,h,a in tasks(tier)],limit=780)
    rep.bounds='catalogs of 2 to 5 objects (all values symbolic reals; NaN in any one column and row; flags 0..3 and flag masks 0..3; any signs of w; wpos non-negative; which values are zero decided by the solver), flat, spherical and 3d positions, every column kind; lists of up to 3 catalogs; up to 3 patches by number (all labelings) or by nearest center (symbolic centers)'
    rep.outside='file libraries and the text of numbers (an in-memory table stands for the file), k-means (its own property), the compiled sky-position conversion and nearest-center functions (stated as their formulas here), more objects, rounding, object-level pandas readers'
