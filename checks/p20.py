"""P20: what is written comes back when it is read, and the columns mean what is documented"""
import numpy as np
import corrs, report
from pysym import Engine
from p17 import mk,setm,obj,snap,same,names,three,fin,XN
class Mem:
    """an in-memory file with the interface of the writer and reader classes"""
    def __init__(self,eng): self.t={}; self.arr={}; self.eng=eng; self.order=[]
    def set_precision(self,p): pass
    def write(self,col_names,columns,*,params=None,ext=None):
        e=self.eng; e.check('extension written once',ext not in self.t)
        e.check('as many columns as names',len(col_names)==len(columns) and len(set(col_names))==len(col_names))
        e.check('columns are flat and of one length',all(np.ndim(c)==1 for c in columns) and len({len(c) for c in columns})==1)
        self.t[ext]=(list(col_names),[np.array(c,dtype=object if e.vals is None else None) for c in columns],dict(params or {})); self.order.append(ext)
    def write_array(self,data,*,ext=None): self.arr[ext]=np.array(data)
    def __contains__(self,ext): return ext in self.t
    def read_params(self,*,ext=None): return dict(self.t[ext][2])
    def read_data(self,*,ext=None,max_rows=None):
        n,c,_=self.t[ext]; k=len(c[0]) if max_rows is None else max_rows
        self.eng.check('all rows are read',k==len(c[0]))
        if self.eng.vals is None:
            d=np.empty(k,dtype=[(q,object) for q in n])
        else: d=np.empty(k,dtype=[(q,x.dtype.newbyteorder('>')) for q,x in zip(n,c)])
        for q,x in zip(n,c): d[q]=x[:k]
        return d
    def read_array(self,shape,*,ext=None):
        self.eng.check('shape of the array',tuple(shape)==self.arr[ext].shape); return self.arr[ext]
    def __enter__(self): return self
    def __exit__(self,*a): return False
COLS2={'r_nom':lambda c:c.rnom,'meanr':lambda c:c.meanr,'meanlogr':lambda c:c.meanlogr,'weight':lambda c:c.weight,'npairs':lambda c:c.npairs,'DD':lambda c:c.weight}
def cols(k,c):
    D=dict(COLS2)
    if three(k):
        D={'r_nom':lambda c:c.rnom,'u_nom':lambda c:c.u,'v_nom':lambda c:c.v,'d2_nom':lambda c:c.d2nom,'d3_nom':lambda c:c.d3nom,'phi_nom':lambda c:c.phi,'n':lambda c:c.n,'meanphi':lambda c:c.meanphi,
           'weight':lambda c:c.weight,'DDD':lambda c:c.weight if c.bin_type!='LogMultipole' else None,'weight_re':lambda c:c.weight.real,'weight_im':lambda c:c.weight.imag}
        for a in ('meand1','meanlogd1','meand2','meanlogd2','meand3','meanlogd3','meanu','meanv','ntri'): D[a]=lambda c,a=a:getattr(c,a)
        D['zeta']=lambda c:c.zeta; D['zeta_re']=lambda c:c.zeta.real; D['zeta_im']=lambda c:c.zeta.imag; D['sigma_zeta']=lambda c:('sq',c.varzeta)
        for i in range(4):
            D['gam%dr'%i]=lambda c,i=i:getattr(c,'gam%d'%i).real; D['gam%di'%i]=lambda c,i=i:getattr(c,'gam%d'%i).imag; D['sigma_gam%d'%i]=lambda c,i=i:('sq',getattr(c,'vargam%d'%i))
        return D
    if k=='NN': return dict(D,xi=lambda c:c.xi,sigma_xi=lambda c:('sq',c.varxi))
    if k=='KK': return dict(D,xi=lambda c:c.xi,sigma_xi=lambda c:('sq',c.varxi))
    if k=='NK': return dict(D,kappa=lambda c:c.xi,sigma=lambda c:('sq',c.varxi))
    if k in corrs.AUTO: return dict(D,xip=lambda c:c.xip,xim=lambda c:c.xim,xip_im=lambda c:c.xip_im,xim_im=lambda c:c.xim_im,sigma_xip=lambda c:('sq',c.varxip),sigma_xim=lambda c:('sq',c.varxim))
    if k[0]=='N':
        r,i={'NZ':('z_real','z_imag'),'NV':('vR','vT'),'NG':('gamT','gamX'),'NT':('tR','tR_im'),'NQ':('qR','qR_im')}[k]
        return dict(D,**{r:lambda c:c.xi,i:lambda c:c.xi_im,'sigma':lambda c:('sq',c.varxi)})
    r,i={'KZ':('kz','kz_im'),'KV':('kvR','kvT'),'KG':('kgamT','kgamX'),'KT':('ktR','ktT'),'KQ':('kqR','kqT')}[k]
    return dict(D,**{r:lambda c:c.xi,i:lambda c:c.xi_im,'sigma':lambda c:('sq',c.varxi),'sigma_xi':lambda c:('sq',c.varxi),'xi':lambda c:c.xi,'xi_im':lambda c:c.xi_im})
def hook(eng,mem):
    import sys
    for m in list(sys.modules.values()):
        if getattr(m,'__name__','').startswith('treecorr.') and hasattr(m,'make_writer') and m.__name__.endswith(('correlation','base')):
            m.make_writer=lambda *a,**k: mem
        if getattr(m,'__name__','').startswith('treecorr.') and hasattr(m,'make_reader') and m.__name__.endswith(('correlation','base')):
            m.make_reader=lambda *a,**k: mem
def check_cols(eng,k,c,t,what):
    D=cols(k,c)
    for q,x in zip(t[0],t[1]):
        if q not in D: eng.check('%s: unknown column %s'%(what,q),q in('RR','DR','RD','RRR','DRR','RDD')); continue
        v=D[q](c)
        if v is None: continue
        if isinstance(v,tuple):
            for y,z in zip(x,np.asarray(v[1]).ravel()): eng.eq('%s: column %s squared'%(what,q),y*y,z); eng.check('%s: column %s not negative'%(what,q),y>=0)
        else: eng.eq('%s: column %s'%(what,q),x,np.asarray(v).ravel())
    need={'NN':['DD'],'NNN':['DDD']}.get(k,['weight_re','weight_im'] if getattr(c,'bin_type','')=='LogMultipole' else ['weight'])+(['ntri'] if three(k) else ['npairs','meanr','meanlogr','r_nom'])
    for q in need: eng.check('%s: column %s is there'%(what,q),q in t[0])
def parts(eng,c,k,nm,keys,kw,zero=None):
    for i,t in enumerate(keys):
        c.results[t]=obj(eng,k,nm+''.join(map(str,t)),fl=i!=zero,**kw)
        if k in('NN','NNN'):
            if i==zero:
                tt=eng.pos(nm+'zt') if eng.vals is not None else None
                c.results[t]=c._zero_copy(7.0)
            c.results[t].tot=c.results[t].tot
    for d in range(2 if not three(k) else 3): setattr(c,'npatch%d'%(d+1),2)
def contents(c,k):
    d=snap(c,k)
    if three(k) and c.bin_type=='LogMultipole': d.pop('meanu',None)
    return d
def variances(c,k):
    d={}
    for a in ('varxi','varxip','varxim','varzeta','vargam0','vargam1','vargam2','vargam3'):
        if k in('NN','NNN'): continue
        if hasattr(type(c),a): d[a]=np.array(getattr(c,a))
    return d
def usable(eng,c,k,what):
    """the compiled accumulator is given the arrays that the object reports, in plain memory order"""
    got=[]
    c._builder=lambda *a,**kk: got.extend(a) or object()
    c.corr
    ids={id(x) for x in got}
    for a in names(c,k):
        x=getattr(c,a); eng.check('%s: %s is contiguous and native'%(what,a),x.flags['C_CONTIGUOUS'] and x.dtype.isnative); eng.check('%s: %s is what will be added to'%(what,a),id(x) in ids)
def h_round(eng,k,kw,patches,cov,via,prior):
    mem=Mem(eng); hook(eng,mem); two=not three(k)
    a=obj(eng,k,'a',**kw); zero=1 if k in('NN','NNN') else None
    keys=([(0,0),(0,1),(1,1)] if two else [(0,0,0),(0,1,1),(1,0,1)])[:3 if patches else 0]
    if patches: parts(eng,a,k,'p',keys,kw,zero)
    fin(eng,a,k,'f')
    if cov:
        n=len(a.getStat()) if k not in('NN','NNN') else 2
        a._cov=eng.arr('cov',(n,n)) 
        for i in range(n): a._cov[i,i]=eng.pos('covd%d'%i)
        if k=='NN': a.xi=eng.arr('xi',a.weight.shape); a.varxi=eng.arr('vx',a.weight.shape,'pos')
        if k=='NNN': a.zeta=eng.arr('xi',a.weight.shape); a.varzeta=eng.arr('vx',a.weight.shape,'pos')
    sa=contents(a,k); sr={t:contents(r,k) for t,r in a.results.items()}
    a.write('x.fits',write_patch_results=patches,write_cov=cov)
    same(eng,'writing changes nothing',contents(a,k),sa)
    main=[e for e in mem.t if e in(None,'main')]; eng.check('one main table',len(main)==1)
    check_cols(eng,k,a,mem.t[main[0]],'main')
    if via=='read':
        b=obj(eng,k,'old',fl=prior,**kw)
        if prior: 
            fin(eng,b,k,'of'); b.results[keys[0] if keys else ((0,0) if two else (0,0,0))]=obj(eng,k,'oldr',**kw)
            if k not in('NN','NNN'): b.cov; variances(b,k)
            b._builder=lambda *q,**kk: object()
            b.corr
        b.read('x.fits')
    elif via=='base': b=(corrs.treecorr.Corr2 if two else corrs.treecorr.Corr3).from_file('x.fits')
    else: b=a.__class__.from_file('x.fits')
    eng.check('class',type(b) is type(a))
    for q in ('min_sep','max_sep','nbins','bin_type','bin_slop','sep_units','coords','metric','xperiod','yperiod','min_rpar','max_rpar','angle_slop','var_method')+(() if two else {'LogRUV':('nubins','nvbins','min_u','max_u','min_v','max_v'),'LogSAS':('nphi_bins','min_phi','max_phi','phi_units'),'LogMultipole':('max_n',)}[a.bin_type]):
        if hasattr(a,q): eng.check('%s survives'%q,getattr(a,q)==getattr(b,q))
    same(eng,'main',contents(b,k),sa); same(eng,'variances',variances(b,k),variances(a,k))
    if k in('NN','NNN') and cov: q='xi' if k=='NN' else 'zeta'; same(eng,'estimate',{q:getattr(b,q),'v':getattr(b,'var'+q)},{q:getattr(a,q),'v':getattr(a,'var'+q)})
    if k not in ('NN','NNN'): same(eng,'statistic',{'s':np.asarray(b.getStat()),'w':np.asarray(b.getWeight())},{'s':np.asarray(a.getStat()),'w':np.asarray(a.getWeight())})
    if cov: eng.eq('covariance',np.asarray(b.cov),np.asarray(a.cov))
    eng.check('patches survive',(b.npatch1,b.npatch2)==((a.npatch1,a.npatch2) if patches else (1,1)))
    eng.check('results survive',set(b.results)==(set(keys) if patches else set()))
    if patches:
        for t in keys: same(eng,'result %s'%(t,),contents(b.results[t],k),sr[t]); eng.check('result contiguous',all(getattr(b.results[t],n).flags['C_CONTIGUOUS'] for n in names(b.results[t],k)) or (zero is not None))
        if k not in('NN','NNN') and not cov:
            for m in ('jackknife','sample'):
                A,w=a.build_cov_design_matrix(m); B,v=b.build_cov_design_matrix(m); eng.eq('rows '+m,np.asarray(B),np.asarray(A)); eng.eq('weights '+m,np.asarray(v),np.asarray(w))
        elif via=='read' and prior: eng.check('old lookup is not kept','_ok' not in b.__dict__)
    if cov is False and not (k in('NN','NNN')) and prior and patches is False: eng.check('an old covariance is not kept',b._cov is None)
    usable(eng,b,k,'after reading')
def h_nn(eng,k,dr,rd,patches,via):
    """count correlations written with their randoms"""
    mem=Mem(eng); hook(eng,mem); two=k=='NN'; kw={}
    keys=([(0,0),(0,1),(1,1)] if two else [(0,0,0),(0,1,1),(1,1,1)])
    ob={}
    for q,on in (('dd',1),('rr',1),('dr',dr),('rd',rd)):
        if not on: ob[q]=None; continue
        ob[q]=obj(eng,k,q,**kw)
        if patches:
            parts(eng,ob[q],k,q+'p',keys,kw)
            ob[q].tot=sum(r.tot for r in ob[q].results.values())
        fin(eng,ob[q],k,'f')
    dd=ob['dd']; sn={q:contents(c,k) for q,c in ob.items() if c is not None}
    args={'rr':ob['rr'],'dr':ob['dr'],'rd':ob['rd']} if two else {'rrr':ob['rr'],'drr':ob['dr'],'rdd':ob['rd']}
    est=(dd.copy().calculateXi if two else dd.copy().calculateZeta)
    xi,v=est(**args)
    dd.write('x.fits',write_patch_results=patches,**args)
    t=mem.t['main' if patches else None]; C=dict(zip(*t[:2])); n3='' if two else '3'
    for q,c in ob.items():
        if c is not None: same(eng,'writing leaves '+q,contents(c,k),sn[q])
    col={'dd':'DD','rr':'RR','dr':'DR','rd':'RD' if dr else 'DR'} if two else {'dd':'DDD','rr':'RRR','dr':'DRR','rd':'RDD'}
    for q,c in ob.items():
        if c is not None: eng.eq('column '+col[q],C[col[q]],c.weight.ravel()*(dd.tot/c.tot))
    eng.eq('column of the estimate',C['xi' if two else 'zeta'],np.asarray(xi).ravel())
    s=C['sigma_xi' if two else 'sigma_zeta']
    eng.eq('column of its sigma',s,XN.sqrt(np.asarray(v).ravel()))
    b=(corrs.treecorr.NNCorrelation if two else corrs.treecorr.NNNCorrelation).from_file('x.fits') if via else obj(eng,k,'old',fl=False)
    if not via: b.read('x.fits')
    same(eng,'counts',contents(b,k),sn['dd']); q='xi' if two else 'zeta'
    eng.eq('estimate',np.asarray(getattr(b,q)).ravel(),np.asarray(xi).ravel()); eng.eq('variance',np.asarray(getattr(b,'var'+q)).ravel(),s*s)
    if patches:
        at={'rr':'_rr','dr':'_dr','rd':'_rd'} if two else {'rr':'_rrr','dr':'_drr','rd':'_rdd'}
        for p,c in ob.items():
            if p=='dd': continue
            x=getattr(b,at[p])
            if c is None: eng.check('no '+p,x is None); continue
            same(eng,'randoms '+p,contents(x,k),sn[p]); eng.check('patches of '+p,set(x.results)==set(keys) and x.npatch1==2)
            for tt in keys: same(eng,'patch results of '+p,contents(x.results[tt],k),contents(c.results[tt],k))
        for m in ('jackknife',) if not (dr and rd) else ():
            A,w=dd.build_cov_design_matrix(m); B,u=b.build_cov_design_matrix(m); eng.eq('rows',np.asarray(B),np.asarray(A)); eng.eq('row weights',np.asarray(u),np.asarray(w))
    usable(eng,b,k,'after reading')
def h_comp(eng,k,back):
    """compensated cross-correlations write the compensated estimate"""
    mem=Mem(eng); hook(eng,mem)
    a=obj(eng,k,'a'); r=obj(eng,k,'r'); fin(eng,a,k,'f'); fin(eng,r,k,'g')
    raw=[np.array(getattr(a,'raw_xi'))]+([np.array(a.raw_xi_im)] if k!='NK' else [])
    ref=[x-y for x,y in zip(raw,[r.xi]+([r.xi_im] if k!='NK' else []))]
    a.write('x.fits',**{'rk' if k=='NK' else 'r'+k[1].lower():r})
    nm={'NK':['kappa'],'NZ':['z_real','z_imag'],'NV':['vR','vT'],'NG':['gamT','gamX'],'NT':['tR','tR_im'],'NQ':['qR','qR_im']}[k]
    C=dict(zip(*mem.t[None][:2]))
    for n,x in zip(nm,ref): eng.eq('column '+n,C[n],x)
    b=obj(eng,k,'old',fl=back)
    if back: fin(eng,b,k,'of'); (b.calculateXi(**{'rk' if k=='NK' else 'r'+k[1].lower():r}))
    b.read('x.fits'); eng.eq('estimate',b.xi,ref[0])
    if k!='NK': eng.eq('second estimate',b.xi_im,ref[1])
    eng.eq('variance',b.varxi,a.varxi)
def tasks(tier):
    T=[]; add=lambda nm,h,*a: T.append((nm,h,a)); th=tier=='thorough'
    TD=dict(bin_type='TwoD',min_sep=0,max_sep=4.,nbins=2)
    for k in corrs.TWO:
        for kw,nm in (({},''),(TD,' TwoD'),(dict(bin_type='Log',sep_units='arcmin'),' Log arcmin')):
            if nm and not th and k not in ('NN','NK','GG','KZ'): continue
            for patches in (False,True):
                for cov in (False,True):
                    if cov and nm and not th: continue
                    for via,prior in (('file',0),('read',0),('read',1),('base',0)):
                        if not th and via!='file' and not (via=='read' and prior): continue
                        if k=='NN' and via=='base' : continue
                        add('%s%s%s%s %s%s'%(k,nm,' patches' if patches else '',' cov' if cov else '',via,' used' if prior else ''),h_round,k,kw,patches,cov,via,prior)
    for k in corrs.THREE:
        for bt in ('LogRUV','LogSAS','LogMultipole'):
            for patches in (False,True):
                for via,prior in (('file',0),('read',1)):
                    for cov in (False,True):
                        if cov and (k=='NNN' or bt=='LogMultipole' or (patches and not th)): continue
                        if bt=='LogMultipole' and patches and not th: continue
                        add('%s %s%s%s %s%s'%(k,bt,' patches' if patches else '',' cov' if cov else '',via,' used' if prior else ''),h_round,k,dict(bt=bt),patches,cov,via,prior)
    for dr in (0,1):
        for rd in (0,1):
            for p in (False,True):
                for via in (0,1): add('NN randoms dr=%d rd=%d%s %d'%(dr,rd,' patches' if p else '',via),h_nn,'NN',dr,rd,p,via)
    for full in (0,1):
        for p in (False,True) if th else (False,): add('NNN randoms %d%s'%(full,' patches' if p else ''),h_nn,'NNN',full,full,p,1)
    for k in ('NK','NZ','NV','NG','NT','NQ'):
        for b in (0,1): add('compensated %s%s'%(k,' used' if b else ''),h_comp,k,b)
    return T
def one(nm,h,a,lim):
    e=Engine(nm)
    return e.run(lambda eng: h(eng,*a),corrs.MODS)
def run(tier,rep):
    report.run_cases(rep,[(one,(nm,h,a,0)) for nm,h,a in tasks(tier)],limit=780)
    rep.bounds='all 18 two-point and 3 three-point classes, several binnings; all values of the arrays (symbolic reals, weights positive); up to three patch pairs; with and without covariance, randoms, patch results; files read into a new object, by the class, by the base class or into an object that was used before'
    rep.outside='the text of ASCII numbers and the file libraries (an in-memory table stands for the file; it returns strided, byte-swapped columns as FITS does); rounding to the chosen precision'
