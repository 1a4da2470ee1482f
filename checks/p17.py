"""P17: adding, clearing, copying, finishing and comparing correlation objects"""
import numpy as np, copy as _copy
import corrs, report
from pysym import Engine, Shim
XN=Shim()
A2=['_xi1','_xi2','_xi3','_xi4','meanr','meanlogr','weight','npairs']
A3=corrs.ARR3
def three(k): return k in corrs.THREE
def names(c,k):
    skip=() if not three(k) else {'LogRUV':('weighti',),'LogSAS':('weighti','meanv'),'LogMultipole':('meanv',)}[c.bin_type]
    return [a for a in (A3 if three(k) else A2) if isinstance(getattr(c,a,None),np.ndarray) and getattr(c,a).size>0 and a not in skip]
def mk(k,**kw): return corrs.new3(k,**kw) if three(k) else corrs.new(k,**kw)
def fill(eng,c,k,nm): return corrs.fill3(eng,c,k,nm) if three(k) else corrs.fill(eng,c,k,nm)
def setm(c,k,metric='Euclidean',coords='flat'):
    if three(k): c._set_metric(metric,coords,coords,coords)
    else: c._set_metric(metric,coords,coords)
    return c
def obj(eng,k,nm,fl=True,metric='Euclidean',coords='flat',**kw):
    c=setm(mk(k,**kw),k,metric,coords)
    return fill(eng,c,k,nm) if fl else c
def snap(c,k):
    d={a:getattr(c,a).copy() for a in names(c,k)}
    if k in('NN','NNN'): d['tot']=c.tot
    return d
def same(eng,what,a,b):
    eng.check(what+': same set of arrays',set(a)==set(b))
    for q in a: eng.eq(what+' '+q,a[q],b[q])
def plus(a,b): return {q:a[q]+b[q] for q in a}
def h_iadd(eng,k,kw,empty):
    a=obj(eng,k,'a',**kw); b=obj(eng,k,'b',fl=not empty,**kw)
    if empty and k in('NN','NNN'): b.tot=eng.pos('bt')
    sa,sb=snap(a,k),snap(b,k); d=a
    a+=b
    eng.check('in place',a is d); same(eng,'sum',snap(a,k),plus(sa,sb)); same(eng,'the other is unchanged',snap(b,k),sb)
    c=obj(eng,k,'c',fl=False,**kw); c+=b; same(eng,'added to an empty one',snap(c,k),sb)
    if not empty:
        getattr(c,names(c,k)[0])[...]+=1; c.weight_ if False else None
        same(eng,'no shared arrays',snap(b,k),sb)
def h_sum(eng,k,kw,n,hole):
    cs=[obj(eng,k,'c%d'%i,fl=i!=hole,**kw) for i in range(n)]
    if hole is not None and k in('NN','NNN'): cs[hole].tot=eng.pos('ht')
    sn=[snap(c,k) for c in cs]
    s=obj(eng,k,'old',**kw); s._sum(cs)
    ref=sn[0]
    for t in sn[1:]: ref=plus(ref,t)
    same(eng,'sum',snap(s,k),ref)
    z=obj(eng,k,'z',fl=False,**kw)
    for c in cs: z+=c
    same(eng,'repeated addition',snap(z,k),ref)
    for c,t in zip(cs,sn): same(eng,'the summed ones are unchanged',snap(c,k),t)
VARS={'KK':['varxi'],'NK':['varxi','raw_varxi'],'NZ':['varxi'],'KZ':['varxi']}
def fin(eng,c,k,nm):
    n=0 if k in('NN','NNN') else 3 if three(k) else 1 if k[0]=='N' else 2
    c.finalize(*[eng.pos('%sv%d'%(nm,i)) for i in range(n)])
def stats_of(c,k):
    """everything a user reads off a finished object"""
    d=snap(c,k); d.pop('tot',None)
    if k not in('NN','NNN'):
        for a in ('xi','xi_im','xip','xip_im','xim','xim_im','zeta','gam0','gam1','gam2','gam3','varxi','varxip','varxim','raw_varxi','varzeta','vargam0','vargam1','vargam2','vargam3','cov_diag'):
            try: v=getattr(c,a)
            except AttributeError: continue
            if isinstance(v,np.ndarray): d[a]=np.array(v)
        d['cov']=np.array(c.cov)
    for a in ('npatch1','npatch2','npatch3'):
        if hasattr(c,a): d[a]=getattr(c,a)
    if k in('NN','NNN'): d['tot']=c.tot
    return d
def h_clear(eng,k,kw,boot):
    """a cleared object that is used again gives what a new object gives"""
    c=obj(eng,k,'a',**kw); two=not three(k)
    old=[(0,0),(1,1)] if two else [(0,0,0),(1,1,1)]
    new=[(0,0),(0,1),(1,1)] if two else [(0,0,0),(0,0,1),(1,1,1)]
    def parts(c,keys,nm):
        for t in keys: c.results[t]=obj(eng,k,nm+''.join(map(str,t)),**kw)
        for d in range(2 if two else 3): setattr(c,'npatch%d'%(d+1),2)
    parts(c,old,'p'); fin(eng,c,k,'f')
    stats_of(c,k)
    if boot and k not in('NN','NNN'): c.build_cov_design_matrix('bootstrap')
    c.clear(); f=setm(mk(k,**kw),k)
    a0={q:v for q,v in snap(f,k).items()}
    same(eng,'cleared',snap(c,k),a0)
    eng.check('cleared: no results',len(c.results)==0); eng.check('cleared: patches',c.npatch1==1 and c.npatch2==1 and (two or c.npatch3==1))
    eng.check('cleared: nothing accumulated',not c.nonzero)
    if k not in('NN','NNN'):
        same(eng,'cleared: estimates',{'s':np.asarray(c.getStat()),'w':np.asarray(c.getWeight())},{'s':np.asarray(f.getStat()),'w':np.asarray(f.getWeight())})
    g={}
    for q,x in (('c',c),('f',f)):
        fill(eng,x,k,'b'); parts(x,new,'n'); fin(eng,x,k,'g'); g[q]=stats_of(x,k)
        if boot and k not in('NN','NNN'):
            class R:
                def choice(self,n,size=None,replace=True): return np.array([0,1]*n)[:size]
                def integers(self,*a,**kk): return np.array([0,1])
            x._rng=R(); d=x.build_cov_design_matrix('bootstrap'); g[q]['boot']=np.asarray(d[0]); g[q]['bootw']=np.asarray(d[1])
    same(eng,'used again',g['c'],g['f'])
def h_copy(eng,k,kw,way):
    """copies are equal, and neither sees what is done to the other"""
    two=not three(k); keys=[(0,0),(0,1)] if two else [(0,0,0),(0,0,1)]
    a=obj(eng,k,'a',**kw)
    for t in keys: a.results[t]=obj(eng,k,'r'+''.join(map(str,t)),**kw)
    a.npatch1=a.npatch2=2
    if not two: a.npatch3=2
    sr={t:snap(r,k) for t,r in a.results.items()}; s0=snap(a,k)
    if way=='pickle': b=a.__class__.__new__(a.__class__); b.__setstate__({q:(v.copy() if isinstance(v,(np.ndarray,dict)) else v) for q,v in a.__getstate__().items()}); b.logger=a.logger
    else: b=a.copy()
    eng.check('copy equals the original',a==b); same(eng,'copy',snap(b,k),s0)
    eng.check('copy has the patches',b.npatch1==a.npatch1 and b.npatch2==a.npatch2 and set(b.results)==set(a.results) and (two or b.npatch3==a.npatch3))
    eng.check('copy has the binning',b.min_sep==a.min_sep and b.max_sep==a.max_sep and b.nbins==a.nbins and b.bin_type==a.bin_type and b.metric==a.metric and b.coords==a.coords)
    for t in keys: same(eng,'copied result',snap(b.results[t],k),sr[t])
    if way=='pickle': return
    for first,second,nm in ((b,a,'copy'),(a,b,'original')) if way=='both' else ((b,a,'copy'),):
        d=obj(eng,k,'d'+nm,**kw); s1=snap(second,k)
        first+=d; same(eng,'adding to the %s leaves the other'%nm,snap(second,k),s1)
        for t in keys+[(1,1) if two else (1,1,1)]: first._add_result(t,d)
        eng.check('results of the other keep their keys',set(second.results)==set(keys))
        for t in keys: same(eng,'results of the %s added to'%nm,snap(second.results[t],k),sr[t])
        if k in('NN','NNN'):
            class C: pass
            c=C(); c.sumw=eng.pos('cw'+nm); c.name=''
            for t in keys: first._add_tot(t,*[c]*(2 if two else 3))
            for t in keys: same(eng,'totals of the %s added to'%nm,snap(second.results[t],k),sr[t])
        same(eng,'the results that were added are unchanged',snap(d,k),snap(obj(eng,k,'d'+nm,**kw),k)) if False else None
        fin(eng,first,k,'v'+nm); same(eng,'finishing the %s leaves the other'%nm,snap(second,k),s1)
        first.clear(); same(eng,'clearing the %s leaves the other'%nm,snap(second,k),s1)
        eng.check('clearing leaves the results of the other',set(second.results)==set(keys) and second.npatch1==2)
        if hasattr(first,'_processed_cats1'):
            first._processed_cats1.append(1); eng.check('processed catalogs are not shared',len(second._processed_cats1)==0); first._processed_cats1.clear()
        first+=second
        for t in keys: first.results[t]=second.results[t]
        first.npatch1=first.npatch2=2
        if not two: first.npatch3=2
def h_finalize(eng,k,kw,zero,coords='flat',metric='Euclidean'):
    """each column is divided by its weight; where there is none, the nominal values are filled in"""
    c=obj(eng,k,'a',metric=metric,coords=coords,**kw); w=c.weightr if three(k) else c.weight; s=snap(c,k)
    mult=getattr(c,'bin_type','')=='LogMultipole'
    if zero is not None:
        i=np.unravel_index(zero,w.shape)
        for a in names(c,k): getattr(c,a)[i]=0.
        s=snap(c,k)
    if coords=='spherical' and getattr(c,'bin_type','')=='LogSAS' and metric=='Euclidean': w[...]=2.; s=snap(c,k)
    if coords=='spherical':
        for a in ('meanr','meand1','meand2','meand3'):
            if hasattr(c,a):
                for x,y in zip(s[a].ravel(),w.ravel()):
                    if not isinstance(x,float) or x!=0: eng.assume(x<=y)
    fin(eng,c,k,'f')
    su=c._sep_units; ls=c._log_sep_units; chord=coords=='spherical' and metric=='Euclidean'
    r=snap(c,k); W=s['weightr'] if three(k) else s['weight']
    for i in np.ndindex(W.shape):
        z=isinstance(W[i],float) and W[i]==0.
        for a in r:
            if a=='tot': eng.eq('total',r[a],s[a]); continue
            if a in('weight','weightr','weighti','npairs','ntri'): eng.eq(a+' is kept',r[a][i],s[a][i]); continue
            lg=a.startswith('meanlog'); d=a in('meanr','meand1','meand2','meand3')
            if not z:
                v=s[a][i]/W[i]
                if chord and (d or lg):
                    xn=XN
                    v=2*xn.arcsin(v/2) if d else xn.log(2*xn.arcsin(xn.exp(v)/2))
                if a=='meanu' and c.bin_type=='LogSAS':
                    if chord:
                        d2=s['meand2'][i]/W[i]; d3=s['meand3'][i]/W[i]; xn=XN
                        cp=(xn.cos(v)-d2*d3/4)/xn.sqrt((1-d2*d2/4)*(1-d3*d3/4))
                        if bool(cp<-1): cp=-1.
                        elif bool(cp>1): cp=1.
                        v=xn.arccos(cp)
                    v=v/c._phi_units
                if d: v=v/su
                if lg: v=v-ls
                eng.eq('%s divided by the weight'%a,r[a][i],v)
            elif a.startswith('_xi') or a.startswith('_z'): eng.eq('no value without weight',r[a][i],0.)
        if z and not three(k): eng.eq('nominal separation',r['meanr'][i],c.rnom[i]); eng.eq('nominal log separation',r['meanlogr'][i],c.logr[i])
        if z and three(k):
            if c.bin_type=='LogRUV': eng.eq('nominal d2',r['meand2'][i],c.rnom[i]); eng.eq('nominal u',r['meanu'][i],c.u[i]); eng.eq('nominal v',r['meanv'][i],c.v[i]); eng.eq('nominal d3',r['meand3'][i],c.u[i]*c.rnom[i]); eng.eq('nominal d1',r['meand1'][i],abs(c.v[i])*c.u[i]*c.rnom[i]+c.rnom[i])
            else: eng.eq('nominal d2',r['meand2'][i],c.d2nom[i]); eng.eq('nominal d3',r['meand3'][i],c.d3nom[i]); eng.eq('nominal phi',r['meanu'][i],c.phi[i])
            for q in '123': eng.eq('nominal log d'+q,r['meanlogd'+q][i],np.log(float(r['meand'+q][i])))
def c_mult(c): return getattr(c,'bin_type','')=='LogMultipole'
def h_eq(eng,k,kw):
    """objects are equal exactly when all their contents are"""
    a=obj(eng,k,'a',**kw); b=obj(eng,k,'a',**kw)
    eng.check('equal contents',a==b); eng.check('equal contents (other way)',b==a); eng.check('not unequal',not (a!=b))
    for q in names(a,k):
        if q=='meanu' and c_mult(a): continue   # not measured for multipoles
        x=getattr(b,q); e=eng.var('e'+q); eng.assume(e!=0)
        for i in [tuple(0 for _ in x.shape),tuple(n-1 for n in x.shape)]:
            o=x[i]; x[i]=o+e
            eng.check('%s%s differs'%(q,i),not (a==b)); eng.check('%s%s differs (other way)'%(q,i),not (b==a)); x[i]=o
    eng.check('equal again',a==b)
def h_eqparam(eng,k,q,u,v,kw):
    m='Periodic' if 'period' in q else 'Euclidean'
    a=obj(eng,k,'a',metric=m,**dict(kw,**{q:u})); b=setm(mk(k,**dict(kw,**{q:v})),k,m)
    for n in names(a,k):
        x,y=getattr(a,n),getattr(b,n)
        if x.shape==y.shape: y[...]=x
    eng.check('different %s'%q,not (a==b)); eng.check('different %s (other way)'%q,not (b==a))
def h_mismatch(eng,k,kw1,kw2):
    """adding objects with different bins is refused and changes nothing"""
    a=obj(eng,k,'a',**kw1); b=obj(eng,k,'b',**kw2); sa,sb=snap(a,k),snap(b,k)
    try: a+=b
    except (ValueError,TypeError): ok=True
    else: ok=False
    eng.check('refused',ok); same(eng,'unchanged',snap(a,k),sa); same(eng,'unchanged other',snap(b,k),sb)
def h_mismatch_sym(eng,k,kw):
    """the limits of the second object are any numbers: refused unless they are the same"""
    a=obj(eng,k,'a',**kw); b=obj(eng,k,'b',**kw); sa,sb=snap(a,k),snap(b,k)
    lo=eng.var('lo'); hi=eng.var('hi'); b._ro=_copy.copy(b._ro); b._ro.min_sep=lo; b._ro.max_sep=hi
    try: a+=b
    except ValueError: eng.check('only refused when different',(lo!=a.min_sep)|(hi!=a.max_sep)); same(eng,'unchanged',snap(a,k),sa)
    else: eng.check('only added when equal',(lo==a.min_sep)&(hi==a.max_sep)); same(eng,'sum',snap(a,k),plus(sa,sb))
def h_addresult(eng,k,kw,kind):
    """results of repeated calls for the same patches add up"""
    two=not three(k); t=(0,1) if two else (0,1,1)
    a=obj(eng,k,'a',fl=False,**kw); p=obj(eng,k,'p',**kw); q=obj(eng,k,'q',**kw); sp,sq=snap(p,k),snap(q,k)
    if kind=='zero':
        class C: name=''
        c=C(); c.sumw=eng.pos('s'); a._add_tot(t,*([c]*(2 if two else 3)))
        z=(c.sumw**2 if two else c.sumw**3/2) if k in('NN','NNN') else 0.
        a._add_result(t,q); r=snap(a.results[t],k)
        if 'tot' in r: eng.eq('total of both',r['tot'],sq['tot']+z); r.pop('tot')
        same(eng,'stored',r,{u:v for u,v in sq.items() if u!='tot'})
    else:
        a._add_result(t,p); same(eng,'stored',snap(a.results[t],k),sp)
        a._add_result(t,q); same(eng,'added',snap(a.results[t],k),plus(sp,sq))
    same(eng,'first unchanged',snap(p,k),sp); same(eng,'second unchanged',snap(q,k),sq)
K2=['NN','NK','NG','KK','KZ','GG']; TD=dict(bin_type='TwoD',min_sep=0,max_sep=4.,nbins=2)
def tasks(tier):
    T=[]; add=lambda nm,h,*a: T.append((nm,h,a)); th=tier=='thorough'
    for k in corrs.TWO:
        for kw in ({},TD) if th or k in('KK','NN') else ({},):
            n=k+(' TwoD' if kw else '')
            for e in (0,1): add('add %s%s'%(n,' empty' if e else ''),h_iadd,k,kw,e)
            for m,hole in ((1,None),(3,None),(3,1)): add('sum of %d %s%s'%(m,n,' one empty' if hole else ''),h_sum,k,kw,m,hole)
            add('equal '+n,h_eq,k,kw)
            for z in (None,0): add('finish %s%s'%(n,' empty bin' if z==0 else ''),h_finalize,k,kw,z)
            if k in K2 or th: add('clear '+n,h_clear,k,kw,not kw); add('copy '+n,h_copy,k,kw,'both')
            add('pickle '+n,h_copy,k,kw,'pickle')
            for kd in ('','zero'): add('store %s %s'%(n,kd),h_addresult,k,kw,kd)
        add('other bins '+k,h_mismatch_sym,k,{})
        if k in('NN','KK','GG') or th:
            for nm,d in (('nbins',dict(nbins=3)),('bin type',dict(bin_type='Log')),('bin type 2',dict(bin_type='TwoD'))): add('other %s %s'%(nm,k),h_mismatch,k,{},d)
    for kw,nm in ((dict(sep_units='arcmin'),'units'),(dict(bin_type='Log'),'Log'),(dict(bin_type='Log',sep_units='deg'),'Log units')):
        for k in ('NN','KK','GG'): add('finish %s %s'%(k,nm),h_finalize,k,kw,0)
    for k in ('NN','KK','NG'):
        add('finish %s sphere'%k,h_finalize,k,dict(sep_units='deg'),0,'spherical'); add('finish %s Arc'%k,h_finalize,k,dict(sep_units='deg'),0,'spherical','Arc')
    for k in corrs.THREE:
        for bt in ('LogRUV','LogSAS','LogMultipole'):
            kw=dict(bt=bt); n=k+' '+bt
            for e in (0,1): add('add %s%s'%(n,' empty' if e else ''),h_iadd,k,kw,e)
            for m,hole in ((1,None),(3,None),(3,1)): add('sum of %d %s%s'%(m,n,' one empty' if hole else ''),h_sum,k,kw,m,hole)
            add('equal '+n,h_eq,k,kw); add('copy '+n,h_copy,k,kw,'both'); add('pickle '+n,h_copy,k,kw,'pickle')
            for kd in ('','zero'): add('store %s %s'%(n,kd),h_addresult,k,kw,kd)
            if bt!='LogMultipole':
                add('clear '+n,h_clear,k,kw,bt=='LogRUV')
                for z in (None,0): add('finish %s%s'%(n,' empty bin' if z==0 else ''),h_finalize,k,kw,z)
                add('finish %s sphere'%n,h_finalize,k,dict(kw,sep_units='deg',**(dict(nphi_bins=1) if bt=='LogSAS' else {})),None,'spherical'); add('finish %s Arc'%n,h_finalize,k,dict(kw,sep_units='deg'),0,'spherical','Arc')
                if k!='GGG': add('finish %s units'%n,h_finalize,k,dict(kw,sep_units='arcmin'),0)
            for nm,d in (('nbins',dict(nbins=2)),('max',dict(max_sep=4.)),('min',dict(min_sep=.5)),('type',dict(bt='LogSAS' if bt!='LogSAS' else 'LogRUV'))): add('other %s %s'%(nm,n),h_mismatch,k,kw,dict(kw,**d))
    for q,u,v,kw in (('min_sep',1.,2.,{}),('max_sep',9.,8.,{}),('nbins',2,3,{}),('bin_type','Linear','Log',{}),('sep_units','deg','arcmin',{}),('bin_slop',0,1,{}),('angle_slop',0.1,0.2,{}),('xperiod',100,200,dict(yperiod=100)),('yperiod',100,200,dict(xperiod=100)),('zperiod',100,200,dict(xperiod=100,yperiod=100)),('min_rpar',-1,-2,dict(metric='Rperp')),('max_rpar',1,2,dict(metric='Rperp'))):
        for k in ('NN','GG'):
            kk=dict(kw); kk.pop('metric',None)
            if 'metric' not in kw: add('equal %s %s'%(k,q),h_eqparam,k,q,u,v,kk)
    return T
def one(nm,h,a,lim):
    e=Engine(nm)
    return e.run(lambda eng: h(eng,*a),corrs.MODS)
def run(tier,rep):
    report.run_cases(rep,[(one,(nm,h,a,0)) for nm,h,a in tasks(tier)],limit=780)
    rep.bounds='all 18 two-point and 3 three-point classes; 1-4 bins; all values of every accumulated array (symbolic reals), sums of 1-3 objects, one of them possibly empty; bins without weight; two patches; units, chords on the sphere and great circles for the final conversion; symbolic limits of the object that is added'
    rep.outside='rounding; the shape of the final log conversion on the sphere is compared as the same function of the same argument; multipole objects in finalize (their third axis is shared)'
