"""P19: estimators corrected with randoms, and their covariances, follow the stated formulas"""
import numpy as np, itertools
import corrs, report
from p18 import select,keys_of,cov_ref,Rng,snapshot,unchanged
from pysym import Engine
def filled(eng,k,nm,**kw):
    return corrs.fill3(eng,corrs.new3(k,**kw),k,nm,True) if k in corrs.THREE else corrs.fill(eng,corrs.new(k,**kw),k,nm)
def nn(eng,nm,shape=None,auto=False,k='NN',rng=None,zero=None,**kw):
    c=filled(eng,k,nm,**kw)
    if zero is not None: c.weight.ravel()[zero]=0.
    if rng is not None: c._rng=rng
    if shape:
        for d,n in enumerate(shape): setattr(c,'npatch%d'%(d+1),n)
        for t in keys_of(shape,auto): c.results[t]=filled(eng,k,nm+''.join(map(str,t)),**kw)
        # the total is the sum of the parts
        c.weight[...]=sum(r.weight for r in c.results.values()); c.tot=sum(r.tot for r in c.results.values())
        if zero is not None:
            for r in c.results.values(): r.weight.ravel()[zero]=0.
            c.weight.ravel()[zero]=0.
    return c
def est(dd,ddt,rr,rrt,dr,drt,rd,rdt):
    """(DD-DR-RD+RR)/RR with every count scaled to the number of possible DD pairs"""
    out=[];W=[]
    for b in range(len(dd)):
        R=rr[b]*ddt/rrt
        if dr is None and rd is None: x=dd[b]-R
        elif rd is None: x=dd[b]-2*dr[b]*ddt/drt+R
        elif dr is None: x=dd[b]-2*rd[b]*ddt/rdt+R
        else: x=dd[b]-dr[b]*ddt/drt-rd[b]*ddt/rdt+R
        empty=isinstance(rr[b],float) and rr[b]==0.
        out.append(x if empty else x/R); W.append(0. if empty else R)
    return out,W
def est3(dd,ddt,rr,rrt,dr,drt,rd,rdt):
    out=[];W=[]
    for b in range(len(dd)):
        R=rr[b]*ddt/rrt
        x=dd[b]-R if dr is None else dd[b]-rd[b]*ddt/rdt+dr[b]*ddt/drt-R
        empty=isinstance(rr[b],float) and rr[b]==0.
        out.append(x if empty else x/R); W.append(0. if empty else R)
    return out,W
def w_(c): return None if c is None else list(c.weight.ravel())
def t_(c): return None if c is None else c.tot
def h_nn(eng,usedr,userd,zero,k,kw):
    dd=nn(eng,'d',k=k,**kw); rr=nn(eng,'r',zero=zero,k=k,**kw); dr=nn(eng,'x',k=k,**kw) if usedr else None; rd=nn(eng,'y',k=k,**kw) if userd else None
    if zero is not None: rr.npairs.ravel()[zero]=0.
    sn=[(q,c,snapshot(c,k)) for q,c in (('dd',dd),('rr',rr),('dr',dr),('rd',rd)) if c is not None]
    ref,W=est(w_(dd),dd.tot,w_(rr),rr.tot,w_(dr),t_(dr),w_(rd),t_(rd))
    mw=lambda c: sum(c.weight.ravel())/sum(c.npairs.ravel())
    f=1+mw(rr)*dd.tot/rr.tot/mw(dd)
    if usedr and userd: f=f+mw(dr)*dd.tot/dr.tot/mw(dd)+mw(rd)*dd.tot/rd.tot/mw(dd)
    elif usedr: f=f+2*mw(dr)*dd.tot/dr.tot/mw(dd)
    elif userd: f=f+2*mw(rd)*dd.tot/rd.tot/mw(dd)
    for rep in range(2):
        xi,v=dd.calculateXi(rr=rr,dr=dr,rd=rd)
        eng.eq('xi call %d'%rep,list(np.asarray(xi).ravel()),ref); eng.eq('xi attribute',list(dd.xi.ravel()),ref)
        vr=[0. if isinstance(w,float) and w==0. else mw(dd)*f*f/w for w in W]
        eng.eq('variance',list(np.asarray(v).ravel()),vr); eng.eq('varxi attribute',list(np.asarray(dd.varxi).ravel()),vr)
        eng.eq('cov diagonal',[dd.cov[i,i] for i in range(len(vr))],vr)
    for q,c,s in sn: unchanged(eng,q,c,k,s)
def h_nnn(eng,full,zero,bt):
    kw=dict(bt=bt); k='NNN'
    dd=nn(eng,'d',k=k,**kw); rr=nn(eng,'r',zero=zero,k=k,**kw); dr=nn(eng,'x',k=k,**kw) if full else None; rd=nn(eng,'y',k=k,**kw) if full else None
    sn=[(q,c,snapshot(c,k)) for q,c in (('ddd',dd),('rrr',rr),('drr',dr),('rdd',rd)) if c is not None]
    ref,W=est3(w_(dd),dd.tot,w_(rr),rr.tot,w_(dr),t_(dr),w_(rd),t_(rd))
    for rep in range(2):
        z,v=dd.calculateZeta(rrr=rr,drr=dr,rdd=rd)
        eng.eq('zeta',list(np.asarray(z).ravel()),ref); eng.eq('zeta attribute',list(dd.zeta.ravel()),ref)
        for b,w in enumerate(W):
            x=np.asarray(v).ravel()[b]
            if b==zero: eng.eq('no variance without randoms',x,0.)
            else: eng.check('variance positive',x>0)
    for q,c,s in sn: unchanged(eng,q,c,k,s)
def h_nnpatch(eng,method,n,auto,rrp,drp,rdp,k,miss=()):
    """rows of the design matrix: the estimator applied to the sums of the right patch pairs"""
    m3=k=='NNN'; full=(n,)*(3 if m3 else 2); dshape={'full':full,'one':((n,1,1) if m3 else (n,1))}; rshape={'full':full,'one':((1,n,n) if m3 else (1,n))}
    rng=Rng(eng,n,[[0]*n,list(range(n)),[n-1]*n]) if 'boot' in method else None; nb=3
    kw=dict(num_bootstrap=nb) if rng else {}
    dd=nn(eng,'d',full,auto,k=k,rng=rng,**kw)
    rr=nn(eng,'r',full if rrp else None,auto,k=k,**kw)
    dr=nn(eng,'x',dshape[drp],False,k=k,**kw) if drp else None
    rd=nn(eng,'y',rshape[rdp],False,k=k,**kw) if rdp else None
    if m3 and rdp=='one':     # data-data part of a run over one data catalog: ordered pairs only
        for t in list(rd.results):
            if t[1]>t[2]: del rd.results[t]
    for t in miss: del dd.results[t]
    ddkeys=list(dd.results)
    allk=set(ddkeys)|(set(rr.results) if rrp else set())|(set(dr.results) if drp=='full' else set())|(set(rd.results) if rdp=='full' else set())
    f=est3 if m3 else est
    sn=[(q,c,snapshot(c,k)) for q,c in (('rr',rr),('dr',dr),('rd',rd)) if c is not None]
    if m3: dd.calculateZeta(rrr=rr,drr=dr,rdd=rd)
    else: dd.calculateXi(rr=rr,dr=dr,rd=rd)
    full_ref,_=f(w_(dd),dd.tot,w_(rr),rr.tot,w_(dr),t_(dr),w_(rd),t_(rd))
    eng.eq('estimate',list(dd.getStat()),full_ref)
    if rng: rng.k=0; rng.draws=[]
    A,w=dd.build_cov_design_matrix(method)
    rows=range(n) if rng is None else rng.draws
    for i,ix in enumerate(rows):
        sel=select(method,sorted(allk),full,ix)
        def sums(c,keys):
            c_=[c.results[t] for t in keys if t in c.results]
            if not c_: return None,None
            return list(sum(x.weight for x in c_).ravel()),sum(x.tot for x in c_)
        D,Dt=sums(dd,[t for t in sel if t in ddkeys])
        if D is None: continue
        if rrp: R,Rt=sums(rr,sel)
        else:
            p=1/3 if m3 else 0.5; same=lambda t: len(set(t))==1
            root=lambda x: x**p
            if m3: continue
            fr=sum(root(dd.results[t].tot) for t in sel if same(t))/sum(root(dd.results[t].tot) for t in ddkeys if same(t))
            Dt=sum(dd.results[t].tot for t in ddkeys)*fr; R,Rt=w_(rr),rr.tot
        if R is None: continue
        X=Xt=Y=Yt=None
        if drp: X,Xt=sums(dr,sel if drp=='full' else [((t[0],0,0) if m3 else (t[0],0)) for t in sel if len(set(t))==1])
        if rdp:
            if rdp=='full': Y,Yt=sums(rd,sel)
            elif m3: Y,Yt=sums(rd,[(0,)+((t[1],t[2])) for t in sel if t[0]==t[1] or t[0]==t[2]])
            else: Y,Yt=sums(rd,[(0,t[1]) for t in sel if t[0]==t[1]])
        if (drp and X is None) or (rdp and Y is None): continue
        ref,W=f(D,Dt,R,Rt,X,Xt,Y,Yt)
        eng.eq('row%d'%i,list(A[i]),ref); eng.eq('row weight%d'%i,w[i],sum(W))
    for q,c,s in sn: unchanged(eng,q,c,k,s)
def stats(c,raw=False):
    p='raw_' if raw else ''
    out=list(getattr(c,p+'xi').ravel())
    im=getattr(c,p+'xi_im',None)
    return out,(list(im.ravel()) if im is not None else None)
def arg(k): return {'r'+k[1].lower():None}
def calc(c,k,r): return c.calculateXi(**({'r'+k[1].lower():r} if r is not None else {}))
def h_comp(eng,k,order):
    """compensated cross-correlations without patches"""
    d=corrs.fill(eng,corrs.new(k),k,'d'); r=corrs.fill(eng,corrs.new(k),k,'r')
    vd,vr=eng.pos('vard'),eng.pos('varr')
    rd_,rr_=corrs.raw(d,k),corrs.raw(r,k)
    d.finalize(vd); r.finalize(vr)
    w=lambda q: q['weight']
    x=[rd_['_xi1'][b]/w(rd_)[b] for b in range(2)]; y=[rr_['_xi1'][b]/w(rr_)[b] for b in range(2)]
    cx=corrs.nxi(k)>1
    xm=[rd_['_xi2'][b]/w(rd_)[b] for b in range(2)] if cx else None; ym=[rr_['_xi2'][b]/w(rr_)[b] for b in range(2)] if cx else None
    V=[vd/w(rd_)[b] for b in range(2)]; U=[vr/w(rr_)[b] for b in range(2)]
    if 'a' in order: d.varxi
    if 'b' in order: d.cov
    out=calc(d,k,r)
    eng.eq('xi',list(out[0]),[a-b for a,b in zip(x,y)]); eng.eq('xi attribute',list(d.xi),[a-b for a,b in zip(x,y)])
    if cx:
        eng.eq('xi_im',list(out[1]),[a-b for a,b in zip(xm,ym)]); eng.eq('xi_im attribute',list(d.xi_im),[a-b for a,b in zip(xm,ym)])
    eng.eq('variance',list(out[-1]),[a+b for a,b in zip(V,U)]); eng.eq('varxi',list(d.varxi),[a+b for a,b in zip(V,U)])
    eng.eq('raw_xi',list(d.raw_xi),x); eng.eq('raw_varxi',list(d.raw_varxi),V)
    if cx: eng.eq('raw_xi_im',list(d.raw_xi_im),xm)
    eng.eq('cov is compensated',[d.cov[b,b] for b in range(2)],[a+b for a,b in zip(V,U)],key='cov of the compensated estimate without patches')
    eng.eq('the randoms are left alone',list(r.xi),y)
    if 'c' in order:
        calc(d,k,None)
        eng.eq('back to raw xi',list(d.xi),x); eng.eq('back to raw varxi',list(d.varxi),V); eng.eq('back to raw cov',[d.cov[b,b] for b in range(2)],V)
        if cx: eng.eq('back to raw xi_im',list(d.xi_im),xm)
def h_compshot(eng,k):
    """the shot variance does not depend on whether the run used patches"""
    out=[]
    for patches in (0,1):
        d=corrs.fill(eng,corrs.new(k),k,'d'); r=corrs.fill(eng,corrs.new(k),k,'r'); D=corrs.raw(d,k); R=corrs.raw(r,k)
        if patches:
            for c,nm in ((d,'d'),(r,'r')): c.npatch1=c.npatch2=2; c.results={(0,0):c.copy(),(1,1):corrs.fill(eng,corrs.new(k),k,nm+'p')}
        vd,vr=eng.pos('vard'),eng.pos('varr'); d.finalize(vd); r.finalize(vr); calc(d,k,r)
        e=[vd/D['weight'][b]+vr/R['weight'][b] for b in range(2)]
        eng.eq('varxi patches=%d'%patches,list(d.varxi),e); eng.eq('cov patches=%d'%patches,[d.cov[b,b] for b in range(2)],e)
        eng.eq('raw_varxi patches=%d'%patches,list(d.raw_varxi),[vd/D['weight'][b] for b in range(2)])
def h_comppatch(eng,k,method,n,rkp,miss,mode):
    rng=Rng(eng,n,[[0]*n,list(range(n)),[n-1]*n]) if 'boot' in method else None
    kw=dict(num_bootstrap=3,var_method=method)
    def mkp(nm,shape,miss=()):
        c=corrs.fill(eng,corrs.new(k,**kw),k,nm)
        for j,s in enumerate(shape): setattr(c,'npatch%d'%(j+1),s)
        for t in keys_of(shape,False):
            if t in miss: continue
            c.results[t]=corrs.fill(eng,corrs.new(k,**kw),k,nm+''.join(map(str,t)))
        rw={t:corrs.raw(q,k) for t,q in c.results.items()}
        for a in ['_xi%d'%(i+1) for i in range(corrs.nxi(k))]+['weight','npairs','meanr','meanlogr']: getattr(c,a)[...]=sum(getattr(q,a) for q in c.results.values())
        if rng: c._rng=rng
        c.finalize(1.)
        return c,rw
    d,D=mkp('d',(n,n),miss); r,R=mkp('r',(1,n) if rkp=='one' else (n,n),()); vr=1.
    nb=2
    def stat(S,keys,im):
        keys=[t for t in keys if t in S]
        if not keys: return None
        q='_xi2' if im else '_xi1'
        return [sum(S[t][q][b] for t in keys)/sum(S[t]['weight'][b] for t in keys) for b in range(nb)]
    def rows(im,comp):
        allk=sorted(set(D)|(set(R) if rkp!='one' and comp else set())); out=[]
        for ix in (range(n) if rng is None else [[0]*n,list(range(n)),[n-1]*n]):
            sel=select(method,allk,(n,n),ix)
            x=stat(D,sel,im)
            if x is None: x=[0.]*nb
            if comp:
                y=stat(R,sel if rkp!='one' else [(0,t[1]) for t in sel if t[0]==t[1]],im)
                if y is None: y=[0.]*nb
                x=[a-b for a,b in zip(x,y)]
            out.append(x)
        return out
    def wts(): return [sum(sum(D[t]['weight']) for t in select(method,sorted(D),(n,n),i)) for i in range(n)]
    def resetrng():
        if rng: rng.k=0; rng.draws=[]
    wt=wts() if method=='sample' else None
    Craw=cov_ref(method,rows(0,False),wt); Ccomp=cov_ref(method,rows(0,True),wt)
    diag=lambda C:[C[b][b] for b in range(nb)]
    if 'rawfirst' in mode: resetrng(); eng.eq('raw variance before',list(d.varxi),diag(Craw))
    resetrng(); out=calc(d,k,r)
    X=[sum(D[t]['_xi1'][b] for t in D)/sum(D[t]['weight'][b] for t in D)-sum(R[t]['_xi1'][b] for t in R)/sum(R[t]['weight'][b] for t in R) for b in range(nb)]
    eng.eq('xi',list(d.xi),X)
    eng.eq('variance',list(out[-1]),diag(Ccomp)); eng.eq('varxi',list(d.varxi),diag(Ccomp))
    for a in range(nb):
        for b in range(nb): eng.eq('cov',d.cov[a,b],Ccomp[a][b])
    resetrng(); A,_=d.build_cov_design_matrix(method)
    for i,x in enumerate(rows(0,True)): eng.eq('row%d'%i,list(A[i]),x)
    if corrs.nxi(k)>1:
        resetrng(); A,_=d.build_cov_design_matrix(method,func=lambda c:c.xi_im)
        for i,x in enumerate(rows(1,True)): eng.eq('imaginary row%d'%i,list(A[i]),x)
    resetrng(); A,_=d.build_cov_design_matrix(method,func=lambda c:c.raw_xi)
    for i,x in enumerate(rows(0,False)): eng.eq('raw row%d'%i,list(A[i]),x)
    eng.eq('xi unchanged by the estimates',list(d.xi),X)
    resetrng(); eng.eq('raw_varxi is the uncorrected variance',list(d.raw_varxi),diag(Craw))
    if 'back' in mode:
        resetrng(); calc(d,k,None); resetrng()
        eng.eq('back: varxi',list(d.varxi),diag(Craw)); resetrng(); eng.eq('back: cov',[d.cov[b,b] for b in range(nb)],diag(Craw))
def tasks(tier):
    T=[]; add=lambda nm,h,*a: T.append((nm,h,a)); th=tier=='thorough'
    for dr in (0,1):
        for rd in (0,1):
            for z in (None,0): add('NN dr=%d rd=%d empty=%s'%(dr,rd,z),h_nn,dr,rd,z,'NN',{})
    add('NN TwoD',h_nn,1,0,1,'NN',dict(bin_type='TwoD',min_sep=0,max_sep=4.))
    for full in (0,1):
        for z in (None,0):
            add('NNN full=%d empty=%s'%(full,z),h_nnn,full,z,'LogRUV'); add('NNN LogSAS full=%d empty=%s'%(full,z),h_nnn,full,z,'LogSAS')
    ms=('jackknife','sample','marked_bootstrap','bootstrap')
    for m in ms:
        for n in (2,3) if th else (2,):
            for auto in (True,False):
                for rrp in (1,0):
                    for drp in (None,'full','one'):
                        for rdp in (None,'full','one'):
                            if not rrp and (drp=='full' or rdp=='full') and not th: continue
                            if not rrp and n==3: continue
                            if n==3 and drp and rdp and drp!=rdp: continue
                            add('NN patches %s n=%d%s rr=%d dr=%s rd=%s'%(m,n,' auto' if auto else '',rrp,drp,rdp),h_nnpatch,m,n,auto,rrp,drp,rdp,'NN')
                            if rrp and n==2 and m=='jackknife': add('NN missing %s n=3%s dr=%s rd=%s'%(m,' auto' if auto else '',drp,rdp),h_nnpatch,m,3,auto,rrp,drp,rdp,'NN',((0,2),))
                            if rrp and n==2 and m!='jackknife': add('NN missing %s n=2%s dr=%s rd=%s'%(m,' auto' if auto else '',drp,rdp),h_nnpatch,m,2,auto,rrp,drp,rdp,'NN',((0,1),))
        for drp in (None,'full','one'):
            rdp='full' if drp else None
            if m=='jackknife' or drp!='one': add('NNN patches %s %s'%(m,drp),h_nnpatch,m,2,True,1,drp,rdp,'NNN')
    add('NNN patches jackknife one one',h_nnpatch,'jackknife',2,True,1,'one','one','NNN')
    for k in ('NK','NZ','NV','NG','NT','NQ'):
        add('compensated shot %s'%k,h_compshot,k)
        for o in ('','a','b','c','abc'):
            if k in('NK','NG') or th or o in('','c'): add('compensated %s %s'%(k,o),h_comp,k,o)
        for m in ms:
            for n in (2,3) if th else (3 if m=='jackknife' else 2,):
                for rkp in ('full','one'):
                    for miss in ((),((0,1),)):
                        for mode in ('','rawfirst','back'):
                            if not th and k not in('NK','NG') and (mode!='' or miss): continue
                            if n==3 and 'boot' in m and k not in ('NK','NG'): continue
                            add('compensated %s %s n=%d %s %s %s'%(k,m,n,rkp,'missing' if miss else '',mode),h_comppatch,k,m,n,rkp,miss,mode)
    return T
def one(nm,h,a,lim):
    e=Engine(nm)
    return e.run(lambda eng: h(eng,*a),corrs.MODS)
def run(tier,rep):
    report.run_cases(rep,[(one,(nm,h,a,0)) for nm,h,a in tasks(tier)],limit=780)
    rep.bounds='one or two bins, 2 (thorough: 3) patches, all values of the sums (symbolic reals, weights positive or exactly zero in a chosen bin), all combinations of randoms with and without patches, missing patch pairs, three draws for the bootstrap methods, repeated and alternating calls'
    rep.outside='rounding; the empirical factor of the three-point shot variance (only its sign is checked); randoms without patches in three-point rows; the random generator'
