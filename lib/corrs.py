"""building the package's correlation objects with symbolic contents"""
import sys, logging
import numpy as np
import os; sys.path.insert(0,os.environ.get('VERIF_REPO','/repo'))
import treecorr
TWO=['NN','NK','NZ','NV','NG','NT','NQ','KK','KZ','KV','KG','KT','KQ','ZZ','VV','GG','TT','QQ']
AUTO=('ZZ','VV','GG','TT','QQ')
LOG=logging.getLogger('verif'); LOG.setLevel(logging.CRITICAL); LOG.addHandler(logging.NullHandler()); LOG.propagate=False
def cls(k): return getattr(treecorr,k+'Correlation')
def nxi(k): return 0 if k=='NN' else 1 if k in('NK','KK') else 4 if k in AUTO else 2
def new(k,nbins=2,**kw):
    a=dict(min_sep=1.,max_sep=9.,nbins=nbins,bin_type='Linear'); a.update(kw)
    return cls(k)(a,logger=LOG)
ARR=['_xi1','_xi2','_xi3','_xi4','meanr','meanlogr','weight','npairs']
def fill(eng,c,k,name,pos=True,shape=None,empty=()):
    """symbolic raw sums in every array of c"""
    s=c.weight.shape
    for i in range(nxi(k)): getattr(c,'_xi%d'%(i+1))[...]=eng.arr('%sx%d'%(name,i),s)
    c.meanr[...]=eng.arr(name+'r',s,'pos'); c.meanlogr[...]=eng.arr(name+'l',s)
    c.weight[...]=eng.arr(name+'w',s,'pos' if pos else None); c.npairs[...]=eng.arr(name+'n',s,'pos')
    if k=='NN': c.tot=eng.pos(name+'t')
    return c
def raw(c,k):
    d={'_xi%d'%(i+1):getattr(c,'_xi%d'%(i+1)).copy() for i in range(nxi(k))}
    for a in ('meanr','meanlogr','weight','npairs'): d[a]=getattr(c,a).copy()
    if k=='NN': d['tot']=c.tot
    return d
MODS=['treecorr.corr2base','treecorr.corr3base','treecorr.util','treecorr.config','treecorr.catalog','treecorr.field']+['treecorr.%scorrelation'%k.lower() for k in TWO]+['treecorr.nnncorrelation','treecorr.kkkcorrelation','treecorr.gggcorrelation']
THREE=['NNN','KKK','GGG']
def nz3(k): return {'NNN':0,'KKK':1,'GGG':8}[k]
def new3(k,bt='LogRUV',**kw):
    if bt=='LogRUV': a=dict(min_sep=1.,max_sep=3.,nbins=1,nubins=1,nvbins=1,bin_type=bt)
    elif bt=='LogSAS': a=dict(min_sep=1.,max_sep=3.,nbins=1,nphi_bins=2,bin_type=bt)
    else: a=dict(min_sep=1.,max_sep=3.,nbins=1,max_n=1,bin_type=bt)
    a.update(kw)
    return cls(k)(a,logger=LOG)
ARR3=['meand1','meanlogd1','meand2','meanlogd2','meand3','meanlogd3','meanu','meanv','weightr','weighti','ntri']+['_z%d'%i for i in range(1,9)]
def raw3(c,k):
    d={a:getattr(c,a).copy() for a in ARR3 if isinstance(getattr(c,a,None),np.ndarray) and getattr(c,a).size>0}
    if k=='NNN': d['tot']=c.tot
    return d
def fill3(eng,c,k,name,small=False):
    for a in ARR3:
        x=getattr(c,a,None)
        if not isinstance(x,np.ndarray) or x.size==0: continue
        if small and a.startswith('mean') and a!='meand1': x[...]=0.5; continue
        x[...]=eng.arr(name+a,x.shape,'pos' if a in('weightr','ntri','meand1','meand2','meand3') else None)
    if k=='NNN': c.tot=eng.pos(name+'t')
    return c
