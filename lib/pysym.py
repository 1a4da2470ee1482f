"""Symbolic execution of the real Python code of /repo.

The functions of the installed package are run unmodified on proxy numbers (class S) that build z3 terms.  Whenever
the code under test turns a proxy comparison into a Python bool the engine decides, with z3, which outcomes are
possible under the path condition, follows one and schedules the other; the harness is re-executed until every
feasible path has been followed.  Obligations are z3 queries (path condition and negated claim).  Every
counterexample, and one model of every path, is replayed by running the same harness on plain Python floats with
plain numpy."""
import sys, time, math, os
from fractions import Fraction as F
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy as np
import z3
import symx, laurent
from symx import STATS
class PathEnd(Exception): pass
class Stop(BaseException): pass
class Unsupported(Exception): pass
ENG=None
def frac(x):
    if isinstance(x,F): return x
    if isinstance(x,(bool,np.bool_)): return F(int(x))
    if isinstance(x,(int,np.integer)): return F(int(x))
    if isinstance(x,(float,np.floating)):
        x=float(x)
        if not math.isfinite(x): raise Unsupported('non-finite constant')
        r=F(x); s=r.limit_denominator(1<<20)
        if float(s)==x: return s
        s=r.limit_denominator(4096)      # 1-1./3 and the like: the real number that was meant
        return s if abs(s-r)<=F(1,10**15)*abs(r) else r
    raise Unsupported('constant %r'%type(x))
def rv(x):
    x=frac(x); return z3.RealVal(x)
def ex(x):
    if isinstance(x,S): return x.e
    return rv(x)
def num(x): return isinstance(x,(int,float,np.integer,np.floating,F,bool,np.bool_))
class B:
    """symbolic bool"""
    __slots__=('e',)
    def __init__(self,e): self.e=e
    def __bool__(self): return ENG.branch(self.e)
    def __and__(self,o): return B(z3.And(self.e,bx(o)))
    def __or__(self,o): return B(z3.Or(self.e,bx(o)))
    def __invert__(self): return B(z3.Not(self.e))
    def __xor__(self,o): return B(z3.Xor(self.e,bx(o)))
    __rand__=__and__; __ror__=__or__; __rxor__=__xor__
    def logical_not(self): return ~self
    def __hash__(self): return id(self)
    def __int__(self): return int(bool(self))
    def __mul__(self,o): return S(z3.If(self.e,z3.RealVal(1),z3.RealVal(0)))*o
    __rmul__=__mul__
    def __add__(self,o): return S(z3.If(self.e,z3.RealVal(1),z3.RealVal(0)))+o
    __radd__=__add__
    def __eq__(self,o): return B(self.e==bx(o))
    def __ne__(self,o): return B(self.e!=bx(o))
def bx(o): return o.e if isinstance(o,B) else z3.BoolVal(bool(o))
class S:
    """symbolic real"""
    __slots__=('e',)
    __array_priority__=1000
    def __init__(self,e): self.e=e
    def _bin(self,o,f):
        if isinstance(o,SC) or isinstance(o,(complex,np.complexfloating)): return NotImplemented
        if isinstance(o,(float,np.floating)) and not math.isfinite(o): return _inf(self,o,f)
        if isinstance(o,S) or num(o): return S(f(self.e,ex(o)))
        if isinstance(o,B): return S(f(self.e,z3.If(o.e,z3.RealVal(1),z3.RealVal(0))))
        return NotImplemented
    def __add__(self,o):
        if num(o) and o==0: return self
        r=self._bin(o,lambda a,b:a+b)
        return SC(self)+o if r is NotImplemented and cplx(o) else r
    __radd__=__add__
    def __sub__(self,o):
        if num(o) and o==0: return self
        r=self._bin(o,lambda a,b:a-b)
        return SC(self)-o if r is NotImplemented and cplx(o) else r
    def __rsub__(self,o):
        r=self._bin(o,lambda a,b:b-a)
        return cx(o)-SC(self) if r is NotImplemented and cplx(o) else r
    def __mul__(self,o):
        if num(o) and o==1: return self
        r=self._bin(o,lambda a,b:a*b)
        return SC(self)*o if r is NotImplemented and cplx(o) else r
    __rmul__=__mul__
    def __truediv__(self,o):
        if num(o) and o==1: return self
        if isinstance(o,S): ENG.nonzero(o)
        elif num(o) and o==0: raise ZeroDivisionError
        r=self._bin(o,lambda a,b:a/b)
        return SC(self)/o if r is NotImplemented and cplx(o) else r
    def __rtruediv__(self,o):
        if cplx(o): return cx(o)/self
        ENG.nonzero(self)
        return self._bin(o,lambda a,b:b/a)
    def __floordiv__(self,o):
        q=self/o; return S(z3.ToReal(z3.ToInt(q.e)))
    def __mod__(self,o): return self-(self//o)*o
    def __pow__(self,o):
        if isinstance(o,S): raise Unsupported('symbolic exponent')
        p=frac(o)
        if p.denominator==1:
            n=int(p); r=S(z3.RealVal(1))
            for _ in range(abs(n)): r=r*self
            return r if n>=0 else 1/r
        if p==F(1,2): return self.sqrt()
        if p==F(-1,2): return 1/self.sqrt()
        if p==F(3,2): return self*self.sqrt()
        raise Unsupported('power %s'%p)
    def __rpow__(self,o): return S(ENG.fn('exp',(self*math.log(o)).e))
    def __neg__(self): return S(-self.e)
    def __pos__(self): return self
    def __abs__(self):
        return S(z3.If(self.e<0,-self.e,self.e))
    fabs=absolute=__abs__
    def square(self): return self*self
    def _cmp(self,o,f):
        if isinstance(o,(float,np.floating)) and math.isinf(o): return f(0.,o)
        if isinstance(o,(float,np.floating)) and math.isnan(o): return f(0.,o)
        if isinstance(o,S) or num(o): return B(f(self.e,ex(o)))
        return NotImplemented
    def __lt__(self,o): return self._cmp(o,lambda a,b:a<b)
    def __le__(self,o): return self._cmp(o,lambda a,b:a<=b)
    def __gt__(self,o): return self._cmp(o,lambda a,b:a>b)
    def __ge__(self,o): return self._cmp(o,lambda a,b:a>=b)
    def __eq__(self,o):
        if o is None or isinstance(o,str): return False
        if cplx(o): return SC(self)==o
        return self._cmp(o,lambda a,b:a==b)
    def __ne__(self,o):
        if o is None or isinstance(o,str): return True
        if cplx(o): return ~(SC(self)==o)
        return self._cmp(o,lambda a,b:a!=b)
    def __hash__(self): return 17
    def __bool__(self): return ENG.branch(self.e!=0)
    def sqrt(self):
        return S(ENG.sqrt(self.e))
    def exp(self): return S(ENG.fn('exp',self.e))
    def log(self): return S(ENG.fn('log',self.e))
    def arcsin(self): return S(ENG.fn('arcsin',self.e))
    def arccos(self): return S(ENG.fn('arccos',self.e))
    asin=arcsin; acos=arccos
    def sin(self): return S(ENG.fn('sin',self.e))
    def cos(self): return S(ENG.fn('cos',self.e))
    def conjugate(self): return self
    conj=conjugate
    @property
    def real(self): return self
    @property
    def imag(self): return 0.
    @property
    def ndim(self): return 0
    shape=()
    def item(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self,m): return self
    def __repr__(self): return 'S(%s)'%str(self.e)[:60]
    def __format__(self,f): return repr(self)
    def __reduce__(self): return (_unp,(ENG.pickle(self),))
    def isnan(self): return False
    def isfinite(self): return True
    def __float__(self): raise TypeError('float() of a symbolic value')
    def floor(self): return S(z3.ToReal(z3.ToInt(self.e)))
    def ceil(self): return S(-z3.ToReal(z3.ToInt(-self.e)))
    __floor__=floor; __ceil__=ceil
    def __int__(self):
        t=S(z3.If(self.e>=0,z3.ToReal(z3.ToInt(self.e)),-z3.ToReal(z3.ToInt(-self.e))))
        return ENG.concint(t.e)
    __trunc__=__int__
    def __index__(self): return ENG.concint(self.e)
    def __round__(self,n=None): return S(z3.ToReal(z3.ToInt(self.e+z3.RealVal('1/2')))) 
def _unp(i): return ENG.unpickle(i)
def _inf(s,o,f):
    raise Unsupported('arithmetic with a non-finite number')
def cplx(o): return isinstance(o,(SC,complex,np.complexfloating))
def cx(o):
    if isinstance(o,SC): return o
    if isinstance(o,(complex,np.complexfloating)): return SC(o.real,o.imag)
    return SC(o)
class SC:
    """symbolic complex"""
    __slots__=('real','imag')
    __array_priority__=1001
    def __init__(self,r,i=0.): self.real=r; self.imag=i
    def __add__(self,o): o=cx(o); return SC(self.real+o.real,self.imag+o.imag)
    __radd__=__add__
    def __sub__(self,o): o=cx(o); return SC(self.real-o.real,self.imag-o.imag)
    def __rsub__(self,o): return cx(o)-self
    def __mul__(self,o): o=cx(o); return SC(self.real*o.real-self.imag*o.imag,self.real*o.imag+self.imag*o.real)
    __rmul__=__mul__
    def __truediv__(self,o):
        if cplx(o):
            o=cx(o); n=o.real*o.real+o.imag*o.imag; return self*SC(o.real/n,-o.imag/n)
        return SC(self.real/o,self.imag/o)
    def __rtruediv__(self,o): return cx(o)/self
    def __neg__(self): return SC(-self.real,-self.imag)
    def conjugate(self): return SC(self.real,-self.imag)
    conj=conjugate
    def __abs__(self): return (self.real*self.real+self.imag*self.imag+S(z3.RealVal(0))).sqrt()
    absolute=__abs__
    def __pow__(self,n):
        r=SC(1.,0.)
        for _ in range(int(n)): r=r*self
        return r
    def __eq__(self,o):
        o=cx(o); a=S(ex(self.real))==o.real; b=S(ex(self.imag))==o.imag; return a&b
    def __ne__(self,o): return ~(self==o)
    def __hash__(self): return 18
    def __bool__(self): return bool(self!=0)
    def __repr__(self): return 'SC(%r,%r)'%(self.real,self.imag)

class SA(np.ndarray):
    """object array that pretends to be a float array"""
    __array_priority__=3000
    def astype(self,t,*a,**k):
        if t is int or t in ('int',) : return np.array([int(x) for x in self.ravel()],dtype=int).reshape(self.shape)
        if t is bool: return np.array([bool(x) for x in self.ravel()],dtype=bool).reshape(self.shape)
        return self.copy()
    def __array_finalize__(self,o): pass
    def __array_wrap__(self,out,context=None,return_scalar=False):
        if out.ndim==0: return out[()]
        return np.ndarray.__array_wrap__(self,out,context)
    @property
    def real(self): return elem(lambda x:x.real,self)
    @real.setter
    def real(self,v):
        v=np.broadcast_to(np.asarray(v,dtype=object),self.shape)
        for i in np.ndindex(self.shape): self[i]=SC(v[i],self[i].imag)
    @property
    def imag(self): return elem(lambda x:x.imag if not num(x) else 0.,self)
    @imag.setter
    def imag(self,v):
        v=np.broadcast_to(np.asarray(v,dtype=object),self.shape)
        for i in np.ndindex(self.shape): self[i]=SC(self[i].real,v[i])
    def any(self,*a,**k):
        if a or k: return np.ndarray.any(self,*a,**k)
        for x in np.asarray(self).ravel():
            if bool(x!=0) if not isinstance(x,B) else bool(x): return True
        return False
    def all(self,*a,**k):
        if a or k: return np.ndarray.all(self,*a,**k)
        for x in np.asarray(self).ravel():
            if not (bool(x!=0) if not isinstance(x,B) else bool(x)): return False
        return True
def elem(f,a):
    a=np.asarray(a); out=np.empty(a.shape,dtype=object)
    for i in np.ndindex(a.shape): out[i]=f(a[i])
    return out.view(SA)
def has(x):
    if isinstance(x,(S,SC,B)): return True
    if isinstance(x,np.ndarray): return x.dtype==object
    if isinstance(x,(list,tuple)): return any(has(y) for y in x)
    return False
def isf(dt): return dt is None or dt is float or dt in (np.float64,'float','f8') or dt is complex or dt in (np.complex128,'complex') or dt is object or (isinstance(dt,np.dtype) and dt.kind in 'fcO') or getattr(dt,'__name__','')=='sfloat'
def obj(a): return np.asarray(a,dtype=object).view(SA)
class Shim:
    """stands in for numpy inside the modules under test (symbolic runs only)"""
    def __init__(self,over=None): self.__dict__['_o']=dict(over or {})
    def __getattr__(self,k):
        if k in self._o: return self._o[k]
        return getattr(np,k)
    ndarray=np.ndarray
    def zeros(self,s,dtype=float,**k):
        if not isf(dtype): return np.zeros(s,dtype=dtype,**k)
        a=np.empty(s,dtype=object); a[...]=0.; return a.view(SA)
    def ones(self,s,dtype=float,**k):
        if not isf(dtype): return np.ones(s,dtype=dtype,**k)
        a=np.empty(s,dtype=object); a[...]=1.; return a.view(SA)
    def full(self,s,v,dtype=None,**k):
        if not isf(dtype): return np.full(s,v,dtype=dtype,**k)
        a=np.empty(s,dtype=object); a[...]=v; return a.view(SA)
    def empty(self,s,dtype=float,**k):
        if not isf(dtype): return np.empty(s,dtype=dtype,**k)
        return self.zeros(s)
    def zeros_like(self,a,dtype=None,**k):
        a=np.asarray(a)
        if not isf(dtype) or (dtype is None and a.dtype.kind in 'iub'): return np.zeros_like(a,dtype=dtype,**k)
        return self.zeros(a.shape)
    def ones_like(self,a,dtype=None,**k):
        a=np.asarray(a)
        if not isf(dtype) or (dtype is None and a.dtype.kind in 'iub'): return np.ones_like(a,dtype=dtype,**k)
        return self.ones(a.shape)
    def empty_like(self,a,dtype=None,**k): return self.zeros_like(a,dtype,**k)
    def full_like(self,a,v,dtype=None,**k): return self.full(np.asarray(a).shape,v)
    def array(self,a,dtype=None,copy=True,**k):
        if has(a) and isf(dtype): return np.array(a,dtype=object,copy=copy,**k).view(SA)
        if has(a): return obj(a).astype(dtype)
        return np.array(a,dtype=dtype,copy=copy,**k)
    def asarray(self,a,dtype=None,**k):
        if has(a) and isf(dtype): return np.asarray(a,dtype=object,**k).view(SA)
        return np.asarray(a,dtype=dtype,**k)
    def asanyarray(self,a,dtype=None,**k): return self.asarray(a,dtype)
    def ascontiguousarray(self,a,dtype=None,**k):
        if has(a): return self.asarray(a)
        return np.ascontiguousarray(a,dtype=dtype,**k)
    def atleast_1d(self,a): return obj(a) if has(a) and np.ndim(a)>0 else (obj([a]) if has(a) else np.atleast_1d(a))
    def isnan(self,a):
        if isinstance(a,(S,SC)): return False
        if has(a): return np.array([isinstance(x,(float,np.floating)) and math.isnan(x) for x in np.asarray(a).ravel()],dtype=bool).reshape(np.shape(a))
        return np.isnan(a)
    def isfinite(self,a):
        if isinstance(a,(S,SC)): return True
        if has(a): return np.array([not(isinstance(x,(float,np.floating)) and not math.isfinite(x)) for x in np.asarray(a).ravel()],dtype=bool).reshape(np.shape(a))
        return np.isfinite(a)
    def isinf(self,a): return ~self.isfinite(a) if not isinstance(a,(S,SC)) else False
    def any(self,a,*r,**k):
        if has(a) and not r and not k: return obj(a).any()
        return np.any(a,*r,**k)
    def all(self,a,*r,**k):
        if has(a) and not r and not k: return obj(a).all()
        return np.all(a,*r,**k)
    def where(self,c,*r):
        if has(c): c=np.array([bool(x) for x in np.asarray(c).ravel()],dtype=bool).reshape(np.shape(c))
        if not r: return np.where(c)
        if has(r[0]) or has(r[1]):
            c,a,b=np.broadcast_arrays(c,np.asarray(r[0],dtype=object),np.asarray(r[1],dtype=object))
            out=np.empty(c.shape,dtype=object)
            for i in np.ndindex(c.shape): out[i]=a[i] if c[i] else b[i]
            return out.view(SA)
        return np.where(c,*r)
    def real(self,a): return a.real if isinstance(a,(S,SC,SA)) else elem(lambda x:x.real,a) if has(a) else np.real(a)
    def imag(self,a): return a.imag if isinstance(a,(S,SC,SA)) else elem(lambda x:x.imag,a) if has(a) else np.imag(a)
    def conj(self,a): return a.conjugate() if isinstance(a,(S,SC)) else elem(lambda x:x.conjugate(),a) if has(a) else np.conj(a)
    conjugate=conj
    def abs(self,a): return abs(a) if isinstance(a,(S,SC)) else elem(lambda x:abs(x),a) if has(a) else np.abs(a)
    absolute=abs
    def _f(self,n,a,**k):
        if isinstance(a,S): return getattr(a,n)()
        if has(a):
            r=elem(lambda x:getattr(x,n)() if isinstance(x,(S,SC)) else getattr(np,n)(x),a)
            if 'out' in k:
                w=np.broadcast_to(k.get('where',True),r.shape); o=k['out']
                for i in np.ndindex(r.shape):
                    if w[i]: o[i]=r[i]
                return o
            return r
        return getattr(np,n)(a,**k)
    def sqrt(self,a,**k): return self._f('sqrt',a,**k)
    def exp(self,a,**k): return self._f('exp',a,**k)
    def log(self,a,**k):
        if has(a) and 'where' in k:   # only take the logarithm where asked
            a=np.asarray(a); w=np.asarray(k['where']); w=np.broadcast_to(np.array([bool(x) for x in w.ravel()]).reshape(w.shape),a.shape); o=k['out']
            for i in np.ndindex(a.shape):
                if w[i]: o[i]=a[i].log() if isinstance(a[i],S) else math.log(a[i])
            return o
        return self._f('log',a,**k)
    def sin(self,a,**k): return self._f('sin',a,**k)
    def cos(self,a,**k): return self._f('cos',a,**k)
    def arcsin(self,a,**k): return self._f('arcsin',a,**k)
    def arccos(self,a,**k): return self._f('arccos',a,**k)
    def floor(self,a,**k): return self._f('floor',a,**k)
    def ceil(self,a,**k): return self._f('ceil',a,**k)
    def linspace(self,start,stop,num=50,endpoint=True,dtype=None,**k):
        a,b,n=start,stop,int(num); d=n-1 if endpoint else n
        return obj([a+(b-a)*F(i,d) if d else a for i in range(n)])
    def arange(self,*a,**k):
        a=[ENG.concint(x.e) if isinstance(x,S) else x for x in a]
        return np.arange(*a,**k)
    def max(self,a,*r,**k): return mx(a) if has(a) and not r and not k else np.max(a,*r,**k)
    def min(self,a,*r,**k): return mn(a) if has(a) and not r and not k else np.min(a,*r,**k)
    def sum(self,a,*r,**k):
        k.pop('dtype',None) if has(a) else None
        if isinstance(a,(list,tuple)) and has(a): a=obj(a)
        return np.sum(a,*r,**k)
    def mean(self,a,axis=None,**k):
        if has(a):
            a=obj(a); return np.sum(a,axis=axis)*F(1,a.size if axis is None else a.shape[axis])
        return np.mean(a,axis=axis,**k)
    def average(self,a,axis=None,weights=None,**k):
        if has(a) or has(weights):
            if weights is None: return self.mean(a,axis)
            A=obj(a); w_=obj(weights)
            if w_.shape!=A.shape:
                sh=[1]*A.ndim; sh[axis]=w_.size; w_=np.broadcast_to(w_.reshape(sh),A.shape)
            return np.sum(A*w_,axis=axis)/np.sum(w_,axis=axis)
        return np.average(a,axis=axis,weights=weights,**k)
    def var(self,a,axis=None,ddof=0,**k):
        if has(a):
            a=obj(a); m=self.mean(a,axis); d=a-(m if axis in (None,0) else np.expand_dims(m,axis)); n=a.size if axis is None else a.shape[axis]
            return np.sum(d*d,axis=axis)*F(1,n-ddof)
        return np.var(a,axis=axis,ddof=ddof,**k)
    def cov(self,m,rowvar=True,bias=False,ddof=None,**k):
        if not has(m): return np.cov(m,rowvar=rowvar,bias=bias,ddof=ddof,**k)
        X=obj(m); X=X if rowvar else X.T
        if X.ndim==1: X=X[None]
        n=X.shape[1]; dd=ddof if ddof is not None else (0 if bias else 1)
        Y=X-(np.sum(X,axis=1)*F(1,n))[:,None]
        C=np.dot(Y,Y.T)*F(1,n-dd)
        return C if C.size>1 else C[0,0]
    def einsum(self,s,*a,**k):
        return obj(np.einsum(s,*[np.asarray(x,dtype=object) for x in a])) if any(has(x) for x in a) else np.einsum(s,*a,**k)
    def array_equal(self,a,b):
        if not has(a) and not has(b): return np.array_equal(a,b)
        a,b=np.asarray(a),np.asarray(b)
        if a.shape!=b.shape: return False
        for x,y in zip(a.ravel(),b.ravel()):
            if not bool(x==y): return False
        return True
    def isscalar(self,a): return True if isinstance(a,(S,SC)) else np.isscalar(a)
    def iscomplexobj(self,a): return True if isinstance(a,SC) else any(isinstance(x,SC) for x in np.asarray(a).ravel()) if has(a) else np.iscomplexobj(a)
    def minimum(self,a,b,**k): return mn([a,b]) if not np.ndim(a) and not np.ndim(b) and (has(a) or has(b)) else np.minimum(a,b,**k)
    def maximum(self,a,b,**k): return mx([a,b]) if not np.ndim(a) and not np.ndim(b) and (has(a) or has(b)) else np.maximum(a,b,**k)
def _wrap(n):
    f=Shim.__dict__[n]; g=getattr(np,n)
    def h(self,*a,**k):
        if any(has(x) for x in a) or any(has(x) for x in k.values()): return f(self,*a,**k)
        if n in self._o: return self._o[n](*a,**k)
        r=g(*a,**k)
        return obj(r) if isinstance(r,np.ndarray) and r.ndim and r.dtype.kind in 'fc' else r
    h.__name__=n; setattr(Shim,n,h)
for _n in ('linspace','sqrt','exp','log','sin','cos','arcsin','arccos','floor','ceil','max','min','sum','mean','average','var','cov','einsum','abs','real','imag','conj','where','minimum','maximum','isnan','isfinite','isinf','any','all','array_equal'): _wrap(_n)
def mx(a):
    r=None
    for x in np.asarray(a,dtype=object).ravel():
        if r is None or bool(x>r): r=x
    return r
def mn(a):
    r=None
    for x in np.asarray(a,dtype=object).ravel():
        if r is None or bool(x<r): r=x
    return r
class MathShim:
    def __getattr__(self,k): return getattr(math,k)
    def log(self,x,*a): return x.log() if isinstance(x,S) else math.log(x,*a)
    def exp(self,x): return x.exp() if isinstance(x,S) else math.exp(x)
    def sqrt(self,x): return x.sqrt() if isinstance(x,S) else math.sqrt(x)
    def ceil(self,x): return ENG.concint(x.ceil().e) if isinstance(x,S) else math.ceil(x)
    def floor(self,x): return ENG.concint(x.floor().e) if isinstance(x,S) else math.floor(x)
class _M(type):
    def __instancecheck__(c,x): return isinstance(x,float)
class sfloat(float,metaclass=_M):
    def __new__(c,x=0.): return x if isinstance(x,S) else float(x)
class _MI(type):
    def __instancecheck__(c,x): return isinstance(x,int)
class sint(int,metaclass=_MI):
    def __new__(c,x=0,*a): return int(x,*a)

class Engine:
    def __init__(self,name,timeout=20000,deadline=None,max_paths=4000,branch_to=4000):
        self.name=name; self.timeout=timeout; self.deadline=deadline or time.time()+600; self.max_paths=max_paths; self.bt=branch_to
        self.res=dict(case=name,paths=0,branches=0,steps=0,validated=0,unvalidated=0,functions=set(),assumptions=set(),obligations=0,
            violations=[],undecided=[],errors=[],samples=[]); self.undef=0; self.reached=set()
    # ---- symbols
    def var(self,name,lo=None,hi=None,strict=False):
        if self.vals is not None:
            return float(self.vals.get(name,self._default(lo,hi)))
        v=z3.Real(name); self.vars[name]=v
        if lo is not None:
            self.assume_e(v>rv(lo) if strict else v>=rv(lo))
            if num(lo) and lo>=0: self.signs[v.get_id()]=2 if strict or lo>0 else 1
        if hi is not None: self.assume_e(v<rv(hi) if strict else v<=rv(hi))
        return S(v)
    def pos(self,name): return self.var(name,0,None,True)
    def _default(self,lo,hi): return lo+1 if lo is not None else (hi-1 if hi is not None else 1.)
    def int(self,name,lo,hi):
        """an integer chosen by the solver in lo..hi (each feasible value becomes a path)"""
        if self.vals is not None: return int(round(float(self.vals.get(name,lo))))
        v=z3.Int(name); self.vars[name]=v; self.assume_e(z3.And(v>=lo,v<=hi))
        for k in range(lo,hi):
            if self.branch(v==k): return k
        return hi
    def sint(self,name,lo,hi):
        """an integer that stays symbolic"""
        if self.vals is not None: return int(round(float(self.vals.get(name,lo))))
        v=z3.Real(name); i=z3.Int(name+'!i'); self.vars[name]=v; self.assume_e(z3.And(v==z3.ToReal(i),i>=lo,i<=hi)); return S(v)
    def bool(self,name):
        if self.vals is not None: return bool(self.vals.get(name,False))
        v=z3.Bool(name); self.vars[name]=v; return self.branch(v)
    def arr(self,name,shape,kind=None):
        shape=(shape,) if isinstance(shape,int) else tuple(shape)
        if kind=='complex': return self.carr(name,shape)
        f=self.pos if kind=='pos' else self.var
        if self.vals is not None:
            a=np.empty(shape)
            for i in np.ndindex(shape): a[i]=f('%s_%s'%(name,'_'.join(map(str,i))))
            return a
        a=np.empty(shape,dtype=object)
        for i in np.ndindex(shape): a[i]=f('%s_%s'%(name,'_'.join(map(str,i))))
        return a.view(SA)
    def carr(self,name,shape):
        re=self.arr(name+'r',shape); im=self.arr(name+'i',shape)
        if self.vals is not None: return re+1j*im
        out=np.empty(re.shape,dtype=object)
        for i in np.ndindex(re.shape): out[i]=SC(re[i],im[i])
        return out.view(SA)
    # ---- path condition
    def assume_e(self,e):
        self.pc.append(e); self.solver.add(nodiv(e))
    def assume(self,c):
        if self.vals is not None:
            if not bool(c): raise PathEnd('assumption')
            return
        if isinstance(c,B):
            self.assume_e(c.e)
            if self.pos_==len(self.prefix) and self._sat([])==z3.unsat: raise PathEnd('assumption')
        elif not bool(c): raise PathEnd('assumption')
    def aux(self): return self.auxc
    def _sat(self,extra):
        t=time.time(); self.solver.set('timeout',self.bt); self.solver.push(); self.solver.add(*[nodiv(x) for x in extra])
        r=self.solver.check(); self.solver.pop(); STATS.add(str(r),time.time()-t)
        return r
    def branch(self,e):
        if self.vals is not None: raise RuntimeError
        e=z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        k=e.get_id()
        if k in self.known: return self.known[k]
        q=self.quick(e)
        if q is not None: self.known[k]=q; self.keep.append(e); return q
        self.res['branches']+=1
        if self.pos_<len(self.prefix):
            c,forced=self.prefix[self.pos_]
        else:
            if time.time()>self.deadline: raise Stop('deadline')
            a=self._sat([e]); b=self._sat([z3.Not(e)])
            if a==z3.unsat and b==z3.unsat: raise PathEnd('infeasible')
            if z3.unknown in (a,b): self.unk+=1
            if a==z3.unsat: c,forced=False,True
            elif b==z3.unsat: c,forced=True,True
            else:
                c,forced=True,False
                self.todo.append(self.prefix[:self.pos_]+[(False,False)])
            self.prefix=self.prefix+[(c,forced)]
        self.pos_+=1
        self.keep.append(e); self.known[k]=c
        ne=z3.simplify(z3.Not(e)); self.keep.append(ne); self.known[ne.get_id()]=not c
        self.assume_e(e if c else z3.Not(e))
        return c
    def sign(self,e):
        """2: positive, 1: non-negative, -1/-2: non-positive/negative, 0: zero, None: not known (from the assumed signs alone)"""
        if z3.is_rational_value(e):
            n=e.numerator_as_long(); return 0 if n==0 else 2 if n>0 else -2
        k=e.get_id()
        if k in self.signs: return self.signs[k]
        d=e.decl().kind(); c=e.children(); r=None
        if d==z3.Z3_OP_ADD:
            ss=[self.sign(x) for x in c]
            if None not in ss:
                if all(x>=0 for x in ss): r=max(ss)
                elif all(x<=0 for x in ss): r=min(ss)
        elif d==z3.Z3_OP_UMINUS:
            r=self.sign(c[0]); r=None if r is None else -r
        elif d in (z3.Z3_OP_MUL,z3.Z3_OP_DIV):
            ss=[self.sign(x) for x in c]
            if len(c)==2 and c[0].eq(c[1]) and d==z3.Z3_OP_MUL: r=2 if ss[0] in (2,-2) else 1
            elif 0 in ss: r=0
            elif None not in ss:
                r=2 if all(abs(x)==2 for x in ss) else 1
                if sum(x<0 for x in ss)%2: r=-r
        if r is not None: self.signs[k]=r; self.keep.append(e)
        return r
    def quick(self,e):
        k=e.decl().kind()
        if k==z3.Z3_OP_NOT: q=self.quick(e.arg(0)); return None if q is None else not q
        if k==z3.Z3_OP_DISTINCT and e.num_args()==2 or k in (z3.Z3_OP_LE,z3.Z3_OP_GE,z3.Z3_OP_LT,z3.Z3_OP_GT,z3.Z3_OP_EQ):
            a,b=e.arg(0),e.arg(1)
            if not z3.is_real(a): return None
            if self.sign(b)!=0:
                if self.sign(a)!=0: return None
                s=self.sign(b); s=None if s is None else -s
            else: s=self.sign(a)
            if s is None: return None
            if k==z3.Z3_OP_EQ: return False if abs(s)==2 else True if s==0 else None
            if k==z3.Z3_OP_DISTINCT: return True if abs(s)==2 else False if s==0 else None
            if k==z3.Z3_OP_GE: return True if s>=0 else False if s==-2 else None
            if k==z3.Z3_OP_LT: return False if s>=0 else True if s==-2 else None
            if k==z3.Z3_OP_LE: return True if s<=0 else False if s==2 else None
            if k==z3.Z3_OP_GT: return False if s<=0 else True if s==2 else None
        return None
    def nonzero(self,s):
        e=z3.simplify(s.e)
        if z3.is_rational_value(e):
            if e.numerator_as_long()==0: raise ZeroDivisionError
            return
        if not self.branch(e!=0): raise PathEnd('division by zero')
    def concint(self,e):
        e=z3.simplify(e)
        if z3.is_rational_value(e): return int(e.numerator_as_long()//e.denominator_as_long())
        for k in range(0,64):
            for s in ((k,) if k==0 else (k,-k)):
                if self._sat([e==s])!=z3.unsat:
                    if self.branch(e==s): return s
        raise Unsupported('integer value out of range')
    def canon(self,e):
        # expand to a sum of monomials, unless that would blow up
        n=0; st=[e]; seen=set()
        while st and n<=300:
            x=st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id()); n+=1; st.extend(x.children())
        return z3.simplify(e,som=n<=300)
    def sqrt(self,e):
        e=self.canon(e)
        if z3.is_rational_value(e):
            f=F(e.numerator_as_long(),e.denominator_as_long())
            if f>=0:
                a,b=math.isqrt(f.numerator),math.isqrt(f.denominator)
                if a*a==f.numerator and b*b==f.denominator: return z3.RealVal(F(a,b))
        k=('sqrt',e.get_id())
        if k not in self.fns:
            if not self.branch(e>=0): raise PathEnd('square root of a negative number')
            v=z3.Real('sqrt!%d'%len(self.fns)); self.fns[k]=(v,e); self.keep.append(e); self.assume_e(z3.And(v>=0,v*v==e)); self.signs[v.get_id()]=2 if self.sign(e)==2 else 1; self.keep.append(v)
        return self.fns[k][0]
    def fn(self,n,e):
        e=self.canon(e)
        if n=='exp' and z3.is_rational_value(e) and e.numerator_as_long()==0: return z3.RealVal(1)
        if n=='log' and z3.is_rational_value(e) and e.numerator_as_long()==e.denominator_as_long(): return z3.RealVal(0)
        for (m,_),(v,x) in self.fns.items():   # inverse functions
            if m==('log' if n=='exp' else 'exp') and n in('exp','log') and v.eq(e): return x
        k=(n,e.get_id())
        if k not in self.fns:
            if n=='log' and not self.branch(e>0): raise PathEnd('log of a non-positive number')
            v=z3.Real('%s!%d'%(n,len(self.fns))); self.keep.append(e)
            for (m,_),(w,x) in list(self.fns.items()):
                if m==n and n in('exp','log'): self.assume_e(z3.And((x<e)==(w<v),(x==e)==(w==v)))
                elif m==n: self.assume_e(z3.Implies(x==e,w==v))
            self.fns[k]=(v,e)
            if n=='exp': self.assume_e(z3.And(v>0,(e>0)==(v>1),(e==0)==(v==1),v>=1+e))
            if n=='log': self.assume_e(z3.And((e>1)==(v>0),(e==1)==(v==0),v<=e-1,v*e>=e-1))
        return self.fns[k][0]
    def pickle(self,s): self.pk.append(s); return len(self.pk)-1
    def unpickle(self,i): return self.pk[i]
    # ---- obligations
    def check(self,what,c,key=None):
        self.reached.add(what)
        if self.vals is not None:
            if not bool(c): self.fails.append(what)
            return
        if not isinstance(c,B): c=B(z3.BoolVal(bool(c)))
        self.obl.append((what,c.e,key))
    def eq(self,what,a,b,key=None,tol=1e-8):
        if isinstance(a,np.ndarray) or isinstance(b,np.ndarray) or isinstance(a,(list,tuple)):
            a=np.asarray(a,dtype=object if self.vals is None else None); b=np.asarray(b,dtype=object if self.vals is None else None)
            if a.shape!=b.shape: return self.check(what+' (shape)',False,key)
            for i in np.ndindex(a.shape): self.eq('%s%s'%(what,list(i)),a[i],b[i],key,tol)
            return
        self.reached.add(what)
        if self.vals is not None:
            d=abs(a-b); ok=d<=tol*(1+abs(a)+abs(b)) or (a!=a and b!=b) or a==b
            if not ok: self.fails.append('%s: %r instead of %r'%(what,a,b))
            return
        if isinstance(a,SC) or isinstance(b,SC) or isinstance(a,complex) or isinstance(b,complex):
            a,b=cx(a),cx(b); self.eq(what+'.real',a.real,b.real,key); return self.eq(what+'.imag',a.imag,b.imag,key)
        for x in (a,b):
            if isinstance(x,(float,np.floating)) and not math.isfinite(x):
                y=b if x is a else a
                return self.check(what,num(y) and not isinstance(y,F) and (x==y or (x!=x and y!=y)),key)
        if not isinstance(a,S) and not isinstance(b,S):
            return self.check(what,bool(abs(a-b)<=tol*(1+abs(a)+abs(b))),key)
        self.obl.append((what,('eq',ex(a),ex(b)),key))
    def _prove_eq(self,a,b):
        """counterexample condition for a==b, as a polynomial disequation"""
        if a.eq(b) or z3.simplify(a).eq(z3.simplify(b)): return z3.BoolVal(False)
        if laurent.equal(a,b,self.norm): return z3.BoolVal(False)
        pt=self._point(a,b)
        if pt is not None: return pt
        n1,d1=rat(a); n2,d2=rat(b)
        p=z3.simplify(n1*d2-n2*d1,som=True)
        return p!=0
    def _point(self,a,b):
        """a place to look for a counterexample: input values where the two sides differ.  The condition returned still
        goes to the solver together with the path condition."""
        import random; rnd=random.Random(5)
        for t in range(3):
            sub=[]
            for k,v in self.vars.items():
                if z3.is_real(v):
                    x=F(rnd.randint(1,12),rnd.choice((1,2,3,4)))
                    if not self.signs.get(v.get_id()) and rnd.random()<.4: x=-x
                    sub.append((v,rv(x)))
            d=z3.simplify(z3.substitute(a-b,*sub))
            if not z3.is_rational_value(d): return None
            if d.numerator_as_long()==0: return None
            c=[v==x for v,x in sub]
            if t<2 and any(z3.is_false(z3.simplify(z3.substitute(q,*sub))) for q in self.pc): continue
            self.solver.set('timeout',1000); r=self._sat(c)
            if r==z3.sat: return z3.And(*c)
        return None
    # ---- driver
    def _reset(self,prefix):
        self.prefix=prefix; self.pos_=0; self.pc=[]; self.known={}; self.keep=[]; self.fns={}; self.vars={}; self.obl=[]; self.auxc=[]; self.auxn=0; self.pk=[]
        self.solver=z3.Solver(); self.norm=laurent.Norm(); self.signs={}
    def _model(self,m):
        out={}
        for n,v in self.vars.items():
            x=m.eval(v,model_completion=True)
            if z3.is_bool(v): out[n]=z3.is_true(x)
            elif z3.is_rational_value(x): out[n]=F(x.numerator_as_long(),x.denominator_as_long())
            elif z3.is_algebraic_value(x):
                y=x.approx(20); out[n]=F(y.numerator_as_long(),y.denominator_as_long())
            else: out[n]=F(x.as_long()) if z3.is_int_value(x) else F(1)
        return out
    def concrete(self,fn,vals):
        global ENG
        old=(self.fails if hasattr(self,'fails') else None)
        self.vals={k:(v if isinstance(v,bool) else float(v)) for k,v in vals.items()}; self.fails=[]; self.note=None
        self.fns={}
        ENG=self
        try: fn(self)
        except PathEnd as e: self.note=str(e)
        except Stop: raise
        except Exception as e:
            import traceback
            self.fails.append('exception: %s: %s'%(type(e).__name__,str(e)[:200])); self.tb=traceback.format_exc()[-1500:]
        finally: self.vals_used=self.vals; self.vals=None
        return self.fails
    def run(self,fn,modules=(),floats=(),ints=(),over=None,npover=None,trace=True,expect_exc=()):
        """fn(eng): the harness; modules: module names whose np/math are replaced during symbolic runs"""
        global ENG
        import coverage_fns
        self.fn_=fn; self.vals=None; self.todo=[[]]; self.unk=0; t0=time.time(); R=self.res
        mods=[sys.modules[m] for m in modules]; shim=Shim(npover); ms=MathShim()
        try:
            while self.todo:
                if R['paths']>=self.max_paths or time.time()>self.deadline: R['undecided'].append('path or time limit'); break
                ENG=self; self._reset(self.todo.pop())
                saved=[]
                for m in mods:
                    for k,v in (('np',shim),('math',ms))+((('float',sfloat),) if m.__name__ in floats else ())+((('int',sint),) if m.__name__ in ints else ()):
                        if k in('float','int') or k in m.__dict__:
                            saved.append((m,k,m.__dict__.get(k,None),k in m.__dict__)); m.__dict__[k]=v
                self.symbolic=True; exc=None; end=None
                try:
                    with coverage_fns.Trace(R['functions'],trace): fn(self)
                except PathEnd as e: end=str(e)
                except Stop: R['undecided'].append('time limit during a path'); break
                except Exception as e:
                    import traceback
                    exc=e; tb=traceback.format_exc()[-1800:]
                finally:
                    for m,k,v,had in saved:
                        if had: m.__dict__[k]=v
                        else: m.__dict__.pop(k,None)
                    self.symbolic=False
                if end in('infeasible','assumption'): continue
                if end is not None: self.undef+=1
                R['paths']+=1
                if exc is not None:
                    # does the real code raise on a model of this path too?
                    m=self._modelof([])
                    pc_,obl_,vars_=self.pc,self.obl,self.vars
                    f=self.concrete(fn,m) if m is not None else []
                    if any(x.startswith('exception') for x in f):
                        self._viol('raises %s: %s'%(type(exc).__name__,str(exc)[:150]),m,f,None)
                    else: R['errors'].append('%s: %s'%(type(exc).__name__,tb[-1500:]))
                    if len(R['errors'])>3: break
                    continue
                if time.time()>self.deadline: R['undecided'].append('time limit'); break
                self._discharge(fn)
                if len(R['violations'])>=6: break
        finally: ENG=None
        R['steps']=R['branches']
        if self.undef: R['undefined_paths']=self.undef
        if self.unk: R['assumptions'].add('branch feasibility undecided by the solver is treated as feasible (%d times)'%self.unk if False else 'a branch whose feasibility the solver cannot decide is followed both ways')
        if R['paths']==0 and not R['errors']: R['vacuous']='no feasible path'
        elif R['obligations']==0 and not R['errors'] and not R['undecided']: R['vacuous']='no obligation was reached'
        R['functions']=sorted(R['functions']); R['assumptions']=sorted(R['assumptions'])
        return R
    def _pc(self):
        """path condition with divisions removed"""
        return [nodiv(c) for c in self.pc]
    def _modelof(self,extra):
        cs=self._pc()+extra
        r,m=symx.solve(cs,self.timeout)
        return self._model(m) if r=='sat' else None
    def _guess(self,fn):
        """a model of the conditions on the inputs alone (roots and logarithms left out) whose run satisfies everything"""
        ids={v.get_id() for v,_ in self.fns.values()}; memo={}
        def has(e):
            k=e.get_id()
            if k not in memo: memo[k]=k in ids or any(has(c) for c in e.children())
            return memo[k]
        r,m=symx.solve([c for c in self._pc() if not has(c)],min(self.timeout,3000))
        if r!='sat': return None
        mv=self._model(m); f=self.concrete(fn,mv)
        return None if f else mv
    def _discharge(self,fn):
        R=self.res; pcs=self._pc(); obl=self.obl; vars_=self.vars
        # one query for all of them, then one by one if that does not settle it
        neg=[]
        for what,c,key in obl:
            R['obligations']+=1
            neg.append(self._prove_eq(c[1],c[2]) if isinstance(c,tuple) else z3.Not(nodiv(c)))
        live=[(o,n) for o,n in zip(obl,neg) if not z3.is_false(z3.simplify(n))]
        for _ in range(len(obl)-len(live)): STATS.add('unsat',0.)   # the solver's normal form of the negated claim is false
        for (what,c,key),n in live:
            r,m=symx.solve(pcs+[n],self.timeout)
            if r=='unsat': continue
            if r=='unknown': R['undecided'].append(what[:200]); continue
            mv=self._model(m); f=self.concrete(fn,mv)
            hit=[x for x in f if x.startswith(what.split(' (shape)')[0])] or f
            tries=0
            while not hit and tries<6:     # another model: exact ties, transcendental values, or rounding can hide it
                tries+=1
                blk=z3.Or([v!=m.eval(v,model_completion=True) for k,v in vars_.items() if not z3.is_bool(v)][:12]) if vars_ else z3.BoolVal(True)
                extra=[]
                if tries>1:
                    import random; rnd=random.Random(tries)
                    for k,v in vars_.items():
                        if z3.is_real(v): extra.append(z3.And(v>=-8,v<=8)) if tries<4 else None
                r,m2=symx.solve(pcs+[n,blk]+[x for x in extra if x is not None],self.timeout)
                if r!='sat': break
                m=m2; mv=self._model(m); f=self.concrete(fn,mv); hit=f
            self._viol(what,mv,hit,key)
            if len(R['violations'])>=6: return
        # replay one model of the path on plain floats
        mv=self._guess(fn) if self.fns else None
        if mv is not None:
            R['validated']+=1
            if len(R['samples'])<2: R['samples'].append({k:str(v) for k,v in list(mv.items())[:8]})
            return
        mv=self._modelof([])
        if mv is not None:
            f=self.concrete(fn,mv)
            if f and not R['violations']:
                R['unvalidated']+=1
                self._viol('replay of a path model fails: '+f[0],mv,f,None)
            elif self.note is None or self.note: R['validated']+=1
            if len(R['samples'])<2: R['samples'].append({k:str(v) for k,v in list(mv.items())[:8]})
        else: R['unvalidated']+=1
    def _viol(self,what,mv,f,key):
        self.res['violations'].append(dict(what='%s [%s] %s'%(what,self.name,{k:str(v) for k,v in list((mv or {}).items())[:12]}),key=key or what,
            reproduced=bool(f),observed=[str(x) for x in f[:5]],replay=dict(engine='python',check=self.name,inputs={k:(v if isinstance(v,bool) else float(v)) for k,v in (mv or {}).items()})))
_rc={}
def rat(e):
    """(numerator, denominator) of a z3 real term: division free"""
    k=e.get_id(); h=_rc.get(k)
    if h is not None and h[0].eq(e): return h[1]
    r=_rat(e); _rc[k]=(e,r)
    if len(_rc)>200000: _rc.clear()
    return r
ONE=z3.RealVal(1)
def _mul(a,b):
    if a.eq(ONE): return b
    if b.eq(ONE): return a
    return a*b
def _rat(e):
    k=e.decl().kind()
    if k==z3.Z3_OP_DIV:
        a,b=rat(e.arg(0)),rat(e.arg(1)); return (_mul(a[0],b[1]),_mul(a[1],b[0]))
    if k in (z3.Z3_OP_ADD,z3.Z3_OP_SUB):
        rs=[rat(c) for c in e.children()]; ds=[]
        for n,d in rs:
            if not d.eq(ONE) and not any(d.eq(x) for x in ds): ds.append(d)
        if not ds: return (e,ONE)
        D=ONE
        for d in ds: D=_mul(D,d)
        t=[]
        for n,d in rs:
            x=n
            for y in ds:
                if not y.eq(d): x=_mul(x,y)
            t.append(x)
        s=t[0]
        for x in t[1:]: s=s+x if k==z3.Z3_OP_ADD else s-x
        return (s,D)
    if k==z3.Z3_OP_MUL:
        rs=[rat(c) for c in e.children()]; n=d=ONE
        for a,b in rs: n=_mul(n,a); d=_mul(d,b)
        return (n,d)
    if k==z3.Z3_OP_UMINUS:
        n,d=rat(e.arg(0)); return (-n,d)
    if k==z3.Z3_OP_ITE:
        a,b=rat(e.arg(1)),rat(e.arg(2)); c=nodiv(e.arg(0))
        if a[1].eq(b[1]): return (z3.If(c,a[0],b[0]),a[1])
        return (z3.If(c,a[0],b[0]),z3.If(c,a[1],b[1]))
    if k==z3.Z3_OP_POWER:
        n,d=rat(e.arg(0)); return (n**e.arg(1),d**e.arg(1) if not d.eq(ONE) else ONE)
    if k==z3.Z3_OP_TO_REAL and e.num_args() and not _hasdiv(e): return (e,ONE)
    return (e,ONE)
_hd={}
def _hasdiv(e):
    k=e.get_id(); h=_hd.get(k)
    if h is not None and h[0].eq(e): return h[1]
    r=(z3.is_app(e) and e.decl().kind()==z3.Z3_OP_DIV and not z3.is_rational_value(e.arg(1))) or any(_hasdiv(c) for c in e.children())
    _hd[k]=(e,r); return r
def nodiv(c):
    """a boolean term without division (denominators are non-zero on the path)"""
    if not _hasdiv(c): return c
    k=c.decl().kind()
    if k in (z3.Z3_OP_AND,z3.Z3_OP_OR,z3.Z3_OP_NOT,z3.Z3_OP_IMPLIES,z3.Z3_OP_XOR) or (k in (z3.Z3_OP_EQ,z3.Z3_OP_DISTINCT,z3.Z3_OP_ITE) and z3.is_bool(c.arg(c.num_args()-1))):
        return c.decl()(*[nodiv(x) for x in c.children()]) if k!=z3.Z3_OP_AND and k!=z3.Z3_OP_OR else (z3.And if k==z3.Z3_OP_AND else z3.Or)([nodiv(x) for x in c.children()])
    if k in (z3.Z3_OP_LE,z3.Z3_OP_GE,z3.Z3_OP_LT,z3.Z3_OP_GT,z3.Z3_OP_EQ,z3.Z3_OP_DISTINCT) and not any(_inti(x) for x in c.children()):
        n1,d1=rat(c.arg(0)); n2,d2=rat(c.arg(1))
        if k==z3.Z3_OP_EQ: return n1*d2==n2*d1
        if k==z3.Z3_OP_DISTINCT: return n1*d2!=n2*d1
        # a/d1 <= b/d2  <=>  (a*d2-b*d1)*(d1*d2) <= 0
        p=(n1*d2-n2*d1)*(d1*d2)
        return p<=0 if k==z3.Z3_OP_LE else p>=0 if k==z3.Z3_OP_GE else p<0 if k==z3.Z3_OP_LT else p>0
    return c
def _inti(e): return z3.is_app(e) and (e.decl().kind() in (z3.Z3_OP_TO_INT,z3.Z3_OP_TO_REAL) or any(_inti(c) for c in e.children()))
