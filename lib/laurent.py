"""normal form of rational expressions: Laurent polynomials over atoms.

An atom is a variable, an opaque term (if-then-else, function value), or a polynomial that occurs in a denominator
and is not a monomial (kept with a negative exponent).  Equal normal forms mean equal values wherever all
denominators are non-zero; unequal ones decide nothing (the solver then gets the full disequation)."""
import z3
from fractions import Fraction as F
class TooBig(Exception): pass
LIM=6000
ONE=()
class Norm:
    def __init__(self): self.memo={}; self.atoms={}; self.names={}; self.keep=[]
    def atom(self,key):
        i=self.atoms.get(key)
        if i is None: i=self.atoms[key]=len(self.atoms)
        return i
    @staticmethod
    def mulm(a,b):
        if not a: return b
        if not b: return a
        d=dict(a)
        for k,n in b:
            n+=d.get(k,0)
            if n: d[k]=n
            else: d.pop(k,None)
        return tuple(sorted(d.items()))
    def add(self,p,q,s=1):
        r=dict(p)
        for m,c in q.items():
            c=r.get(m,0)+s*c
            if c: r[m]=c
            else: r.pop(m,None)
        return r
    def mul(self,p,q):
        if len(p)*len(q)>LIM*6: raise TooBig
        r={}
        for m,c in p.items():
            for n,d in q.items():
                k=self.mulm(m,n); v=r.get(k,0)+c*d
                if v: r[k]=v
                else: r.pop(k,None)
        if len(r)>LIM: raise TooBig
        return r
    def inv(self,p):
        if not p: raise TooBig
        if len(p)==1:
            (m,c),=p.items(); return {tuple((k,-n) for k,n in m):1/F(c)}
        # take out the common monomial and the leading coefficient
        mn={}
        first=True
        for m in p:
            d=dict(m)
            if first: mn=dict(d); first=False
            else:
                for k in list(mn):
                    if k not in d: mn[k]=min(mn[k],0)
                    else: mn[k]=min(mn[k],d[k])
                for k,n in d.items():
                    if k not in mn: mn[k]=min(0,n)
        cont=tuple(sorted((k,n) for k,n in mn.items() if n)); ci=tuple((k,-n) for k,n in cont)
        q={self.mulm(m,ci):c for m,c in p.items()}
        lead=max(q); lc=q[lead]
        key=('poly',tuple(sorted((m,c/F(lc)) for m,c in q.items())))
        a=self.atom(key)
        return {self.mulm(ci,((a,-1),)):1/F(lc)}
    def norm(self,e):
        k=e.get_id(); h=self.memo.get(k)
        if h is not None: return h
        r=self._norm(e); self.memo[k]=r; self.keep.append(e); return r
    def _norm(self,e):
        if z3.is_rational_value(e):
            f=F(e.numerator_as_long(),e.denominator_as_long()); return {ONE:f} if f else {}
        if z3.is_int_value(e): f=F(e.as_long()); return {ONE:f} if f else {}
        d=e.decl().kind(); c=e.children()
        if d==z3.Z3_OP_ADD:
            r={}
            for x in c: r=self.add(r,self.norm(x))
            return r
        if d==z3.Z3_OP_SUB:
            r=self.norm(c[0])
            for x in c[1:]: r=self.add(r,self.norm(x),-1)
            return r
        if d==z3.Z3_OP_UMINUS: return {m:-v for m,v in self.norm(c[0]).items()}
        if d==z3.Z3_OP_MUL:
            r={ONE:F(1)}
            for x in c: r=self.mul(r,self.norm(x))
            return r
        if d==z3.Z3_OP_DIV:
            p,q=self.norm(c[0]),self.norm(c[1])
            return self.div(p,q)
        if d==z3.Z3_OP_POWER and z3.is_rational_value(c[1]) and c[1].denominator_as_long()==1 and 0<=c[1].numerator_as_long()<=6:
            r={ONE:F(1)}
            for _ in range(c[1].numerator_as_long()): r=self.mul(r,self.norm(c[0]))
            return r
        self.keep.append(e)
        return {((self.atom(('term',e.get_id())),1),):F(1)}
    def div(self,p,q):
        if not p: return {}
        if len(q)>1 and len(p)==len(q):      # a multiple of the denominator
            i=self.inv(q); (mi,ci),=i.items()
            a,b=max(p),max(q)
            m=self.mulm(a,tuple((k,-n) for k,n in b)); c=F(p[a])/q[b]
            if all(p.get(self.mulm(x,m))==y*c for x,y in q.items()): return {m:c}
        return self.mul(p,self.inv(q))
def equal(a,b,n=None):
    n=n or Norm()
    try: return n.add(n.norm(a),n.norm(b),-1)=={}
    except (TooBig,RecursionError): return False
