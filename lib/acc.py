"""Reference formulas of the two-point accumulations (one pair of cells)."""
import math
from fractions import Fraction as F
import z3
from symx import R, is_sym
SPIN=dict(NData=None,KData=None,ZData=0,VData=1,GData=2,TData=3,QData=4)
ALL=[('NData',d) for d in ('NData','KData','ZData','VData','GData','TData','QData')]+[('KData',d) for d in ('KData','ZData','VData','GData','TData','QData')]+[(d,d) for d in ('ZData','VData','GData','TData','QData')]
class Cx:
    def __init__(s,r,i): s.r=r; s.i=i
    def __mul__(s,o):
        if isinstance(o,Cx): return Cx(s.r*o.r-s.i*o.i, s.r*o.i+s.i*o.r)
        return Cx(s.r*o,s.i*o)
    def conj(s): return Cx(s.r,-s.i)
    def neg(s): return Cx(-s.r,-s.i)
def rot(v,s):
    """conj(v)^s"""
    o=Cx(1,0)
    for _ in range(s): o=o*v.conj()
    return o
def powr(r,n):
    o=1
    for _ in range(n): o=o*r
    return o
def products(D1,D2,w1,w2,v1,v2,t1,t2,n1,n2):
    """list of (name, numerator, denominator) for xi0..3; t1,t2: direction of the line at each point with lengths n1,n2"""
    if D1=='NData' and D2=='NData': return []
    if D2=='KData':
        a=w1 if D1=='NData' else w1*v1.r
        return [('xi',a*w2*v2.r,1)]
    s=SPIN[D2]
    if D1 in ('NData','KData'):
        a=w1 if D1=='NData' else w1*v1.r
        z=rot(t2,s)*v2*(a*w2)
        if s==2: z=z.neg()
        return [('xi',z.r,powr(n2,s)),('xi_im',z.i,powr(n2,s))]
    z1=rot(t1,s)*v1*w1; z2=rot(t2,s)*v2*w2; d=powr(n1,s)*powr(n2,s)
    p=z1*z2.conj(); m=z1*z2
    return [('xip',p.r,d),('xip_im',p.i,d),('xim',m.r,d),('xim_im',m.i,d)]
def dirs_flat(p1,p2):
    d=Cx(p2[0]-p1[0],p2[1]-p1[1]); return d,d
def dirs_sphere(p1,p2):
    """at p2, and at p1: components along (west, north) of the direction p1 -> p2, times cos(dec)"""
    dot=sum(a*b for a,b in zip(p1,p2))
    def tang(p,q): # at q: toward p, (east, north) * cos(dec q)
        return -p[0]*q[1]+p[1]*q[0], p[2]-q[2]*dot
    e,n=tang(p1,p2); t2=Cx(e,-n)          # away from p1; west = -east
    e,n=tang(p2,p1); t1=Cx(-e,n)          # toward p2
    return t1,t2
