#include "common2.h"
// Two leaves (cells without children) pushed through the real BaseCorr2::process.
// in: 0-2 p1, 3-5 p2, 6,7 v1, 8,9 v2, 10 w1, 11 w2, 12 minsep, 13 maxsep, 14 binsize, 15-17 period
// ic: 0 nbins, 1 n1, 2 n2, 3: 0 cross, 1 auto (both in one field)
// out: [8][nb]: xi0..3, meanr, meanlogr, weight, npairs
template <int D1,int D2,int C> struct Auto2 { template <int B,int M,int P>
  static void f(Corr2<D1,D2>& corr, Cell<D1,C>* a, Cell<D2,C>* b) {} };
template <int D,int C> struct Auto2<D,D,C> { template <int B,int M,int P>
  static void f(Corr2<D,D>& corr, Cell<D,C>* a, Cell<D,C>* b) {
    HvField<D,C> f(a->getPos(), 0.); f._sizesq=1.e12; f.add(a); f.add(b);
    corr.template process<B,M,P,C>(f,false); f._cells.clear(); } };
template <int B,int M,int P,int C,int D1,int D2> void acc(const double* in, const long* ic, double* out)
{
  const int n=ic[0];
  const int nb = B==TwoD ? n*n : n;
  Cell<D1,C>* a=mkleaf<D1,C>(in,in+6,in[10]);
  Cell<D2,C>* b=mkleaf<D2,C>(in+3,in+8,in[11]);
  a->_data->_n=ic[1]; b->_data->_n=ic[2];
  Corr2<D1,D2> corr(BinType(B), in[12], in[13], nb, in[14], 0., 1., -1.7976931348623157e308, 1.7976931348623157e308, in[15], in[16], in[17],
     out, out+nb, out+2*nb, out+3*nb, out+4*nb, out+5*nb, out+6*nb, out+7*nb);
  corr.clear();
  if (ic[3]) Auto2<D1,D2,C>::template f<B,M,P>(corr,a,b);
  else {
    HvField<D1,C> f1(a->getPos(), 0.); f1._sizesq=0.; f1.add(a);
    HvField<D2,C> f2(b->getPos(), 0.); f2._sizesq=0.; f2.add(b);
    corr.template process<B,M,P,C>(f1,f2,false);
    f1._cells.clear(); f2._cells.clear();
  }
}
#define AC(B,M,P,C,D1,D2) extern "C" void ac_##B##_##M##_##C##_##D1##_##D2(const double* in,const long* ic,double* out) { acc<B,M,P,C,D1,D2>(in,ic,out); }
#define ALL(B,M,P,C) AC(B,M,P,C,NData,NData) AC(B,M,P,C,NData,KData) AC(B,M,P,C,NData,ZData) AC(B,M,P,C,NData,VData) \
 AC(B,M,P,C,NData,GData) AC(B,M,P,C,NData,TData) AC(B,M,P,C,NData,QData) AC(B,M,P,C,KData,KData) AC(B,M,P,C,KData,ZData) \
 AC(B,M,P,C,KData,VData) AC(B,M,P,C,KData,GData) AC(B,M,P,C,KData,TData) AC(B,M,P,C,KData,QData) \
 AC(B,M,P,C,ZData,ZData) AC(B,M,P,C,VData,VData) AC(B,M,P,C,GData,GData) AC(B,M,P,C,TData,TData) AC(B,M,P,C,QData,QData)
#ifdef HV_FLAT
ALL(Linear,Euclidean,0,Flat)
ALL(TwoD,Euclidean,0,Flat)
AC(Log,Euclidean,0,Flat,KData,KData)
#endif
#ifdef HV_SPHERE
ALL(Linear,Euclidean,0,Sphere)
#endif
#ifdef HV_3D
ALL(Linear,Euclidean,0,ThreeD)
#endif
