#include "common2.h"
// the skip test used for patch pairs
template <int B,int M,int C> void hvtriv(const double* in, double* out)
{
  Corr2<NData,NData> corr(BinType(B), in[8], in[9], 3, in[10], in[11], in[12], in[13], in[14], in[15], in[16], in[17],
     0,0,0,0, out+1, out+1, out+1, out+1);
  out[0] = corr.template triviallyZero<B,M,C>(MkPos<C>::f(in), MkPos<C>::f(in+4), in[3], in[7]) ? 1. : 0.;
}
#define HT(B,M,C) extern "C" void ht_##B##_##M##_##C(const double* in,const long*,double* out) { hvtriv<B,M,C>(in,out); }
HT(Log,Euclidean,Flat) HT(Linear,Euclidean,Flat) HT(Linear,Euclidean,ThreeD) HT(TwoD,Euclidean,Flat) HT(Log,Periodic,Flat) HT(Linear,Periodic,ThreeD) HT(TwoD,Periodic,Flat)
