#include "common2.h"
// One pair of tree cells pushed through the real BaseCorr2::process (cross-correlation entry point).
// in: 0-2 p1, 3 s1, 4-6 p2, 7 s2, 8 minsep, 9 maxsep, 10 binsize, 11 b, 12 a, 13 minrpar, 14 maxrpar, 15-17 period,
//     18 w1, 19 w2, 20 wchild, 21-32 child positions (1L,1R,2L,2R)
// ic: 0 nbins, 1 cell1 has children, 2 cell2 has children
// out: npairs[n], weight[n], meanr[n], meanlogr[n]
void* hv_cells[6];
template <int B,int M,int P,int C> void hvpair(const double* in, const long* ic, double* out)
{
  const int n = ic[0];
  double z[3]={0.,0.,0.};
  Cell<NData,C>* c[6]={0,0,0,0,0,0};
  for (int i=0;i<2;++i) {
    const double* p=in+4*i;
    if (ic[1+i]) {
      c[2+2*i]=mkleaf<NData,C>(in+21+6*i,z,in[20]);
      c[3+2*i]=mkleaf<NData,C>(in+24+6*i,z,in[20]);
      c[i]=mkcell<NData,C>(p,z,in[18+i],0.,c[2+2*i],c[3+2*i]);
      c[i]->_size=in[4*i+3];
      c[i]->_data->_n=2;
    } else c[i]=mkleaf<NData,C>(p,z,in[18+i]);
  }
  for (int i=0;i<6;++i) hv_cells[i]=c[i];
  HvField<NData,C> f1(c[0]->getPos(), 0.), f2(c[1]->getPos(), 0.);
  f1._sizesq=in[3]*in[3]; f2._sizesq=in[7]*in[7];
  f1.add(c[0]); f2.add(c[1]);
  Corr2<NData,NData> corr(BinType(B), in[8], in[9], n, in[10], in[11], in[12], in[13], in[14], in[15], in[16], in[17],
     0,0,0,0, out+2*n, out+3*n, out+n, out);
  corr.clear();
  corr.template process<B,M,P,C>(f1,f2,false);
  f1._cells.clear(); f2._cells.clear();
}
// Auto-correlation of three points 0,1,2 through the real BaseCorr2::process(field).
// in: 0-8 positions of the leaves, 9-11 position of cell (0,1), 12 its size, 13-15 position of the root, 16 its size,
//     20 minsep 21 maxsep 22 binsize 23 b 24 a 25-27 period
// ic: 0 nbins, 1 shape: 0 one top-level tree ((0,1),2), 1 three top-level leaves, 2 top level (0,1) and 2
template <int B,int M,int P,int C> void hvauto(const double* in, const long* ic, double* out)
{
  const int n = ic[0];
  double z[3]={0.,0.,0.};
  Cell<NData,C>* c[3];
  for (int i=0;i<3;++i) c[i]=mkleaf<NData,C>(in+3*i,z,1.);
  HvField<NData,C> f(MkPos<C>::f(in+13), 0.);
  f._sizesq=in[16]*in[16];
  if (ic[1]==1) { f.add(c[0]); f.add(c[1]); f.add(c[2]); }
  else {
    Cell<NData,C>* d=mkcell<NData,C>(in+9,z,2.,0.,c[0],c[1]);
    d->_size=in[12]; d->_data->_n=2;
    if (ic[1]==2) { f.add(d); f.add(c[2]); }
    else {
      Cell<NData,C>* e=mkcell<NData,C>(in+13,z,3.,0.,d,c[2]);
      e->_size=in[16]; e->_data->_n=3;
      f.add(e);
    }
  }
  Corr2<NData,NData> corr(BinType(B), in[20], in[21], n, in[22], in[23], in[24], -1.7976931348623157e308, 1.7976931348623157e308,
     in[25], in[26], in[27], 0,0,0,0, out+2*n, out+3*n, out+n, out);
  corr.clear();
  corr.template process<B,M,P,C>(f,false);
  f._cells.clear();
}
#define HV(B,M,P,C) extern "C" void hv_##B##_##M##_##P##_##C(const double* in,const long* ic,double* out) { hvpair<B,M,P,C>(in,ic,out); }
#define HA(B,M,P,C) extern "C" void ha_##B##_##M##_##P##_##C(const double* in,const long* ic,double* out) { hvauto<B,M,P,C>(in,ic,out); }
HV(Log,Euclidean,0,Flat) HV(Linear,Euclidean,0,Flat) HV(TwoD,Euclidean,0,Flat)
HV(Log,Euclidean,0,ThreeD) HV(Linear,Euclidean,0,ThreeD)
HV(Log,Arc,0,Sphere) HV(Linear,Arc,0,Sphere) HV(Linear,Arc,0,ThreeD)
HV(Log,Periodic,0,Flat) HV(Linear,Periodic,0,ThreeD) HV(TwoD,Periodic,0,Flat)
HA(Linear,Euclidean,0,Flat) HA(Log,Euclidean,0,Flat) HA(TwoD,Euclidean,0,Flat) HA(Linear,Euclidean,0,ThreeD)
