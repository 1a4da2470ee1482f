// Shared scaffolding for 2-point harnesses: build the real Cell / Field / Corr2 objects of /repo from a flat
// array of doubles.  Compiled twice from the same source: to LLVM IR (symbolic execution) and to a native
// shared object (replay of every solver model).
#define pyExportCorr2 static hv_unused_export
#define pyExportField static hv_unused_export2
#include "src/Cell.cpp"
#include "src/Field.cpp"
#include "src/Corr2.cpp"

template <int D, int C> struct HvField : public BaseField<C> {
  // a field whose top-level cells are given; nothing is built
  HvField(const Position<C>& cen, double size) : BaseField<C>(1,0.,0.,Middle,0,false,0,0)
  { this->_center = cen; this->_sizesq = size*size; }
  void add(BaseCell<C>* c) { this->_cells.push_back(c); }
  virtual void BuildCells() const {}
};
template <int C> struct MkPos { static Position<C> f(const double* p) { return Position<C>(p[0],p[1],p[2]); } };
template <> struct MkPos<Flat> { static Position<Flat> f(const double* p) { return Position<Flat>(p[0],p[1]); } };
// Sphere positions are supplied already normalised (x^2+y^2+z^2 == 1 is an assumption of the harness)
template <> struct MkPos<Sphere> { static Position<Sphere> f(const double* p) { 
   Position<Sphere> r; Position<ThreeD> q(p[0],p[1],p[2]); static_cast<Position<ThreeD>&>(r)=q; return r; } };

template <int D,int C> struct MkData { static CellData<D,C>* f(const double* p,const double* v,double w)
  { return new CellData<D,C>(MkPos<C>::f(p), std::complex<double>(v[0],v[1]), w); } };
template <int C> struct MkData<NData,C> { static CellData<NData,C>* f(const double* p,const double*,double w)
  { return new CellData<NData,C>(MkPos<C>::f(p), w); } };
template <int C> struct MkData<KData,C> { static CellData<KData,C>* f(const double* p,const double* v,double w)
  { return new CellData<KData,C>(MkPos<C>::f(p), v[0], w); } };

// leaf: p[3], v[2], w
template <int D,int C> Cell<D,C>* mkleaf(const double* p, const double* v, double w)
{ LeafInfo i; i.index=0; return new Cell<D,C>(MkData<D,C>::f(p,v,w), i); }
template <int D,int C> Cell<D,C>* mkcell(const double* p, const double* v, double w, double size, Cell<D,C>* l, Cell<D,C>* r)
{ return new Cell<D,C>(MkData<D,C>::f(p,v,w), size, l, r); }
