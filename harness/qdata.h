// Shared by the qdata harness' translation units
#ifndef VERIF_QDATA_H
#define VERIF_QDATA_H
#include "mj.h"
#include "StateVector.h"
#include "DensityOperator.h"
#include "LazyDensityOperatorFFT.h"
#include "MultiIndexIterator.h"
#include <variant>
#include <optional>

using namespace quantumdata;
template<int R> using SV=StateVector<R>;
template<int R> using DO=DensityOperator<R>;
template<int R> using LDO=LazyDensityOperator<R>;
using Any=std::variant<std::monostate,SV<1>,SV<2>,SV<3>,DO<1>,DO<2>,DO<3>>;

inline dcomp gauss(const mj::Value& z) {return {z[0].D(),z[1].D()};}

template<int R> ExtTiny<R> extents(const mj::Value& d) {ExtTiny<R> e; for (int i=0; i<R; ++i) e[i]=d[i].I(); return e;}
template<int R> SV<R> makeSV(const ExtTiny<R>& e, const mj::Value& psi)
{
  SV<R> res(e); size_t n=0;
  typedef cppqedutils::MultiIndexIterator<R> I;
  for (I i(e-1,cppqedutils::mii::begin); i!=i.getEnd(); ++i) res.getArray()(*i)=gauss(psi[n++]);
  return res;
}
template<int R> std::vector<IdxTiny<R>> indices(const LDO<R>& m)
{
  std::vector<IdxTiny<R>> v; ExtTiny<R> e(m.getDimensions());
  size_t n=1; for (int k=0; k<R; ++k) n*=e[k];
  for (size_t f=0; f<n; ++f) {IdxTiny<R> i; size_t r=f; for (int k=R-1; k>=0; --k) {i[k]=r%e[k]; r/=e[k];} v.push_back(i);}
  return v;
}

// reduce over the ordered choice of axes v, through the statically typed function and through the common interface
Any reduceAny(const Any&, const std::vector<int>& v, bool lazy);
// the sum over slices of the slices' traces
double sliceTrace(const Any&, const std::vector<int>& v);
// the sum over slices of their packings
DArray<1> sliceDeflate(const Any&, const std::vector<int>& v);
Any fftAny(const Any&, int axis, int dir);
#endif
