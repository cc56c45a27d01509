// Shared by structops.cc and structops_sig.cc
#include "mj.h"
#include "Tridiagonal.tcc"
#include "Sigma.h"
#include <array>
#include <variant>

using namespace quantumoperator;
using T1=Tridiagonal<1>; using T2=Tridiagonal<2>; using T3=Tridiagonal<3>; using T4=Tridiagonal<4>;

template <int R, typename Op>
mj::Value dense(const Op& op, const std::vector<int>& dims, double unit)
{
  blitz::TinyVector<int,R> ext; int n=1;
  for (int a=0; a<R; ++a) {ext(a)=dims[a]; n*=dims[a];}
  using SV=quantumdata::StateVectorLow<R>;
  mj::Array m(n*n);
  SV psi(ext), dpsi(ext);
  // a base value in the result shows whether the contribution is added to it
  for (int j=0; j<n; ++j) {
    psi=0; dpsi=dcomp(5,-7); psi.data()[j]=1;
    op.apply(psi,dpsi);
    for (int i=0; i<n; ++i) m[i*n+j]=mj::cnum(dpsi.data()[i]-dcomp(5,-7),unit);
  }
  // superposition in one go, on an array with permuted storage: must be the sum of the columns
  blitz::TinyVector<int,R> order; for (int a=0; a<R; ++a) order(a)=a; // first axis fastest
  blitz::TinyVector<bool,R> asc; asc=true;
  blitz::GeneralArrayStorage<R> storage(order,asc);
  SV p2(ext,storage), d2(ext,storage), d1(ext), p1(ext);
  for (int j=0; j<n; ++j) p1.data()[j]=dcomp(j+1,j%3-1.);
  p2=p1; d2=0; d1=0;
  op.apply(p2,d2); op.apply(p1,d1);
  bool ok=true; for (int i=0; i<n; ++i) {dcomp s=0; for (int j=0; j<n; ++j) {auto& e=m[i*n+j]; s+=p1.data()[j]*dcomp(e[0].k==mj::Value::INT ? e[0].D()*unit : e[0].D(),e[1].k==mj::Value::INT ? e[1].D()*unit : e[1].D());}
    if (std::abs(s-d1.data()[i])>1e-4*(1+std::abs(s))) ok=false;}
  d2-=d1; if (n && max(abs(d2))>1e-6) ok=false;
  if (!ok) return mj::Value("application to a superposition differs");
  return m;
}

template <int R> std::vector<int> dimsOf(const Tridiagonal<R>& t) {std::vector<int> d; for (int a=0; a<R; ++a) d.push_back(t.getDimensions()(a)); return d;}
template <> inline std::vector<int> dimsOf<1>(const Tridiagonal<1>& t) {return {int(t.getTotalDimension())};}

inline mj::Value out(const std::vector<int>& dims, mj::Value m)
{
  mj::Array d; for (int x : dims) d.push_back(x);
  return mj::Object{{"refused",0},{"dims",d},{"m",m}};
}


using Sigs=std::vector<std::array<int,3>>; // l, r, whether at the head
mj::Value pureSigma(const Sigs&, double unit);
mj::Value wrapSigma(const T1&, const Sigs&, double unit);
mj::Value wrapSigma(const T2&, const Sigs&, double unit);
