// Conformance harness for spec/ExactProp.tla
#include "mj.h"
#include "FreeExact.h"
#include "TridiagonalHamiltonian.h"

using namespace structure;
using Tri=quantumoperator::Tridiagonal<1>;
using SV=StateVectorLow<1>;
static const double LN2=std::log(2.), HALFPI=std::acos(0.);

template <bool TT> struct Free : FreeExact<TT>
{
  CArray<1> w; 
  explicit Free(const CArray<1>& w) : FreeExact<TT>(w.size()), w(w) {}
  bool applicableInMaster_v() const override {return true;}
  void updateU(typename FreeExact<TT>::Time t) const override {
    double x; if constexpr (TT) x=t.getT()*t.getT()-t.getT0()*t.getT0(); else x=double(t);
    this->getDiagonal()=exp(-w*x);
  }
};

struct H2 : HamiltonianTimeDependenceDispatched<1,TimeDependence::TWO>
{
  void addContribution_v(TwoTime t, const SV& psi, SV& dpsidt) const override {dpsidt+=dcomp(2*t.getT(),3*t.getT0())*psi;}
};

template <bool TD> struct HT : quantumoperator::TridiagonalHamiltonian<1,TD> {
  template <typename A> HT(const A& a) : quantumoperator::TridiagonalHamiltonian<1,TD>(a) {}
};

static dcomp M(int i, int j) {if (i==j) return {double(i),1}; if (i==j+1) return {2,double(j)}; if (j==i+1) return {double(i),-1}; if (i==j+2) return {3,0}; return {0,-2};}

static mj::Value run(const mj::Value& in)
{
  const double unit=std::pow(2.,-in["shift"].D());
  CArray<1> w(3); for (int n=0; n<3; ++n) w(n)=dcomp(in["w"][n][0].D()*LN2,in["w"][n][1].D()*HALFPI);
  // poison the heap so that uninitialised arrays do not look like zeros or ones
  {for (int k=0; k<8; ++k) {CArray<1> p(3); p=dcomp(17,-5);}}
  Free<false> f1(w); Free<true> f2(w); H2 h2;
  std::list<Tri> one, none;
  {
    Tri::Diagonal d(3), m1(2), p1(2), m2(1), p2(1);
    for (int n=0; n<3; ++n) d(n)=M(n+1,n+1);
    for (int n=0; n<2; ++n) {m1(n)=M(n+2,n+1); p1(n)=M(n+1,n+2);}
    m2(0)=M(3,1); p2(0)=M(1,3);
    Tri a(d,1,m1,p1), b(Tri::Diagonal(),2,m2,p2);
    none={a,b}; one={furnishWithFreqs(a,w),furnishWithFreqs(b,w)};
  }
  HT<true> h1(one); HT<false> h0(none);
  const Exact<1> &e1=f1, &e2=f2;
  SV psi(3); psi=1;
  SV fixed(3); fixed(0)=1; fixed(1)=dcomp(0,1); fixed(2)=dcomp(2,-1);
  mj::Array obs;
  for (auto& o : in["ops"].a) {
    const std::string k=o["op"].S(); double t=o["t"].D(), t0=o["t0"].D();
    SV res(3);
    if (k[0]=='u') {(k=="u1" ? e1 : e2).actWithU(t,psi,t0); res=psi;}
    else {
      res=dcomp(1,-1);
      const Hamiltonian<1>& h = k=="h0" ? static_cast<const Hamiltonian<1>&>(h0) : k=="h1" ? static_cast<const Hamiltonian<1>&>(h1) : h2;
      h.addContribution(t,fixed,res,t0);
      res-=dcomp(1,-1);
    }
    mj::Array v; for (int n=0; n<3; ++n) v.push_back(mj::cnum(res(n),unit,1e-6));
    obs.push_back(v);
  }
  return mj::Object{{"obs",obs}};
}

int main(int argc, char** argv) {return mj::loop(argc,argv,run);}
