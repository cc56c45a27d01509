// Conformance harness for spec/Entangle.tla
#include "qdata.h"
#include "EntanglementMeasures.h"

template<int R, int... I> mj::Value go(const mj::Value& in)
{
  const std::string kind=in["kind"].S(); const ExtTiny<R> e=extents<R>(in["dims"]);
  using V=tmptools::Vector<I...>;
  DO<R> rho(e); auto ii=indices<R>(rho); mj::Object o;
  if (kind=="block") {
    for (size_t i=0; i<ii.size(); ++i) for (size_t j=0; j<ii.size(); ++j) rho(ii[i])(ii[j])=gauss(in["data"][i][j]);
    DO<R> before(rho);
    o["neg"]=mj::num(2*negPT(rho,V{}),1.,1e-6);
    before-=rho; if (frobeniusNorm(before)!=0) o["neg"]="argument changed";
  }
  else if (kind=="pure") {
    SV<R> psi=makeSV<R>(e,in["data"]); double n2=psi.norm()*psi.norm(); psi.renorm();
    DO<R> r(psi); double n=negPT(r,V{})*n2; o["negsq"]=mj::num(n*n,1.,1e-5);
    o["purity"]=mj::num(purityOfPartialTrace(r,V{})*n2*n2,1.,1e-5);
  }
  else {
    for (size_t i=0; i<ii.size(); ++i) rho(ii[i])(ii[i])=in["data"][i].D()/8;
    const double u=std::log(2.)/8;
    o["entropy"]=mj::num(entropy(rho),u,1e-6); o["mutual"]=mj::num(mutualInformation(rho,V{}),u,1e-6);
    o["purity"]=mj::num(purityOfPartialTrace(rho,V{})*64);
  }
  return o;
}

static mj::Value run(const mj::Value& in)
{
  std::vector<int> v; for (auto& x : in["v"].a) v.push_back(x.I());
  int key=0; for (int x : v) key|=1<<x;
  if (in["dims"].size()==2) return key==1 ? go<2,0>(in) : go<2,1>(in);
  switch (key) {
    case 1: return go<3,0>(in); case 2: return go<3,1>(in); case 4: return go<3,2>(in);
    case 3: return go<3,0,1>(in); case 5: return go<3,0,2>(in); case 6: return go<3,1,2>(in);
  }
  throw std::runtime_error("harness: axes");
}

int main(int argc, char** argv) {return mj::loop(argc,argv,run);}
