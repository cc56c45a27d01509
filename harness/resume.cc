// Conformance harness for spec/Resume.tla
#include "resume.h"
#include "Simulated.h"
#include "Pars.h"
using SPars=cppqedutils::trajectory::Pars<>;
static mj::Value resumeSim(const mj::Value& in)
{
  const auto& k=in["kind"]; double w=k["seed"].D();
  auto f=[=](const CArray<1>& y, CArray<1>& d, double t) {d(0)=dcomp(0,-w)*y(0)+.3*std::cos(t)*y(1); d(1)=-.2*y(1)+dcomp(0,1)*y(0)*std::abs(y(0))-.1*t*y(1);};
  auto init=[]() {CArray<1> y(2); y(0)=1; y(1)=dcomp(.3,-.4); return y;};
  auto tune=[](SPars& p) {p.epsRel=1e-5; p.epsAbs=1e-10; p.logLevel=1;};
  if (k["engine"].S()=="gsl") return resumeCompare<SPars>(in,[&](SPars& p) {tune(p); return cppqedutils::simulated::make<cppqedutils::ODE_EngineGSL<CArray<1>>>(init(),f,{"a","b"},.1,p);});
  return resumeCompare<SPars>(in,[&](SPars& p) {tune(p); return cppqedutils::simulated::make<cppqedutils::ODE_EngineBoost<CArray<1>>>(init(),f,{"a","b"},.1,p);});
}
int main(int argc, char** argv)
{
  return mj::loop(argc,argv,[](const mj::Value& in) {
    const std::string t=in["kind"]["traj"].S();
    return t=="sim" ? resumeSim(in) : t=="mcwf" ? resumeMCWF(in) : t=="master" ? resumeMaster(in) : resumeEnsemble(in);
  },120);
}
