// Conformance harness for spec/PhaseSpace.tla
#include "mj.h"
#include "DistributionFunctions.h"
#include "DensityOperator.h"
#include "StateVector.h"
#include "Pars.h"

using SV=quantumdata::StateVector<1>; using DO=quantumdata::DensityOperator<1>;

static double root(int n) {return std::exp(.5*std::lgamma(n+1.));}

// 1/... of the spec's units
static mj::Value scaled(const std::string& f, double v, double x, double y, int d)
{
  const double r2=x*x+y*y;
  return mj::num(f=="wigner" ? v*std::acos(-1.)*std::exp(2*r2) : v*std::exp(r2)*std::pow(4.,d-1),1,1e-5);
}

template <typename RHO> static mj::Value eval(const RHO& rho, const mj::Value& rq, int d)
{
  const std::string f=rq["f"].S();
  if (f!="scan") {
    mj::Array out; const size_t t=rq["trunc"].I();
    for (auto& b : rq["at"].a) {
      double x=b[0].D()/2, y=b[1].D()/2;
      out.push_back(scaled(f,f=="wigner" ? (t ? quantumdata::wignerFunction(rho,x,y,t) : quantumdata::wignerFunction(rho,x,y)) : quantumdata::qFunction(rho,x,y,0),x,y,d));
    }
    return mj::Object{{"v",out}};
  }
  parameters::Table t; quantumdata::ParsFunctionScan pfs(t);
  std::vector<std::string> w{"prog"};
  auto arg=[&](const char* n, double v) {std::ostringstream os; os<<v; w.push_back(std::string("--")+n); w.push_back(os.str());};
  arg("fLimitXUL",rq["lx"]["ul"].D()/2); arg("fLimitXL",rq["lx"]["l"].D()/2); arg("fLimitXU",rq["lx"]["u"].D()/2);
  arg("fLimitYUL",rq["ly"]["ul"].D()/2); arg("fLimitYL",rq["ly"]["l"].D()/2); arg("fLimitYU",rq["ly"]["u"].D()/2);
  arg("fStep",rq["step"].D()/2); arg("fCutoff",rq["trunc"].D());
  std::vector<char*> av; for (auto& x : w) av.push_back(x.data()); av.push_back(nullptr);
  parameters::update(t,int(w.size()),av.data(),"--");
  std::ostringstream os; os.precision(15);
  const std::string dist=rq["dist"].S();
  if (dist=="wigner") quantumdata::scanFunction(quantumdata::wignerFunction<RHO>,rho,os,pfs);
  else quantumdata::scanFunction(quantumdata::qFunction<RHO>,rho,os,pfs);
  mj::Array blocks, block; std::istringstream is(os.str()); std::string l;
  while (std::getline(is,l)) {
    if (l.empty()) {blocks.push_back(block); block.clear(); continue;}
    std::istringstream ls(l); double x,y,v; std::string more;
    if (!(ls>>x>>y>>v) || (ls>>more)) {block.push_back(mj::Value("malformed: "+l)); continue;}
    block.push_back(mj::Array{mj::num(x,.5,1e-9),mj::num(y,.5,1e-9),scaled(dist,v,x,y,d)});
  }
  if (!block.empty()) blocks.push_back(mj::Value("unfinished block"));
  return mj::Object{{"v",blocks}};
}

static mj::Value run(const mj::Value& in)
{
  const int d=in["d"].I(); const auto& a=in["dat"];
  if (in["kind"].S()=="psi") {
    SV psi(d); for (int n=0; n<d; ++n) psi(n)=root(n)*dcomp(a[n][0].D(),a[n][1].D());
    return eval(static_cast<const quantumdata::LazyDensityOperator<1>&>(psi),in["req"],d);
  }
  DO rho(d); for (int m=0; m<d; ++m) for (int n=0; n<d; ++n) rho(m)(n)=root(m)*root(n)*dcomp(a[m][n][0].D(),a[m][n][1].D());
  return eval(rho,in["req"],d);
}

int main(int argc, char** argv) {return mj::loop(argc,argv,run);}
