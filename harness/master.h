#ifndef VERIF_MASTER_H
#define VERIF_MASTER_H
#include "traj.h"
#include "Master.h"
#include <sstream>
template<int R> struct RunMaster
{
  using Low=DensityOperatorLow<R>; using ODE=MockODE<Low,1>; using Traj=quantumtrajectory::Master<R,ODE>;
  static std::unique_ptr<Traj> make(const mj::Value& in, bool other)
  {
    const auto& sy=in["sys"]; ExtTiny<R> d, ds; int n=1; for (int k=0; k<R; ++k) {d[k]=sy["dims"][k].I(); n*=d[k];}
    ds=d; if (!sy["fit"].B()) ds[0]+=1;
    TSpec s{n,int(sy["s"].I()),int(sy["li"].I()),int(sy["special"].I()),sy["ex"].B(),sy["ha"].B()};
    auto sys=tsys<R>(s,ds,sy["mas"].B()); ODE ode(other ? 7. : val(in["init"])); const auto& r=in["rho0"];
    if (!other && r["kind"].S()=="vec") {
      quantumdata::StateVector<R> psi(d); auto e=elements(psi.getArray()); for (int x=0; x<n; ++x) *e[x]=dcomp(r["v"][x][0].D(),r["v"][x][1].D());
      psi.renorm(); return std::make_unique<Traj>(sys,std::move(psi),ode,0);
    }
    quantumdata::DensityOperator<R> rho(d); auto e=elements(rho.getArray());
    for (int x=0; x<n; ++x) for (int y=0; y<n; ++y) *e[x*n+y]=other ? dcomp(x==y && x==0) : dcomp(r["m"][x][y][0].D(),r["m"][x][y][1].D());
    rho.renorm(); return std::make_unique<Traj>(sys,std::move(rho),ode,0);
  }
  static mj::Value observe(Traj& t, double tr)
  {
    std::stringstream ss; {cppqedutils::oarchive oa(ss); t.stateIO(oa);}
    Low rho; {cppqedutils::iarchive ia(ss); ia & rho;}
    auto e=elements(rho); int n=int(std::round(std::sqrt(double(e.size())))); mj::Array m;
    for (int x=0; x<n; ++x) {mj::Array row; for (int y=0; y<n; ++y) row.push_back(mj::cnum(*e[x*n+y]*tr,1.,1e-6)); m.push_back(row);}
    return mj::Object{{"t",ratio(t.getTime())},{"did",ratio(t.getDtDid())},{"rho",m}};
  }
  static mj::Value run(const mj::Value& in)
  {
    std::unique_ptr<Traj> t;
    try {t=make(in,false);}
    catch (const quantumtrajectory::master::SystemNotApplicable&) {return mj::Object{{"obs",mj::Array{mj::Object{{"refused","SystemNotApplicable"}}}}};}
    catch (const DimensionalityMismatchException&) {return mj::Object{{"obs",mj::Array{mj::Object{{"refused","DimensionalityMismatch"}}}}};}
    mj::Array obs{observe(*t,in["tr"][0].D())}; std::ostringstream log;
    for (size_t k=0; k<in["ops"].size(); ++k) {
      const auto& o=in["ops"][k];
      if (o["op"].S()=="step") {script()={val(o["f"]),val(o["g"]),.5}; t->step(val(o["Dt"]),log);}
      else {
        std::stringstream ss; {cppqedutils::oarchive oa(ss); t->stateIO(oa);}
        t=make(in,true); {cppqedutils::iarchive ia(ss); t->stateIO(ia);}
      }
      obs.push_back(observe(*t,in["tr"][k+1].D()));
    }
    return mj::Object{{"obs",obs}};
  }
};
mj::Value run1(const mj::Value&);
mj::Value run2(const mj::Value&);
#endif
