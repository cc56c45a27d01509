// Conformance harness for spec/MCWF.tla
#include "traj.h"
#include "MCWF_Trajectory.h"
#include <sstream>

using Low=StateVectorLow<1>;
using Traj=quantumtrajectory::MCWF_Trajectory<1,MockODE<Low,0>,MockEngine>;

template<> inline const std::string randomutils::EngineID_v<MockEngine> = "mock";

static std::unique_ptr<Traj> make(const mj::Value& in, bool other)
{
  const auto& sy=in["sys"]; TSpec s=tspec(sy);
  quantumdata::StateVector<1> psi{ExtTiny<1>(s.n)};
  for (int x=0; x<s.n; ++x) psi(x)=other ? dcomp(x==0,0) : dcomp(in["psi0"][x][0].D(),in["psi0"][x][1].D());
  psi.renorm();
  std::ostringstream clog; auto* b=std::clog.rdbuf(clog.rdbuf());
  std::unique_ptr<Traj> t; 
  try {t=std::make_unique<Traj>(tsys<1>(s,ExtTiny<1>(s.n)),std::move(psi),MockODE<Low,0>(other ? 7. : val(in["init"])),randomutils::EngineWithParameters<MockEngine>(1,1),val(sy["dp"]),val(sy["tol"]),1);}
  catch (...) {std::clog.rdbuf(b); throw;}
  std::clog.rdbuf(b); return t;
}
static mj::Value observe(const Traj& t, double n2)
{
  mj::Array psi, jumps; for (int x=0; x<t.getStateVector().getArray().extent(0); ++x) psi.push_back(mj::cnum(t.getStateVector()(x)*std::sqrt(n2),1.,1e-7));
  for (auto& j : t.getLogger().getTrajectory()) jumps.push_back(mj::Object{{"t",ratio(j.first)},{"ch",(long long)(j.second)}});
  std::ostringstream os; t.logOnEnd(os);
  { // the log printed at the end of a run lists the same jumps
    std::istringstream is(os.str()); std::string l; size_t k=0; bool in=false; const auto& tr=t.getLogger().getTrajectory(); auto j=tr.begin();
    while (std::getline(is,l)) {
      if (l.find("MCWF Trajectory:")!=std::string::npos) {in=true; continue;}
      double tt; size_t ch; std::istringstream ls(l); if (!in || !(ls>>tt>>ch)) continue;
      if (j==tr.end() || std::abs(tt-j->first)>1e-4*std::abs(j->first) || ch!=j->second) jumps.push_back("printed otherwise: "+l); else ++j;
      ++k;
    }
    if (!in || k!=tr.size()) jumps.push_back("printed log has "+std::to_string(k)+" jumps");
  }
  return mj::Object{{"t",ratio(t.getTime())},{"did",ratio(t.getDtDid())},{"try",ratio(t.getDtTry())},{"psi",psi},{"jumps",jumps},
    {"steps",after(os.str(),"Total number of MCWF steps:")},{"backs",after(os.str(),"dpTolerance overshot:")}};
}
static mj::Value run(const mj::Value& in)
{
  auto t=make(in,false); mj::Array obs{observe(*t,in["n2"][0].D())};
  std::ostringstream log;
  for (size_t k=0; k<in["ops"].size(); ++k) {
    const auto& o=in["ops"][k];
    if (o["op"].S()=="step") {script()={val(o["f"]),val(o["g"]),val(o["r"])}; t->step(val(o["Dt"]),log);}
    else {
      std::stringstream ss; {cppqedutils::oarchive oa(ss); t->stateIO(oa);}
      t=make(in,true); {cppqedutils::iarchive ia(ss); t->stateIO(ia);}
    }
    obs.push_back(observe(*t,in["n2"][k+1].D()));
  }
  return mj::Object{{"obs",obs}};
}
int main(int argc, char** argv) {return mj::loop(argc,argv,run);}
