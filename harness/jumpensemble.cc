// Conformance harness for spec/JumpEnsemble.tla: mcwf::makeEnsemble with random streams that yield what the behaviour says
#include "traj.h"
#include "MCWF_Trajectory.h"
#include <sstream>

static std::function<double(unsigned long, unsigned long, unsigned long)> draws;
double scriptedDraw(unsigned long seed, unsigned long stream, unsigned long n) {return draws(seed,stream,n);}

static mj::Value run(const mj::Value& in)
{
  using namespace quantumtrajectory; using Low=StateVectorLow<1>;
  const auto& sy=in["sys"]; const auto& tab=in["tab"]; const long first=in["first"].I(), m=in["m"].I(); const unsigned long SEED=17;
  size_t now=0;   // the number drawn does not depend on how many were drawn before in the same step
  draws=[&](unsigned long seed, unsigned long stream, unsigned long) {long i=long(stream)-first; if (seed!=SEED || i<0 || i>=m) return .999999; return val(tab[int(i)][now]);};
  TSpec s=tspec(sy); auto sys=tsys<1>(s,ExtTiny<1>(2));
  parameters::Table tbl; mcwf::Pars<pcg64> p(tbl);
  p.seed=SEED; p.prngStream=first; p.nTraj=m; p.dpLimit=10; p.overshootTolerance=100; p.logLevel=1;
  quantumdata::StateVector<1> psi{ExtTiny<1>(2)}; psi(0)=1; psi(1)=dcomp(1,1); psi.renorm(); const quantumdata::StateVector<1> psi0(psi);
  std::ostringstream log; auto* b=std::clog.rdbuf(log.rdbuf()); mj::Array obs;
  auto e=mcwf::makeEnsemble<MockODE<Low,0>,pcg64,tmptools::V_Empty>(sys,psi,p,EntanglementMeasuresSwitch());
  std::clog.rdbuf(b);
  auto observe=[&](size_t k) {
    const auto& rho=e.averaged(); mj::Array r; double u=in["tr"][int(k)].D();
    for (int x=0; x<2; ++x) {mj::Array row; for (int y=0; y<2; ++y) row.push_back(mj::cnum(rho(x)(y)*u,1.,1e-6)); r.push_back(row);}
    std::ostringstream os; e.logOnEnd(os); auto p=os.str().find("Average number of total jumps:");
    double j=p==std::string::npos ? -1 : std::strtod(os.str().c_str()+p+30,nullptr);
    auto q=os.str().find("Average number of total steps:"); double st=q==std::string::npos ? -1 : std::strtod(os.str().c_str()+q+30,nullptr);
    bool same=psi(0)==psi0(0) && psi(1)==psi0(1);
    obs.push_back(mj::Object{{"t",ratio(e.getTime())},{"rho",r},{"jumps",mj::num(j*m,1.,1e-3)},{"steps",mj::num(st,1.,1e-3)},{"psi",same ? "as given" : "overwritten"}});
  };
  observe(0);
  for (now=0; now<in["ops"].size(); ++now) {e.advance(val(in["dt"]),log); observe(now+1);}
  return mj::Object{{"obs",obs}};
}
int main(int argc, char** argv) {return mj::loop(argc,argv,run);}
