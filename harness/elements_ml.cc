#include "elements.h"
#include "MLJC.h"

namespace {
typedef multilevel::Pump<0,2> P0; typedef multilevel::Pump<1,2> P1;
typedef multilevel::Decay<0,2> D0; typedef multilevel::Decay<1,2> D1;
typedef boost::fusion::vector<P0,P1> VP; typedef boost::fusion::vector<D0,D1> VL;
typedef boost::fusion::vector<Coupling<0,2>,Coupling<1,2>> VC;
typedef multilevel::RealPerLevel<3> Reals;
Reals reals(const mj::Value& v) {return Reals(v[0].D(),v[1].D(),v[2].D());}
}

Thing<1> multilevel1(const mj::Value& p)
{
  const VP etas(P0(cx(p["eta"][0])),P1(cx(p["eta"][1])));
  const VL gammas(D0(p["ga"][0].D()),D1(p["ga"][1].D()));
  const std::string f=p["form"].S(); const bool off=p["off"].B();
  if (f=="s") return Thing<1>::of(multilevel::makePumpedLossySch(reals(p["de"]),etas,gammas,p["gp"][0].D(),"ML",off));
  if (f=="v") return Thing<1>::of(multilevel::makePumpedLossySch(reals(p["de"]),etas,gammas,reals(p["gp"]),"ML",off));
  parameters::Table t; multilevel::ParsPumpedLossy<3,VP,VL> q(t);
  q.deltas=reals(p["de"]); q.etas=etas; q.gammas=gammas;
  const bool uniform=p["gp"][0].I()==p["gp"][1].I() && p["gp"][1].I()==p["gp"][2].I();
  if (uniform) q.gamma_parallel=p["gp"][0].D();
  else {q.gamma_parallel=7; q.gamma_parallel_vector=reals(p["gp"]);} // the vector takes precedence
  return Thing<1>::of(multilevel::makePumpedLossySch(q,"ML",off));
}

Thing<2> mljc2(const mj::Value& p)
{
  const VP etas(P0(dcomp(0)),P1(dcomp(0))); const VL gammas(D0(1.),D1(2.));
  auto ml=multilevel::makePumpedLossySch(Reals(1.,-2.,3.),etas,gammas,0.,"ML",false);
  auto m=makeMode(p["m"]);
  parameters::Table t; mljc::Pars<VC> q(t);
  q.gs=VC(Coupling<0,2>(cx(p["g"][0])),Coupling<1,2>(cx(p["g"][1])));
  return Thing<2>::ia(std::make_shared<MLJC<3,VC>>(ml,m,q),ml,m);
}
