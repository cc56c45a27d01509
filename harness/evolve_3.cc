#include "evolve.h"
mj::Value evolve3(const mj::Value& in)
{
  const auto& c=in["c"]; Words W; driverWords(W,in);
  for (auto m : {"1","2"}) {
    const std::string s(m); int i=s=="2";
    W("deltaA"+s,delta(c)); W("gamma"+s,kappa(c)); W("g"+s,coup(c,i)); W("qbitInit"+s,atom(c,i));
  }
  W("deltaC",delta(c)); W("kappa",kappa(c)); W("cutoff",std::to_string(c["cut"].I())); W("minitFock",std::string(c["ini"]["site"].I()==2 ? "1" : "0"));
  ParameterTable p; evolution::Pars<> pe(p); qbit::ParsPumpedLossy p1(p,"1"), p2(p,"2"); mode::ParsPumpedLossy pm(p); jaynescummings::Pars j1(p,"1"), j2(p,"2");
  auto argv=W.argv(); auto qmp=updateWithPicture(p,argv.size()-1,argv.data());
  auto q1=qbit::make(p1,qmp), q2=qbit::make(p2,qmp); auto m=mode::make(pm,qmp);
  Case<3> k{"qmq",qbit::init(p1)*mode::init(pm)*qbit::init(p2),qbit::init(0.)*mode::fock(0,pm.cutoff)*qbit::init(0.),
    composite::make(composite::_<0,1>(jaynescummings::make(q1,m,j1)),composite::_<2,1>(jaynescummings::make(q2,m,j2))),pe};
  const auto& V=c["V"]; long code=0; for (auto& v : V.a) code=10*code+v.I()+1;
#define GO(...) return conduct<3>(in,k,[&](auto&& s, auto sys, auto& pe, bool ds, bool rs) {if (ds && !rs) return evolve<tmptools::Vector<__VA_ARGS__>>(std::forward<decltype(s)>(s),sys,pe); return evolve<tmptools::Vector<__VA_ARGS__>>(std::forward<decltype(s)>(s),sys,pe,ds,rs);}, \
    [&](auto&& s, auto sys, auto& pe, bool ds, bool rs) {if (ds && !rs) return evolveMaster<cppqedutils::ODE_EngineBoost,tmptools::Vector<__VA_ARGS__>>(std::forward<decltype(s)>(s),sys,pe); return evolveMaster<cppqedutils::ODE_EngineBoost,tmptools::Vector<__VA_ARGS__>>(std::forward<decltype(s)>(s),sys,pe,ds,rs);});
  switch (code) {case 1: GO(0) case 2: GO(1) case 13: GO(0,2) case 32: GO(2,1) default: throw std::logic_error("no such part");}
}
