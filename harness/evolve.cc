#include "evolve.h"
double scriptedDraw(unsigned long seed, unsigned long stream, unsigned long) {return seed==5 && jumpsOn(stream) ? 1e-9 : .999999;}

mj::Value evolve2(const mj::Value& in)
{
  const auto& c=in["c"]; Words W; driverWords(W,in);
  W("deltaA",delta(c)); W("deltaC",delta(c)); W("gamma",kappa(c)); W("kappa",kappa(c)); W("g",coup(c,0)); W("cutoff",std::to_string(c["cut"].I()));
  W("qbitInit",atom(c,0)); W("minitFock",std::string(c["ini"]["site"].I()==2 ? "1" : "0"));
  ParameterTable p; evolution::Pars<> pe(p); qbit::ParsPumpedLossy pq(p); mode::ParsPumpedLossy pm(p); jaynescummings::Pars pj(p);
  auto argv=W.argv(); auto qmp=updateWithPicture(p,argv.size()-1,argv.data());
  Case<2> k{"qm",qbit::init(pq)*mode::init(pm),qbit::init(0.)*mode::fock(0,pm.cutoff),
    binary::make(jaynescummings::make(qbit::make(pq,qmp),mode::make(pm,qmp),pj)),pe};
  const auto& V=c["V"]; const bool def=c["def"].B();
#define GO(...) return conduct<2>(in,k,[&](auto&& s, auto sys, auto& pe, bool ds, bool rs) {if (ds && !rs) return evolve<tmptools::Vector<__VA_ARGS__>>(std::forward<decltype(s)>(s),sys,pe); return evolve<tmptools::Vector<__VA_ARGS__>>(std::forward<decltype(s)>(s),sys,pe,ds,rs);}, \
    [&](auto&& s, auto sys, auto& pe, bool ds, bool rs) {if (ds && !rs) return evolveMaster<cppqedutils::ODE_EngineBoost,tmptools::Vector<__VA_ARGS__>>(std::forward<decltype(s)>(s),sys,pe); return evolveMaster<cppqedutils::ODE_EngineBoost,tmptools::Vector<__VA_ARGS__>>(std::forward<decltype(s)>(s),sys,pe,ds,rs);});
  if (def) return conduct<2>(in,k,[&](auto&& s, auto, auto& pe, bool ds, bool rs) {if (ds && !rs) return evolve(std::forward<decltype(s)>(s),std::dynamic_pointer_cast<const binary::Base>(k.sys),pe); return evolve(std::forward<decltype(s)>(s),std::dynamic_pointer_cast<const binary::Base>(k.sys),pe,ds,rs);},
    [&](auto&& s, auto sys, auto& pe, bool ds, bool rs) {if (ds && !rs) return evolveMaster<cppqedutils::ODE_EngineBoost,0>(std::forward<decltype(s)>(s),sys,pe); return evolveMaster<cppqedutils::ODE_EngineBoost,0>(std::forward<decltype(s)>(s),sys,pe,ds,rs);});
  if (!V.size()) return conduct<2>(in,k,[&](auto&& s, auto sys, auto& pe, bool ds, bool rs) {if (ds && !rs) return evolve<tmptools::V_Empty>(std::forward<decltype(s)>(s),sys,pe); return evolve<tmptools::V_Empty>(std::forward<decltype(s)>(s),sys,pe,ds,rs);},
    [&](auto&& s, auto sys, auto& pe, bool ds, bool rs) {if (ds && !rs) return evolveMaster<cppqedutils::ODE_EngineBoost,tmptools::V_Empty>(std::forward<decltype(s)>(s),sys,pe); return evolveMaster<cppqedutils::ODE_EngineBoost,tmptools::V_Empty>(std::forward<decltype(s)>(s),sys,pe,ds,rs);});
  if (V[0].I()) GO(1)
  GO(0)
}
int main(int argc, char** argv)
{
  return mj::loop(argc,argv,[](const mj::Value& in) {
    std::set<unsigned long> j; for (auto& x : in["c"]["J"].a) j.insert(x.I()); const unsigned long first=in["c"]["first"].I();
    jumpsOn=[=](unsigned long s) {return j.count(s-first+1)>0;};
    return in["c"]["g"].size()==1 ? evolve2(in) : evolve3(in);
  },60);
}
