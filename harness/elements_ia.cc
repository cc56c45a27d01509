#include "elements.h"
#include "CoupledModes.h"
#include "GeneralDicke.h"
#include "JaynesCummings_.h"
#include "ModeCorrelations.h"
#include "ParticleCavity_.h"
#include "ParticleTwoModes_.h"
#include "QbitModeCorrelations.h"
#include "AveragingUtils.h"

Thing<2> inter2(const std::string& k, const mj::Value& p)
{
  typedef Thing<2> T;
  if (k=="mljc") return mljc2(p);
  if (k=="mcorr") {T t=T::of(std::make_shared<ModeCorrelations>()); t.isFree=false; return t;}
  if (k=="qmcorr") {T t=T::of(std::make_shared<QbitModeCorrelations>()); t.isFree=false; return t;}
  if (k=="rdo") {
    typedef structure::QuantumSystem<2>::Dimensions Dims;
    const Dims d(p["dims"][0].I(),p["dims"][1].I());
    T t=p["neg"].B() ? T::of(std::make_shared<ReducedDensityOperatorNegativity<2,tmptools::Vector<0>>>("rho",d))
                     : T::of(std::make_shared<ReducedDensityOperator<2>>("rho",d,p["off"].B()));
    t.neg=p["neg"].B(); t.isFree=false; return t;
  }
  auto m=makeMode(p["m"]);
  if (k=="jcq") {auto q=makeQbit(p["q"]); return T::ia(jaynescummings::make(q,m,cx(p["g"])),q,m);}
  if (k=="jcs") {auto s=makeSpin(p["s"]); return T::ia(jaynescummings::make(s,m,cx(p["g"])),s,m);}
  if (k=="cm") {
    auto m2=makeMode(p["m2"]); const dcomp u=cx(p["u"]);
    switch (p["cp"].I()) {
    case 0: return T::ia(coupledmodes::make<coupledmodes::CM_NX>(m,m2,u.real()),m,m2);
    case 1: return T::ia(coupledmodes::make<coupledmodes::CM_XX>(m,m2,u.real()),m,m2);
    default: return T::ia(coupledmodes::make<coupledmodes::CM_XX_RWA>(m,m2,u),m,m2);
    }
  }
  if (k=="dicke") {auto s=makeSpin(p["s"]); return T::ia(std::make_shared<GeneralDicke<>>(m,s,cx(p["u"]),cx(p["y"])),m,s);}
  if (k=="poc") {
    auto a=makePumpedParticle(p["p"]);
    parameters::Table t; particlecavity::ParsOrthogonal q(t); q.uNot=p["U"].D();
    return T::ia(std::make_shared<ParticleOrthogonalToCavity>(m,a,q),m,a);
  }
  if (k=="pac") {
    parameters::Table t; const std::string ct=p["ct"].S();
    if (ct=="v" || ct=="p") {
      particlecavity::ParsAlong q(t); q.uNot=p["U"].D(); q.kCav=p["kc"].I(); q.modeCav=ModeFunctionType(p["mf"].I());
      if (ct=="v") {auto a=makeParticle(p["p"]); return T::ia(std::make_shared<ParticleAlongCavity>(m,a,q,p["p"]["V"].D()),m,a);}
      auto a=makePumpedParticle(p["p"]); return T::ia(std::make_shared<ParticleAlongCavity>(m,a,q),m,a);
    }
    particlecavity::ParsAlongGenericPump q(t); q.uNot=p["U"].D(); q.kCav=p["kc"].I(); q.modeCav=ModeFunctionType(p["mf"].I()); q.etaeff=p["ee"].D();
    if (ct=="g") {auto a=makeParticle(p["p"]); return T::ia(std::make_shared<ParticleAlongCavity>(m,a,q),m,a);}
    auto a=makePumpedParticle(p["p"]); return T::ia(std::make_shared<ParticleAlongCavity>(m,a,q),m,a);
  }
  throw std::logic_error("unknown interaction "+k);
}

Thing<3> inter3(const std::string&, const mj::Value& p)
{
  auto m=makeMode(p["m"]), m2=makeMode(p["m2"]); auto a=makeParticle(p["p"]);
  parameters::Table t0, t1; particlecavity::ParsAlong q0(t0), q1(t1);
  q0.uNot=p["u0"].D(); q0.kCav=p["k0"].I(); q0.modeCav=ModeFunctionType(p["mf0"].I());
  q1.uNot=p["u1"].D(); q1.kCav=p["k1"].I(); q1.modeCav=ModeFunctionType(p["mf1"].I());
  return Thing<3>::ia(std::make_shared<ParticleTwoModes>(m,m2,a,q0,q1,p["ph"].D()*cppqedutils::PI/2),m,m2,a);
}
