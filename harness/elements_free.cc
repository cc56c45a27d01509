#include "elements.h"
#include "Mode.tcc"
#include "BichromaticMode.h"
#include "HomodynedMode.h"
#include "PumpedTwoLevelAtom.h"
#include "TimeIndependentMatrixHamiltonian.h"
#include "AveragingUtils.h"

namespace {

typedef averagingUtils::Collecting<1> Collecting;

Collecting::Collection collection()
{
  Collecting::Collection c;
  c.push_back(new mode::Averaged); c.push_back(new mode::AveragedQuadratures);
  c.push_back(new mode::AveragedMonitorCutoff<>); c.push_back(new mode::AveragedMonitorCutoff<mode::AveragedQuadratures>);
  return c;
}

template<typename P, typename... Q> mode::Ptr withAveraging(const std::string& av, const P& p, Q... q)
{
  if (av=="A") return mode::make<mode::Averaged>(p,q...);
  if (av=="Q") return mode::make<mode::AveragedQuadratures>(p,q...);
  if (av=="AC") return mode::make<mode::AveragedMonitorCutoff<>>(p,q...);
  if (av=="QC") return mode::make<mode::AveragedMonitorCutoff<mode::AveragedQuadratures>>(p,q...);
  return mode::make<Collecting>(p,q...,collection());
}

void fill(const mode::Pars& q, const mj::Value& p)
{
  q.cutoff=p["N"].I(); q.delta=p["D"].D(); q.omegaKerr=p["W"].D(); q.omegaKerrAlter=p.has("WA") ? p["WA"].D() : 0.;
}

template<typename B> mode::Ptr homodyned(const mj::Value& p)
{
  parameters::Table t; mode::ParsHomodyned<B> q(t); fill(q,p);
  const double a=p["p"].D(), b=p["q"].D();
  q.kappa=(a*a-b*b)/2; q.nTh=b*b/(a*a-b*b); q.homodyneAmplitude=cx(p["al"]);
  if constexpr (std::is_same_v<B,mode::ParsPumpedLossy>) q.eta=cx(p["eta"]);
  if (p["av"].S()=="A") return mode::make<mode::Averaged>(q);
  return mode::make<mode::AveragedQuadratures>(q);
}

} // unnamed

mode::Ptr makeMode(const mj::Value& p)
{
  parameters::Table t;
  const std::string f=p["fac"].S(), av=p["av"].S();
  const QM_Picture qmp=qmPic(p["pic"]);
  if (f=="P") {mode::Pars q(t); fill(q,p); return withAveraging(av,q,qmp);}
  if (f=="L") {mode::ParsLossy q(t); fill(q,p); q.kappa=p["K"].D(); q.nTh=p["Th"].D(); return withAveraging(av,q,qmp);}
  if (f=="U") {mode::ParsPumped q(t); fill(q,p); q.eta=cx(p["eta"]); return withAveraging(av,q,qmp);}
  mode::ParsPumpedLossy q(t); fill(q,p); q.kappa=p["K"].D(); q.nTh=p["Th"].D(); q.eta=cx(p["eta"]);
  if (av=="A" && p["N"].I()%2) return mode::make(q,qmp); // without specifying the averaging
  return withAveraging(av,q,qmp);
}

std::shared_ptr<const QbitBase> makeQbit(const mj::Value& p)
{
  parameters::Table t;
  if (p["P"].I()) {
    qbit::ParsPumpedLossyPhaseNoise q(t); q.delta=p["D"].D(); q.gamma=p["K"].D(); q.eta=cx(p["eta"]); q.gamma_parallel=p["P"].D();
    return qbit::make(q,qmPic(p["pic"]));
  }
  if (p["D"].I()>0) {
    qbit::ParsPumpedLossyPhaseNoise q(t); q.delta=p["D"].D(); q.gamma=p["K"].D(); q.eta=cx(p["eta"]); q.gamma_parallel=0;
    return qbit::make(q,qmPic(p["pic"]));
  }
  qbit::ParsPumpedLossy q(t); q.delta=p["D"].D(); q.gamma=p["K"].D(); q.eta=cx(p["eta"]);
  return qbit::make(q,qmPic(p["pic"]));
}

std::shared_ptr<const SpinBase> makeSpin(const mj::Value& p)
{
  parameters::Table t; spin::Pars q(t);
  q.twoS=p["TS"].I(); q.dim=p["dim"].I(); q.theta=p["th"].D()*cppqedutils::PI/2; q.phi=p["ph"].D()*cppqedutils::PI/2; q.omega=p["om"].D(); q.gamma=p["ga"].D();
  const bool loss=p["loss"].B(), sch=p["sch"].B();
  if (loss) {if (sch) return std::make_shared<LossySpinSch>(q); else return std::make_shared<LossySpin>(q);}
  if (sch) return std::make_shared<SpinSch>(q);
  return std::make_shared<Spin>(q);
}

particle::PtrPumped makePumpedParticle(const mj::Value& p)
{
  parameters::Table t; particle::ParsPumped q(t);
  q.omrec=p["om"].D(); q.fin=p["fin"].I(); q.vClass=p["V"].D(); q.kPart=p["kp"].I(); q.modePart=ModeFunctionType(p["mf"].I());
  return particle::makePumped(q,qmPic(p["pic"]));
}

particle::Ptr makeParticle(const mj::Value& p)
{
  if (p["pumped"].B()) return makePumpedParticle(p);
  parameters::Table t; particle::Pars q(t);
  q.omrec=p["om"].D(); q.fin=p["fin"].I();
  return particle::make(q,qmPic(p["pic"]));
}

Thing<1> free1(const std::string& k, const mj::Value& p)
{
  typedef Thing<1> T;
  if (k=="mode") return T::of(makeMode(p));
  if (k=="modeAlt") {
    parameters::Table t; mode::ParsPumpedLossy q(t); fill(q,p); q.kappa=p["K"].D(); q.nTh=p["Th"].D(); q.eta=cx(p["eta"]);
    const bool a=p["av"].S()=="A";
    if (p["Th"].I()) {
      if (a) return T::of(std::make_shared<PumpedLossyModeAlternative<true>>(q));
      return T::of(std::make_shared<PumpedLossyModeAlternative<true,mode::AveragedQuadratures>>(q));
    }
    if (a) return T::of(std::make_shared<PumpedLossyModeAlternative<false>>(q));
    return T::of(std::make_shared<PumpedLossyModeAlternative<false,mode::AveragedQuadratures>>(q));
  }
  if (k=="bichro" || k=="bichroT") {
    parameters::Table t; mode::ParsBichromatic q(t); fill(q,p); q.kappa=p["K"].D(); q.nTh=p["Th"].D(); q.eta=cx(p["eta"]);
    q.etaOther=cx(p["eta2"]); q.deltaOther=p["do"].D()*cppqedutils::PI/2;
    return T::of(mode::make<mode::Averaged>(q,QMP_IP));
  }
  if (k=="noex") {
    parameters::Table t; mode::ParsPumpedLossy q(t); q.cutoff=p["N"].I(); q.delta=p["D"].D(); q.kappa=p["K"].D(); q.eta=cx(p["eta"]);
    return T::of(std::make_shared<PumpedLossyModeIP_NoExact>(q));
  }
  if (k=="homo") return T::of(p["pump"].B() ? homodyned<mode::ParsPumpedLossy>(p) : homodyned<mode::ParsLossy>(p));
  if (k=="qbit") return T::of(makeQbit(p));
  if (k=="p2la") {
    parameters::Table t; qbit::ParsPumpedLossy q(t); q.delta=p["D"].D(); q.gamma=p["K"].D(); q.eta=cx(p["eta"]);
    return T::of(std::make_shared<PumpedTwoLevelAtomSch>(q));
  }
  if (k=="spin" || k=="spinR") return T::of(makeSpin(p));
  if (k=="part") return T::of(makeParticle(p));
  if (k=="ml") return multilevel1(p);
  if (k=="timh") {
    linalg::CMatrix m(3,3);
    for (int i=0; i<3; ++i) for (int j=0; j<3; ++j) m(i,j)=cx(p["m"][i][j]);
    return T::of(std::make_shared<TimeIndependentMatrixHamiltonian>(m));
  }
  if (k=="rdo") return T::of(std::make_shared<ReducedDensityOperator<1>>("rho",structure::QuantumSystem<1>::Dimensions(p["dims"][0].I()),p["off"].B()));
  throw std::logic_error("unknown element "+k);
}
