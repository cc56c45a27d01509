// Conformance harness for spec/ElemPars.tla: the parameters of whole simulations
#define QUANTUM_EVOLUTION_DEFAULT_RANDOM_ENGINE pcg64
#include "mj.h"
#include "Evolution_.h"
#include "QM_Picture.h"
#include "ParsMode.h"
#include "BichromaticMode.h"
#include "HomodynedMode.h"
#include "ParsQbit.h"
#include "ParsParticle.h"
#include "Spin.h"
#include "JaynesCummings_.h"
#include "ParsParticleCavity.h"
#include "DistributionFunctions.h"
#include "Pars.h"

static std::string str(double x) {char b[40]; snprintf(b,40,"%.12g",x); return b;}
static std::string str(int x) {return std::to_string(x);}
static std::string str(long x) {return std::to_string(x);}
static std::string str(unsigned x) {return std::to_string(x);}
static std::string str(unsigned long x) {return std::to_string(x);}
static std::string str(bool x) {return x ? "1" : "0";}
static std::string str(const dcomp& z) {return "("+str(z.real())+","+str(z.imag())+")";}
static std::string str(const std::string& s) {return s;}
static std::string str(const formdouble::Zero& z) {return std::to_string(int(z));}
static std::string str(const particle::InitialCondition& i) {return "("+str(i.getX0())+","+str(i.getK0())+","+str(i.getSig())+","+str(i.isInK())+")";}
static std::string str(evolution::Method m) {return m==evolution::SINGLE ? "single" : m==evolution::ENSEMBLE ? "ensemble" : "master";}
static std::string str(QM_Picture q) {return q==QMP_IP ? "IP" : q==QMP_UIP ? "UIP" : "Sch";}
static std::string str(ModeFunctionType q) {return q==MFT_SIN ? "Sin" : q==MFT_COS ? "Cos" : q==MFT_PLUS ? "Plus" : "Minus";}
static std::string str(const EntanglementMeasuresSwitch& e) {return e.to_string();}

struct Out {mj::Array a; template <typename... T> void operator()(const T&... t) {(a.push_back(mj::Value(str(t))),...);}};

static void evol(Out& o, const evolution::Pars<>& p)
{
  o(p.epsRel,p.epsAbs,p.logLevel,p.seed,p.prngStream,p.noise,p.nTraj,p.dpLimit,p.overshootTolerance,p.nBins,p.nJumpsPerBin,
    p.T,p.dc,p.Dt,p.NDt,p.ofn,p.initialFileName,p.precision,p.streamInfo,p.firstStateStream,p.sdf,p.autoStopEpsilon,p.autoStopEpsilonAbs,p.autoStopRepetition,p.evol,p.ems);
}
static void base(Out& o, const mode::Pars& p) {o(p.cutoff,p.minitFock,p.minit,p.streamLevel,p.delta,p.omegaKerr,p.omegaKerrAlter);}
static void full(Out& o, const mode::ParsPumpedLossy& p) {base(o,p); o(p.eta,p.kappa,p.nTh);}
static void part(Out& o, const particle::ParsPumped& p) {o(p.omrec,p.fin,p.init,p.hoInitn,p.vClass,p.kPart,p.modePart);}

static mj::Value run(const mj::Value& in)
{
  std::vector<std::string> w{"prog"};
  for (auto& x : in["words"].a) {w.push_back("--"+x[0].S()); if (x.size()>1) w.push_back(x[1].S());}
  std::vector<char*> av; for (auto& x : w) av.push_back(x.data()); av.push_back(nullptr);
  parameters::Table t; Out o;
  if (in["sys"].I()==1) {
    evolution::Pars<> pe(t); qbit::ParsPumpedLossyPhaseNoise q(t); mode::ParsPumpedLossy m(t); mode::ParsBichromatic b(t,"B"); jaynescummings::Pars jc(t);
    QM_Picture& qmp=t.add("picture","Quantum mechanical picture",QMP_IP);
    parameters::update(t,int(w.size()),av.data(),"--");
    evol(o,pe); o(q.qbitInit,q.delta,q.eta,q.gamma,q.gamma_parallel); full(o,m); full(o,b); o(b.deltaOther,b.etaOther,jc.g,qmp);
  }
  else {
    evolution::Pars<> pe(t,"X"); particle::ParsPumped p(t), pB(t,"B"); particlecavity::ParsAlongGenericPump c(t), cB(t,"B");
    mode::ParsHomodyned<mode::ParsLossy> h(t); mode::ParsPumped mp(t,"P"); spin::Pars s(t), sB(t,"B"); quantumdata::ParsFunctionScan f(t), fB(t,"B");
    parameters::update(t,int(w.size()),av.data(),"--");
    evol(o,pe); part(o,p); part(o,pB); for (auto* x : {&c,&cB}) o(x->uNot,x->kCav,x->modeCav,x->etaeff);
    base(o,h); o(h.kappa,h.nTh,h.homodyneAmplitude); base(o,mp); o(mp.eta);
    for (auto* x : {&s,&sB}) o(x->twoS,x->dim,x->theta,x->phi,x->omega,x->gamma);
    for (auto* x : {&f,&fB}) o(x->fLimitXUL,x->fLimitYUL,x->fLimitXL,x->fLimitXU,x->fLimitYL,x->fLimitYU,x->fStep,x->fCutoff);
  }
  return mj::Object{{"vals",o.a}};
}

int main(int argc, char** argv) {return mj::loop(argc,argv,run);}
