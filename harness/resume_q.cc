#include "resume.h"
#include "MCWF_Trajectory.h"
#include "Master.h"
using namespace quantumtrajectory;
using P=cppqedutils::trajectory::Pars<mcwf::Pars<pcg64>>;
static RSpec caps(const mj::Value& k) {const auto& c=k["caps"].S(); auto has=[&](char x) {return c.find(x)!=std::string::npos;}; return {has('x'),has('h'),has('l')};}
static quantumdata::StateVector<1> psi0() {quantumdata::StateVector<1> p{ExtTiny<1>(3)}; p(0)=.5; p(1)=dcomp(.2,.6); p(2)=dcomp(0,-.4); p.renorm(); return p;}
static void tune(P& p, const mj::Value& k) {p.epsRel=1e-5; p.epsAbs=1e-10; p.logLevel=1; p.seed=k["seed"].I(); p.dpLimit=.03; p.nTraj=3; p.ofn="";}
template<template <typename> class ODE> mj::Value single(const mj::Value& in)
{
  const auto& k=in["kind"];
  return resumeCompare<P>(in,[&](P& p) {tune(p,k); return mcwf::make<ODE<StateVectorLow<1>>,pcg64>(rsys(caps(k)),psi0(),p);});
}
template<template <typename> class ODE> mj::Value dens(const mj::Value& in)
{
  const auto& k=in["kind"];
  return resumeCompare<P>(in,[&](P& p) {tune(p,k); return master::make<ODE<DensityOperatorLow<1>>,tmptools::V_Empty>(rsys(caps(k)),quantumdata::DensityOperator<1>(psi0()),p,EntanglementMeasuresSwitch());});
}
mj::Value resumeMCWF(const mj::Value& in) {return in["kind"]["engine"].S()=="gsl" ? single<cppqedutils::ODE_EngineGSL>(in) : single<cppqedutils::ODE_EngineBoost>(in);}
mj::Value resumeMaster(const mj::Value& in) {return in["kind"]["engine"].S()=="gsl" ? dens<cppqedutils::ODE_EngineGSL>(in) : dens<cppqedutils::ODE_EngineBoost>(in);}
mj::Value resumeEnsemble(const mj::Value& in)
{
  const auto& k=in["kind"];
  return resumeCompare<P>(in,[&](P& p) {tune(p,k); return mcwf::makeEnsemble<cppqedutils::ODE_EngineBoost<StateVectorLow<1>>,pcg64,tmptools::V_Empty>(rsys(caps(k)),psi0(),p,EntanglementMeasuresSwitch());});
}
