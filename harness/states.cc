// Conformance harness for spec/States.tla: initial conditions from the command line
#include "mj.h"
#include "Mode_.h"
#include "ParsMode.h"
#include "Qbit_.h"
#include "ParsQbit.h"
#include "Particle_.h"
#include "ParsParticle.h"
#include "QM_Picture.h"
#include "EvolutionMethod.h"
#include "ModeFunction.h"
#include "Pars.h"
#include <memory>

using SV=quantumdata::StateVector<1>;
static const double PI_=std::acos(-1.), LN2=std::log(2.);

static std::string text(double x) {char b[40]; snprintf(b,40,"%.17g",x); return b;}
static std::string textc(dcomp z) {return "("+text(z.real())+","+text(z.imag())+")";}

// the width making the packet match the grid
static double width(const std::string& w)
{
  if (w=="zero") return 0;
  if (w=="k") return .5/std::sqrt(LN2);
  const double dx=2*PI_/(w[1]=='2' ? 4 : 8);
  return w[0]=='x' ? dx/(2*std::sqrt(LN2)) : dx;
}

// the potential depth whose ground state is the same as the packet with the matching width:
// the characteristic length of omrec K^2 + |V| X^2 is l=(omrec/|V|)^(1/4), its ground state exp(-x^2/2l^2)
static double depth(const std::string& w, double om)
{
  const double l = w[0]=='x' ? width(w)*std::sqrt(2.) : width(w);
  return om/(l*l*l*l);
}

template <typename E> static mj::Value readWords(const mj::Value& in, E v)
{
  {std::istringstream is(in["req"]["from"].S()); is>>v;}
  std::string all; for (auto& w : in["words"].a) all+=(all.empty() ? "" : " ")+w.S();
  std::istringstream is(all); mj::Array reads;
  for (size_t i=0; i<in["words"].size(); ++i) {
    is>>v; std::ostringstream os; os<<v;
    reads.push_back(mj::Object{{"good",mj::Value(bool(is))},{"val",mj::Value(os.str())}});
  }
  return mj::Object{{"reads",reads}};
}

static std::vector<dcomp> toVec(const SV& psi) {std::vector<dcomp> r; for (size_t n=0; n<psi.getDimension(); ++n) r.push_back(psi(n)); return r;}

static mj::Value run(const mj::Value& in)
{
  const std::string tab=in["tab"].S();
  if (tab=="picture") return readWords(in,QMP_IP);
  if (tab=="method") return readWords(in,evolution::SINGLE);
  if (tab=="modefunction") return readWords(in,MFT_SIN);
  const auto& rq=in["req"]; const std::string f=rq["f"].S();
  parameters::Table t;
  std::map<std::string,std::shared_ptr<mode::Pars>> modes; std::map<std::string,std::shared_ptr<qbit::Pars>> qbits; std::map<std::string,std::shared_ptr<particle::Pars>> particles;
  for (std::string m : {"","B"})
    if (tab=="mode") modes[m]=std::make_shared<mode::Pars>(t,m);
    else if (tab=="qbit") qbits[m]=std::make_shared<qbit::Pars>(t,m);
    else if (tab=="particle") particles[m]=std::make_shared<particle::Pars>(t,m);
    else particles[m]=std::make_shared<particle::ParsPumped>(t,m);
  std::vector<std::string> w{"prog"};
  for (auto& x : in["words"].a) {
    const std::string n=x["name"].S(); const auto& v=x["val"];
    w.push_back("--"+n+x["mod"].S());
    if (n=="minit") w.push_back(textc({v[0].D(),v[1].D()}));
    else if (n=="qbitInit") w.push_back(textc({v[0].D()/25,v[1].D()/25}));
    else if (n=="pinit") w.push_back("("+text(v["x0"].D()/4)+","+text(v["k0"].D())+","+text(width(v["sig"].S()))+","+(v["ink"].B() ? "1" : "0")+")");
    else if (n=="vClass") w.push_back(text(v["sgn"].D()*depth(v["match"].S(),v["om"].D())));
    else w.push_back(std::to_string(v.I()));
  }
  std::vector<char*> av; for (auto& x : w) av.push_back(x.data()); av.push_back(nullptr);
  parameters::update(t,int(w.size()),av.data(),"--");

  std::vector<dcomp> v; bool refused=false; mj::Array out;
  auto result=[&](const SV& psi) {v=toVec(psi);};
  bool norm=false;
  auto isNormalised=[&](double eps=1e-10) {double s=0; for (auto z : v) s+=std::norm(z); return std::abs(s-1)<eps;};
  if (tab=="mode") {
    try {
      if (f=="init") result(mode::init(*modes.at(rq["mod"].S())));
      else if (f=="fock") result(rq["phase"].I() ? mode::fock(rq["n"].I(),rq["dim"].I(),rq["phase"].D()*PI_/2) : mode::fock(rq["n"].I(),rq["dim"].I()));
      else if (f=="coherent") result(mode::coherent({rq["alpha"][0].D(),rq["alpha"][1].D()},rq["dim"].I()));
      else {
        static const dcomp ip[]={1,dcomp(0,1),-1,dcomp(0,-1)};
        result(mode::coherent(12.*ip[rq["k"].I()],rq["dim"].I()));
        for (auto& n : rq["ns"].a) out.push_back(mj::cnum(v.at(n.I())*std::exp(72.+.5*std::lgamma(n.D()+1)-n.D()*std::log(12.)),1,1e-3));
        norm=isNormalised(1e-3); // the dimension holds practically all of it
        return mj::Object{{"refused",mj::Value(false)},{"v",out},{"norm",mj::Value(norm)}};
      }
    } catch (const std::overflow_error&) {refused=true;}
    if (!refused) {
      const bool sc=rq["scaled"].B();
      double a2=0; if (sc) {dcomp al = f=="init" ? modes.at(rq["mod"].S())->minit : dcomp(rq["alpha"][0].D(),rq["alpha"][1].D()); a2=std::norm(al);}
      norm = sc ? false : isNormalised();
      for (size_t n=0; n<v.size(); ++n) out.push_back(mj::cnum(sc ? v[n]*std::exp(a2/2+.5*std::lgamma(n+1.)) : v[n],1,1e-6));
    }
  }
  else if (tab=="qbit") {
    result(f=="init" ? qbit::init(*qbits.at(rq["mod"].S())) : f=="state0" ? qbit::state0() : qbit::state1());
    norm=isNormalised(); for (auto z : v) out.push_back(mj::cnum(z*25.,1,1e-6));
  }
  else {
    using namespace particle;
    const Pars& p=*particles.at(rq["mod"].S()); const ParsPumped* pp=dynamic_cast<const ParsPumped*>(&p); const bool kf=rq["kf"].B();
    if (f=="init") result(particle::init(p));
    else if (f=="wp") result(pp ? wavePacket(*pp,kf) : wavePacket(p,kf));
    else if (f=="ho") result(pp ? hoState(*pp,kf) : hoState(p,kf));
    else if (f=="wpDirect") result(wavePacket(p.init,Spatial(p.fin),kf));
    else result(hoState(p.hoInitn,p.init,Spatial(p.fin),kf));
    norm=isNormalised();
    // the representation in which the state is simple, by a Fourier transform of our own: psi(x_j) ~ sum_k psi_k exp(i k x_j)
    const int N=v.size(); const std::string basis=rq["basis"].S();
    auto X=[&](int j) {return -PI_+2*PI_*j/N;};
    std::vector<dcomp> u(N);
    if (kf && basis!="k") for (int j=0; j<N; ++j) {u[j]=0; for (int k=0; k<N; ++k) u[j]+=v[k]*std::exp(dcomp(0,(k-N/2)*X(j)));}
    else if (!kf && basis=="k") for (int k=0; k<N; ++k) {u[k]=0; for (int j=0; j<N; ++j) u[k]+=v[j]*std::exp(dcomp(0,-(k-N/2)*X(j)));}
    else u=v;
    if (basis=="h") for (int j=0; j<N; ++j) u[j]*=std::exp(.5*(j-rq["j0"].D())*(j-rq["j0"].D()));
    const int ref=int(rq["ref"].I())-1; const dcomp fac=dcomp(rq["at"][0].D(),rq["at"][1].D())/u.at(ref);
    for (auto z : u) out.push_back(mj::cnum(z*fac,1,1e-3));
  }
  return mj::Object{{"refused",mj::Value(refused)},{"v",out},{"norm",mj::Value(norm)}};
}

int main(int argc, char** argv) {return mj::loop(argc,argv,run);}
