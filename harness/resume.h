// Systems and trajectories for spec/Resume.tla (real ODE and random engines)
#ifndef VERIF_RESUME_H
#define VERIF_RESUME_H
#include "composite.h"
#include "Random.h"
#include "Archive.h"
#include "ODE_GSL.h"
#include "Simulated.h"
#include <sstream>
#include <fstream>

struct RSpec {bool ex, ha, li;};
template<int I> struct RNone {RNone(const RSpec&) {}};
static const double W[3]={0.3,1.1,2.7};
struct RExact : Exact<1> {
  RExact(const RSpec&) {}
  bool applicableInMaster_v() const override {return true;}
  void actWithU_v(double t, StateVectorLow<1>& psi, double t0) const override {for (int x=0; x<3; ++x) psi(x)*=std::exp(dcomp(-.2*x,-W[x])*(t-t0));}
};
struct RHam : Hamiltonian<1> {
  RSpec s; RHam(const RSpec& s) : s(s) {}
  void addContribution_v(double t, const StateVectorLow<1>& psi, StateVectorLow<1>& d, double t0) const override {
    const dcomp I(0,1); const double tau=t-t0;
    for (int x=0; x<3; ++x) for (int y=0; y<3; ++y) {
      dcomp h=(x==y ? dcomp(.1*x) : dcomp(.7/(x+y),.3*(x-y)));
      if (s.ex) h*=std::exp(dcomp(.2*(x-y),W[x]-W[y])*tau); else h*=1+.5*std::cos(2.3*tau);
      d(x)+=-I*h*psi(y);
    }
    if (s.li && !s.ex) for (int x=0; x<3; ++x) d(x)-=.4*x*psi(x);
  }
};
struct RLi : ElementLiouvilleanAveragedCommon<Liouvillean<1>> {
  RLi(const RSpec&) : ElementLiouvilleanAveragedCommon<Liouvillean<1>>("J",std::list<std::string>{"down","up"}) {}
  const Rates average_v(double t, const LazyDensityOperator<1>& m) const override {
    Rates r(2); r(0)=.8*(real(m(1)(1))+2*real(m(2)(2))); r(1)=.5*(1+.3*std::cos(t))*(real(m(0)(0))+real(m(1)(1))); return r;
  }
  void actWithJ_v(double t, StateVectorLow<1>& psi, size_t c) const override {
    dcomp a=psi(0), b=psi(1), d=psi(2);
    if (c==0) {psi(0)=std::sqrt(.8)*b; psi(1)=std::sqrt(1.6)*d; psi(2)=0;}
    else {double g=std::sqrt(.5*(1+.3*std::cos(t))); psi(0)=0; psi(1)=g*a; psi(2)=g*b;}
  }
  void actWithSuperoperator_v(double, const DensityOperatorLow<1>&, DensityOperatorLow<1>&, size_t c) const override {throw SuperoperatorNotImplementedException(c);}
};
struct RAv : ElementAveraged<1> {
  RAv(const RSpec&) : ElementAveraged<1>("A",{"p0","p1","p2"}) {}
  const Averages average_v(NoTime, const LazyDensityOperator<1>& m) const override {Averages a(3); for (int x=0; x<3; ++x) a(x)=real(m(x)(x)); return a;}
  void process_v(Averages&) const override {}
};
template<bool EX, bool HA, bool LI> struct RSys : QuantumSystem<1>, std::conditional_t<EX,RExact,RNone<0>>, std::conditional_t<HA,RHam,RNone<1>>, std::conditional_t<LI,RLi,RNone<2>>, RAv {
  RSys(const RSpec& s) : QuantumSystem<1>(ExtTiny<1>(3)), std::conditional_t<EX,RExact,RNone<0>>(s), std::conditional_t<HA,RHam,RNone<1>>(s), std::conditional_t<LI,RLi,RNone<2>>(s), RAv(s) {}
  double highestFrequency_v() const override {return 5;}
  std::ostream& streamParameters_v(std::ostream& os) const override {return os;}
};
inline QuantumSystemPtr<1> rsys(const RSpec& s)
{
  auto li=[&](auto ex, auto ha) -> QuantumSystemPtr<1> {if (s.li) return std::make_shared<RSys<ex.value,ha.value,true>>(s); return std::make_shared<RSys<ex.value,ha.value,false>>(s);};
  auto ha=[&](auto ex) {if (s.ha) return li(ex,std::true_type{}); return li(ex,std::false_type{});};
  if (s.ex) return ha(std::true_type{}); return ha(std::false_type{});
}
static const double DT=.375;
inline std::string slurp(const std::string& f) {std::ifstream i(f,std::ios::binary); std::ostringstream o; o<<i.rdbuf(); return o.str();}
// data lines, and what follows the last of them
inline std::pair<std::string,std::string> dataLines(const std::string& text) {
  std::istringstream i(text); std::string l, r, tail; while (std::getline(i,l)) if (!l.empty() && l[0]!='#' && (isdigit(l[0]) || l[0]=='-' || l[0]==' ')) {r+=l+"\n"; tail.clear();} else tail+=l+"\n"; return {r,tail};
}
// make(p): a new trajectory as a new process would make it; p.T etc. are for run
template<typename P, typename MAKE> mj::Value resumeCompare(const mj::Value& in, MAKE make)
{
  mj::Array same; const bool runs=in["mode"].S()=="run"; std::ostringstream log; auto* b=std::clog.rdbuf(log.rdbuf()); auto* bo=std::cout.rdbuf(log.rdbuf());
  struct Restore {std::streambuf *b, *bo; ~Restore() {std::clog.rdbuf(b); std::cout.rdbuf(bo);}} restore{b,bo};
  const std::string AS="as without interruption";
  if (!runs) {
    auto digest=[](auto& t) {std::stringstream ss; {cppqedutils::oarchive oa(ss); t.stateIO(oa);} ss<<'|'; t.stream(ss,16); ss<<'|'<<t.getTime()<<'|'<<t.getDtDid(); t.logOnEnd(ss<<'|'); return ss.str();};
    auto image=[&]() {parameters::Table tbl; P p(tbl); return make(p);};
    using T=decltype(image()); auto ref=std::make_unique<T>(image()), t=std::make_unique<T>(image());
    for (size_t k=0; k<in["parts"].size(); ++k) {
      for (int n=0; n<in["parts"][k].I(); ++n) {cppqedutils::advance(*ref,DT,log); cppqedutils::advance(*t,DT,log);}
      bool s=digest(*ref)==digest(*t);
      std::stringstream ss; {cppqedutils::oarchive oa(ss); t->stateIO(oa);}
      t=std::make_unique<T>(image()); {cppqedutils::iarchive ia(ss); t->stateIO(ia);}
      bool r=digest(*ref)==digest(*t);
      same.push_back(s && r ? AS : s ? "different after restoring" : "different");
    }
  }
  else {
    auto go=[&](const std::string& name, const std::vector<int>& parts, bool upTo) {
      int sum=0; for (int n : parts) {
        parameters::Table tbl; P p(tbl); auto t=make(p); sum+=n;
        p.Dt=DT; p.dc=0; p.ofn=name; p.precision=14; p.logLevel=1; if (upTo) p.T=sum*DT; else {p.NDt=n; p.T=0;}
        cppqedutils::run(t,p);
      }
      auto r=dataLines(slurp(name)); auto state=slurp(name+".state"); unlink(name.c_str()); unlink((name+".state").c_str()); return std::make_pair(r,state);
    };
    std::vector<int> parts; for (auto& x : in["parts"].a) parts.push_back(x.I()); int sum=0; for (int n : parts) sum+=n;
    std::string verdict=AS;
    for (bool upTo : {false,true}) {
      auto a=go("ref",{sum},upTo), b=go("cut",parts,upTo);
      if (a.first.first!=b.first.first) verdict="different output\n"+a.first.first+"\n"+b.first.first;
      else if (a.first.second!=b.first.second) verdict="different closing log\n"+a.first.second+"\n"+b.first.second;
    }
    for (size_t k=0; k<parts.size(); ++k) same.push_back(verdict);
  }
  return mj::Object{{"same",same}};
}
mj::Value resumeMCWF(const mj::Value&);
mj::Value resumeMaster(const mj::Value&);
mj::Value resumeEnsemble(const mj::Value&);
#endif
