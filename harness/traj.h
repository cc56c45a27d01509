// An environment for the trajectory drivers: an ODE engine deciding about step sizes as it is told, a random engine drawing what it is told,
// and quantum systems (spec/MCWF.tla, spec/Master.tla) with any subset of the capabilities, all depending on the time instants they are evaluated at.
#ifndef VERIF_TRAJ_H
#define VERIF_TRAJ_H
#include "composite.h"
#include "Random.h"
#include "Archive.h"
#include "FormDouble.h"

struct Script {double f=1, g=1, r=0.5;};
inline Script& script() {static Script s; return s;}

// over a step beginning at t: state := a*state + derivative, whatever the size of the step
template<typename State, int A> struct MockODE
{
  double dtDid=0, dtTry=0;
  MockODE() {}
  MockODE(double d) : dtTry(d) {}
  template<typename P> MockODE(double d, const P&) : dtTry(d) {}
  double getDtDid() const {return dtDid;}
  double getDtTry() const {return dtTry;}
  void setDtDid(double d) {dtDid=d;}
  void setDtTry(double d) {dtTry=d;}
  template<typename F> void step(double Dt, std::ostream&, F derivs, double& t, State& s) {
    State d(s.shape()); d=dcomp(3,-7); const State in(s.copy());
    derivs(in,d,t);
    s=dcomp(A)*in+d;
    dtDid=std::min(dtTry,Dt)*script().f; t+=dtDid; dtTry=dtDid*script().g;
  }
  template<typename F> void step(double Dt, std::ostream& os, F derivs, double& t, State&& s) {step(Dt,os,derivs,t,static_cast<State&>(s));}
  template<typename Ar> Ar& stateIO(Ar& ar) {ar & dtDid & dtTry; return ar;}
  std::ostream& logOnEnd(std::ostream& os) const {return os;}
  std::ostream& streamParameters(std::ostream& os) const {return os<<"mock ODE\n";}
};

struct MockEngine
{
  using result_type=std::uint64_t;
  static constexpr result_type min() {return 0;}
  static constexpr result_type max() {return ~result_type(0);}
  std::uint64_t id=0;
  MockEngine(unsigned long s=0, unsigned long p=0) : id(1000*s+p) {}
  result_type operator()() {return result_type(std::ldexp((long double)script().r,64));}
  template<typename Ar> void serialize(Ar& ar, unsigned) {ar & id;}
};

// the closest rational with a denominator of at most 20000
inline mj::Value ratio(double x)
{
  if (std::isinf(x)) return mj::Array{1,0};
  long long p0=0,q0=1,p1=1,q1=0; double y=x;
  for (int i=0; i<40; ++i) {
    double a=std::floor(y+1e-9); long long p2=(long long)(a)*p1+p0, q2=(long long)(a)*q1+q0;
    if (q2>20000) break;
    p0=p1; q0=q1; p1=p2; q1=q2;
    if (std::abs(double(p1)/q1-x)<=1e-12*std::max(1.,std::abs(x))) return mj::Array{p1,q1};
    y=1/(y-a); if (!std::isfinite(y)) break;
  }
  return x;
}
inline double val(const mj::Value& r) {return r[0].D()/r[1].D();}

struct TSpec {int n, s, li, special; bool ex, ha;};
inline TSpec tspec(const mj::Value& v) {return {int(v["n"].I()),int(v["s"].I()),int(v["li"].I()),int(v["special"].I()),v["ex"].B(),v["ha"].B()};}
inline int Fd(double t) {return int(std::floor(6*t+.2));}
inline dcomp ipow(int k) {static const dcomp v[4]={{1,0},{0,1},{-1,0},{0,-1}}; return v[md(k,4)];}
inline std::vector<Entry> operH(const TSpec& s, int n, double t, double t0)
{
  std::vector<Entry> v; for (int x=1; x<=n; ++x) v.push_back({x%n,ipow(x*(Fd(t)+2*Fd(t0))+s.s+x*x)*(x==1 ? 2. : 1.)}); return v;
}
inline std::vector<Entry> operU(const TSpec& s, int n, double t, double t0)
{
  std::vector<Entry> v; for (int x=1; x<=n; ++x) v.push_back({x-1,ipow(x*(Fd(t)-Fd(t0)))*(x==2 && Fd(t)!=Fd(t0) ? 2. : 1.)}); return v;
}
inline std::vector<Entry> operJ(const TSpec& s, int n, int c, double t)
{
  std::vector<Entry> v; for (int x=1; x<=n; ++x) v.push_back({(x+c-1)%n,ipow(s.s+c*x)*double(md(s.s+c*x+x,3)+(x==c && Fd(t)%2==1))}); return v;
}
template<int R> struct TExact : Exact<R> {
  TSpec s; bool mas; TExact(const TSpec& s, bool mas) : s(s), mas(mas) {}
  bool applicableInMaster_v() const override {return mas;}
  void actWithU_v(double t, StateVectorLow<R>& psi, double t0) const override {applyOp(operU(s,psi.size(),t,t0),psi);}
};
template<int R> struct THam : Hamiltonian<R> {
  TSpec s; THam(const TSpec& s, bool) : s(s) {}
  void addContribution_v(double t, const StateVectorLow<R>& psi, StateVectorLow<R>& d, double t0) const override {
    auto e=elements(psi), f=elements(d); auto o=operH(s,e.size(),t,t0);
    for (size_t x=0; x<o.size(); ++x) *f.at(x)+=o[x].w*(*e.at(o[x].y));
  }
};
template<int R> struct TLi : ElementLiouvilleanAveragedCommon<Liouvillean<R>> {
  TSpec s; TLi(const TSpec& s, bool) : ElementLiouvilleanAveragedCommon<Liouvillean<R>>("J",labelList("J",0,s.li)), s(s) {}
  bool special(int c) const {return (s.special>>(c-1))&1;}
  const Rates average_v(double t, const LazyDensityOperator<R>& m) const override {
    Rates r(s.li); for (int c=1; c<=s.li; ++c) r(c-1)=special(c) ? -1. : expect<R>(operJ(s,m.getTotalDimension(),c,t),m); return r;
  }
  void actWithJ_v(double t, StateVectorLow<R>& psi, size_t c) const override {if (c>=s.li) throw std::runtime_error("no such jump"); applyOp(operJ(s,psi.size(),c+1,t),psi);}
  // a special channel has no superoperator either
  void actWithSuperoperator_v(double t, const DensityOperatorLow<R>& rho, DensityOperatorLow<R>& d, size_t c) const override {
    if (special(c+1)) throw SuperoperatorNotImplementedException(c);
    super(operJ(s,int(std::round(std::sqrt(double(rho.size())))),c+1,t),rho,d);
  }
};
template<int I> struct TNone {TNone(const TSpec&, bool) {}};
template<int R, bool EX, bool HA, bool LI> struct TSys : QuantumSystem<R>, std::conditional_t<EX,TExact<R>,TNone<0>>, std::conditional_t<HA,THam<R>,TNone<1>>, std::conditional_t<LI,TLi<R>,TNone<2>> {
  TSys(const typename QuantumSystem<R>::Dimensions& d, const TSpec& s, bool mas) : QuantumSystem<R>(d), std::conditional_t<EX,TExact<R>,TNone<0>>(s,mas), std::conditional_t<HA,THam<R>,TNone<1>>(s,mas), std::conditional_t<LI,TLi<R>,TNone<2>>(s,mas) {}
  double highestFrequency_v() const override {return 1;}
  std::ostream& streamParameters_v(std::ostream& os) const override {return os;}
};
template<int R> QuantumSystemPtr<R> tsys(const TSpec& s, const typename QuantumSystem<R>::Dimensions& d, bool mas=true)
{
  auto li=[&](auto ex, auto ha) -> QuantumSystemPtr<R> {if (s.li>=0) return std::make_shared<TSys<R,ex.value,ha.value,true>>(d,s,mas); return std::make_shared<TSys<R,ex.value,ha.value,false>>(d,s,mas);};
  auto ha=[&](auto ex) {if (s.ha) return li(ex,std::true_type{}); return li(ex,std::false_type{});};
  if (s.ex) return ha(std::true_type{}); return ha(std::false_type{});
}
// the integer following a text
inline mj::Value after(const std::string& text, const std::string& what) {auto p=text.find(what); if (p==std::string::npos) return "not found: "+what; return std::strtoll(text.c_str()+p+what.size(),nullptr,10);}
#endif
