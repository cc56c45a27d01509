// Parts of composite systems having any subset of the optional capabilities, with operators given by spec/Composite.tla
#ifndef VERIF_COMPOSITE_H
#define VERIF_COMPOSITE_H
#include "mj.h"
#include "StateVector.h"
#include "DensityOperator.h"
#include "Structure.h"
#include "Free.h"
#include "Interaction.h"
#include "ElementAveraged.h"
#include "ElementLiouvillean.h"
#include <memory>

using namespace structure;
using quantumdata::StateVectorLow; using quantumdata::DensityOperatorLow; using quantumdata::LazyDensityOperator;

struct Spec {int id; bool ex, ha; int li, av; bool mas; std::string name() const {return std::to_string(id);}};

inline int md(int a, int b) {return ((a%b)+b)%b;}
inline dcomp weight(int s, int kind, int c, int x) {return {double(md(3*s+2*kind+5*c+7*x,5)-2),double(md(s+3*kind+c+2*x+x*x,4)-1)};}
inline int column(int s, int kind, int c, int x, int n) {return 1+md(x+s+2*kind+c,n);}
struct Entry {int y; dcomp w;};
inline std::vector<Entry> oper(int s, int kind, int c, int n, double plus, double times)
{
  std::vector<Entry> v; for (int x=1; x<=n; ++x) v.push_back({column(s,kind,c,x,n)-1,times*(weight(s,kind,c,x)+plus)}); return v;
}
// any array as the vector of its elements in row-major order of the indices
template<typename A> std::vector<dcomp*> elements(A& a)
{
  constexpr int R=std::decay_t<A>::rank_; std::vector<dcomp*> res; size_t n=1; for (int k=0; k<R; ++k) n*=a.extent(k);
  for (size_t f=0; f<n; ++f) {blitz::TinyVector<int,R> i; size_t r=f; for (int k=R-1; k>=0; --k) {i(k)=a.lbound(k)+r%a.extent(k); r/=a.extent(k);} res.push_back(const_cast<dcomp*>(&a(i)));}
  return res;
}
template<int R> std::vector<IdxTiny<R>> ldoIndices(const LazyDensityOperator<R>& m)
{
  std::vector<IdxTiny<R>> v; ExtTiny<R> e(m.getDimensions()); size_t n=1; for (int k=0; k<R; ++k) n*=e[k];
  for (size_t f=0; f<n; ++f) {IdxTiny<R> i; size_t r=f; for (int k=R-1; k>=0; --k) {i[k]=r%e[k]; r/=e[k];} v.push_back(i);}
  return v;
}
template<int R> dcomp at(const LazyDensityOperator<R>& m, const IdxTiny<R>& i, const IdxTiny<R>& j) {if constexpr (R==1) return m(i[0])(j[0]); else return m(i)(j);}

template<typename A> void applyOp(const std::vector<Entry>& o, A& psi)
{
  auto e=elements(psi); std::vector<dcomp> old; for (auto p : e) old.push_back(*p);
  for (size_t x=0; x<o.size(); ++x) *e.at(x)=o[x].w*old.at(o[x].y);
}
template<typename A> void super(const std::vector<Entry>& o, const A& rho, A& drho)
{
  auto r=elements(rho), d=elements(drho); size_t n=o.size();
  for (size_t x=0; x<n; ++x) for (size_t z=0; z<n; ++z) *d.at(x*n+z)+=o[x].w*conj(o[z].w)*(*r.at(o[x].y*n+o[z].y));
}
template<int R> double expect(const std::vector<Entry>& o, const LazyDensityOperator<R>& m)  // of J^dagger J
{
  auto ix=ldoIndices(m); double s=0; for (auto& e : o) s+=std::norm(e.w)*real(at(m,ix.at(e.y),ix.at(e.y))); return s;
}
inline std::vector<std::string> labels(const std::string& pre, int id, int n) {std::vector<std::string> v; for (int c=1; c<=n; ++c) v.push_back(pre+std::to_string(id)+"_"+std::to_string(c)); return v;}
inline std::list<std::string> labelList(const std::string& pre, int id, int n) {auto v=labels(pre,id,n); return {v.begin(),v.end()};}

template<int R> struct MExact : Exact<R> {
  int id; bool mas; MExact(const Spec& s) : id(s.id), mas(s.mas) {}
  bool applicableInMaster_v() const override {return mas;}
  void actWithU_v(double t, StateVectorLow<R>& psi, double t0) const override {
    auto e=elements(psi); const dcomp I(0,1);
    for (int x=1; x<=int(e.size()); ++x) *e[x-1]*=std::pow(I,md(int(3*id+x*(id+1)+(2*t-t0)*x),4));
  }
};
template<int R> struct MHam : Hamiltonian<R> {
  int id; MHam(const Spec& s) : id(s.id) {}
  void addContribution_v(double t, const StateVectorLow<R>& psi, StateVectorLow<R>& d, double t0) const override {
    auto e=elements(psi), f=elements(d); auto o=oper(id,2,0,e.size(),0,t+2*t0+id);
    for (size_t x=0; x<o.size(); ++x) *f.at(x)+=o[x].w*(*e.at(o[x].y));
  }
};
inline int tot(const std::vector<dcomp*>& v) {return v.size();}
// 0: a bare Liouvillean without channels; 1: single time-dependent channel; 2: two through strategies; 3: three time-independent ones
template<int R, int LI> struct MLi {};
template<int R> struct MLi<R,0> : ElementLiouvilleanAveragedCommon<Liouvillean<R>> {
  MLi(const Spec& s) : ElementLiouvilleanAveragedCommon<Liouvillean<R>>("J"+s.name(),std::list<std::string>()) {}
  const Rates average_v(double, const LazyDensityOperator<R>&) const override {return Rates();}
  void actWithJ_v(double, StateVectorLow<R>&, size_t) const override {throw std::runtime_error("no such jump");}
  void actWithSuperoperator_v(double, const DensityOperatorLow<R>&, DensityOperatorLow<R>&, size_t) const override {throw std::runtime_error("no such jump");}
};
template<int R> struct MLi<R,1> : ElementLiouvillean<R,1,true> {
  int id; MLi(const Spec& s) : ElementLiouvillean<R,1,true>("J"+s.name(),"J"+s.name()+"_1"), id(s.id) {}
  void doActWithJ(OneTime t, StateVectorLow<R>& psi) const override {applyOp(oper(id,3,1,psi.size(),t,1),psi);}
  double rate(OneTime t, const LazyDensityOperator<R>& m) const override {return expect<R>(oper(id,3,1,m.getTotalDimension(),t,1),m);}
  void doActWithSuperoperator(OneTime t, const DensityOperatorLow<R>& rho, DensityOperatorLow<R>& d) const override {super(oper(id,3,1,int(std::round(std::sqrt(double(rho.size())))),t,1),rho,d);}
};
template<int R> struct MLi<R,2> : ElementLiouvilleanStrategies<R,2,true> {
  using B=ElementLiouvilleanStrategies<R,2,true>;
  static typename B::JumpStrategies js(int id) {typename B::JumpStrategies r; for (int c=1; c<=2; ++c) r(c-1)=[=](double t, StateVectorLow<R>& psi){applyOp(oper(id,3,c,psi.size(),t,1),psi);}; return r;}
  static typename B::JumpRateStrategies rs(int id) {typename B::JumpRateStrategies r; for (int c=1; c<=2; ++c) r(c-1)=[=](double t, const LazyDensityOperator<R>& m){return expect<R>(oper(id,3,c,m.getTotalDimension(),t,1),m);}; return r;}
  MLi(const Spec& s) : B(js(s.id),rs(s.id),"J"+s.name(),labelList("J",s.id,2)) {
    int id=s.id; for (int c=1; c<=2; ++c) this->superoperatorStrategies_(c-1)=[=](double t, const DensityOperatorLow<R>& rho, DensityOperatorLow<R>& d){super(oper(id,3,c,int(std::round(std::sqrt(double(rho.size())))),t,1),rho,d);};
  }
};
template<int R> struct MLi<R,3> : ElementLiouvillean<R,3> {
  int id; MLi(const Spec& s) : ElementLiouvillean<R,3>("J"+s.name(),labelList("J",s.id,3)), id(s.id) {}
#define CHANNEL(C) void doActWithJ(NoTime, StateVectorLow<R>& psi, tmptools::integral_c<C>) const override {applyOp(oper(id,3,C+1,psi.size(),0,1),psi);} \
  double rate(NoTime, const LazyDensityOperator<R>& m, tmptools::integral_c<C>) const override {return expect<R>(oper(id,3,C+1,m.getTotalDimension(),0,1),m);} \
  void doActWithSuperoperator(NoTime, const DensityOperatorLow<R>& rho, DensityOperatorLow<R>& d, tmptools::integral_c<C>) const override {super(oper(id,3,C+1,int(std::round(std::sqrt(double(rho.size())))),0,1),rho,d);}
  CHANNEL(0) CHANNEL(1) CHANNEL(2)
#undef CHANNEL
};
template<int R> struct MAv : ElementAveraged<R,true> {
  int id, n; MAv(const Spec& s) : ElementAveraged<R,true>("A"+s.name(),labelList("A",s.id,s.av)), id(s.id), n(s.av) {}
  const Averages average_v(OneTime t, const LazyDensityOperator<R>& m) const override {
    Averages a(n); auto ix=ldoIndices(m);
    for (int c=1; c<=n; ++c) {auto o=oper(id,4,c,ix.size(),0,1); double s=0; for (size_t x=0; x<o.size(); ++x) s+=real(o[x].w*at(m,ix[o[x].y],ix[x])); a(c-1)=(1+t)*s;}
    return a;
  }
  void process_v(Averages& a) const override {if (a.size()!=n) throw std::runtime_error("process: size"); if (n) {a(0)+=7*a(n-1); a(n-1)=1-2*a(n-1);}}
};
template<int> struct None {None(const Spec&) {}};

template<int R, bool EX, bool HA, int LI, bool AV> struct Caps : std::conditional_t<EX,MExact<R>,None<0>>, std::conditional_t<HA,MHam<R>,None<1>>,
    std::conditional_t<(LI>=0),MLi<R,LI>,None<2>>, std::conditional_t<AV,MAv<R>,None<3>> {
  Caps(const Spec& s) : std::conditional_t<EX,MExact<R>,None<0>>(s), std::conditional_t<HA,MHam<R>,None<1>>(s), std::conditional_t<(LI>=0),MLi<R,LI>,None<2>>(s), std::conditional_t<AV,MAv<R>,None<3>>(s) {}
};
template<bool EX, bool HA, int LI, bool AV> struct MFree : Free, Caps<1,EX,HA,LI,AV> {MFree(size_t dim, const Spec& s) : Free(dim), Caps<1,EX,HA,LI,AV>(s) {}};
template<int R, bool EX, bool HA, int LI, bool AV> struct MIa : Interaction<R>, Caps<R,EX,HA,LI,AV> {
  MIa(const typename Interaction<R>::Frees& f, const Spec& s) : Interaction<R>(f), Caps<R,EX,HA,LI,AV>(s) {}
};
template<typename F> auto dispatch(const Spec& s, F f)
{
  auto av=[&](auto ex, auto ha, auto li) {if (s.av>=0) return f(ex,ha,li,std::true_type{}); return f(ex,ha,li,std::false_type{});};
  auto li=[&](auto ex, auto ha) {switch (s.li) {
    case 0: return av(ex,ha,std::integral_constant<int,0>{}); case 1: return av(ex,ha,std::integral_constant<int,1>{});
    case 2: return av(ex,ha,std::integral_constant<int,2>{}); case 3: return av(ex,ha,std::integral_constant<int,3>{}); default: return av(ex,ha,std::integral_constant<int,-1>{});}};
  auto ha=[&](auto ex) {if (s.ha) return li(ex,std::true_type{}); return li(ex,std::false_type{});};
  if (s.ex) return ha(std::true_type{}); return ha(std::false_type{});
}
FreePtr makeFree(size_t dim, const Spec&);
template<int R> InteractionPtr<R> makeIa(const typename Interaction<R>::Frees&, const Spec&);
mj::Value observe2(std::shared_ptr<const QuantumSystem<2>>, const mj::Value& in);
mj::Value observe3(std::shared_ptr<const QuantumSystem<3>>, const mj::Value& in);
mj::Value observe4(std::shared_ptr<const QuantumSystem<4>>, const mj::Value& in);
// one per translation unit: an empty (NUL) value if the layout is not theirs
struct Parts {std::vector<FreePtr> frees; const mj::Value* in; Spec spec(int p) const; FreePtr leg(int act, int k) const; template<int R> InteractionPtr<R> ia(int act) const;};
mj::Value runBinary(const Parts&, const mj::Value& in);
mj::Value runComposite3(const Parts&, const mj::Value& in);
mj::Value runComposite4(const Parts&, const mj::Value& in);
#endif
