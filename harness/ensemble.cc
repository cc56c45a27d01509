// Conformance harness for spec/Ensemble.tla: ensembles of arithmetically simple trajectories, and ensembles of such ensembles
#include "mj.h"
#include "StochasticTrajectory.h"
#include "Archive.h"
#include <sstream>

struct Vec {double a=0, n=0; friend Vec operator+(const Vec& x, const Vec& y) {return {x.a+y.a,x.n+y.n};} friend Vec operator/(const Vec& x, double d) {return {x.a/d,x.n/d};}};

struct Member
{
  using EnsembleAverageElement=Vec; using EnsembleAverageResult=Vec; using StreamedArray=std::vector<double>;
  double h, v, t=0, a=0, n=0, did=0;
  double getTime() const {return t;}
  double getDtDid() const {return did;}
  void step(double Dt, std::ostream&) {double d=std::min(h,Dt); t+=d; a+=d*v; ++n; did=d;}
  Vec averaged() const {return {a,n};}
  std::ostream& streamParameters(std::ostream& os) const {return os;}
  template<typename Ar> Ar& stateIO(Ar& ar) {ar & t & a & n & did; return ar;}
  std::ostream& streamKey(std::ostream& os) const {return os;}
  std::ostream& logOnEnd(std::ostream& os) const {return os;}
};
struct Streamer {
  template<typename... T> std::tuple<std::ostream&,std::vector<double>> operator()(double t, const Vec& x, std::ostream& os, int) const {os<<t<<' '<<x.a<<' '<<x.n; return {os,{t,x.a,x.n}};}
  std::ostream& streamKey(std::ostream& os, size_t& i) const {return os<<i++<<". a\n";}
};
static std::vector<const Member*> seen;
struct Log {void operator()(const std::vector<Member>& v, std::ostream&) const {for (auto& m : v) seen.push_back(&m);}};
using Ens=cppqedutils::trajectory::Ensemble<Member,Streamer,Log>;
struct Log2 {void operator()(const std::vector<Ens>& v, std::ostream& os) const {for (auto& m : v) m.logOnEnd(os);}};
using Ens2=cppqedutils::trajectory::Ensemble<Ens,Streamer,Log2>;

static Ens inner(const mj::Value& in, int g, bool other)
{
  size_t first=0; for (int k=0; k<g; ++k) first+=in["groups"][k].I();
  std::vector<Member> v; for (size_t i=first; i<first+in["groups"][g].I(); ++i) {double k=i+1; v.push_back({in["hs"][i].D(),2*k-5,other ? 77+k : 0.,other ? 3.*k : k*k,other ? 9. : 0.,other ? 8. : 0.});}
  return Ens(std::move(v),Streamer{},Log{});
}
static const double UNIT=1./144;
template<typename E> mj::Value observe(const E& e)
{
  seen.clear(); std::ostringstream os; e.logOnEnd(os);
  mj::Array m; for (auto p : seen) m.push_back(mj::Array{mj::num(p->t),mj::num(p->a),mj::num(p->n)});
  Vec x=e.averaged(); std::ostringstream s; auto r=e.stream(s,6); auto& v=std::get<1>(r);
  if (v.size()!=3 || v[1]!=x.a || v[2]!=x.n || v[0]!=e.getTime()) throw std::runtime_error("what is streamed differs from what is averaged");
  std::ostringstream pars; e.streamParameters(pars);
  return mj::Object{{"t",mj::num(e.getTime())},{"members",m},{"a",mj::num(x.a,UNIT)},{"n",mj::num(x.n,UNIT)},{"did",mj::num(e.getDtDid(),UNIT)},{"name",(long long)(seen.size())}};
}
template<typename E, typename F> mj::Value drive(const mj::Value& in, F make)
{
  auto e=std::make_unique<E>(make(false)); mj::Array obs; std::ostringstream log;
  for (auto& o : in["ops"].a) {
    if (o["op"].S()=="advance") cppqedutils::advance(*e,o["d"].D(),log);
    else {
      std::stringstream ss; {cppqedutils::oarchive oa(ss); e->stateIO(oa);}
      e=std::make_unique<E>(make(true)); {cppqedutils::iarchive ia(ss); e->stateIO(ia);}
    }
    obs.push_back(observe(*e));
  }
  return mj::Object{{"obs",obs}};
}
static mj::Value run(const mj::Value& in)
{
  if (in["groups"].size()==1) return drive<Ens>(in,[&](bool o) {return inner(in,0,o);});
  return drive<Ens2>(in,[&](bool o) {std::vector<Ens> v; for (size_t g=0; g<in["groups"].size(); ++g) v.push_back(inner(in,g,o)); return Ens2(std::move(v),Streamer{},Log2{});});
}
int main(int argc, char** argv) {return mj::loop(argc,argv,run);}
