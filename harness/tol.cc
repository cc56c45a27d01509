// Conformance harness for spec/Tolerance.tla and spec/ToleranceScaling.tla: the real steppers
#include "mj.h"
#include "BlitzArray.h"
#include "ODE_GSL.h"
#include "Simulated.h"

using Arr=DArray<1>;
static double p2(long long e) {return e==-999 ? 0. : std::ldexp(1.,int(e));}
constexpr double RKCK_T4=277./409600; // error of the embedded pair on y'=t^4 over a unit step from t=0

template <typename E> E make(double dt, double rel, double abs, const std::string& ctor, bool exch)
{
  if (exch) std::swap(rel,abs); // hands the two tolerances over in the exchanged order

  if (ctor=="pars") {parameters::Table t; ode_engine::Pars<> p(t); p.epsRel=rel; p.epsAbs=abs; p.logLevel=1; return E{dt,p};}
  return E{dt,1,rel,abs};
}
template <typename E> long failed(const E& e) {std::ostringstream os; e.logOnEnd(os); auto s=os.str(); const char* w="Number of failed ODE steps:"; auto p=s.find(w); return p==std::string::npos ? -1 : atol(s.c_str()+p+strlen(w));}

template <typename E> mj::Value trial(const mj::Value& in)
{
  int n=int(in["y"].size());
  double rel=p2(in["r"].I()), abs=p2(in["a"].I());
  E e{make<E>(1.,rel,abs,in["ctor"].S(),in.has("exch"))};
  Arr y(n); std::vector<double> K(n);
  for (int i=0; i<n; ++i) {y(i)=p2(in["y"][i].I()); K[i]=p2(in["e"][i].I())/RKCK_T4;}
  double t=0; std::ostringstream log;
  e.step(1.,log,[&](const Arr&, Arr& d, double t) {for (int i=0; i<n; ++i) d(i)=K[i]*t*t*t*t;},t,y);
  double did=e.getDtDid(); bool bounded=true;
  for (int i=0; i<n; ++i) {
    double y0=p2(in["y"][i].I()), inc=K[i]*std::pow(did,5)*1.2; // |y| after the step plus |dt*derivative|
    if (K[i]*RKCK_T4*std::pow(did,5) > 1.1*(abs+rel*(y0+inc))*(1+1e-9)) bounded=false;
    if (std::abs(y(i)-y0-K[i]*std::pow(did,5)/5) > 1e-9*(std::abs(y0)+K[i])) bounded=false;
  }
  return mj::Object{{"rejected",mj::Value(failed(e)>0)},{"bounded",mj::Value(bounded)}};
}

template <typename E> std::vector<double> steps(const mj::Value& b, long long k, bool exch)
{
  double rel=p2(b["r"].I()), a=p2(b["a"].I())*std::ldexp(1.,int(k)), s=std::ldexp(1.,int(k));
  E e{make<E>(0.125,rel,a,"args",exch)};
  int sys=int(b["sys"].I());
  Arr y(2); y(0)=s; y(1)=sys%2 ? 0.25*s : 0.;
  double t=0; std::ostringstream log; std::vector<double> res;
  for (int i=0; i<40; ++i) {
    e.step(sys<2 ? 3. : 0.75,log,[&](const Arr& y, Arr& d, double) {d(0)=y(1); d(1)=-4*y(0)-(sys>1 ? .5 : 0.)*y(1);},t,y);
    res.push_back(e.getDtDid()); res.push_back(e.getDtTry()); res.push_back(t); res.push_back(y(0)/s); res.push_back(y(1)/s);
  }
  res.push_back(failed(e));
  return res;
}
template <typename E> mj::Value walk(const mj::Value& in)
{
  std::vector<std::vector<double>> classes; mj::Array out;
  for (auto& k : in["walk"].a) {
    auto s=steps<E>(in["base"],k.I(),in.has("exch")); size_t c=0;
    for (; c<classes.size(); ++c) {
      bool same=true; for (size_t i=0; i<s.size(); ++i) if (std::abs(s[i]-classes[c][i])>1e-6*(1+std::abs(s[i]))) same=false;
      if (same) break;
    }
    if (c==classes.size()) classes.push_back(s);
    out.push_back(mj::Object{{"class",mj::Value(c)}});
  }
  return out;
}

int main(int argc, char** argv)
{
  return mj::loop(argc,argv,[](const mj::Value& in) -> mj::Value {
    if (in.has("walk")) return in["base"]["engine"].S()=="boost" ? walk<ODE_EngineBoost<Arr>>(in) : walk<ODE_EngineGSL<Arr>>(in);
    return in["engine"].S()=="boost" ? trial<ODE_EngineBoost<Arr>>(in) : trial<ODE_EngineGSL<Arr>>(in);
  });
}
