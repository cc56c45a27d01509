// Conformance harness for spec/OdeStep.tla: ode_engine::Base driven by a scripted stepper or by the real ones
#include "mj.h"
#include "BlitzArray.h"
#include "ODE_GSL.h"
#include "Simulated.h"
#include <deque>

namespace script {
struct S {int f; double num, den;};
inline std::deque<S> q; // one entry per accepted step
inline int attempt=0;
inline long calls=0;    // right-hand-side evaluations really made
inline void reset() {q.clear(); attempt=0; calls=0;}
}

using Arr=DArray<1>;

struct ScriptedStepper
{
  using state_type=Arr; using deriv_type=Arr; using time_type=double; using value_type=double;
  using stepper_category=boost::numeric::odeint::controlled_stepper_tag;

  template <typename Sys>
  bool decide(Sys& sys, const Arr& in, double time, double& dt, double& dy) {
    if (script::q.empty()) throw std::runtime_error("more steps than the specification makes");
    ++script::attempt;
    Arr d(1); d(0)=0;
    for (int k=0; k<script::attempt; ++k) sys(in,d,time);
    if (script::attempt<=script::q.front().f) {dt/=2; return false;}
    dy=d(0)*dt;
    return true;
  }
  void accepted(double& time, double& dt) {
    time+=dt; dt=dt*script::q.front().num/script::q.front().den;
    script::q.pop_front(); script::attempt=0;
  }
  template <typename Sys, typename St>
  auto try_step(Sys sys, St&& s, double& time, double& dt) {
    double dy; if (!decide(sys,s,time,dt,dy)) return boost::numeric::odeint::fail;
    s(0)+=dy; accepted(time,dt); return boost::numeric::odeint::success;
  }
  template <typename Sys, typename In, typename Out>
  auto try_step(Sys sys, const In& in, double& time, Out&& out, double& dt) {
    double dy; if (!decide(sys,in,time,dt,dy)) return boost::numeric::odeint::fail;
    out(0)=in(0)+dy; accepted(time,dt); return boost::numeric::odeint::success;
  }
};

namespace cppqedutils::ode_engine {
template <> inline const std::string StepperDescriptor<ScriptedStepper> = "scripted";
template <> struct MakeControlledErrorStepper<ScriptedStepper> {
  static auto _(double r, double a) {return ControlledErrorStepperWithParameters<ScriptedStepper>{{},r,a};}
};
}

constexpr double U=1./64; // tick

static mj::Value stats(const std::string& s)
{
  auto get=[&](const char* w) -> long long {auto p=s.find(w); if (p==std::string::npos) return -1; return atoll(s.c_str()+p+strlen(w));};
  return mj::Array{get("Total number of ODE steps:"),get("Number of failed ODE steps:"),get("Number of calls to function calculating RHS for ODE:")};
}

// the three ways of driving an engine
template <typename E> struct Direct { // in place
  E e; double t=0; Arr y{1};
  Direct(double dt) : e(dt,1,1e-6,1e-9) {y(0)=0;}
  double getTime() const {return t;}
  void step(double d, std::ostream& os) {e.step(d,os,[](const Arr&, Arr& dydt, double) {++script::calls; dydt(0)=1;},t,y);}
  double did() const {return e.getDtDid();} double tr() const {return e.getDtTry();} double Y() const {return y(0);}
  void log(std::ostream& os) const {e.logOnEnd(os);}
};
template <typename E> struct InOut {
  E e; double t=0; Arr y{1};
  InOut(double dt) : e(dt,1,1e-6,1e-9) {y(0)=0;}
  double getTime() const {return t;}
  void step(double d, std::ostream& os) {Arr y2(1); y2(0)=-77; const Arr& yc=y;
    e.step(d,os,[](const Arr&, Arr& dydt, double) {++script::calls; dydt(0)=1;},t,yc,Arr(y2)); y(0)=y2(0);}
  double did() const {return e.getDtDid();} double tr() const {return e.getDtTry();} double Y() const {return y(0);}
  void log(std::ostream& os) const {e.logOnEnd(os);}
};
struct DoubleArchive { // picks dtDid and dtTry (the last two doubles) and nothing else out of stateIO
  std::vector<double> v;
  template <typename T> DoubleArchive& operator&(T& x) {if constexpr (std::is_same_v<T,double>) v.push_back(x); return *this;}
};
struct Sim {
  using F=std::function<void(const Arr&, Arr&, double)>;
  Simulated<Arr,F,ode_engine::Base<ScriptedStepper>> s;
  static Arr zero() {Arr y(1); y(0)=0; return y;}
  Sim(double dt) : s{zero(),F{[](const Arr&, Arr& dydt, double) {++script::calls; dydt(0)=1;}},{"y"},ode_engine::Base<ScriptedStepper>{dt,1,1e-6,1e-9}} {}
  double getTime() const {return s.getTime();}
  void step(double d, std::ostream& os) {s.step(d,os);}
  double did() const {return s.getDtDid();}
  double tr() {DoubleArchive a; s.stateIO(a); return a.v.back();}
  double Y() const {std::ostringstream os; return std::get<1>(s.stream(os,6))(0);}
  void log(std::ostream& os) const {s.logOnEnd(os);}
};

template <typename D> mj::Value play(const mj::Value& in)
{
  script::reset();
  mj::Array out;
  std::ostringstream log;
  std::unique_ptr<D> d;
  for (auto& c : in["ops"].a) {
    if (c["op"].S()=="init") {
      d=std::make_unique<D>(c["dt"].D()*U);
      out.push_back(mj::Object{{"try",mj::num(d->tr(),U)}});
      continue;
    }
    if (c["op"].S()=="step") {
      script::q.push_back({int(c["f"].I()),c["g"][0].D(),c["g"][1].D()});
      d->step(c["d"].D()*U,log);
    }
    else {
      for (size_t i=0; i<c["fs"].size(); ++i) script::q.push_back({int(c["fs"][i].I()),c["gs"][i][0].D(),c["gs"][i][1].D()});
      cppqedutils::advance(*d,c["d"].D()*U,log);
    }
    std::ostringstream os; d->log(os); auto st=stats(os.str());
    out.push_back(mj::Object{{"t",mj::num(d->getTime(),U)},{"did",mj::num(d->did(),U)},{"try",mj::num(d->tr(),U)},
                             {"s",st[0]},{"f",st[1]},{"c",st[2]},{"y",mj::num(d->Y(),U)},{"cok",mj::Value(st[2].I()==script::calls)},
                             {"left",mj::Value(script::q.size())}});
    if constexpr (std::is_same_v<D,Direct<ODE_EngineBoost<Arr>>> || std::is_same_v<D,Direct<ODE_EngineGSL<Arr>>>) script::q.clear();
  }
  return out;
}

int main(int argc, char** argv)
{
  return mj::loop(argc,argv,[](const mj::Value& in) -> mj::Value {
    auto& v=in["via"].S();
    if (v=="direct") return play<Direct<ode_engine::Base<ScriptedStepper>>>(in);
    if (v=="inout") return play<InOut<ode_engine::Base<ScriptedStepper>>>(in);
    if (v=="simulated") return play<Sim>(in);
    if (v=="boost") return play<Direct<ODE_EngineBoost<Arr>>>(in);
    if (v=="gsl") return play<Direct<ODE_EngineGSL<Arr>>>(in);
    throw std::runtime_error("via?");
  });
}
