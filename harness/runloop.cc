// Conformance harness for spec/RunLoop.tla: trajectory::run on a scripted trajectory, with real files in the current directory
#include "mj.h"
#include "BlitzArray.h"
#include "Simulated.h"
#include <deque>
#include <filesystem>

using Arr=DArray<1>;
static double U=.25; // tick

namespace script {
inline std::deque<double> steps;
inline std::map<long long,std::vector<double>> vals; inline bool tab=false;
}

struct MockBase {
  using StreamedArray=Arr;
  double t=0, did=0; Arr x{1};
  MockBase() {x(0)=0;}
  double getTime() const {return t;}
  double getDtDid() const {return did;}
  void move(double d) {t+=d; did=d; x(0)+=1;}
  Arr values() const {
    long long k=llround(t/U);
    if (script::tab) {
      if (!script::vals.count(k)) {Arr a(1); a(0)=-987654; return a;}
      auto& v=script::vals[k]; Arr a((int)v.size()); for (size_t i=0; i<v.size(); ++i) a((int)i)=v[i]; return a;
    }
    Arr a(2); a(0)=2*(t/U)+1; a(1)=x(0); return a;
  }
  std::tuple<std::ostream&,Arr> stream(std::ostream& os, int precision) const {
    Arr a(values()); for (int i=0; i<a.size(); ++i) os<<FormDouble(precision)(a(i))<<' ';
    return {os,a};
  }
  std::ostream& streamParameters(std::ostream& os) const {return os<<"\nMock.\n";}
  std::ostream& streamKey(std::ostream& os) const {return os<<"Mock\n 3. a\n 4. b\n";}
  std::ostream& logOnEnd(std::ostream& os) const {return os<<"MOCKEND"<<std::endl;}
  cppqedutils::iarchive& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {return iar & x;}
  template <typename Ar> Ar& stateIO(Ar& ar) {return ar & x & t & did;}
};
struct Stepping : MockBase {
  void step(double d, std::ostream&) {
    if (script::steps.empty()) throw std::logic_error("more steps than the specification makes");
    double s=script::steps.front(); script::steps.pop_front();
    move(std::min(s,d));
  }
};
struct Advancing : MockBase { void advance(double d, std::ostream&) {move(d);} };

template <int K, typename B> struct Mock : B {};
struct ArrayOnly : MockBase { template <typename Ar> Ar& stateIO(Ar& ar) {return ar & x;} };

namespace cppqedutils::trajectory {
template <int K, typename B> struct MakeSerializationMetadata<Mock<K,B>> {
  static auto _() {return K==1 ? SerializationMetadata{"mock","Mock",2} : K==2 ? SerializationMetadata{"mock","Other",2} :
                          K==3 ? SerializationMetadata{"mock","Mock",3} : SerializationMetadata{"kcom","Mock",2};}
};
template <> struct MakeSerializationMetadata<ArrayOnly> { static auto _() {return SerializationMetadata{"whatever",SerializationMetadata::ARRAY_ONLY,1};} };
}

namespace tj=cppqedutils::trajectory;

static mj::Value line(const std::vector<double>& v)
{
  mj::Array a; for (size_t i=0; i<v.size(); ++i) a.push_back(mj::num(v[i],i<2 ? U : 1.)); return a;
}

// the number following the text in the line
static mj::Value after(const std::string& l, const std::string& text, double unit)
{
  auto k=l.find(text); if (k==std::string::npos) return "missing";
  std::istringstream is(l.substr(k+text.size())); double d; if (!(is>>d)) return "not a number";
  return mj::num(d,unit);
}

static mj::Array events(const std::string& text, const std::string& asked={})
{
  bool saidCmd=false;
  mj::Array r; std::istringstream is(text); std::string l;
  auto mark=[&](const char* m) {r.push_back(mj::Object{{"e",mj::Value(m)}});};
  while (std::getline(is,l)) {
    if (l.find_first_not_of(" \t")==std::string::npos) continue;
    if (l[0]=='#') {
      if (asked.size() && l.find(asked)!=std::string::npos) saidCmd=true;
      if (l.find("Key to data")!=std::string::npos) mark("H");
      if (l.find("Run Trajectory up to time")!=std::string::npos && r.size() && r.back()["e"].S()=="H")
        r.back()=mj::Object{{"e",mj::Value("H")},{"cmd",mj::Value(saidCmd)},{"to",after(l,"up to time ",U)},
                            {"every",after(l,"Stream period: ",l.find("timestep")!=std::string::npos ? 1. : U)}};
      if (l.find("Continuing from time")!=std::string::npos)
        r.push_back(mj::Object{{"e",mj::Value("C")},{"from",after(l,"Continuing from time ",U)},{"to",after(l,"up to time ",U)}});
      if (l.find("Stopping criterion")!=std::string::npos) mark("S");
      if (l.find("MOCKEND")!=std::string::npos) mark("E");
      continue;
    }
    std::istringstream ls(l); std::vector<double> v; double d; while (ls>>d) v.push_back(d);
    if (!ls.eof()) {mark("not a data line"); continue;}
    r.push_back(mj::Object{{"e",mj::Value("L")},{"v",line(v)}});
  }
  return r;
}

static std::string slurp(const std::string& n) {std::ifstream f(n,std::ios::binary); std::ostringstream o; o<<f.rdbuf(); return o.str();}

template <int K> bool readAll(const std::string& n, mj::Array& res)
{
  res.clear();
  try {
    Mock<K,MockBase> m; auto f=tj::openStateFileReading(n);
    while ((f->peek(),!f->eof())) {
      tj::readViaSStream(m,f);
      res.push_back(mj::Object{{"k",K},{"t",mj::num(m.t,U)},{"did",mj::num(m.did,U)},{"x",mj::num(m.x(0))}});
    }
    return true;
  } catch (const std::exception&) {return false;}
}
static mj::Value states(const std::string& n)
{
  mj::Array r;
  if (!std::filesystem::exists(n)) return r;
  if (readAll<1>(n,r) || readAll<2>(n,r) || readAll<3>(n,r) || readAll<4>(n,r)) return r;
  return "unreadable";
}

template <int K> void writeInit(const mj::Value& s, std::shared_ptr<std::ostream> os)
{
  Mock<K,MockBase> m; m.t=s["t"].D()*U; m.did=s["did"].D()*U; m.x(0)=s["x"].D(); tj::writeViaSStream(m,os);
}

template <typename M> mj::Object doRun(const mj::Value& c)
{
  parameters::Table table; tj::Pars<> p(table);
  const std::string mode=c["mode"].S();
  const bool cmd=c["cmd"].B();
  if (!cmd) {
  if (c["fine"].I()) p.precision=formdouble::Zero(16);
  p.sdf=c["sdf"].I(); p.firstStateStream=c["first"].B(); p.streamInfo=c["info"].B();
  p.autoStopRepetition=c["ar"].I(); p.autoStopEpsilon=c["eps"][0].D()/c["eps"][1].D(); p.autoStopEpsilonAbs=c["epsAbs"].D();
  if (c["file"].B()) p.ofn="traj";
  // what the mode must ignore is set to something misleading
  if (mode=="dc") {p.dc=c["n"].I(); p.T=c["T"].D()*U; p.Dt=.5; p.NDt=7;}
  else {
    p.dc=c["ad"].B() ? 0 : 3; p.Dt=c["D"].D()*U;
    if (mode=="Dt") {p.NDt=0; p.T=c["T"].D()*U;} else {p.NDt=c["n"].I(); p.T=1.25;}
  }
  if (c["init"].size()) p.initialFileName="init";
  }
  std::string asked;
  if (cmd) { // the same, given on the command line
    std::vector<std::string> a{"prog"};
    auto put=[&](const char* n, auto v) {std::ostringstream o; o<<std::setprecision(17)<<v; a.push_back(std::string("--")+n); a.push_back(o.str());};
    if (c["fine"].I()) put("precision",16);
    put("sdf",c["sdf"].I()); a.push_back(c["first"].B() ? "--firstStateStream" : "--no_firstStateStream"); a.push_back(c["info"].B() ? "--streamInfo" : "--no_streamInfo");
    put("autoStopRepetition",c["ar"].I()); put("autoStopEpsilon",c["eps"][0].D()/c["eps"][1].D()); put("autoStopEpsilonAbs",c["epsAbs"].D());
    if (c["file"].B()) put("o","traj");
    if (mode=="dc") {put("dc",c["n"].I()); put("T",c["T"].D()*U); put("Dt",.5); put("NDt",7);}
    else {
      put("dc",c["ad"].B() ? 0 : 3); put("Dt",c["D"].D()*U);
      if (mode=="Dt") {put("NDt",0); put("T",c["T"].D()*U);} else {put("NDt",c["n"].I()); put("T",1.25);}
    }
    if (c["init"].size()) put("initialFileName","init");
    std::vector<char*> v; for (auto& x : a) {v.push_back(x.data()); asked+=(asked.size() ? " " : "")+x;}
    parameters::update(table,(int)v.size(),v.data(),"--");
  }
  std::filesystem::remove("init");
  if (c["init"].size()) {
    auto os=tj::openStateFileWriting("init",std::ios_base::trunc);
    for (auto& s : c["init"].a) switch (s["k"].I()) {
      case 0: {ArrayOnly m; m.x(0)=s["x"].D(); tj::writeViaSStream(m,os); break;}
      case 1: writeInit<1>(s,os); break;
      case 2: writeInit<2>(s,os); break;
      case 3: writeInit<3>(s,os); break;
      default: writeInit<4>(s,os);
    }
  }
  M m;
  std::ostringstream cap; auto old=std::cout.rdbuf(cap.rdbuf()); auto fl=std::cout.flags(); auto pr=std::cout.precision();
  std::string before=slurp("traj"), how="ok"; mj::Array rec; bool logic=false;
  try {
    auto res=run(m,p,!c["quiet"].B(),c["rec"].B());
    for (auto& e : res) {std::vector<double> v{std::get<0>(e),std::get<1>(e)}; for (auto d : std::get<2>(e)) v.push_back(d); rec.push_back(line(v));}
  }
  catch (const std::logic_error& e) {logic=true; how=e.what();}
  catch (const std::exception&) {how="refused";}
  std::cout.rdbuf(old); std::cout.flags(fl); std::cout.precision(pr);
  std::string now=slurp("traj");
  mj::Array out;
  if (c["file"].B()) {
    if (now.compare(0,before.size(),before)) out.push_back(mj::Object{{"e",mj::Value("file rewritten")}});
    else out=events(now.substr(before.size()),asked);
    if (cap.str().size()) out.push_back(mj::Object{{"e",mj::Value("stray output")}});
  }
  else {out=events(cap.str(),asked); if (now!=before) out.push_back(mj::Object{{"e",mj::Value("stray file")}});}
  if (!script::steps.empty()) how+=", fewer steps than the specification makes";
  return mj::Object{{"how",mj::Value(how)},{"out",out},{"rec",rec}};
}
template <typename B> mj::Object dispatch(const mj::Value& c)
{
  switch (c["kind"].I()) {case 1: return doRun<Mock<1,B>>(c); case 2: return doRun<Mock<2,B>>(c); case 3: return doRun<Mock<3,B>>(c); default: return doRun<Mock<4,B>>(c);}
}

int main(int argc, char** argv)
{
  return mj::loop(argc,argv,[](const mj::Value& in) -> mj::Value {
    for (auto f : {"traj","traj.state","init",".state"}) std::filesystem::remove(f);
    mj::Array out;
    for (auto& o : in.a) {
      mj::Object r;
      if (o["op"].S()=="run") {
        U=o["c"]["fine"].I() ? ldexp(1.,-24) : .25;
        script::steps.clear(); for (auto& s : o["steps"].a) script::steps.push_back(s.D()*U);
        script::vals.clear(); script::tab=o["c"]["tab"].B();
        for (auto& v : o["vals"].a) {std::vector<double> d; for (size_t i=1; i<v.size(); ++i) d.push_back(v[i].D()); script::vals[v[0].I()]=d;}
        r=o["c"]["ad"].B() ? dispatch<Stepping>(o["c"]) : dispatch<Advancing>(o["c"]);
      }
      else {
        std::filesystem::remove(o["op"].S()=="rmstate" ? "traj.state" : "traj");
        r=mj::Object{{"how",mj::Value("ok")},{"out",mj::Array{}},{"rec",mj::Array{}}};
      }
      r["st"]=states("traj.state"); r["lines"]=mj::Value(events(slurp("traj")).size());
      out.push_back(r);
    }
    return out;
  });
}
