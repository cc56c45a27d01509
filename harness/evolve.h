// Conformance harness for spec/Evolve.tla: the drivers (evolve, evolveMaster), from a command line to the sampled averages
#ifndef VERIF_EVOLVE_H
#define VERIF_EVOLVE_H
#include "mj.h"
#include "EvolutionBinary.h"
#include "EvolutionComposite.h"
#include "JaynesCummings.h"
#include <set>

using quantumdata::StateVector; using quantumdata::DensityOperator;
constexpr double DT=.5;
inline std::function<bool(unsigned long)> jumpsOn;
double scriptedDraw(unsigned long seed, unsigned long stream, unsigned long n);

inline std::string txt(double d) {char b[64]; snprintf(b,64,"%.17g",d); return b;}
inline std::string txt(dcomp z) {return "("+txt(z.real())+","+txt(z.imag())+")";}
inline dcomp gz(const mj::Value& v) {return {v[0].D(),v[1].D()};}

struct Words {
  std::vector<std::string> w{"evolve"};
  template<typename T> void operator()(const std::string& n, const T& v) {w.push_back("--"+n); if constexpr (std::is_convertible_v<T,std::string>) w.push_back(v); else w.push_back(txt(v));}
  std::vector<char*> argv() {std::vector<char*> r; for (auto& s : w) r.push_back(s.data()); r.push_back(nullptr); return r;}
};

/// what is common to all systems
inline void driverWords(Words& W, const mj::Value& in)
{
  const auto& c=in["c"];
  W("evol",c["evol"].S()); std::string e; for (int i=2; i>=0; --i) e+=c["ems"][i].B() ? '1' : '0'; W("ems",e);
  if (c["nd"].B()) {W("NDt",std::to_string(c["K"].I())); W("T",.3);} else W("T",c["K"].D()*DT);
  W("dc",std::string("0")); W("Dt",DT); W("picture",c["pic"].S());
  W("seed",std::string("5")); W("prngStream",std::to_string(c["first"].I())); W("nTraj",std::to_string(c["N"].I()));
  W("eps",1e-9); W("epsAbs",1e-12); W("precision",std::string("8"));
}
inline double theta(const mj::Value& c) {return std::atan2(c["rot"][1].D(),c["rot"][0].D())/DT;}
inline double kappa(const mj::Value& c) {return c["lossy"].B() ? std::log(2.)/DT : 0.;}
inline double delta(const mj::Value& c) {return c["d"].D()*cppqedutils::PI/2/DT;}
inline dcomp coup(const mj::Value& c, int i) {return theta(c)*gz(c["g"][i])/c["gden"].D();}

inline dcomp atom(const mj::Value& c, int i) {const auto& n=c["ini"]; return n["site"].I()==(i ? 3 : 1) ? gz(n["amp"])/n["den"].D() : dcomp(0.);}

inline double H2(double det) {double r=std::sqrt(std::max(0.,.25-det)), h=0; for (double l : {.5+r,.5-r}) if (l>1e-14) h-=l*std::log(l); return h;}

/// reports the expected number if what is observed is close enough to it
inline mj::Value near(double v, const mj::Value& num, double S, double tol=2e-5) {if (std::abs(v-num.D()/S)<tol) return num; return v;}

/// one sample: averages of the subsystems (two-level 'q', mode 'm'), then the measures of entanglement
inline mj::Value sample(const std::string& kinds, const mj::Value& in, const mj::Value& hint, double t, const std::vector<double>& v)
{
  const double S=hint["S"].D(); size_t j=0; mj::Array av, ent; const auto& e=hint["av"];
  size_t need=4*kinds.size()+hint["ent"].size();
  if (v.size()!=need) return mj::Object{{"columns",mj::Value(v.size())},{"instead of",mj::Value(need)}};
  for (char k : kinds) for (int i=0; i<4; ++i, ++j) av.push_back(near(k=='m' && i==1 ? v[j]+v[j-1]*v[j-1] : v[j],e[j],S));
  for (size_t i=0; i<hint["ent"].size(); ++i, ++j) {
    const std::string w=hint["ent"][i].S(); const double pV=hint["pV"].D()/S, pW=hint["pW"].D()/S, w2=hint["w2"].D()/S, p0=hint["p0"].D()/S;
    double dV=pV*(1-pV-w2), dW=pW*(1-pW-w2), dA=p0*(pV+pW), x=
      w=="negativity" ? (std::sqrt(p0*p0+4*pV*pW)-p0)/2 : w=="mutual information" ? H2(dV)+H2(dW)-H2(dA) : 1-2*dV;
    // dA: determinant on the span of the vacuum and the excited part: (w2+p0)(pV+pW)-w2(pV+pW)
    if (std::abs(x-v[j])<(w=="mutual information" ? 5e-4 : 1e-4)) ent.push_back(w); else ent.push_back(v[j]);
  }
  return mj::Object{{"t",mj::num(t,DT)},{"av",av},{"ent",ent}};
}

/// the key: numbers have to be consecutive, one for each column
inline mj::Value readKey(const std::string& text, size_t& columns)
{
  std::istringstream is(text); std::string l; mj::Array nums; std::string ems; bool in=false;
  while (std::getline(is,l)) {
    if (l.find("Key to data")!=std::string::npos) in=true;
    if (!in || l.empty() || l[0]!='#') continue;
    size_t i=l.find_first_not_of("# \t"); if (i==std::string::npos || !isdigit(l[i])) continue;
    char* e; long n=std::strtol(l.c_str()+i,&e,10); if (*e!='.') continue;
    nums.push_back(n); std::string lab=e+1;
    for (auto w : {"negativity","mutual information","purity of partial trace"}) if (lab.find(w)!=std::string::npos) {ems+=w; ems+=';';}
  }
  for (size_t i=0; i<nums.size(); ++i) if (nums[i].I()!=(long long)i+1) return mj::Object{{"numbers",nums}};
  columns=nums.size()<2 ? 0 : nums.size()-2; return ems;
}

template<int R> dcomp elem(const StateVector<R>& p, const ExtTiny<R>& i, const ExtTiny<R>& j) {return p.getArray()(i)*std::conj(p.getArray()(j));}
template<int R> dcomp elem(const DensityOperator<R>& p, const ExtTiny<R>& i, const ExtTiny<R>& j) {return p.getArray()(blitzplusplus::concatenateTinies(i,j));}
inline mj::Value cnear(dcomp z, const mj::Value& n, double S) {return mj::Array{near(z.real(),n[0],S),near(z.imag(),n[1],S)};}
/// the state left with the caller, on the vacuum and the singly excited states
template<int R, typename ST> mj::Value stateOf(const ST& st, const mj::Value& hint)
{
  auto ix=[](int k) {ExtTiny<R> t; t=0; if (k) t[k-1]=1; return t;};
  mj::Array res; double tr=0; for (int i=0; i<=R; ++i) tr+=elem<R>(st,ix(i),ix(i)).real();
  for (int i=0; i<=R; ++i) {mj::Array row; for (int j=0; j<=R; ++j) row.push_back(cnear(elem<R>(st,ix(i),ix(j)),hint["R"][i][j],hint["S"].D())); res.push_back(row);}
  return res;
}

template<int R> struct Case {
  std::string kinds; StateVector<R> psi, vac; structure::QuantumSystemPtr<R> sys; evolution::Pars<>& pe;
};


template<int R, typename EV, typename EM> mj::Value conduct(const mj::Value& in, Case<R>& k, EV ev, EM em)
{
  const auto& c=in["c"]; const std::string entry=c["entry"].S(); const bool ds=c["ds"].B(), rs=c["rs"].B();
  std::ostringstream cap, lg; auto* b=std::cout.rdbuf(cap.rdbuf()); auto* bl=std::clog.rdbuf(lg.rdbuf());
  evolution::TemporalStreamedArray res; mj::Object o; std::string how="ok"; mj::Value left="gone";
  const auto& fin=in["fin"];
  try {
    if (entry=="psi") {
      if (c["lv"].B()) {res=ev(k.psi,k.sys,k.pe,ds,rs); left=stateOf<R>(k.psi,fin);}
      else res=ev(StateVector<R>(k.psi),k.sys,k.pe,ds,rs);
    }
    else {
      DensityOperator<R> rho(k.psi);
      if (c["mix"].B()) {DensityOperator<R> v(k.vac); rho*=.25; v*=.75; rho+=v;}
      if (entry=="rho") {
        if (c["lv"].B()) {res=ev(rho,k.sys,k.pe,ds,rs); left=stateOf<R>(rho,fin);} else res=ev(DensityOperator<R>(rho),k.sys,k.pe,ds,rs);
      }
      else if (c["lv"].B()) {res=em(rho,k.sys,k.pe,ds,rs); left=stateOf<R>(rho,fin);} else res=em(DensityOperator<R>(rho),k.sys,k.pe,ds,rs);
    }
  }
  catch (const std::runtime_error& e) {how="refused";}
  std::cout.rdbuf(b); std::clog.rdbuf(bl);
  o["how"]=how; o["left"]=left;
  const std::string text=cap.str(); size_t columns=0;
  mj::Array fromText, fromRes;
  std::istringstream is(text); std::string l; int i=0;
  auto hint=[&](int i) -> const mj::Value& {return in["hint"][std::min<size_t>(i,in["hint"].size()-1)];};
  while (std::getline(is,l)) {
    if (l.empty() || l[0]=='#') continue;
    std::istringstream ls(l); std::vector<double> v; double t, d, x; ls>>t>>d; while (ls>>x) v.push_back(x);
    fromText.push_back(sample(k.kinds,in,hint(i++),t,v));
  }
  i=0; for (auto& e : res) {std::vector<double> v; for (auto d : std::get<2>(e)) v.push_back(d); fromRes.push_back(sample(k.kinds,in,hint(i++),std::get<0>(e),v));}
  o["text"]=fromText; o["rec"]=fromRes; o["key"]=readKey(text,columns); o["columns"]=columns;
  return o;
}
mj::Value evolve2(const mj::Value&);
mj::Value evolve3(const mj::Value&);
#endif
