// Replays behaviours of Elements.tla: constructs the element from its parameters and observes what it does, in whichever picture it is realised
#include "elements.h"
#include "DensityOperator.h"
#include "EntanglementMeasures.h"

namespace {

using mj::Value; using mj::Array; using mj::Object;
typedef std::vector<dcomp> Vec;
typedef std::vector<Vec> Mat;
const double unitTime=.25, tiny=1./64;

template<int R> struct Runner {
  const Thing<R> th; const Value& in;
  std::vector<size_t> dims; std::vector<double> sw; size_t D=1;
  typedef structure::StateVectorLow<R> Low; typedef structure::DensityOperatorLow<R> DLow;
  typename structure::QuantumSystem<R>::Dimensions bd; DimensionsBookkeeper<R> bk; 

  Runner(Thing<R> t, const Value& v) : th(t), in(v), bd(one()), bk(bd) {
    for (auto& d : v["dims"].a) {dims.push_back(d.I()); D*=d.I();}
    for (auto& w : v["w"].a) sw.push_back(sqrt(w.D()));
  }
  typename structure::QuantumSystem<R>::Dimensions one() const {typename structure::QuantumSystem<R>::Dimensions d; for (int i=0; i<R; ++i) d[i]=in["dims"][i].I(); return d;}

  Vec amps(const Value& phi) const {Vec r(D); for (size_t x=0; x<D; ++x) r[x]=cx(phi[x])*sw[x]; return r;}
  Low low(const Vec& v) const {Low a(bd); for (size_t x=0; x<D; ++x) a.data()[x]=v[x]; return a;}
  static Vec flat(const Low& a) {return Vec(a.data(),a.data()+a.size());}
  Vec scaled(Vec v, double f) const {for (size_t x=0; x<D; ++x) v[x]*=f/sw[x]; return v;}
  static Value out(const Vec& v) {Array r; for (auto z : v) r.push_back(mj::cnum(z,1.,1e-4)); return r;}
  static Value out(const Mat& m) {Array r; for (auto& v : m) r.push_back(out(v)); return r;}

  static Vec diag(const std::shared_ptr<const structure::Exact<1>>& e, double t, double t0, size_t d) {
    if (!e) return Vec(d,1.);
    structure::StateVectorLow<1> a(d); a=1.; e->actWithU(t,a,t0); return Vec(a.data(),a.data()+d);
  }
  /// the diagonal of the exact propagator: of the element itself or of the legs of an interaction
  Vec U(double t, double t0) const {
    if constexpr (R==1) if (th.isFree) return diag(th.ex,t,t0,D);
    Vec r(1,1.);
    for (int k=0; k<R; ++k) {
      Vec u=diag(th.frees.empty() ? nullptr : th.frees[k],t,t0,dims[k]), q;
      for (auto a : r) for (auto b : u) q.push_back(a*b);
      r=q;
    }
    return r;
  }
  Vec L() const {Vec u=U(tiny,0); for (auto& z : u) z=std::log(z)/tiny; return u;}

  Vec generator(const Vec& psi, double t, double t0) const {
    Vec r(D,0.);
    if (th.ha) {
      Vec u=U(t,t0), q(psi); for (size_t x=0; x<D; ++x) q[x]/=u[x];
      Vec start(D); for (size_t x=0; x<D; ++x) start[x]=dcomp(2.+x%3,1.-double(x%2))/u[x]; // the contribution has to be added
      Low a=low(q), b=low(start);
      th.ha->addContribution(t,a,b,t0);
      if (flat(a)!=q) throw std::runtime_error("the state vector changes when the Hamiltonian acts");
      r=flat(b); for (size_t x=0; x<D; ++x) r[x]=u[x]*(r[x]-start[x]);
    }
    if (th.isFree) {Vec l=L(); for (size_t x=0; x<D; ++x) r[x]+=l[x]*psi[x];}
    return r;
  }

  Vec jump(const Vec& psi, size_t k, double t) const {Low a=low(psi); th.li->actWithJ(t,a,k); return flat(a);}

  quantumdata::StateVector<R> vector(const Vec& v) const {quantumdata::StateVector<R> r(bd); Low a=low(v); r=a; return r;}
  Mat density(const std::vector<Vec>& cs) const {Mat m(D,Vec(D,0.)); for (auto& c : cs) for (size_t x=0; x<D; ++x) for (size_t y=0; y<D; ++y) m[x][y]+=c[x]*conj(c[y]); return m;}
  quantumdata::DensityOperator<R> rho(const Mat& m) const {
    quantumdata::DensityOperator<R> r(bd); linalg::CMatrix v(r.matrixView());
    for (size_t x=0; x<D; ++x) for (size_t y=0; y<D; ++y) v(int(x),int(y))=m[x][y];
    return r;
  }
  std::vector<Vec> components(const Value& cs, bool normalise) const {
    std::vector<Vec> r; double n=0;
    for (auto& c : cs.a) {r.push_back(amps(c)); for (auto z : r.back()) n+=norm(z);}
    if (normalise) for (auto& c : r) for (auto& z : c) z/=sqrt(n);
    return r;
  }

  Mat superop(const Mat& m, size_t k, double t) const {
    Mat res(D,Vec(D));
    auto r=rho(m), d=rho(Mat(D,Vec(D,dcomp(1,2))));
    try {
      DLow a=r.getArray(), b=d.getArray();
      th.li->actWithSuperoperator(t,a,b,k);
      for (size_t x=0; x<D; ++x) for (size_t y=0; y<D; ++y) res[x][y]=b.data()[x*D+y]-dcomp(1,2);
    }
    catch (const structure::SuperoperatorNotImplementedException&) { // then jumps are used: J rho J^dagger
      Mat j(D);
      for (size_t y=0; y<D; ++y) {Vec c(D); for (size_t x=0; x<D; ++x) c[x]=m[x][y]; j[y]=jump(c,k,t);}
      for (size_t x=0; x<D; ++x) {Vec c(D); for (size_t y=0; y<D; ++y) c[y]=conj(j[y][x]); Vec z=jump(c,k,t); for (size_t y=0; y<D; ++y) res[x][y]=conj(z[y]);}
    }
    return res;
  }

  Value rates(const Value& op, double t) const {
    auto cs=components(op["cs"],true); const double n=op["n"].D();
    auto value=[&](const structure::Rates& r) {
      Array a;
      for (int k=0; k<r.size(); ++k) {
        double v=r(k);
        if (v<0) {v=0; for (auto& c : cs) for (auto z : jump(c,k,t)) v+=norm(z);}
        if (size_t(k)>=op["s2"].size() && std::abs(v)<1e-12) continue; // a channel without strength
        a.push_back(mj::num(v*n/std::max(op["s2"].size()>size_t(k) ? op["s2"][k].D() : 1.,1.),1.,1e-5));
      }
      return a;
    };
    const auto r=rho(density(cs));
    Array a=value(th.li->average(t,r));
    if (cs.size()==1) {
      Array b=value(th.li->rates(t,vector(cs[0])));
      for (size_t k=0; k<a.size(); ++k) if (!same(a[k],b[k])) a[k]=Array{a[k],b[k]};
    }
    return a;
  }
  static bool same(const Value& a, const Value& b) {return std::abs(a.D()-b.D())<1e-6;}

  /// whether the label of the i-th average names a (co)variance or deviation
  bool spread(size_t i) const {
    std::ostringstream os; size_t n=1; th.av->streamKey(os,n);
    std::istringstream is(os.str()); std::string line;
    while (std::getline(is,line)) {
      std::istringstream ls(line); std::string first; ls>>first;
      if (first!=std::to_string(i+1)+".") continue;
      for (const char* w : {"VAR","DEV","COV",">-<"}) if (line.find(w)!=std::string::npos) return true;
      return false;
    }
    return false;
  }

  Value averages(const Value& op, double t) const {
    auto cs=components(op["cs"],true);
    const auto r=rho(density(cs));
    auto value=[&](structure::Averages v) {
      th.av->process(v);
      Array a; const double dx=2*cppqedutils::PI/D; const size_t want=op["sc"].size();
      if (!(size_t(v.size())==want || (th.neg && size_t(v.size())==want+1) || (in["k"].S()=="part" && want<size_t(v.size())))) a.push_back(Value("wrong number"));
      for (size_t i=0; i<want && i<size_t(v.size()); ++i) {
        const double s=op["sc"][i][0].D(); const int flag=op["sc"][i][1].I()%10; double x=v(int(i));
        if (spread(i)!=(op["sc"][i][1].I()>=10)) {a.push_back(Value("misleading label")); continue;}
        if (flag==1) x/=dx; else if (flag==2) x=x*x/(dx*dx);
        a.push_back(mj::num(x*s,1.,1e-5));
      }
      if constexpr (R==2) if (th.neg) {
        const double ref=quantumdata::negPT(r,tmptools::Vector<0>());
        if (std::abs(v(v.size()-1)-ref)>1e-8) a.push_back(Value("negativity "+std::to_string(v(v.size()-1))+" instead of "+std::to_string(ref)));
      }
      return a;
    };
    Array a=value(th.av->average(t,r).copy());
    if (cs.size()==1) {
      Array b=value(th.av->average(t,vector(cs[0])).copy());
      if (a.size()!=b.size()) return Array{a,b};
      for (size_t k=0; k<a.size(); ++k) if (a[k].k==Value::STR || !same(a[k],b[k])) a[k]=Array{a[k],b[k]};
    }
    return a;
  }

  Value operation(const Value& op) const {
    const std::string o=op["op"].S();
    if (o=="g") {
      const bool bi=in["k"].S().substr(0,6)=="bichro"; const double ut=bi ? 1. : unitTime, t=op["t"].D()*ut, t0=op["t0"].D()*ut;
      double f=4; if (in["k"].S()=="cm" && in["p"]["cp"].I()==0) f*=sqrt(2.);
      const Vec psi=amps(op["phi"]);
      Vec y=generator(psi,t,t0);
      if (in["modi"].B()) {Vec e(D,0.); e[0]=1; const dcomp g=generator(e,t,t0)[0]; for (size_t x=0; x<D; ++x) y[x]-=g*psi[x];}
      return out(scaled(y,f));
    }
    if (o=="u") {
      const double t=op["t"].D()*unitTime, t0=op["t0"].D()*unitTime;
      const Vec psi=amps(op["phi"]), l=L();
      bool fits=true, unitary=true;
      Vec y=psi; if (th.ex) {if constexpr (R==1) {Low a=low(psi); th.ex->actWithU(t,a,t0); y=flat(a);}}
      for (size_t x=0; x<D; ++x) {
        const dcomp z=exp(l[x]*(t-t0))*psi[x];
        if (std::abs(y[x]-z)>1e-9*(1+std::abs(z))) fits=false;
        if (std::abs(l[x].real())>1e-9) unitary=false;
        const Value& p=in["p"];
        if (p.has("pic") && p["pic"].S()=="SCH" && std::abs(l[x])>1e-12) fits=false;
        if (p.has("pic") && p["pic"].S()=="UIP" && std::abs(l[x].real())>1e-12) fits=false;
      }
      return Object{{"fits",fits},{"master",!th.ex || th.ex->applicableInMaster()==unitary}};
    }
    const bool noex=in["k"].S()=="noex"; // with time-dependent jumps and averages
    const double t=noex ? 0. : .75;
    if (noex && o=="r") for (auto& c : components(op["cs"],true)) { // at other times the rate still has to fit the jump
      double n=0; for (auto z : jump(c,0,.5)) n+=norm(z);
      if (std::abs(n-th.li->rates(.5,vector(c))(0))>1e-9*(1+n)) return Value("rate and jump do not fit");
    }
    if (o=="j") return out(scaled(jump(amps(op["phi"]),op["k"].I(),t),1./sqrt(op["s2"].D())));
    if (o=="r") return rates(op,t);
    if (o=="a") return averages(op,t);
    Mat m=density(components(op["cs"],false)), r(D,Vec(D,0.));
    if (o=="s") {
      r=superop(m,op["k"].I(),t);
      for (size_t x=0; x<D; ++x) for (size_t y=0; y<D; ++y) r[x][y]/=op["s2"].D()*sw[x]*sw[y];
      return out(r);
    }
    for (int k=op["from"].I(); k<=op["to"].I(); ++k) {Mat s=superop(m,k,t); for (size_t x=0; x<D; ++x) for (size_t y=0; y<D; ++y) r[x][y]+=s[x][y];}
    const dcomp c=r[0][0]/m[0][0];
    for (size_t x=0; x<D; ++x) for (size_t y=0; y<D; ++y) r[x][y]-=c*m[x][y];
    return out(r);
  }

  /// the number of those channels which do anything
  long long channels() const {
    long long n=0;
    if (th.li) for (size_t k=0; k<th.li->nAvr(); ++k) {
      bool on=false;
      for (size_t x=0; x<D; ++x) {Vec e(D,0.); e[x]=1; for (auto z : jump(e,k,0.)) if (std::abs(z)>1e-9) on=true;}
      n+=on;
    }
    return n;
  }

  Value run() const {
    Array obs;
    for (auto& op : in["ops"].a) {
      try {obs.push_back(operation(op));}
      catch (const std::exception& e) {obs.push_back(Value(std::string("exception: ")+e.what()));}
    }
    return Object{{"nch",channels()},{"obs",obs}};
  }
};

Value scenario(const Value& in)
{
  const std::string k=in["k"].S();
  switch (in["dims"].size()) {
  case 1: return Runner<1>(free1(k,in["p"]),in).run();
  case 2: return Runner<2>(inter2(k,in["p"]),in).run();
  default: return Runner<3>(inter3(k,in["p"]),in).run();
  }
}

}

int main(int argc, char** argv) {return mj::loop(argc,argv,scenario);}
