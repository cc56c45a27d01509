// Conformance harness for spec/QData.tla: a state machine over quantumdata::StateVector and DensityOperator
#include "qdata.h"

static std::vector<std::vector<int>> orders(int r)
{
  std::vector<std::vector<int>> res, cur{{}};
  for (int k=0; k<r; ++k) {
    std::vector<std::vector<int>> nx;
    for (auto& c : cur) for (int i=0; i<r; ++i) if (std::find(c.begin(),c.end(),i)==c.end()) {auto d=c; d.push_back(i); nx.push_back(d);}
    res.insert(res.end(),nx.begin(),nx.end()); cur=nx;
  }
  return res;
}

template<int R> void put(Any& a, const SV<R>& x) {a.template emplace<SV<R>>(x);}
template<int R> void put(Any& a, const DO<R>& x) {a.template emplace<DO<R>>(x);}

template<typename X> constexpr bool isSV=false;
template<int R> constexpr bool isSV<SV<R>> = true;

static bool same(const mj::Value& a, const mj::Value& b) {std::ostringstream x, y; mj::put(x,a); mj::put(y,b); return x.str()==y.str();}

template<int R> mj::Value matrix(const LDO<R>& l, double unit)
{
  mj::Array rows; auto ii=indices(l);
  for (auto& i : ii) {mj::Array row; for (auto& j : ii) row.push_back(mj::cnum(l(i)(j),unit)); rows.push_back(row);}
  return rows;
}

static mj::Value list(const DArray<1>& d, double unit) {mj::Array r; for (int i=0; i<d.extent(0); ++i) r.push_back(mj::num(d(i),unit)); return r;}

template<typename X> Any apply(const X& x, const mj::Value& o)
{
  constexpr int R=X::N_RANK; const std::string op=o["op"].S(); Any res;
  const ExtTiny<R> e(x.getDimensions());
  if (op=="copy") {
    X c(x), d(x); d*=5.; c*=7.; // the copies are independent
    X m(std::move(c)); X back(x); m=x; // by-value assignment to an object with the same dimensions
    X last; last.reference(m); X fin(e); fin=last;
    put(res,fin);
  }
  else if (op=="neg") put(res,X(-x));
  else if (op=="mul") {const dcomp c=gauss(o["c"]); X y(x); if (c.imag()==0) y*=c.real(); else y*=c; X z(x*c); X w(c*x); w-=z; if (max(abs(w.getArray()))!=0) throw std::runtime_error("scalar from left and right differ"); z/=c; y+=z; y-=x; put(res,y);}
  else if (op=="pack") {
    DO<R> r(e); r=dcomp(3,4);
    const LDO<R>& l=x; inflate(deflate(l,true),r,true); 
    put(res,r);
  }
  else if constexpr (isSV<X>) {
    if (op=="do") put(res,DO<R>(x));
    else if (op=="assign") {DO<R> r(e); r=dcomp(1,2); r=x; put(res,r);}
    else if (op=="add") put(res,X(x+makeSV<R>(e,o["psi"])));
    else if (op=="sub") put(res,X(x-makeSV<R>(e,o["psi"])));
    else if (op=="prod") {if constexpr (R<3) put(res,SV<R+1>(x*makeSV<1>(ExtTiny<1>(o["dims"][0].I()),o["psi"])));}
  }
  else {
    if (op=="addto") {X y(x); makeSV<R>(e,o["psi"]).addTo(y,o["w"].D()); put(res,y);}
    else if (op=="add") put(res,X(x+X(makeSV<R>(e,o["psi"]))));
  }
  return res;
}

template<typename X> mj::Value observe(const X& x, const Any& a, const mj::Value& in)
{
  constexpr int R=X::N_RANK; const double um=std::pow(2.,-in["h"].D()), uv=std::sqrt(um);
  const LDO<R>& l=x; auto ii=indices(l);
  mj::Object o; mj::Array dims; for (int k=0; k<R; ++k) dims.push_back(int(x.getDimension(k)));
  o["dims"]=dims;
  mj::Value m=matrix(l,um); o["m"]=m;
  bool ok=x.getTotalDimension()==ii.size();
  std::string what;
  auto must=[&](bool b, const std::string& w) {if (!b && what.empty()) what=w;};
  must(ok,"total dimension");
  // the diagonal read through the proxy's conversion
  {mj::Array dg; for (auto& i : ii) {double v=l(i); dg.push_back(mj::num(v,um));} o["diag"]=dg;}
  if constexpr (R==2) for (auto& i : ii) for (auto& j : ii) must(l(i[0],i[1])(j[0],j[1])==l(i)(j),"subscripts");
  o["tr"]=mj::num(l.trace(),um);
  o["defl"]=list(deflate(l,true),um);
  must(same(list(deflate(l,false),um),o["diag"]),"diagonal packing");
  {
    mj::Value s=o["tr"];
    for (auto& v : orders(R)) {mj::Value t=mj::num(sliceTrace(a,v),um); if (!same(t,s)) {s=mj::Array{t}; break;}}
    o["slices"]=s;
  }
  // the packing of a sum is the sum of the packings
  for (auto& v : orders(R)) {
    Any r=reduceAny(a,v,true);
    DArray<1> s(sliceDeflate(a,v));
    std::visit([&](const auto& y) {if constexpr (!std::is_same_v<std::decay_t<decltype(y)>,std::monostate>) must(same(list(deflate(y,true),um),list(s,um)),"packing of slices");},r);
  }
  o["v"]=mj::Array{}; o["dyad"]=mj::Array{}; o["braket"]=mj::Array{}; o["norm2"]=0;
  double pur;
  if constexpr (isSV<X>) {
    must(same(matrix<R>(DO<R>(x),um),m),"projector");
    must(same(mj::num(DO<R>(x).norm(),um),o["tr"]),"trace norm of the projector");
    must(same(mj::num(frobeniusNorm(DO<R>(x)),um),o["tr"]),"Frobenius norm of the projector");
    pur=purity(DO<R>(x));
    {X y(x); double n=y.renorm(); must(x.norm()==0 || (std::abs(n-x.norm())<1e-10 && std::abs(y.norm()-1)<1e-10),"renormalisation"); if (n!=0) {y*=n; y-=x; must(y.norm()<1e-10,"renormalised state");}}
    if (ii.size()<=6) {
      const SV<R> b=makeSV<R>(ExtTiny<R>(x.getDimensions()),in["b"]);
      mj::Array v; for (auto& i : ii) v.push_back(mj::cnum(x.getArray()(i),uv)); o["v"]=v;
      {mj::Array rows; auto d=dyad(x,b); for (auto& i : ii) {mj::Array row; for (auto& j : ii) row.push_back(mj::cnum(d(i)(j),uv)); rows.push_back(row);} o["dyad"]=rows;}
      o["braket"]=mj::cnum(braket(b,x),uv);
      o["norm2"]=mj::num(x.norm()*x.norm(),um);
    }
  }
  else {
    must(same(mj::num(x.norm(),um),o["tr"]),"trace norm");
    pur=purity(x);
    must(std::abs(frobeniusNorm(x)*frobeniusNorm(x)-pur)<1e-6*(1+pur),"Frobenius norm and purity");
    if (std::abs(x.norm())>0) {X y(x); double n=y.renorm(); must(std::abs(n-x.norm())<1e-10*(1+std::abs(n)) && std::abs(y.norm()-1)<1e-10,"renormalisation");}
    // element access for writing
    {X y(x); for (auto& i : ii) for (auto& j : ii) {y(i)(j)+=1.; } bool all=true; for (auto& i : ii) for (auto& j : ii) if (std::abs(y(i)(j)-x(i)(j)-1.)>1e-9) all=false; must(all,"writing elements");}
    // matrix view
    if (x.getArray().isStorageContiguous() && x.getArray().isMinorRank(2*R-1)) {
      auto mv=x.matrixView(); bool all=mv.extent(0)==int(ii.size()) && mv.extent(1)==int(ii.size());
      for (size_t p=0; all && p<ii.size(); ++p) for (size_t q=0; q<ii.size(); ++q) if (mv(int(p),int(q))!=x(ii[p])(ii[q])) all=false;
      bool rowmajor=true; for (int k=0; k<2*R; ++k) if (x.getArray().ordering(k)!=2*R-1-k) rowmajor=false;
      if (rowmajor) must(all,"matrix view");
    }
  }
  o["frob"]=mj::num(pur,um*um);
  o["ok"]=what.empty() ? mj::Value(true) : mj::Value(what);
  return o;
}

static mj::Value run(const mj::Value& in)
{
  Any a;
  for (auto& o : in["ops"].a) {
    const std::string op=o["op"].S();
    if (op=="start") switch (o["dims"].size()) {
      case 1: put(a,makeSV<1>(extents<1>(o["dims"]),o["psi"])); break;
      case 2: put(a,makeSV<2>(extents<2>(o["dims"]),o["psi"])); break;
      case 3: put(a,makeSV<3>(extents<3>(o["dims"]),o["psi"])); break;
    }
    else if (op=="red") {
      std::vector<int> v; for (auto& x : o["v"].a) v.push_back(x.I());
      Any r1=reduceAny(a,v,false), r2=reduceAny(a,v,true);
      std::string why;
      std::visit([&](const auto& p, const auto& q) {
        using P=std::decay_t<decltype(p)>; using Q=std::decay_t<decltype(q)>;
        if constexpr (std::is_same_v<P,std::monostate> || std::is_same_v<Q,std::monostate>) why="no result";
        else if constexpr (!std::is_same_v<P,Q>) why="types differ";
        else if (!same(matrix<P::N_RANK>(p,1e-3),matrix<Q::N_RANK>(q,1e-3))) why="reductions differ";
      },r1,r2);
      if (!why.empty()) throw std::runtime_error(why);
      std::visit([&](const auto& p) {a.emplace<std::decay_t<decltype(p)>>(p);},r1);
    }
    else if (op=="fft") {Any r=fftAny(a,o["a"].I(),o["dir"].I()); std::visit([&](const auto& p) {a.emplace<std::decay_t<decltype(p)>>(p);},r);}
    else {
      Any r;
      std::visit([&](const auto& x) {if constexpr (!std::is_same_v<std::decay_t<decltype(x)>,std::monostate>) {Any t=apply(x,o); std::visit([&](const auto& p) {r.emplace<std::decay_t<decltype(p)>>(p);},t);}},a);
      std::visit([&](const auto& p) {a.emplace<std::decay_t<decltype(p)>>(p);},r);
    }
  }
  mj::Value res;
  std::visit([&](const auto& x) {if constexpr (!std::is_same_v<std::decay_t<decltype(x)>,std::monostate>) res=observe(x,a,in);},a);
  return res;
}

int main(int argc, char** argv) {return mj::loop(argc,argv,run);}
