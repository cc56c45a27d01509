#include "composite.h"
#include "MatrixOfHamiltonian.h"
#include <sstream>
template<int R> static quantumdata::StateVector<R> fillSV(const ExtTiny<R>& e, const mj::Value& v)
{
  quantumdata::StateVector<R> psi(e); auto el=elements(psi.getArray()); for (size_t i=0; i<el.size(); ++i) *el[i]=dcomp(v[i][0].D(),v[i][1].D()); return psi;
}
template<typename A> mj::Value flat(const A& a) {mj::Array r; for (auto p : elements(a)) r.push_back(mj::cnum(*p)); return r;}
template<typename A> mj::Value square(const A& a) {auto e=elements(a); size_t n=std::round(std::sqrt(double(e.size()))); mj::Array rows; for (size_t i=0; i<n; ++i) {mj::Array r; for (size_t j=0; j<n; ++j) r.push_back(mj::cnum(*e[i*n+j])); rows.push_back(r);} return rows;}
inline mj::Value reals(const structure::Averages& a) {mj::Array r; for (int i=0; i<a.size(); ++i) r.push_back(mj::num(a(i))); return r;}
// the numbered lines of a key as <number, part, channel>
inline mj::Value keyLines(const std::string& text)
{
  mj::Array r; std::istringstream is(text); std::string l;
  while (std::getline(is,l)) {int n,p,c; char x; if (sscanf(l.c_str()," %d . %c%d_%d",&n,&x,&p,&c)==4) r.push_back(mj::Array{n,p,c});}
  return r;
}
template<int R> mj::Value observe(std::shared_ptr<const QuantumSystem<R>> qs, const mj::Value& in)
{
  mj::Object o; o["refused"]=false;
  const auto ex=std::dynamic_pointer_cast<const Exact<R>>(qs); const auto ha=std::dynamic_pointer_cast<const Hamiltonian<R>>(qs);
  const auto li=std::dynamic_pointer_cast<const Liouvillean<R>>(qs); const auto av=std::dynamic_pointer_cast<const Averaged<R>>(qs);
  const QuantumSystemWrapper<R> w(qs,true);
  const std::string obs=in["obs"].S();
  const ExtTiny<R> e(qs->getDimensions());
  if (obs=="none" || obs=="K") {
    mj::Array d; for (int i=0; i<R; ++i) d.push_back(int(e[i])); o["dims"]=d;
    o["hasEx"]=bool(ex); o["hasHa"]=bool(ha); o["hasLi"]=bool(li); o["nJ"]=int(w.template nAvr<LA_Li>()); o["nA"]=int(w.template nAvr<LA_Av>());
    o["master"]=w.applicableInMaster();
    {std::ostringstream os; size_t i=6; w.template streamKey<LA_Li>(os,i); o["keyJ"]=keyLines(os.str()); if (int(i)!=6+o["nJ"].I()) o["keyJ"]="key numbering";}
    {std::ostringstream os; size_t i=3; w.template streamKey<LA_Av>(os,i); o["keyA"]=keyLines(os.str()); if (int(i)!=3+o["nA"].I()) o["keyA"]="key numbering";}
    return o;
  }
  auto psi=fillSV<R>(e,in["psi"]);
  for (auto& op : in["ops"].a) {
    if (op["op"].S()=="U") w.actWithU(op["t"].D(),psi.getArray(),op["t0"].D());
    else w.actWithJ(op["t"].D(),psi.getArray(),op["k"].I());
  }
  const auto phi=fillSV<R>(e,in["phi"]);
  quantumdata::DensityOperator<R> rho(psi); rho+=quantumdata::DensityOperator<R>(phi);
  if (obs=="H") {
    auto d=fillSV<R>(e,in["chi"]); w.addContribution(2.,psi.getArray(),d.getArray(),1.);
    o["psi"]=flat(psi.getArray()); o["dpsi"]=flat(d.getArray());
    if (psi.getTotalDimension()<=12) { // the matrix calculated of the Hamiltonian does the same
      auto c=fillSV<R>(e,in["chi"]); const auto m=calculateMatrix(*qs,2.,1.);
      auto ce=elements(c.getArray()), pe=elements(psi.getArray()), de=elements(d.getArray());
      for (size_t i=0; i<ce.size(); ++i) {
        for (size_t j=0; j<ce.size(); ++j) *ce[i]+=m(int(i),int(j))*(*pe[j])/1i;
        if (std::abs(*ce[i]-*de[i])>1e-6) o["dpsi"]="the calculated matrix is not that of the Hamiltonian";
      }
    }
  }
  else if (obs=="S") {
    quantumdata::DensityOperator<R> d(e); auto el=elements(d.getArray());
    auto c=fillSV<R>(e,in["chi"]), p=fillSV<R>(e,in["psi"]); auto ce=elements(c.getArray()), pe=elements(p.getArray());
    for (size_t i=0; i<ce.size(); ++i) for (size_t j=0; j<ce.size(); ++j) *el[i*ce.size()+j]=(*ce[i])*conj(*pe[j]);
    w.actWithSuperoperator(3.,rho.getArray(),d.getArray(),in["k"].I()); o["drho"]=square(d.getArray());
  }
  else if (obs=="A") {
    auto stream=[&](const LazyDensityOperator<R>& m) -> mj::Value {
      std::ostringstream os; auto [s,a]=w.stream(2.,m,os,14); std::istringstream is(os.str()); mj::Array r; double x; while (is>>x) r.push_back(mj::num(x,1,1e-4));
      mj::Value b=reals(a); if (r.size()!=b.size()) return "printed and returned values differ in number";
      for (size_t i=0; i<r.size(); ++i) if (r[i].D()!=b[i].D()) return "printed and returned values differ";
      return r;
    };
    o["avp"]=reals(w.template average<LA_Av>(2.,psi)); o["avr"]=reals(w.template average<LA_Av>(2.,rho));
    o["strp"]=stream(psi); o["strr"]=stream(rho);
    o["ratesp"]=li ? reals(li->rates(2.,psi)) : mj::Value(mj::Array{}); o["ratesr"]=reals(w.template average<LA_Li>(2.,rho));
    mj::Array n; for (size_t k=0; k<w.template nAvr<LA_Li>(); ++k) {auto f(psi); w.actWithJ(2.,f.getArray(),k); n.push_back(mj::num(cppqedutils::sqr(f.norm()),1,1e-4));}
    o["norms"]=n;
  }
  return o;
}
