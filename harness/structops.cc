// Conformance harness for spec/StructOps.tla: a stack machine over quantumoperator::Tridiagonal and Sigma
#include "structops.h"

using Any=std::variant<T1,T2,T3,T4>;
using Diag=T1::Diagonal;

static const double LN2=std::log(2.), HALFPI=std::acos(0.);
static std::complex<double> expo(const mj::Value& g) {return {g[0].D()*LN2,g[1].D()*HALFPI};}
static std::complex<double> gauss(const mj::Value& z) {return {z[0].D(),z[1].D()};}

static Diag gen(const mj::Value& g) {Diag d(int(g.size())); for (int n=0; n<int(g.size()); ++n) d(n)=expo(g[n]); return d;}

static mj::Value run(const mj::Value& in)
{
  const double unit=std::pow(2.,-in["shift"].D());
  std::vector<Any> st; std::vector<std::array<int,3>> sigs;
  auto top=[&]() -> Any& {return st.back();};
  const mj::Value refused=mj::Object{{"refused",1},{"dims",mj::Array{}},{"m",mj::Array{}}};
  for (auto& o : in["ops"].a) {
    const std::string op=o["op"].S();
    try {
      if (op=="push" || op=="pushf") {
        int s=o["s"].I(), k=o["k"].I(), lm=o["lm"].I(), lp=o["lp"].I(), lz=op=="push" ? o["lz"].I() : o["g"].size();
        Diag z(lz), m(lm), p(lp);
        for (int n=0; n<lz; ++n) z(n)=op=="push" ? dcomp(n+s,1) : expo(o["g"][n]);
        for (int n=0; n<lm; ++n) m(n)=dcomp(s,n+2);
        for (int n=0; n<lp; ++n) p(n)=dcomp(n+1,-s);
        st.push_back(T1(z,size_t(k),m,p,op=="pushf"));
        // the operator must not share its data with the arrays it was made of
        z=1e3; m=1e3; p=1e3;
      }
      else if (op=="neg") std::visit([](auto& t) {t=std::decay_t<decltype(t)>(-t);},top());
      else if (op=="copy") {Any c(top()); std::visit([](auto& t) {t*=3.;},top()); std::visit([](auto& t) {t/=3.;},top()); Any d(c); std::visit([](auto& t) {t*=7.;},c); st.pop_back(); st.push_back(d);}
      else if (op=="dag") {Any c=std::visit([](auto& t) -> Any {return t.dagger();},top()); st.pop_back(); st.push_back(c);}
      else if (op=="mhc") {Any c=std::visit([](auto& t) -> Any {return tridiagMinusHC(t);},top()); st.pop_back(); st.push_back(c);}
      else if (op=="phc") {Any c=std::visit([](auto& t) -> Any {return tridiagPlusHC(t);},top()); st.pop_back(); st.push_back(c);}
      else if (op=="phci") {Any c=std::visit([](auto& t) -> Any {return tridiagPlusHC_overI(t);},top()); st.pop_back(); st.push_back(c);}
      else if (op=="mul") {dcomp z=gauss(o["z"]); Any c=std::visit([&](auto& t) -> Any {return std::decay_t<decltype(t)>(z*t);},top()); st.pop_back(); st.push_back(c);}
      else if (op=="furnish") {Diag g(gen(o["g"])); T1 c(furnishWithFreqs(std::get<T1>(top()),g)); st.pop_back(); st.push_back(c);}
      else if (op=="prop") std::visit([&](auto& t) {t.propagate(o["t"].D());},top());
      else if (op=="swap") {Any a(st[st.size()-2]), b(st.back()); st.pop_back(); st.pop_back(); st.push_back(b); st.push_back(a);}
      else if (op=="add" || op=="sub" || op=="kron") {
        Any b(st.back()); st.pop_back(); Any a(st.back()); st.pop_back();
        const Any a0(a), b0(b);
        Any r=std::visit([&](auto& x, auto& y) -> Any {
          using X=std::decay_t<decltype(x)>; using Y=std::decay_t<decltype(y)>;
          if (op=="kron") {if constexpr (X::N_RANK+Y::N_RANK<=4) return Any(x*y); else throw std::runtime_error("harness: rank");}
          else {
            if constexpr (std::is_same_v<X,Y>) {return op=="add" ? Any(X(x+y)) : Any(X(x-y));}
            else throw std::runtime_error("harness: sum of different ranks");
          }
        },a,b);
        st.push_back(r);
      }
      else if (op=="sigma") sigs.push_back({int(o["l"].I()),int(o["r"].I()),o["side"].S()=="head"});
      else return mj::Value("harness: unknown operation "+op);
    }
    catch (const std::exception&) {return refused;}
  }
  if (!sigs.empty()) {
    if (st.empty()) return pureSigma(sigs,unit);
    if (auto t=std::get_if<T1>(&top())) return wrapSigma(*t,sigs,unit);
    if (auto t=std::get_if<T2>(&top())) return wrapSigma(*t,sigs,unit);
    throw std::runtime_error("harness: rank with sigmas");
  }
  return std::visit([&](auto& t) {auto d=dimsOf(t); return out(d,dense<std::decay_t<decltype(t)>::N_RANK>(t,d,unit));},top());
}

int main(int argc, char** argv) {return mj::loop(argc,argv,run);}
