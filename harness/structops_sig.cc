// Conformance harness for spec/StructOps.tla, part with elementary transitions
#include "structops.h"

template <int R, int D, typename Op>
mj::Value wrapD(const Op& op, std::vector<int> dims, const std::vector<std::array<int,3>>& s, size_t p, double unit)
{
  if (p==s.size()) return out(dims,dense<R>(op,dims,unit));
  if constexpr (D<2) {
    mj::Value res; bool done=false;
    auto one=[&]<int I>(std::integral_constant<int,I>) {
      constexpr int L=I/3, RR=I%3;
      if (done || s[p][0]!=L || s[p][1]!=RR) return;
      done=true;
      Sigma<L,RR> sig;
      if (s[p][2]) {auto d(dims); d.insert(d.begin(),3); res=wrapD<R+1,D+1>(sig*op,d,s,p+1,unit);}
      else         {auto d(dims); d.push_back(3);        res=wrapD<R+1,D+1>(op*sig,d,s,p+1,unit);}
    };
    [&]<int... I>(std::integer_sequence<int,I...>) {(one(std::integral_constant<int,I>()),...);}(std::make_integer_sequence<int,9>());
    return res;
  }
  else throw std::runtime_error("too many sigmas");
}

mj::Value pureSigma(const std::vector<std::array<int,3>>& s, double unit)
{
  mj::Value res;
  auto one=[&]<int I>(std::integral_constant<int,I>) {
    if (s[0][0]!=I/3 || s[0][1]!=I%3) return;
    Sigma<I/3,I%3> sig;
    // the conjugate of the conjugate is the same operator
    static_assert(std::is_same_v<std::decay_t<decltype(sig.dagger().dagger())>,Sigma<I/3,I%3>>);
    static_assert(std::is_same_v<std::decay_t<decltype(sig.dagger())>,Sigma<I%3,I/3>>);
    res=wrapD<1,1>(sig,{3},s,1,unit);
  };
  [&]<int... I>(std::integer_sequence<int,I...>) {(one(std::integral_constant<int,I>()),...);}(std::make_integer_sequence<int,9>());
  return res;
}


mj::Value wrapSigma(const T1& t, const Sigs& s, double unit) {return wrapD<1,0>(t,dimsOf(t),s,0,unit);}
mj::Value wrapSigma(const T2& t, const Sigs& s, double unit) {return wrapD<2,0>(t,dimsOf(t),s,0,unit);}
