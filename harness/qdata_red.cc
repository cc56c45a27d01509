#include "qdata.h"

template<int... I> struct VS {};
template<int R> struct Choices;
template<int R, typename F, int... I> bool attempt(const std::vector<int>& v, F&& f, VS<I...>)
{
  if (v==std::vector<int>{I...}) {f.template operator()<I...>(); return true;}
  return false;
}
template<int R, typename F> void dispatch(const std::vector<int>& v, F&& f)
{
  bool ok;
  if constexpr (R==1) ok=attempt<R>(v,f,VS<0>{});
  else if constexpr (R==2) ok=attempt<R>(v,f,VS<0>{}) || attempt<R>(v,f,VS<1>{}) || attempt<R>(v,f,VS<0,1>{}) || attempt<R>(v,f,VS<1,0>{});
  else ok=attempt<R>(v,f,VS<0>{}) || attempt<R>(v,f,VS<1>{}) || attempt<R>(v,f,VS<2>{}) || attempt<R>(v,f,VS<0,1>{}) || attempt<R>(v,f,VS<1,0>{}) || attempt<R>(v,f,VS<0,2>{})
    || attempt<R>(v,f,VS<2,0>{}) || attempt<R>(v,f,VS<1,2>{}) || attempt<R>(v,f,VS<2,1>{}) || attempt<R>(v,f,VS<0,1,2>{}) || attempt<R>(v,f,VS<0,2,1>{}) || attempt<R>(v,f,VS<1,0,2>{})
    || attempt<R>(v,f,VS<1,2,0>{}) || attempt<R>(v,f,VS<2,0,1>{}) || attempt<R>(v,f,VS<2,1,0>{});
  if (!ok) throw std::runtime_error("harness: axes");
}

template<typename T> constexpr bool isState=!std::is_same_v<std::decay_t<T>,std::monostate>;

Any reduceAny(const Any& a, const std::vector<int>& v, bool lazy)
{
  Any res;
  std::visit([&](const auto& x) {
    if constexpr (isState<decltype(x)>) {
      constexpr int R=std::decay_t<decltype(x)>::N_RANK;
      dispatch<R>(v,[&]<int... I>() {
        if (lazy) {const LDO<R>& l=x; auto r=reduce<I...>(l); res.template emplace<DO<sizeof...(I)>>(r);}
        else {auto r=reduce<tmptools::Vector<I...>>(x); res.template emplace<DO<sizeof...(I)>>(r);}
      });
    }
  },a);
  return res;
}

double sliceTrace(const Any& a, const std::vector<int>& v)
{
  double res=0;
  std::visit([&](const auto& x) {
    if constexpr (isState<decltype(x)>) {
      constexpr int R=std::decay_t<decltype(x)>::N_RANK;
      dispatch<R>(v,[&]<int... I>() {const LDO<R>& l=x; res=partialTrace<tmptools::Vector<I...>>(l,[](const LDO<sizeof...(I)>& s) {return s.trace();});});
    }
  },a);
  return res;
}

DArray<1> sliceDeflate(const Any& a, const std::vector<int>& v)
{
  DArray<1> res;
  std::visit([&](const auto& x) {
    if constexpr (isState<decltype(x)>) {
      constexpr int R=std::decay_t<decltype(x)>::N_RANK;
      dispatch<R>(v,[&]<int... I>() {const LDO<R>& l=x; res.reference(partialTrace<tmptools::Vector<I...>>(l,[](const LDO<sizeof...(I)>& s) {return DArray<1>(deflate(s,true));}));});
    }
  },a);
  return res;
}

Any fftAny(const Any& a, int axis, int dir)
{
  Any res;
  std::visit([&](const auto& x) {
    if constexpr (isState<decltype(x)>) {
      using X=std::decay_t<decltype(x)>;
      constexpr int R=X::N_RANK;
      const LDO<R>& l=x; const auto d=dir>0 ? fft::DIR_XK : fft::DIR_KX;
      auto put=[&](auto p) {res.template emplace<X>(dynamic_cast<const X&>(*p));};
      if (axis==0) put(ffTransform<tmptools::Vector<0>>(l,d));
      if constexpr (R>1) if (axis==1) put(ffTransform<tmptools::Vector<1>>(l,d));
      if constexpr (R>2) if (axis==2) put(ffTransform<tmptools::Vector<2>>(l,d));
    }
  },a);
  return res;
}
