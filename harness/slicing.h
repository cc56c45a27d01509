// Conformance harness for spec/Slicing.tla; the instantiations are spread over several translation units
#include "mj.h"
#include "VectorFromMatrixSliceIterator.h"
#include <array>

using Key=std::vector<int>;
using Fun=std::function<mj::Value(const std::vector<int>&)>;
inline std::map<std::pair<int,Key>,Fun>& table() {static std::map<std::pair<int,Key>,Fun> t; return t;}

/// Two arrays of the same extents and different storage are sliced in lockstep
template <int RANK, typename V, typename RangeMaker>
mj::Value slices(const std::vector<int>& dims, RangeMaker range)
{
  using namespace cppqedutils::sliceiterator;
  blitz::TinyVector<int,RANK> ext, base, order; blitz::TinyVector<bool,RANK> asc; asc=true;
  for (int a=0; a<RANK; ++a) {ext(a)=dims[a]; order(a)=a; base(a)=0;}
  CArray<RANK> a1(ext);
  CArray<RANK> a2(ext,blitz::GeneralArrayStorage<RANK>(order,asc)); // first axis fastest
  // a part of a larger array
  blitz::TinyVector<int,RANK> big(ext); big(RANK-1)+=2; big(0)+=1;
  CArray<RANK> a3big(big); a3big=dcomp(-1,-1);
  blitz::TinyVector<int,RANK> lo, hi; for (int a=0; a<RANK; ++a) {lo(a)=a==0 ? 1 : 0; if (a==RANK-1) lo(a)+=1; hi(a)=lo(a)+ext(a)-1;}
  CArray<RANK> a3(a3big(blitz::RectDomain<RANK>(lo,hi)));
  for (int n=0; n<int(a1.size()); ++n) a1.data()[n]=n;
  a2=a1; a3=a1;
  const CArray<RANK>& c1=a1;
  constexpr int R=boost::mpl::size<V>::value;
  auto flat=[&](const CArray<R>& s) {mj::Array r; for (auto i=s.begin(); i!=s.end(); ++i) r.push_back(int(std::round(std::real(*i)))); return r;};
  auto rowMajor=[&](const CArray<R>& s) {CArray<R> t(s.shape()); t=s; return flat(t);};
  mj::Array views, ext0; bool aligned=true, written=true;
  auto r1=range(c1), r2=range(a2), r3=range(a3);
  auto i2=r2.begin(); auto i3=r3.begin();
  bool first=true;
  for (auto i1=r1.begin(); i1!=r1.end(); ++i1, ++i2, ++i3) {
    if (i2==r2.end() || i3==r3.end()) {aligned=false; break;}
    auto& s=*i1;
    if (first) for (int a=0; a<R; ++a) ext0.push_back(s.extent(a));
    first=false;
    mj::Value v(rowMajor(s));
    std::ostringstream o1, o2, o3; mj::put(o1,v); mj::put(o2,mj::Value(rowMajor(*i2))); mj::put(o3,mj::Value(rowMajor(*i3)));
    aligned = aligned && o1.str()==o2.str() && o1.str()==o3.str();
    // writing through the view changes exactly the addressed elements
    for (auto* p : {&a1,&a3big}) {
      const CArray<RANK> before(p->copy());
      auto& w = p==&a1 ? *i1 : *i3;
      w+=dcomp(0,1);
      for (auto i=before.begin(), j=static_cast<const CArray<RANK>*>(p)->begin(); i!=before.end(); ++i, ++j) {
        bool in=false; for (auto& x : v.a) if (std::real(*i)==x.D() && std::imag(*i)>=0) in=true;
        if (*j!=*i+(in ? dcomp(0,1) : dcomp(0,0))) written=false;
      }
    }
    views.push_back(v);
  }
  if (!(i2==r2.end()) || !(i3==r3.end())) aligned=false;
  return mj::Object{{"views",views},{"ext",ext0},{"aligned",aligned},{"written",written}};
}

template <int RANK, int... V> void reg()
{
  table()[{RANK,Key{V...}}]=[](const std::vector<int>& d) {
    return slices<RANK,tmptools::Vector<V...>>(d,[](const CArray<RANK>& a) {return cppqedutils::sliceiterator::fullRange<tmptools::Vector<V...>>(a);});
  };
}

/// all ordered choices of axes
template <int RANK, int... V> void regAll()
{
  if constexpr (sizeof...(V)>0) reg<RANK,V...>();
  if constexpr (sizeof...(V)<RANK)
    []<int... I>(std::integer_sequence<int,I...>) {
      ([] {constexpr int N=I; if constexpr (((N!=V) && ... && true)) regAll<RANK,V...,N>();}(),...);
    }(std::make_integer_sequence<int,RANK>());
}

void registerA(); void registerB(); void registerC(); void registerD(); void registerE();
