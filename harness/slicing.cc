#include "slicing.h"
#include "Combinatorics.h"

using namespace cppqedutils;

template <int R> mj::Value mii_(const mj::Value& in)
{
  IdxTiny<R> lo, hi; for (int a=0; a<R; ++a) {lo(a)=in["lo"][a].I(); hi(a)=in["hi"][a].I();}
  auto item=[](const IdxTiny<R>& i) {mj::Array r; for (int a=0; a<R; ++a) r.push_back(int(i(a))); return r;};
  mj::Array items; bool inverse=true;
  MultiIndexIterator<R> i(lo,hi,mii::begin);
  const MultiIndexIterator<R> end(lo,hi,mii::end);
  for (; i!=end && items.size()<2000; ++i) items.push_back(item(*i));
  // the conveniences agree with the iteration
  size_t n=0; for (auto j=i.getBegin(); n<2000; ++j, ++n) {if (j==i.getEnd()) break; std::ostringstream a, b; mj::put(a,mj::Value(item(*j))); mj::put(b,n<items.size() ? items[n] : mj::Value()); if (a.str()!=b.str()) inverse=false;}
  if (n!=items.size()) inverse=false;
  i.setToBegin(); if (!(i==i.getBegin())) inverse=false;
  i.setToEnd(); if (!(i==end)) inverse=false;
  if (all(lo==0)) {MultiIndexIterator<R> z(hi,mii::begin); size_t m=0; for (; z!=MultiIndexIterator<R>(hi,mii::end) && m<2000; ++z) ++m; if (m!=items.size()) inverse=false;}
  return mj::Object{{"items",items},{"inverse",inverse}};
}

template <int N> mj::Value cwr(int k)
{
  CWR_Dir<N> d(k); mj::Array items; bool inverse=true; size_t n=0;
  for (auto& c : d()) {mj::Array r; for (auto x : c) r.push_back(int(x)); items.push_back(r); if (d[c]!=n || d[n]!=c) inverse=false; ++n;}
  typename CWR_Dir<N>::Configuration wrong; wrong.fill(k+1);
  try {d[wrong]; inverse=false;} catch (const std::range_error&) {}
  return mj::Object{{"items",items},{"inverse",inverse}};
}

static mj::Value run(const mj::Value& in)
{
  if (in.has("kind")) {
    if (in["kind"].S()=="mii") switch (in["lo"].size()) {case 1: return mii_<1>(in); case 2: return mii_<2>(in); case 3: return mii_<3>(in); default: return mii_<4>(in);}
    int k=in["k"].I();
    switch (in["n"].I()) {case 1: return cwr<1>(k); case 2: return cwr<2>(k); case 3: return cwr<3>(k); case 4: return cwr<4>(k); default: return cwr<5>(k);}
  }
  std::vector<int> dims, v; for (auto& x : in["dims"].a) dims.push_back(x.I()); for (auto& x : in["v"].a) v.push_back(x.I());
  auto f=table().find({int(dims.size()),v});
  if (f==table().end()) throw std::runtime_error("harness: not instantiated");
  mj::Value r=f->second(dims);
  // rows and columns of (multi)matrices are particular slices
  auto same=[&](const mj::Value& s) {std::ostringstream a,b; mj::put(a,r); mj::put(b,s); if (a.str()!=b.str()) r=s;};
  namespace vfmsi=blitzplusplus::vfmsi;
  if (dims.size()==2 && v==Key{0}) same(slices<2,tmptools::Vector<0>>(dims,[](const CArray<2>& a) {return vfmsi::fullRange<vfmsi::Left>(a);}));
  if (dims.size()==2 && v==Key{1}) same(slices<2,tmptools::Vector<1>>(dims,[](const CArray<2>& a) {return vfmsi::fullRange<vfmsi::Right>(a);}));
  if (dims.size()==4 && v==Key{0,1}) same(slices<4,tmptools::Vector<0,1>>(dims,[](const CArray<4>& a) {return vfmsi::fullRange<vfmsi::Left>(a);}));
  if (dims.size()==4 && v==Key{2,3}) same(slices<4,tmptools::Vector<2,3>>(dims,[](const CArray<4>& a) {return vfmsi::fullRange<vfmsi::Right>(a);}));
  if (dims.size()==6 && v==Key{0,1,2}) same(slices<6,tmptools::Vector<0,1,2>>(dims,[](const CArray<6>& a) {return vfmsi::fullRange<vfmsi::Left>(a);}));
  if (dims.size()==6 && v==Key{3,4,5}) same(slices<6,tmptools::Vector<3,4,5>>(dims,[](const CArray<6>& a) {return vfmsi::fullRange<vfmsi::Right>(a);}));
  return r;
}

int main(int argc, char** argv)
{
  regAll<1>(); regAll<2>(); regAll<3>();
  registerA(); registerB(); registerC(); registerD(); registerE();
  return mj::loop(argc,argv,run);
}
