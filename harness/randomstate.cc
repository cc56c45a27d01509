// Conformance harness for spec/RandomState.tla: saving and restoring random engines, filling arrays
#include "mj.h"
#include "Random.h"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <map>
#include <span>
using Number=unsigned long;
struct Raw {template<typename E> Number operator()(E& e) const {return e();}};

// where a number stands in the sequence of a seed, from engines which do nothing but draw
template<typename Ref> static mj::Value place(Number x)
{
  static const auto table=[] {
    std::map<Number,std::pair<long,long>> m;
    for (long s : {5L,7L,1001L}) {Ref r(s); for (long n=1; n<=64; ++n) m[r()]={s,n};}
    return m;
  } ();
  auto i=table.find(x);
  if (i==table.end()) return mj::Value("a number "+std::to_string(x)+" of no sequence");
  return mj::Object{{"s",mj::Value(i->second.first)},{"n",mj::Value(i->second.second)}};
}

struct RefGSL {
  gsl_rng* r; RefGSL(unsigned long s) : r(gsl_rng_alloc(gsl_rng_taus2)) {gsl_rng_set(r,s);} ~RefGSL() {gsl_rng_free(r);}
  Number operator()() {return gsl_rng_get(r);}
};

template<typename E, typename Ref> static mj::Value play(const mj::Value& in)
{
  std::vector<std::unique_ptr<E>> es; for (auto& s : in["ini"].a) es.push_back(std::make_unique<E>(s.I()));
  std::string slot, ar; mj::Array seen;
  for (auto& h : in["hist"].a) {
    const std::string op=h["op"].S(); E& e=*es[h["e"].I()-1];
    if (op=="draw" || op=="fill") {
      std::vector<Number> v(h["k"].I());
      if (op=="draw") for (auto& x : v) x=e();
      else randomutils::fill<Raw>(std::span<Number>(v),e);
      mj::Array a; for (auto x : v) a.push_back(place<Ref>(x));
      seen.push_back(a);
    }
    else if (op=="save") {
      ar=h["ar"].S(); std::ostringstream os;
      if (ar=="text") {boost::archive::text_oarchive a(os); const E& c=e; a & c;} else {boost::archive::binary_oarchive a(os); const E& c=e; a & c;}
      slot=os.str();
    }
    else if (op=="load") {
      std::istringstream is(slot);
      if (ar=="text") {boost::archive::text_iarchive a(is); a & e;} else {boost::archive::binary_iarchive a(is); a & e;}
    }
    else if constexpr (std::is_same_v<E,randomutils::GSL_Engine>) e.seed(h["s"].I());
  }
  return mj::Object{{"seen",seen}};
}

static mj::Value run(const mj::Value& in)
{
  const std::string k=in["engine"].S();
  if (k=="gsl") return play<randomutils::GSL_Engine,RefGSL>(in);
  if (k=="mt") return play<std::mt19937_64,std::mt19937_64>(in);
  if (k=="pcg") return play<pcg64,pcg64>(in);
  return play<XoshiroCpp::Xoshiro256PlusPlus,XoshiroCpp::Xoshiro256PlusPlus>(in);
}

int main(int argc, char** argv) {return mj::loop(argc,argv,run);}
