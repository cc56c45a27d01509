// Replays the behaviours of spec/Composite.tla into binary::make and composite::make
#include "composite.h"
#include "Composite.tcc"
template<int R> InteractionPtr<R> makeIa(const typename Interaction<R>::Frees&, const Spec&);
extern template InteractionPtr<2> makeIa<2>(const typename Interaction<2>::Frees&, const Spec&);
extern template InteractionPtr<3> makeIa<3>(const typename Interaction<3>::Frees&, const Spec&);
Spec Parts::spec(int p) const {const auto& c=(*in)["cfg"]; return {0,c["ex"][p].B(),c["ha"][p].B(),int(c["li"][p].I()),int(c["av"][p].I()),c["mas"][p].B()};}
static std::map<int,FreePtr> pool;
FreePtr Parts::leg(int act, int k) const
{
  const auto& c=(*in)["cfg"]; int axis=c["acts"][act][k].I(), id=c["legs"][act][k].I();
  auto& f=pool[id]; if (!f) {Spec s=spec(axis); s.id=id; f=makeFree(c["dims"][axis].I(),s);} return f;
}
template<int R> InteractionPtr<R> Parts::ia(int act) const
{
  typename Interaction<R>::Frees f; for (int k=0; k<R; ++k) f[k]=leg(act,k);
  Spec s=spec((*in)["cfg"]["dims"].size()+act); s.id=11+act; return makeIa<R>(f,s);
}
template InteractionPtr<2> Parts::ia<2>(int) const;
template InteractionPtr<3> Parts::ia<3>(int) const;
int main(int argc, char** argv)
{
  return mj::loop(argc,argv,[](const mj::Value& in) -> mj::Value {
    pool.clear(); Parts p; p.in=&in;
    try {
      for (auto f : {runBinary,runComposite3,runComposite4}) {auto r=f(p,in); if (r.k!=mj::Value::NUL) return r;}
      return "no such layout";
    }
    catch (const CompositeConsistencyException&) {mj::Object o; o["refused"]=true; o["nothing"]=true; return o;}
  });
}
