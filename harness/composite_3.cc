#include "composite_obs.h"
#include "Composite.tcc"
mj::Value runComposite3(const Parts& p, const mj::Value& in)
{
  const std::string l=in["cfg"]["layout"].S();
  if (l=="c3") return observe<3>(composite::make(Act<0,1>(p.ia<2>(0)),Act<1,2>(p.ia<2>(1))),in);
  if (l=="p3") return observe<3>(composite::make(Act<2,0>(p.ia<2>(0)),Act<1,2>(p.ia<2>(1))),in);
  if (l=="t3") return observe<3>(composite::make(Act<2,0,1>(p.ia<3>(0)),Act<1,0>(p.ia<2>(1))),in);
  return {};
}
