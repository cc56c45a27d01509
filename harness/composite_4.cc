#include "composite_obs.h"
#include "Composite.tcc"
mj::Value runComposite4(const Parts& p, const mj::Value& in)
{
  const std::string l=in["cfg"]["layout"].S();
  if (l=="s4") return observe<4>(composite::make(Act<0,1>(p.ia<2>(0)),Act<3,2>(p.ia<2>(1)),Act<1,3>(p.ia<2>(2))),in);
  if (l=="h4") return observe<4>(composite::make(Act<3,0>(p.ia<2>(0)),Act<3,1>(p.ia<2>(1)),Act<3,2>(p.ia<2>(2))),in);
  return {};
}
