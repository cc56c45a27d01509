#include "composite_obs.h"
#include "BinarySystem.h"
#include "Composite.tcc"
mj::Value runBinary(const Parts& p, const mj::Value& in)
{
  const std::string l=in["cfg"]["layout"].S();
  if (l=="bin") return observe<2>(binary::make(p.ia<2>(0)),in);
  if (l=="b10") return observe<2>(composite::make(Act<1,0>(p.ia<2>(0))),in);
  return {};
}
