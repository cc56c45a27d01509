#include "composite.h"
FreePtr makeFree(size_t dim, const Spec& s)
{
  return dispatch(s,[&](auto ex, auto ha, auto li, auto av) -> FreePtr {return std::make_shared<MFree<ex.value,ha.value,li.value,av.value>>(dim,s);});
}
