#include "composite.h"
template<int R> InteractionPtr<R> makeIa(const typename Interaction<R>::Frees& f, const Spec& s)
{
  return dispatch(s,[&](auto ex, auto ha, auto li, auto av) -> InteractionPtr<R> {return std::make_shared<MIa<R,ex.value,ha.value,li.value,av.value>>(f,s);});
}
template InteractionPtr<2> makeIa<2>(const typename Interaction<2>::Frees&, const Spec&);
