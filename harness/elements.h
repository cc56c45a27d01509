// What the elements' conformance harness knows of an element or interaction under test
#ifndef VERIF_ELEMENTS_H
#define VERIF_ELEMENTS_H
#include "mj.h"
#include "Structure.h"
#include "Free.h"
#include "Interaction.h"
#include "Mode_.h"
#include "Particle_.h"
#include "Spin.h"
#include "Qbit_.h"

template<int R> struct Thing {
  std::shared_ptr<const structure::Hamiltonian<R>> ha;
  std::shared_ptr<const structure::Exact<R>> ex;
  std::shared_ptr<const structure::Liouvillean<R>> li;
  std::shared_ptr<const structure::Averaged<R>> av;
  std::vector<std::shared_ptr<const structure::Exact<1>>> frees; // for interactions: the exact parts of the legs
  bool isFree=true, neg=false;
  std::string pic;
  template<typename P> static Thing of(std::shared_ptr<P> p) {
    Thing t;
    t.ha=std::dynamic_pointer_cast<const structure::Hamiltonian<R>>(p);
    t.ex=std::dynamic_pointer_cast<const structure::Exact<R>>(p);
    t.li=std::dynamic_pointer_cast<const structure::Liouvillean<R>>(p);
    t.av=std::dynamic_pointer_cast<const structure::Averaged<R>>(p);
    return t;
  }
  template<typename P, typename... F> static Thing ia(std::shared_ptr<P> p, F... f) {
    Thing t=of(p); t.isFree=false; t.ex.reset();
    (t.frees.push_back(std::dynamic_pointer_cast<const structure::Exact<1>>(f)),...);
    return t;
  }
};

inline dcomp cx(const mj::Value& v) {return dcomp(v[0].D(),v[1].D());}
inline QM_Picture qmPic(const mj::Value& p) {return p.S()=="IP" ? QMP_IP : p.S()=="UIP" ? QMP_UIP : QMP_SCH;}
mode::Ptr makeMode(const mj::Value& p);
std::shared_ptr<const QbitBase> makeQbit(const mj::Value& p);
std::shared_ptr<const SpinBase> makeSpin(const mj::Value& p);
particle::Ptr makeParticle(const mj::Value& p);
particle::PtrPumped makePumpedParticle(const mj::Value& p);

Thing<1> free1(const std::string& kind, const mj::Value& p);
Thing<1> multilevel1(const mj::Value& p);
Thing<2> inter2(const std::string& kind, const mj::Value& p);
Thing<2> mljc2(const mj::Value& p);
Thing<3> inter3(const std::string& kind, const mj::Value& p);
#endif
