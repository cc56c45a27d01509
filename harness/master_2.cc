#include "master.h"
mj::Value run2(const mj::Value& in) {return RunMaster<2>::run(in);}
