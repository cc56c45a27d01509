// Conformance harness for spec/Master.tla
#include "master.h"
mj::Value run1(const mj::Value& in) {return RunMaster<1>::run(in);}
int main(int argc, char** argv) {return mj::loop(argc,argv,[](const mj::Value& in) {return in["sys"]["dims"].size()==1 ? run1(in) : run2(in);});}
