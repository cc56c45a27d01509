// Conformance harness for spec/VecPars.tla: vector-valued parameters, each command line in a process of its own
#include "mj.h"
#include "Trajectory.h" // as every simulation program does
#include "MLJC.h"
#include "ParsMLJC.h"
#include "ParsMultiLevel.h"
#include "Pars.h"
#include <boost/fusion/include/at_c.hpp>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
typedef multilevel::Pump<0,2> P0; typedef multilevel::Pump<1,2> P1;
typedef multilevel::Decay<0,2> D0; typedef multilevel::Decay<1,2> D1;
typedef boost::fusion::vector<P0,P1> VP; typedef boost::fusion::vector<D0,D1> VL;
typedef boost::fusion::vector<Coupling<0,2>,Coupling<1,2>> VC;
typedef multilevel::ComplexPerLevel<2> ZS;
static mj::Value c4(dcomp z) {return mj::cnum(z,.25);}
template<typename V> mj::Value tiny(const V& v, int n) {mj::Array a; for (int i=0; i<n; ++i) a.push_back(c4(dcomp(v(i)))); return a;}
static std::string text(const mj::Value& v, bool cx)
{
  std::ostringstream o; double re=v[0].D()/4, im=v[1].D()/4;
  if (cx && im!=0) o<<"("<<re<<","<<im<<")"; else o<<re; return o.str();
}
static void child(const mj::Value& in, int fd)
{
  using boost::fusion::at_c;
  parameters::Table t; multilevel::ParsPumpedLossy<3,VP,VL> q(t); mljc::Pars<VC> g(t); ZS& zs=t.add("zs","complex per level",ZS(dcomp(0)));
  std::string v; for (auto& s : in["ts"].a) v+=s["s"].S()=="num" ? text(s["v"],in["k"]["cx"].B()) : s["s"].S();
  const std::string name="--"+in["k"]["name"].S();
  std::vector<std::string> w{"prog"};
  if (in["first"].S()=="dup") {w.push_back(name); w.push_back(in["k"]["n"].I()==3 ? "[7,8,9]" : "[7,8]");}
  w.push_back(name); w.push_back(v);
  if (in["after"].B()) {w.push_back("--gamma_parallel"); w.push_back("2.5");}
  std::vector<char*> av; for (auto& x : w) av.push_back(x.data()); av.push_back(nullptr);
  parameters::update(t,int(w.size()),av.data(),"--");
  mj::Object r;
  r["deltas"]=tiny(q.deltas,3); r["gamma_parallel_vector"]=tiny(q.gamma_parallel_vector,3); r["zs"]=tiny(zs,2);
  r["etas"]=mj::Array{c4(at_c<0>(q.etas).get()),c4(at_c<1>(q.etas).get())};
  r["gammas"]=mj::Array{c4(at_c<0>(q.gammas).get()),c4(at_c<1>(q.gammas).get())};
  r["gs"]=mj::Array{c4(at_c<0>(g.gs).get()),c4(at_c<1>(g.gs).get())};
  std::ostringstream os; mj::put(os,mj::Object{{"how",mj::Value("ok")},{"vals",r},{"par",mj::num(q.gamma_parallel,.25)}});
  auto s=os.str(); if (write(fd,s.data(),s.size())<0) _exit(9);
  _exit(0);
}
int main(int argc, char** argv)
{
  return mj::loop(argc,argv,[](const mj::Value& in) -> mj::Value {
    int p[2]; if (pipe(p)) throw std::runtime_error("pipe");
    pid_t pid=fork();
    if (!pid) {close(p[0]); int n=open("/dev/null",O_WRONLY); dup2(n,1); dup2(n,2); alarm(10); child(in,p[1]);}
    close(p[1]);
    std::string s; char buf[4096]; ssize_t k; while ((k=read(p[0],buf,4096))>0) s.append(buf,k); close(p[0]);
    int st; waitpid(pid,&st,0);
    if (WIFEXITED(st) && WEXITSTATUS(st)==0) return mj::Parser(s).parse();
    return mj::Object{{"how",mj::Value(WIFSIGNALED(st) && WTERMSIG(st)!=SIGABRT ? "crashed" : "terminated")}};
  });
}
