// Conformance harness for spec/CmdLine.tla: parameters::Table and parameters::update, each history in a process of its own
#include "mj.h"
#include "Pars.h"
#include "FormDouble.h"
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>

struct Ref {std::string type; void* p;};

static mj::Value val(const Ref& r)
{
  if (r.type=="int") return mj::Value(*static_cast<int*>(r.p));
  if (r.type=="zero") return mj::Value(int(*static_cast<formdouble::Zero*>(r.p)));
  if (r.type=="long") return mj::Value(*static_cast<long*>(r.p));
  if (r.type=="double") return mj::num(*static_cast<double*>(r.p),.5);
  if (r.type=="complex") return mj::cnum(*static_cast<std::complex<double>*>(r.p),.5);
  if (r.type=="string") return mj::Value(*static_cast<std::string*>(r.p));
  if (r.type=="bool") return mj::Value(*static_cast<bool*>(r.p));
  return mj::Value(0);
}

static void child(const mj::Value& in, int fd)
{
  parameters::Table t; std::vector<Ref> refs;
  auto emit=[&](const mj::Value& v) {std::ostringstream os; mj::put(os,v); auto s=os.str()+"\n"; if (write(fd,s.data(),s.size())<0) _exit(9);};
  for (auto& o : in.a) {
    if (o["op"].S()=="add") {
      auto n=o["name"].S(), ty=o["type"].S(); bool ok=true;
      try {
        if (ty=="int") refs.push_back({ty,&t.add(n,"an int",int(o["def"].I()))});
        else if (ty=="zero") refs.push_back({ty,&t.add(n,"a precision",formdouble::Zero(int(o["def"].I())))});
        else if (ty=="long") refs.push_back({ty,&t.add(n,"","a long",long(o["def"].I()))});
        else if (ty=="double") refs.push_back({ty,&t.add(n,"a double",o["def"].D()*.5)});
        else if (ty=="complex") refs.push_back({ty,&t.add(n,"a complex",std::complex<double>(o["def"][0].D()*.5,o["def"][1].D()*.5))});
        else if (ty=="string") refs.push_back({ty,&t.add<std::string>(n,"a string",o["def"].S())});
        else if (ty=="bool") {refs.push_back({ty,&t.add(n,"a switch",o["def"].B())}); refs.push_back({"neg",nullptr});}
        else {t.addTitle(n); refs.push_back({ty,nullptr});}
      }
      catch (const parameters::AttemptedRecreationOfParameterException&) {ok=false;}
      bool known=true, unknown=true;
      try {known=t[n].getS()==n;} catch (const parameters::UnrecognisedParameterException&) {known=false;}
      try {t["never registered"];} catch (const parameters::UnrecognisedParameterException&) {unknown=false;}
      emit(mj::Object{{"added",mj::Value(ok)},{"known",mj::Value(known)},{"unknown",mj::Value(unknown)}});
    }
    else {
      std::vector<std::string> w{"prog"}; for (auto& x : o["words"].a) w.push_back(x.S());
      std::vector<char*> av; for (auto& x : w) av.push_back(x.data()); av.push_back(nullptr);
      parameters::update(t,int(w.size()),av.data(),"--");
      mj::Array v; for (auto& r : refs) v.push_back(val(r));
      emit(mj::Object{{"how",mj::Value("ok")},{"vals",v},{"cl",mj::Value(*t.getParsedCommandLine())}});
    }
  }
  _exit(0);
}

int main(int argc, char** argv)
{
  rlimit rl{0,0}; setrlimit(RLIMIT_CORE,&rl);
  return mj::loop(argc,argv,[](const mj::Value& in) -> mj::Value {
    int p[2]; if (pipe(p)) throw std::runtime_error("pipe");
    pid_t pid=fork();
    if (!pid) {close(p[0]); int n=open("/dev/null",O_WRONLY); dup2(n,1); dup2(n,2); alarm(10); child(in,p[1]);}
    close(p[1]);
    std::string s; char buf[4096]; ssize_t k; while ((k=read(p[0],buf,4096))>0) s.append(buf,k); close(p[0]);
    int st; waitpid(pid,&st,0);
    mj::Array out; std::istringstream is(s); std::string l; while (std::getline(is,l)) out.push_back(mj::Parser(l).parse());
    bool normal=WIFEXITED(st) && WEXITSTATUS(st)==0;
    if (!normal) out.push_back(mj::Object{{"how",mj::Value(WIFSIGNALED(st) && WTERMSIG(st)!=SIGABRT ? "crashed" : "terminated")}});
    return out;
  });
}
