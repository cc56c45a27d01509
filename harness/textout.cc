// Conformance harness for spec/TextOut.tla and spec/NumberOut.tla
#include "mj.h"
#include "CommentingStream.h"
#include "FormDouble.h"
#include "KeyPrinter.h"
#include "BlitzArray.h"
#include "Trajectory.h"

static std::string txt(const mj::Value& v) {std::string s; for (auto& c : v.a) s+=c.S()=="N" ? '\n' : c.S()[0]; return s;}

static mj::Value ops(const mj::Value& in)
{
  auto sink=std::make_shared<std::ostringstream>();
  {
    std::vector<std::unique_ptr<cppqedutils::CommentingStream>> cs;
    for (int i=0; i<2; ++i) cs.push_back(std::make_unique<cppqedutils::CommentingStream>(sink));
    for (auto& o : in["ops"].a) {
      auto op=o["op"].S();
      if (op=="w") *cs[o["s"].I()]<<txt(o["txt"]);
      else if (op=="f") *cs[o["s"].I()]<<std::flush;
      else *sink<<txt(o["txt"]);
    }
  }
  mj::Array r; for (char c : sink->str()) r.push_back(mj::Value(c=='\n' ? std::string("N") : std::string(1,c)));
  return mj::Object{{"txt",r}};
}

static mj::Value line(const mj::Value& in)
{
  int p=int(in["p"].I()); std::ostringstream os; std::vector<double> vals; std::vector<int> precs; bool sep=true;
  for (auto& c : in["line"].a) {
    auto& n=c["n"]; int d=int(n["dig"].I()); std::string s=n["neg"].B() ? "-" : "";
    bool nine=n["lead"].I()==9;
    for (int i=0; i<d; ++i) {s+=nine ? (i==d-1 ? '8' : '9') : char('1'+(i*7)%9); if (!i) s+='.';}
    s+="e"+std::to_string(n["e"].I());
    double v=strtod(s.c_str(),nullptr); vals.push_back(v);
    bool pos=c["f"].S()=="pos";
    std::ostringstream one;
    if (pos) {const FormDouble fd(formdouble::positive(p)); one<<fd(v); precs.push_back(fd.getPrecision());}
    else {const FormDouble fd(p); one<<fd(v); precs.push_back(fd.getPrecision());}
    auto t=one.str(); if (t.empty() || !isspace((unsigned char)t.back()) || isspace((unsigned char)t[0])) sep=false;
    os<<t;
  }
  std::istringstream is(os.str()); std::string w; std::vector<double> back; bool ok=true;
  while (is>>w) {char* e; back.push_back(strtod(w.c_str(),&e)); if (*e) ok=false;}
  for (size_t i=0; i<back.size() && i<vals.size(); ++i) {
    if (precs[i]<p) ok=false; // at least the requested precision
    double tol=0.5000001*std::pow(10.,1-precs[i]); if (std::abs(back[i]-vals[i])>tol*std::abs(vals[i])+1e-15*std::abs(vals[i])) ok=false;
  }
  return mj::Object{{"fields",mj::Value(back.size())},{"back",mj::Value(ok)},{"separated",mj::Value(sep)}};
}

static mj::Value keys(const mj::Value& in)
{
  size_t i=in["start"].I(); std::ostringstream os; std::vector<std::string> expect; int n=0;
  for (auto& k : in["keys"].a) {
    std::list<std::string> l; for (long long j=0; j<k.I(); ++j) {l.push_back("label"+std::to_string(n)+" #"+std::to_string(j)); expect.push_back(l.back());}
    cppqedutils::KeyPrinter("Title"+std::to_string(n++),l).stream(os,i);
  }
  mj::Array nums; bool lab=true; std::istringstream is(os.str()); std::string s; size_t at=0; int titles=0;
  while (std::getline(is,s)) {
    if (s.compare(0,5,"Title")==0) {++titles; continue;}
    size_t q=0; while (q<s.size() && s[q]==' ') ++q; size_t e=q; while (e<s.size() && isdigit((unsigned char)s[e])) ++e;
    if (e==q || s.compare(e,2,". ")) {if (s.find_first_not_of(' ')!=std::string::npos) lab=false; continue;}
    nums.push_back(mj::Value(atoll(s.c_str()+q)));
    if (at>=expect.size() || s.substr(e+2)!=expect[at]) lab=false;
    ++at;
  }
  if (titles!=n) lab=false;
  return mj::Object{{"numbers",nums},{"next",mj::Value(i)},{"labels",mj::Value(lab)}};
}

int main(int argc, char** argv)
{
  return mj::loop(argc,argv,[](const mj::Value& in) -> mj::Value {return in.has("ops") ? ops(in) : in.has("keys") ? keys(in) : line(in);});
}
