// Conformance harness for spec/Oscillator.tla: the closed solution of the driven damped oscillator. The specification gives the derivatives of the
// solution at a point in terms of amplitude, velocity and drive there; they carry the solution over small steps.
#include "mj.h"
#include "DrivenDampedHarmonicOscillator.h"
#include <map>
using namespace cppqedutils;
static const double H=.125;
struct Point {dcomp y, v; double big;}; // big: the largest magnitude met, to which deviations are compared

static mj::Value run(const mj::Value& in)
{
  const auto& o=in["osc"]; const double q=o["q"].D(), gamma=o["g2"].D()/q/2, omega=o["om"].D()/q;
  const int sub=q==1 ? 1 : q<=8 ? 32 : 256; // how much finer the steps have to be
  auto z=[](const mj::Value& v) {return dcomp(v[0].D(),v[1].D());};
  std::vector<dcomp> al, be, si;
  for (size_t n=0; n<in["al"].size(); ++n) {al.push_back(z(in["al"][n])); be.push_back(z(in["be"][n])); si.push_back(z(in["si"][n]));}

  auto carry=[&](Point p, long from, long to) {
    const long dir = to>from ? 1 : -1; const double h=dir*H/sub;
    for (long i=0; i<(to-from)*dir*sub; ++i) {
      const dcomp u=std::exp(dcomp(0,omega*(from*H+i*h)));
      dcomp y=0, v=0; double f=1; // f=h^n/n!
      for (size_t n=0; n+1<al.size(); ++n) {
        y+=f*(al[n]*p.y+be[n]*p.v+si[n]*u); v+=f*(al[n+1]*p.y+be[n+1]*p.v+si[n+1]*u)/q; f*=h/q/(n+1);
      }
      p={y,v,std::max({p.big,std::abs(y),std::abs(v)})};
    }
    return p;
  };
  const Point first{z(o["y"]),z(o["v"]),1};
  long org=o["t0"].I(); Point atOrg{first.y,first.v,std::max({1.,std::abs(first.y),std::abs(first.v)})};
  auto osc=ddho::make(gamma,omega,first.y,first.v,org*H);
  mj::Array seen;
  auto same=[&](dcomp got, dcomp want, double big) {
    if (std::abs(got-want)<=1e-7*big) return mj::Value(std::string("as the equation says"));
    std::ostringstream os; os.precision(12); os<<got<<" instead of "<<want; return mj::Value(os.str());
  };
  for (auto& h : in["hist"].a) {
    const long at=h["at"].I(); const Point p=carry(atOrg,org,at);
    const dcomp y=osc->amp(at*H), v=osc->ampDeriv(at*H);
    seen.push_back(mj::Object{{"at",mj::Value(at)},{"amp",same(y,p.y,p.big)},{"vel",same(v,p.v,p.big)}});
    if (h["op"].S()=="start") {osc=ddho::make(gamma,omega,y,v,at*H); org=at; atOrg={y,v,std::max({1.,std::abs(y),std::abs(v)})};}
  }
  return mj::Object{{"seen",seen}};
}

int main(int argc, char** argv) {return mj::loop(argc,argv,run);}
