// Minimal JSON value, parser and writer for the conformance harnesses, plus the line-by-line replay main loop.
#ifndef VERIF_MJ_H
#define VERIF_MJ_H
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>

namespace mj {

struct Value;
using Array=std::vector<Value>;
using Object=std::map<std::string,Value>;

struct Value {
  enum Kind {NUL,BOOL,INT,DBL,STR,ARR,OBJ} k=NUL;
  bool b=false; long long i=0; double d=0; std::string s; Array a; Object o;
  Value() {}
  Value(bool x) : k(BOOL), b(x) {}
  Value(int x) : k(INT), i(x) {}
  Value(unsigned x) : k(INT), i(x) {}
  Value(long x) : k(INT), i(x) {}
  Value(unsigned long x) : k(INT), i((long long)x) {}
  Value(long long x) : k(INT), i(x) {}
  Value(double x) : k(DBL), d(x) {}
  Value(const char* x) : k(STR), s(x) {}
  Value(const std::string& x) : k(STR), s(x) {}
  Value(const Array& x) : k(ARR), a(x) {}
  Value(const Object& x) : k(OBJ), o(x) {}
  const Value& operator[](const char* n) const {auto it=o.find(n); if (it==o.end()) throw std::runtime_error(std::string("no key ")+n); return it->second;}
  bool has(const char* n) const {return o.count(n);}
  const Value& operator[](size_t n) const {return a.at(n);}
  const Value& operator[](int n) const {return a.at(n);}
  size_t size() const {return a.size();}
  long long I() const {return k==INT ? i : (long long)d;}
  double D() const {return k==INT ? double(i) : d;}
  bool B() const {return k==BOOL ? b : i!=0;}
  const std::string& S() const {return s;}
};

inline void put(std::ostream& os, const Value& v)
{
  switch (v.k) {
  case Value::NUL: os<<"null"; break;
  case Value::BOOL: os<<(v.b?"true":"false"); break;
  case Value::INT: os<<v.i; break;
  case Value::DBL: {char buf[40]; if (std::isfinite(v.d)) snprintf(buf,40,"%.17g",v.d); else snprintf(buf,40,"\"%g\"",v.d); 
      if (std::isfinite(v.d) && !strpbrk(buf,".en")) strcat(buf,".0"); os<<buf; break;}
  case Value::STR: os<<'"'; for (unsigned char c : v.s) { if (c=='"'||c=='\\') os<<'\\'<<c; else if (c=='\n') os<<"\\n"; else if (c=='\t') os<<"\\t"; else if (c<32||c>126) {char b[8]; snprintf(b,8,"\\u%04x",c); os<<b;} else os<<c; } os<<'"'; break;
  case Value::ARR: {os<<'['; bool f=true; for (auto& x : v.a) {if (!f) os<<','; f=false; put(os,x);} os<<']'; break;}
  case Value::OBJ: {os<<'{'; bool f=true; for (auto& x : v.o) {if (!f) os<<','; f=false; put(os,Value(x.first)); os<<':'; put(os,x.second);} os<<'}'; break;}
  }
}

struct Parser {
  const char* p;
  explicit Parser(const std::string& s) : p(s.c_str()) {}
  void ws() {while (*p==' '||*p=='\n'||*p=='\r'||*p=='\t') ++p;}
  Value parse() {
    ws();
    if (*p=='{') { Value v; v.k=Value::OBJ; ++p; ws(); if (*p=='}') {++p; return v;}
      for (;;) {ws(); std::string key=str(); ws(); ++p; v.o[key]=parse(); ws(); if (*p==',') {++p; continue;} if (*p=='}') {++p; return v;} throw std::runtime_error("json obj");} }
    if (*p=='[') { Value v; v.k=Value::ARR; ++p; ws(); if (*p==']') {++p; return v;}
      for (;;) {v.a.push_back(parse()); ws(); if (*p==',') {++p; continue;} if (*p==']') {++p; return v;} throw std::runtime_error("json arr");} }
    if (*p=='"') return Value(str());
    if (!strncmp(p,"true",4)) {p+=4; return Value(true);}
    if (!strncmp(p,"false",5)) {p+=5; return Value(false);}
    if (!strncmp(p,"null",4)) {p+=4; return Value();}
    char* e; const char* q=p; bool dbl=false; while (*q && strchr("+-0123456789.eE",*q)) {if (strchr(".eE",*q)) dbl=true; ++q;}
    if (q==p) throw std::runtime_error(std::string("json: ")+std::string(p).substr(0,20));
    if (dbl) {double d=strtod(p,&e); p=e; return Value(d);}
    long long i=strtoll(p,&e,10); p=e; return Value(i);
  }
  std::string str() {
    std::string r; ++p;
    while (*p && *p!='"') {
      if (*p=='\\') {++p; switch (*p) {case 'n': r+='\n'; break; case 't': r+='\t'; break; case 'u': {unsigned c=strtoul(std::string(p+1,4).c_str(),nullptr,16); r+=char(c); p+=4; break;} default: r+=*p;} ++p;}
      else r+=*p++;
    }
    ++p; return r;
  }
};

/// Exactly representable multiples of `unit` are reported as integers, anything else as the double itself
inline Value num(double v, double unit=1., double tol=1e-6)
{
  double x=v/unit, r=std::round(x);
  if (std::isfinite(x) && std::abs(x-r)<tol && std::abs(r)<9e15) return Value((long long)(r));
  return Value(v);
}
inline Value cnum(std::complex<double> z, double unit=1., double tol=1e-6) {return Array{num(z.real(),unit,tol),num(z.imag(),unit,tol)};}

/// Reads one JSON value per line from argv[1], writes one JSON answer per line to argv[2]
inline int loop(int argc, char** argv, std::function<Value(const Value&)> f, unsigned seconds=20)
{
  std::ifstream in(argv[1]); std::ofstream out(argv[2]);
  std::string line;
  while (std::getline(in,line)) {
    if (line.empty()) continue;
    alarm(seconds); // a scenario which does not terminate is killed
    Value v=Parser(line).parse(), r;
    try {r=f(v);}
    catch (const std::exception& e) {r=Object{{"exception",Value(std::string(e.what()))}};}
    put(out,r); out<<std::endl;
  }
  alarm(0);
  return 0;
}

} // mj
#endif
