// Stand-in for the header of the PCG library (not available offline): pcg64, that is, PCG XSL-RR 128/64 with selectable stream.
#ifndef VERIF_PCG_RANDOM_HPP
#define VERIF_PCG_RANDOM_HPP
#include <cstdint>
#include <iostream>
#include <string>
#include <algorithm>
class pcg64
{
  using u128=unsigned __int128;
  static constexpr u128 mult() {return (u128(2549297995355413924ULL)<<64) | 4865540595714422341ULL;}
  u128 inc_=1, state_=0;
  u128 bump(u128 s) const {return s*mult()+inc_;}
  static void put(std::ostream& os, u128 v) {std::string r; do {r+=char('0'+int(v%10)); v/=10;} while (v); std::reverse(r.begin(),r.end()); os<<r;}
  static bool get(std::istream& is, u128& v) {std::string r; if (!(is>>r)) return false; v=0; for (char c : r) {if (c<'0' || c>'9') {is.setstate(std::ios::failbit); return false;} v=v*10+(c-'0');} return true;}
public:
  using result_type=std::uint64_t; using state_type=u128;
  static constexpr result_type min() {return 0;}
  static constexpr result_type max() {return ~result_type(0);}
  explicit pcg64(result_type seed=0xcafef00dd15ea5e5ULL) : pcg64(seed,0) {}
  pcg64(result_type seed, result_type stream) : inc_((u128(stream)<<1)|1), state_(0) {state_=bump(u128(seed)+inc_);}
  result_type operator()() {state_=bump(state_); auto rot=unsigned(state_>>122); result_type x=result_type(state_>>64)^result_type(state_); return (x>>rot)|(x<<((-rot)&63));}
  friend bool operator==(const pcg64& a, const pcg64& b) {return a.inc_==b.inc_ && a.state_==b.state_;}
  friend bool operator!=(const pcg64& a, const pcg64& b) {return !(a==b);}
  friend std::ostream& operator<<(std::ostream& os, const pcg64& e) {put(os,mult()); os<<' '; put(os,e.inc_); os<<' '; put(os,e.state_); return os;}
  friend std::istream& operator>>(std::istream& is, pcg64& e) {u128 m,i,s; if (get(is,m) && get(is,i) && get(is,s)) {if (m!=mult()) is.setstate(std::ios::failbit); else {e.inc_=i; e.state_=s;}} return is;}
};
#endif
