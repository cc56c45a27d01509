// A pcg64 whose draws are decided by the harness as a function of seed, stream and number of the draw
#ifndef VERIF_PCG_RANDOM_HPP
#define VERIF_PCG_RANDOM_HPP
#include <cstdint>
#include <iostream>
double scriptedDraw(unsigned long seed, unsigned long stream, unsigned long n);
class pcg64
{
  unsigned long seed_, stream_, n_=0;
public:
  using result_type=std::uint64_t;
  static constexpr result_type min() {return 0;}
  static constexpr result_type max() {return ~result_type(0);}
  explicit pcg64(unsigned long seed=0, unsigned long stream=0) : seed_(seed), stream_(stream) {}
  result_type operator()() {return result_type(18446744073709551616.0L*(long double)scriptedDraw(seed_,stream_,n_++));}
  friend std::ostream& operator<<(std::ostream& os, const pcg64& e) {return os<<e.seed_<<' '<<e.stream_<<' '<<e.n_;}
  friend std::istream& operator>>(std::istream& is, pcg64& e) {return is>>e.seed_>>e.stream_>>e.n_;}
};
#endif
