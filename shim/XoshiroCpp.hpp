// Stand-in for the XoshiroCpp header (not available offline)
#ifndef VERIF_XOSHIRO_HPP
#define VERIF_XOSHIRO_HPP
#include <array>
#include <cstdint>
namespace XoshiroCpp {
class Xoshiro256PlusPlus
{
public:
  using state_type=std::array<std::uint64_t,4>; using result_type=std::uint64_t;
  explicit Xoshiro256PlusPlus(std::uint64_t seed=1234567890) {for (auto& s : s_) {seed+=0x9e3779b97f4a7c15ULL; std::uint64_t z=seed; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; s=z^(z>>31);}}
  explicit constexpr Xoshiro256PlusPlus(state_type s) : s_(s) {}
  static constexpr result_type min() {return 0;}
  static constexpr result_type max() {return ~result_type(0);}
  result_type operator()() {const auto r=rotl(s_[0]+s_[3],23)+s_[0], t=s_[1]<<17; s_[2]^=s_[0]; s_[3]^=s_[1]; s_[1]^=s_[2]; s_[0]^=s_[3]; s_[2]^=t; s_[3]=rotl(s_[3],45); return r;}
  state_type serialize() const {return s_;}
  void deserialize(state_type s) {s_=s;}
  friend bool operator==(const Xoshiro256PlusPlus& a, const Xoshiro256PlusPlus& b) {return a.s_==b.s_;}
private:
  static std::uint64_t rotl(std::uint64_t x, int s) {return (x<<s)|(x>>(64-s));}
  state_type s_;
};
}
#endif
