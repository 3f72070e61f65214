// Replaces std::mt19937_64 in everything that is compiled with this header:
// every random draw becomes a choice of the explorer.
#pragma once
#include <cstddef>
#include <cstdint>
#include <random>

namespace mcrng {
inline std::uint64_t (*next)() = nullptr; // supplied by the harness
inline std::uint64_t counter = 0;
} // namespace mcrng
namespace std {
class mc_rng {
public:
  using result_type = uint64_t;
  static constexpr size_t state_size = 312;
  static constexpr size_t word_size = 64;
  static constexpr result_type default_seed = 5489U;
  mc_rng() = default;
  explicit mc_rng(result_type) {}
  explicit mc_rng(seed_seq&) {}
  void seed(result_type = default_seed) {}
  void seed(seed_seq&) {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~static_cast<result_type>(0); }
  result_type operator()() {
    ++mcrng::counter;
    return mcrng::next != nullptr ? mcrng::next()
                                  : 0x9e3779b97f4a7c15ULL * mcrng::counter;
  }
  void discard(unsigned long long n) {
    while (n-- > 0) {
      (*this)();
    }
  }
};
} // namespace std
#define mt19937_64 mc_rng
