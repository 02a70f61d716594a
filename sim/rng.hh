// Seeded pseudo-random generator: the only source of randomness in the simulator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>

namespace sim {

struct Rng
{
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  std::uint64_t next()
  {
    std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  std::uint64_t range(std::uint64_t lo, std::uint64_t hi) { return lo + below(hi - lo + 1); }
  template <class T, std::size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
  template <class T> void shuffle(std::vector<T>& v)
  {
    for (std::size_t i = v.size(); i > 1; --i) { std::size_t j = below(i); T t = v[i-1]; v[i-1] = v[j]; v[j] = t; }
  }
};

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}

} // namespace sim
