// Deterministic PRNG. One 64-bit integer decides everything.
#pragma once
#include <cstdint>
#include <cmath>
#include <vector>
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567890ABCDEFull) { next(); next(); }
  uint64_t next() {                       // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u(); }
  double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
  int irange(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }  // inclusive
  bool p(double q) { return u() < q; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
  Rng fork(uint64_t tag) { return Rng(next() ^ (tag * 0xD6E8FEB86659FD93ull)); }
};
