// Stand-in for the few OpenFHE number-theory entry points HEIR's parameter
// selection uses (FirstPrime/LastPrime/NextPrime/PreviousPrime), written from
// OpenFHE's documentation.  OpenFHE itself is not available offline.
#pragma once
#include <cstdint>
#include <stdexcept>
#include <vector>
namespace lbcrypto {
struct NativeInteger {
  uint64_t v = 0;
  NativeInteger() = default;
  NativeInteger(uint64_t x) : v(x) {}
  NativeInteger(int64_t x) : v(x) {}
  NativeInteger(long long x) : v(x) {}
  NativeInteger(unsigned x) : v(x) {}
  NativeInteger(int x) : v(x) {}
  NativeInteger Mod(const NativeInteger &m) const { return v % m.v; }
  template <typename T = uint64_t> T ConvertToInt() const { return (T)v; }
  friend NativeInteger operator-(NativeInteger a, NativeInteger b) { return a.v - b.v; }
  friend NativeInteger operator+(NativeInteger a, NativeInteger b) { return a.v + b.v; }
  friend bool operator==(NativeInteger a, NativeInteger b) { return a.v == b.v; }
  friend bool operator!=(NativeInteger a, NativeInteger b) { return a.v != b.v; }
  friend bool operator<(NativeInteger a, NativeInteger b) { return a.v < b.v; }
  friend bool operator>(NativeInteger a, NativeInteger b) { return a.v > b.v; }
  friend bool operator<=(NativeInteger a, NativeInteger b) { return a.v <= b.v; }
  friend bool operator>=(NativeInteger a, NativeInteger b) { return a.v >= b.v; }
};
inline bool compatIsPrime(uint64_t n) {
  if (n < 2) return false;
  for (uint64_t p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
    if (n % p == 0) return n == p;
  }
  uint64_t d = n - 1; int s = 0;
  while (!(d & 1)) { d >>= 1; ++s; }
  auto mul = [&](uint64_t a, uint64_t b) { return (uint64_t)((unsigned __int128)a * b % n); };
  for (uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
    uint64_t x = 1, b = a, e = d;
    for (; e; e >>= 1, b = mul(b, b)) if (e & 1) x = mul(x, b);
    if (x == 1 || x == n - 1) continue;
    bool comp = true;
    for (int i = 1; i < s && comp; ++i) { x = mul(x, x); if (x == n - 1) comp = false; }
    if (comp) return false;
  }
  return true;
}
template <typename I = NativeInteger> I NextPrime(const I &q, uint64_t m) {
  uint64_t x = q.v + m;
  while (!compatIsPrime(x)) x += m;
  return I(x);
}
template <typename I = NativeInteger> I PreviousPrime(const I &q, uint64_t m) {
  uint64_t x = q.v - m;
  while (x > m && !compatIsPrime(x)) x -= m;
  return I(x);
}
template <typename I = NativeInteger> I FirstPrime(uint32_t bits, uint64_t m) {
  uint64_t q = 1ULL << bits, r = q % m;
  uint64_t x = q + 1 + (r ? m - r : 0);
  while (!compatIsPrime(x)) x += m;
  return I(x);
}
template <typename I = NativeInteger> I LastPrime(uint32_t bits, uint64_t m) {
  uint64_t q = 1ULL << bits, r = q % m;
  uint64_t x = q + 1 - (r ? r : m);
  while (x > m && !compatIsPrime(x)) x -= m;
  if (!compatIsPrime(x) || (x >> (bits - 1)) == 0) throw std::runtime_error("LastPrime: no prime");
  return I(x);
}
enum SecretKeyDist { GAUSSIAN, UNIFORM_TERNARY, SPARSE_TERNARY };
struct FHECKKSRNS {
  static uint32_t GetBootstrapDepth(const std::vector<uint32_t> &b, SecretKeyDist) { return 14 + b[0] + b[1]; }
};
}  // namespace lbcrypto
using lbcrypto::NativeInteger;
