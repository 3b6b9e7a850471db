// Stand-in for the part of OpenFHE's number theory that lib/Parameters uses:
// primes q = 1 mod m, with the documented selection rules (FirstPrime: the
// first one from 2^nBits up; LastPrime: the last one below 2^nBits; Next/
// PreviousPrime: the neighbour of q; all throw when there is none that fits).
#pragma once
#include <cstdint>
#include <ostream>
#include <stdexcept>

namespace lbcrypto {
class NativeInteger {
  uint64_t v;

 public:
  NativeInteger(uint64_t x = 0) : v(x) {}
  NativeInteger(int64_t x) : v((uint64_t)x) {}
  NativeInteger(int x) : v((uint64_t)(int64_t)x) {}
  NativeInteger(unsigned x) : v(x) {}
  NativeInteger(long long x) : v((uint64_t)x) {}
  template <typename T = uint64_t>
  T ConvertToInt() const {
    return (T)v;
  }
  NativeInteger Mod(const NativeInteger &m) const { return v % m.v; }
  uint64_t raw() const { return v; }
  friend NativeInteger operator+(const NativeInteger &a, const NativeInteger &b) { return a.v + b.v; }
  friend NativeInteger operator-(const NativeInteger &a, const NativeInteger &b) { return a.v - b.v; }
  friend bool operator==(const NativeInteger &a, const NativeInteger &b) { return a.v == b.v; }
  friend bool operator!=(const NativeInteger &a, const NativeInteger &b) { return a.v != b.v; }
  friend bool operator<(const NativeInteger &a, const NativeInteger &b) { return a.v < b.v; }
  friend bool operator>(const NativeInteger &a, const NativeInteger &b) { return a.v > b.v; }
};

namespace detail {
inline uint64_t mulm(uint64_t a, uint64_t b, uint64_t m) { return (uint64_t)((unsigned __int128)a * b % m); }
inline bool prime(uint64_t n) {
  if (n < 2) return false;
  for (uint64_t p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37})
    if (n % p == 0) return n == p;
  uint64_t d = n - 1;
  int s = 0;
  while (!(d & 1)) d >>= 1, ++s;
  for (uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
    uint64_t x = 1, b = a, e = d;
    for (; e; e >>= 1, b = mulm(b, b, n))
      if (e & 1) x = mulm(x, b, n);
    if (x == 1 || x == n - 1) continue;
    bool ok = false;
    for (int r = 1; r < s && !ok; ++r) ok = (x = mulm(x, x, n)) == n - 1;
    if (!ok) return false;
  }
  return true;
}
constexpr uint64_t kMaxNative = 1ull << 61;
}  // namespace detail

template <typename T>
T FirstPrime(uint64_t nBits, uint64_t m) {
  if (nBits > 60) throw std::runtime_error("FirstPrime: too many bits");
  uint64_t r = 1ull << nBits, q = r - r % m + 1;
  if (q < r) q += m;
  for (; q < detail::kMaxNative; q += m)
    if (detail::prime(q)) return T(q);
  throw std::runtime_error("FirstPrime: overflow");
}
template <typename T>
T LastPrime(uint64_t nBits, uint64_t m) {
  if (nBits > 60) throw std::runtime_error("LastPrime: too many bits");
  uint64_t r = 1ull << nBits, q = r - r % m + 1;
  while (q >= r && q > m) q -= m;
  for (; q > m; q -= m)
    if (detail::prime(q)) return T(q);
  throw std::runtime_error("LastPrime: underflow");
}
template <typename T>
T NextPrime(const T &q, uint64_t m) {
  for (uint64_t x = q.raw() + m; x < detail::kMaxNative; x += m)
    if (detail::prime(x)) return T(x);
  throw std::runtime_error("NextPrime: overflow");
}
template <typename T>
T PreviousPrime(const T &q, uint64_t m) {
  for (uint64_t x = q.raw(); x > m;)
    if (detail::prime(x -= m)) return T(x);
  throw std::runtime_error("PreviousPrime: underflow");
}
}  // namespace lbcrypto
using NativeInteger = lbcrypto::NativeInteger;
