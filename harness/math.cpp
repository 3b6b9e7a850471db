// C04 polynomials, C05 NTT and RNS polynomials, C06 number theory, C07 log-domain arithmetic.
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>

#include "lib/Utils/APIntUtils.h"
#include "lib/Utils/LogArithmetic.h"
#include "lib/Utils/MathUtils.h"
#include "lib/Utils/Polynomial/NTT.h"
#include "lib/Utils/Polynomial/Polynomial.h"
#include "lib/Utils/Polynomial/RNSPolynomial.h"
#include "pbt.h"

using namespace mlir;
using namespace mlir::heir;
using namespace mlir::heir::polynomial;
using pbt::Case;
using u64 = uint64_t;
using u128 = unsigned __int128;
using big = boost::multiprecision::cpp_int;

static u64 mulmod(u64 a, u64 b, u64 m) { return (u64)((u128)a * b % m); }
static u64 addmod(u64 a, u64 b, u64 m) { return (u64)(((u128)a + b) % m); }
static u64 powmod(u64 a, u64 e, u64 m) {
  u64 r = 1 % m;
  a %= m;
  for (; e; e >>= 1, a = mulmod(a, a, m))
    if (e & 1) r = mulmod(r, a, m);
  return r;
}
// Deterministic for all 64-bit n (bases of Jim Sinclair), independent of the
// bases the code under test uses.
static bool prime64(u64 n) {
  if (n < 2) return false;
  for (u64 p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37})
    if (n % p == 0) return n == p;
  u64 d = n - 1;
  int s = 0;
  while (!(d & 1)) d >>= 1, ++s;
  for (u64 a : {2ull, 325ull, 9375ull, 28178ull, 450775ull, 9780504ull, 1795265022ull}) {
    u64 x = powmod(a % n, d, n);
    if (a % n == 0 || x == 1 || x == n - 1) continue;
    bool comp = true;
    for (int r = 1; r < s && comp; ++r) {
      x = mulmod(x, x, n);
      if (x == n - 1) comp = false;
    }
    if (comp) return false;
  }
  return true;
}
static u64 nextPrime(u64 n) {
  while (!prime64(n)) ++n;
  return n;
}
static big toBig(const APInt &a) {
  big r = 0;
  for (unsigned i = a.getNumWords(); i-- > 0;) r = (r << 64) | big(a.getRawData()[i]);
  return r;
}
static APInt toAP(const big &b, unsigned w) {
  std::vector<u64> words;
  big x = b;
  for (unsigned i = 0; i < (w + 63) / 64; ++i) {
    words.push_back((u64)(x & big(~0ull)));
    x >>= 64;
  }
  return APInt(w, words);
}
static big genBig(Case &c, unsigned bits) {
  big r = 0;
  for (unsigned i = 0; i < bits; i += 32) r = (r << 32) | big(c.draw(1ull << 32));
  return r & ((big(1) << bits) - 1);
}
static std::string bs(const big &b) { return b.str(); }

// ---------------------------------------------------------------------------
// C06

PROP(C06, modular_arithmetic, "modulus of more than 2 bits and operands above 1", 120000, 2500000) {
  unsigned w = c.chance(50) ? (unsigned)c.range(2, 64) : (unsigned)c.range(2, 256);
  unsigned mb = (unsigned)c.range(2, w);
  big m = genBig(c, mb);
  if (c.chance(15)) m = (big(1) << mb) - 1 - c.draw(5);
  if (m < 2) m = 2;
  big a = genBig(c, w) , b = genBig(c, w);
  if (c.chance(70)) a %= m, b %= m;
  unsigned we = c.chance(60) ? (unsigned)c.range(1, 24) : w;
  big e = genBig(c, we);
  if (we > w) e &= (big(1) << w) - 1;
  c.desc << "width " << w << " modulus " << m << " a " << a << " b " << b << " e " << e;
  if (mb > 2 && a > 1 && b > 1) c.nontrivial();
  APInt M = toAP(m, w), A = toAP(a, w), B = toAP(b, w), E = toAP(e, w);
  c.eq(bs(toBig(modularMultiplication(A, B, M))), bs(a * b % m), "product");
  c.eq(bs(toBig(modularExponentiation(A, E, M))), bs(big(boost::multiprecision::powm(a % m, e, m))), "power");
  big ai = a % m;
  APInt inv = multiplicativeInverse(toAP(ai, w), M);
  big g = boost::multiprecision::gcd(ai, m);
  if (g != 1) {
    c.label("not invertible");
    c.check(inv.isZero(), "inverse of a non-unit is ", bs(toBig(inv)), " instead of 0");
  } else {
    big x = toBig(inv);
    c.check(x < m && x * ai % m == 1, "inverse of ", bs(ai), " mod ", bs(m), ": got ", bs(x));
  }
  c.eq(inv.getBitWidth(), w, "width of the inverse");
}

static const std::vector<u64> kHard = {
    2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051ull,
    561, 1105, 1729, 2465, 2821, 6601, 8911, 4294967297ull, 18446744073709551557ull, 18446744065119617029ull,
    18446744073709551615ull, 9223372036854775783ull, 3, 4, 5, 9, 25, 49, 5041, 5329, 1194649, 12327121, 0, 1, 2};
PROP(C06, is_prime, "prime, or composite without a factor below 100", 120000, 2500000) {
  size_t k = c.weighted({30, 20, 20, 10, 10, 10});
  if (k == 5) {
    // wider than 64 bits: Mersenne primes, products, known strong pseudoprimes
    unsigned w = (unsigned)c.range(130, 700);
    big n;
    bool want;
    size_t j = c.draw(4);
    if (j == 0) {
      unsigned p = c.pickOf<unsigned>({89, 107, 127, 521, 607});
      n = (big(1) << p) - 1;
      w = std::max(w, p + (unsigned)c.range(0, 60));
      want = true;
    } else if (j == 1) {
      n = big(nextPrime(c.bits(63) | 1)) * big(nextPrime(c.bits(63) | 1));
      want = false;
    } else if (j == 2) {
      big q = (big(1) << c.pickOf<unsigned>({89, 107, 127})) - 1;
      n = q * q;
      w = std::max(w, 260u);
      want = false;
    } else {
      n = c.chance(50) ? big("318665857834031151167461") : big("3317044064679887385961981");
      want = false;
    }
    c.desc << "n=" << n << " width " << w;
    c.nontrivial();
    c.eq(isPrime(toAP(n, w)), want, "isPrime");
    return;
  }
  u64 n = k == 0   ? c.draw(100000)
          : k == 1 ? (c.bits(64) | 1)
          : k == 2 ? nextPrime(c.bits(63))
          : k == 3 ? c.pick(kHard)
                   : nextPrime(2 + c.bits(31)) * nextPrime(2 + c.bits(31));
  unsigned act = 64 - __builtin_clzll(n | 1);
  unsigned w = (unsigned)c.range(std::max(act, 2u), 128);
  c.desc << "n=" << n << " width " << w;
  bool want = prime64(n);
  bool smooth = false;
  for (u64 p = 2; p < 100; ++p) smooth |= n > p && n % p == 0;
  if (want || (n > 1 && !smooth)) c.nontrivial();
  c.label(want ? "prime" : "composite");
  c.eq(isPrime(APInt(w, n)), want, "isPrime");
}

PROP(C06, factorize, "at least two distinct prime factors or a repeated one", 30000, 600000) {
  // Product of random primes with a cofactor small enough for trial division.
  bool wide = c.chance(15);
  big n = 1;
  std::set<u64> ps;
  std::vector<u64> all;
  int k = (int)c.sized(0, 12);
  for (int i = 0; i < k; ++i) {
    u64 p = nextPrime(2 + c.bits((unsigned)c.range(1, 12)));
    if (!wide && n * p >= big(1) << 42) break;
    if (wide && n * p >= big(1) << 100) break;
    n *= p;
    ps.insert(p);
    all.push_back(p);
  }
  if (!wide && c.chance(60)) {
    u64 p = nextPrime(2 + c.bits((unsigned)c.range(12, 26)));
    n *= p;
    ps.insert(p);
    all.push_back(p);
  }
  unsigned act = 1 + (unsigned)boost::multiprecision::msb(n + 1);
  unsigned w = (unsigned)c.range(std::max(act, 5u), wide ? 200 : 80);
  if (w < act) w = act;
  c.desc << "n=" << n << " width " << w << " primes " << pbt::str(all);
  if (all.size() > 1) c.nontrivial();
  std::vector<std::string> got, want;
  for (auto &f : factorize(toAP(n, w))) {
    got.push_back(bs(toBig(f)));
    c.eq(f.getBitWidth(), w, "width of a factor");
  }
  for (u64 p : ps) want.push_back(std::to_string(p));
  c.eq(pbt::str(got), pbt::str(want), "distinct prime factors in increasing order");
}

// A prime q == 1 (mod m) with smooth (q-1)/m.
static u64 smoothPrime(Case &c, u64 m, unsigned bits, std::vector<u64> *factors = nullptr) {
  for (int tries = 0; tries < 4000; ++tries) {
    u64 q = m;
    while (true) {
      u64 p = nextPrime(2 + c.draw(tries > 50 ? 2000 : 60));
      if ((u128)q * p >> bits) break;
      q *= p;
    }
    if (q != ~0ull && prime64(q + 1)) return q + 1;
  }
  c.discard();
}
static std::set<u64> primeFactors(u64 n) {
  std::set<u64> r;
  for (u64 d = 2; d <= n / d; ++d)
    while (n % d == 0) r.insert(d), n /= d;
  if (n > 1) r.insert(n);
  return r;
}

PROP(C06, primitive_roots, "prime modulus above 3", 30000, 400000) {
  bool small = c.chance(40);
  u64 q = small ? nextPrime(2 + c.draw(3000)) : smoothPrime(c, 2, (unsigned)c.range(6, 64));
  unsigned act = 64 - __builtin_clzll(q);
  unsigned w = (unsigned)c.range(act + 1, 100);
  c.desc << "q=" << q << " width " << w;
  if (q > 3) c.nontrivial(std::to_string(q));
  auto g = findPrimitiveRoot(APInt(w, q));
  c.check(g.has_value(), "no primitive root found for a prime");
  u64 gv = g->getZExtValue();
  c.check(gv > 0 && gv < q, "root ", gv, " out of range");
  for (u64 p : primeFactors(q - 1)) c.check(powmod(gv, (q - 1) / p, q) != 1 || q == 2, gv, " has order dividing (q-1)/", p);
  // roots of unity
  u64 n = 1ull << c.range(0, 14);
  if (c.chance(20)) n = c.range(1, 100);
  if (act + 1 < 64 && 2 * n >> (w < 63 ? w : 63)) return;
  auto r = findPrimitive2nthRoot(APInt(w, q), n);
  if ((q - 1) % (2 * n)) {
    c.label("2n does not divide q-1");
    c.check(!r.has_value(), "returned a root of order ", 2 * n, " that cannot exist");
  } else {
    c.check(r.has_value(), "no root of unity of order ", 2 * n);
    u64 rv = r->getZExtValue();
    c.check(rv < q, "root out of range");
    c.eq(powmod(rv, 2 * n, q), 1 % q, "root^(2n)");
    for (u64 p : primeFactors(2 * n)) c.check(powmod(rv, 2 * n / p, q) != 1, "root ", rv, " has order dividing ", 2 * n / p);
  }
}

PROP(C06, small_helpers, "any value", 60000, 600000) {
  u64 v = c.bits(63);
  if (c.chance(30)) v = (1ull << c.range(0, 62)) + c.range(0, 2) - 1;
  c.desc << "v=" << v;
  if (v > 2) c.nontrivial();
  bool p2 = v && !(v & (v - 1));
  c.eq(isPowerOfTwo((int64_t)v), p2, "isPowerOfTwo");
  c.eq(isPowerOfTwo(-(int64_t)v), false, "isPowerOfTwo of a non-positive number");
  if (v) {
    u64 n = 1;
    while (n < v) n <<= 1;
    c.eq(nextPowerOfTwo(v), n, "nextPowerOfTwo");
  }
  double a = c.chance(50) ? c.real(-1, 1) : std::copysign(1 - std::exp2(-(double)c.range(1, 24)), c.chance(50) ? -1 : 1);
  if (std::fabs(a) < 1) {
    double r = erfinv(a);
    c.desc << " erfinv(" << a << ")=" << r;
    // |d erf| = 2/sqrt(pi) exp(-r^2) |dr|; a few ulp of r
    double tol = 4e-6 * std::fabs(r) * 2 / std::sqrt(M_PI) * std::exp(-r * r) + 1e-15;
    c.check(std::fabs(std::erf(r) - a) <= tol, "erf(erfinv(a)) = ", std::erf(r));
    c.check(std::signbit(r) == std::signbit(a) || r == 0, "sign");
  }
  double d = c.real(-1e6, 1e6);
  APFloat f = convertFloatToSemantics(APFloat(d), APFloat::IEEEsingle());
  c.check(f.bitwiseIsEqual(APFloat((float)d)), "conversion of ", d, " to single precision");
  APFloat g = convertFloatToSemantics(APFloat((float)d), APFloat::IEEEdouble());
  c.check(g.bitwiseIsEqual(APFloat((double)(float)d)), "conversion of a float to double precision");
  c.check(convertFloatToSemantics(APFloat(d), APFloat::IEEEdouble()).bitwiseIsEqual(APFloat(d)), "identity conversion");
}

// Known finding: the rational fit behind erfinv is only valid for
// single-precision arguments, but the noise models call it with
// (1 - 2^-32)^(1/ringDim), which is closer to 1.
PROP(C06, kf_erfinv_near_one, "one fixed input", 1, 1) {
  double a = 1 - std::exp2(-45.0), want = 5.377767781541279;
  c.desc << "erfinv(1 - 2^-45)";
  double r = erfinv(a);
  c.check(std::fabs(r - want) < 1e-4, "erfinv(1 - 2^-45) = ", r, ", expected ", want);
}

// ---------------------------------------------------------------------------
// C05

static uint32_t brv(uint32_t i, unsigned bits) {
  uint32_t r = 0;
  for (unsigned k = 0; k < bits; ++k)
    if (i >> k & 1) r |= 1u << (bits - 1 - k);
  return r;
}
static u64 rootOfOrder(Case &c, u64 q, u64 order) {
  // order is a power of two dividing q-1
  for (int t = 0; t < 200; ++t) {
    u64 x = powmod(1 + c.draw(q - 1), (q - 1) / order, q);
    if (order == 1 || powmod(x, order / 2, q) == q - 1) return x;
  }
  c.discard();
}
static std::vector<u64> negacyclic(const std::vector<u64> &a, const std::vector<u64> &b, u64 q) {
  size_t n = a.size();
  std::vector<u64> r(n, 0);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j) {
      u64 p = mulmod(a[i], b[j], q);
      size_t k = (i + j) % n;
      r[k] = i + j < n ? addmod(r[k], p, q) : addmod(r[k], (q - p) % q, q);
    }
  return r;
}
static std::vector<u64> genPoly(Case &c, size_t n, u64 q) {
  std::vector<u64> v(n);
  for (auto &x : v) x = c.chance(15) ? q - 1 : c.chance(10) ? 0 : c.draw(q);
  return v;
}

PROP(C05, ntt, "at least 4 coefficients and a modulus of at least 20 bits", 6000, 120000) {
  unsigned lg = (unsigned)c.range(0, 8);
  u64 n = 1ull << lg;
  u64 q = smoothPrime(c, 2 * n, (unsigned)c.range(lg + 3, 64));
  u64 psi = rootOfOrder(c, q, 2 * n);
  auto a = genPoly(c, n, q), b = genPoly(c, n, q);
  c.desc << "n=" << n << " q=" << q << " psi=" << psi << " a=" << (n <= 16 ? pbt::str(a) : "...");
  if (n >= 4 && q >> 20) c.nontrivial();
  if (q >> 63) c.label("64-bit modulus");
  auto A = a, B = b;
  nttInPlace(A, q, psi);
  if (n > 1) {
    for (u64 i = 0; i < n; ++i) {
      u64 x = powmod(psi, 2 * brv(i, lg) + 1, q), y = 0;
      for (u64 k = n; k-- > 0;) y = addmod(mulmod(y, x, q), a[k], q);
      c.eq(A[i], y, "slot ", i, " must be the value at psi^(2 bitrev(i)+1)");
    }
  }
  auto R = A;
  inttInPlace(R, q, psi);
  c.check(R == a, "inverse transform of the transform: ", pbt::str(R), " instead of ", pbt::str(a));
  nttInPlace(B, q, psi);
  if (n > 1) {
    for (u64 i = 0; i < n; ++i) A[i] = mulmod(A[i], B[i], q);
    inttInPlace(A, q, psi);
    c.check(A == negacyclic(a, b, q), "pointwise product is not the negacyclic product");
  }
}
PROP(C05, reverse_bits, "at least 2 bits", 40000, 400000) {
  unsigned w = (unsigned)c.range(0, 32);
  uint32_t v = (uint32_t)c.bits(32);
  c.desc << v << " width " << w;
  if (w > 1) c.nontrivial();
  uint32_t want = 0;
  for (unsigned i = 0; i < w; ++i)
    if (v >> i & 1) want |= 1u << (w - 1 - i);
  c.eq(reverseBits(v, w), want, "reverseBits");
}

PROP(C05, rns_polynomial, "at least 2 limbs and 4 coefficients", 4000, 60000) {
  unsigned lg = (unsigned)c.range(0, 6);
  u64 n = 1ull << lg;
  size_t L = c.range(1, 4);
  SmallVector<u64> mods;
  std::set<u64> used;
  for (size_t i = 0; i < L; ++i) {
    u64 q = smoothPrime(c, 2 * n, (unsigned)c.range(lg + 4, 64));
    if (!used.insert(q).second) c.discard();
    mods.push_back(q);
  }
  auto gen = [&] {
    SmallVector<u64> d;
    for (u64 q : mods)
      for (u64 x : genPoly(c, n, q)) d.push_back(x);
    return d;
  };
  auto a = gen(), b = gen();
  c.desc << "n=" << n << " moduli " << pbt::str(std::vector<u64>(mods.begin(), mods.end()));
  if (L > 1 && n >= 4) c.nontrivial();
  RNSPolynomial A(a, mods), B(b, mods);
  SmallVector<u64> scal;
  for (u64 q : mods) scal.push_back(c.bits(64));
  auto S = A.add(B), D = A.sub(B);
  auto M = A.mul(B);
  auto K = A.scalarMul(scal);
  c.check(M.has_value() && K.has_value(), "product missing");
  SmallVector<u64> roots;
  for (u64 q : mods) roots.push_back(rootOfOrder(c, q, 2 * n));
  bool own = c.chance(50);
  auto N = own ? A.toNtt(ArrayRef<u64>(roots)) : A.toNtt();
  c.check(N.has_value() && N->isNtt() && !A.isNtt(), "no evaluation form");
  auto back = own ? N->toCoefficient(ArrayRef<u64>(roots)) : N->toCoefficient();
  c.check(back.has_value() && *back == A, "coefficient form does not survive the round trip");
  auto NB = own ? B.toNtt(ArrayRef<u64>(roots)) : B.toNtt();
  auto NM = N->mul(*NB);
  auto MM = own ? NM->toCoefficient(ArrayRef<u64>(roots)) : NM->toCoefficient();
  for (size_t l = 0; l < L; ++l) {
    u64 q = mods[l];
    std::vector<u64> x(a.begin() + l * n, a.begin() + (l + 1) * n), y(b.begin() + l * n, b.begin() + (l + 1) * n);
    // Z_q[x]/(x^n+1); for n = 1 the transform is the identity
    auto p = n == 1 ? std::vector<u64>{mulmod(x[0], y[0], q)} : negacyclic(x, y, q);
    for (u64 i = 0; i < n; ++i) {
      c.eq(S.getElement(l, i), addmod(x[i], y[i], q), "sum, limb ", l, " coefficient ", i);
      c.eq(D.getElement(l, i), addmod(x[i], (q - y[i]) % q, q), "difference, limb ", l, " coefficient ", i);
      c.eq(K->getElement(l, i), mulmod(x[i], scal[l] % q, q), "scalar product, limb ", l, " coefficient ", i);
      c.eq(M->getElement(l, i), p[i], "product, limb ", l, " coefficient ", i);
      c.eq(MM->getElement(l, i), p[i], "product in evaluation form, limb ", l, " coefficient ", i);
    }
  }
  size_t st = c.draw(L), sz = 1 + c.draw(L - st);
  auto sl = A.slice(st, sz);
  c.eq(sl.getNumLimbs(), sz, "limbs of a slice");
  for (size_t l = 0; l < sz; ++l) {
    c.eq(sl.getModuli()[l], mods[st + l], "modulus of a slice");
    for (u64 i = 0; i < n; ++i) c.eq(sl.getElement(l, i), a[(st + l) * n + i], "element of a slice");
  }
}

// ---------------------------------------------------------------------------
// C04

using IMap = std::map<u64, u64>;
static IMap toMap(Case &c, const IntPolynomial &p, bool canonical = true) {
  IMap m;
  int64_t last = -1;
  for (auto &t : p.getTerms()) {
    u64 e = t.getExponent().getZExtValue(), v = t.getCoefficient().getZExtValue();
    c.check((int64_t)e > last, "terms not in increasing exponent order");
    last = e;
    if (canonical) c.check(v != 0, "zero term in a canonical polynomial at exponent ", e);
    if (v) m[e] = v;
  }
  return m;
}
static std::string show(const IMap &m) {
  std::ostringstream o;
  for (auto &[e, v] : m) o << (int64_t)v << "x^" << e << " ";
  return o.str();
}
static IMap genMap(Case &c, bool sparse) {
  IMap m;
  int k = (int)c.sized(0, 8);
  for (int i = 0; i < k; ++i) {
    u64 e = sparse ? c.draw(60) : i;
    u64 v = c.chance(20) ? c.bits(64) : (u64)c.sint(9);
    if (v) m[e] = v;
  }
  return m;
}
static IntPolynomial mk(Case &c, const IMap &m) {
  std::vector<IntMonomial> ms;
  for (auto &[e, v] : m) ms.push_back(IntMonomial((int64_t)v, e));
  c.shuffle(ms);
  auto p = IntPolynomial::fromMonomials(ms);
  if (failed(p)) c.fail("distinct exponents were rejected");
  return *p;
}
static IMap mulMap(const IMap &a, const IMap &b) {
  IMap r;
  for (auto &[e, v] : a)
    for (auto &[f, w] : b) r[e + f] += v * w;
  for (auto it = r.begin(); it != r.end();) it = it->second ? std::next(it) : r.erase(it);
  return r;
}
static IMap addMap(const IMap &a, const IMap &b, u64 k = 1) {
  IMap r = a;
  for (auto &[e, v] : b) r[e] += k * v;
  for (auto it = r.begin(); it != r.end();) it = it->second ? std::next(it) : r.erase(it);
  return r;
}

PROP(C04, int_ring, "both operands have at least 2 terms", 80000, 1500000) {
  bool sp = c.chance(50);
  IMap a = genMap(c, sp), b = genMap(c, sp);
  if (c.chance(20)) {  // partial cancellation
    b = a;
    for (auto &[e, v] : b) v = c.chance(70) ? -v : v + 1;
    std::erase_if(b, [](auto &p) { return !p.second; });
  }
  c.desc << "a=" << show(a) << " b=" << show(b);
  if (a.size() > 1 && b.size() > 1) c.nontrivial();
  auto A = mk(c, a), B = mk(c, b);
  c.eq(show(toMap(c, A)), show(a), "construction");
  c.eq(A.isZero(), a.empty(), "isZero");
  if (!a.empty()) c.eq(A.getDegree(), a.rbegin()->first, "degree");
  c.eq(show(toMap(c, A.add(B))), show(addMap(a, b)), "sum");
  c.eq(show(toMap(c, A.sub(B))), show(addMap(a, b, -1)), "difference");
  c.eq(show(toMap(c, A.naiveMul(B))), show(mulMap(a, b)), "product");
  u64 s = (u64)c.sint(20);
  auto Sc = A.scale(APInt(64, s, true, true));
  c.eq(show(toMap(c, Sc, false)), show(addMap({}, a, s)), "scaling");
  int k = (int)c.range(0, 12);
  IMap sh;
  for (auto &[e, v] : a) sh[e + k] = v;
  c.eq(show(toMap(c, A.monomialMul(k))), show(sh), "monomial product");
  // equality and hashing
  auto A2 = mk(c, a);
  c.check(A == A2 && hash_value(A) == hash_value(A2), "equal polynomials differ or hash differently");
  c.eq(A == B, a == b, "equality");
  // dense form
  auto d = A.getDenseCoefficientVector();
  c.eq(d.size(), a.empty() ? 0 : a.rbegin()->first + 1, "dense length");
  std::vector<int64_t> dv;
  for (size_t i = 0; i < d.size(); ++i) {
    auto it = a.find(i);
    c.eq(d[i].getZExtValue(), it == a.end() ? 0 : it->second, "dense coefficient ", i);
    dv.push_back(d[i].getSExtValue());
  }
  c.check(IntPolynomial::fromCoefficients(dv) == A, "dense round trip");
  // duplicate exponents are refused
  if (!a.empty()) {
    std::vector<IntMonomial> ms(A.getTerms().begin(), A.getTerms().end());
    ms.insert(ms.begin() + c.draw(ms.size() + 1), IntMonomial(3, c.pick(std::vector<IntMonomial>(ms)).getExponent().getZExtValue()));
    c.shuffle(ms);
    c.check(failed(IntPolynomial::fromMonomials(ms)), "a repeated exponent was accepted");
  }
}

PROP(C04, int_compose, "outer degree at least 2 and a non-constant inner polynomial", 30000, 500000) {
  IMap a, b;
  int da = (int)c.range(0, 6), db = (int)c.range(0, 4);
  for (int i = 0; i <= da; ++i)
    if (int64_t v = c.chance(30) ? 0 : c.sint(5)) a[i] = (u64)v;
  for (int i = 0; i <= db; ++i)
    if (int64_t v = c.chance(30) ? 0 : c.sint(4)) b[i] = (u64)v;
  if (a.empty()) a[da] = 1;
  c.desc << "a=" << show(a) << " b=" << show(b);
  if (a.rbegin()->first > 1 && !b.empty() && b.rbegin()->first > 0) c.nontrivial();
  IMap r, pw{{0, 1}};
  for (u64 i = 0; i <= a.rbegin()->first; ++i) {
    if (a.count(i)) r = addMap(r, pw, a[i]);
    pw = mulMap(pw, b);
  }
  c.eq(show(toMap(c, mk(c, a).compose(mk(c, b)))), show(r), "composition");
}

PROP(C04, printing, "at least 2 terms", 40000, 400000) {
  IMap a;
  int k = (int)c.sized(0, 6);
  for (int i = 0; i < k; ++i)
    if (int64_t v = c.chance(30) ? 1 : c.sint(1000)) a[c.draw(c.chance(50) ? 4 : 3000)] = (u64)v;
  auto A = mk(c, a);
  std::string s;
  llvm::raw_string_ostream os(s);
  A.print(os);
  c.desc << s;
  if (a.size() > 1) c.nontrivial();
  // parse back: terms separated by " + ", coefficient omitted when it is 1
  IMap got;
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find(" + ", i);
    std::string t = s.substr(i, j == std::string::npos ? std::string::npos : j - i);
    i = j == std::string::npos ? s.size() : j + 3;
    size_t x = t.find('x');
    std::string cs = t.substr(0, x);
    int64_t v = cs.empty() ? 1 : std::stoll(cs);
    u64 e = x == std::string::npos ? 0 : t.size() == x + 1 ? 1 : (t.compare(x, 3, "x**") == 0 ? std::stoull(t.substr(x + 3)) : ~0ull);
    c.check(!got.count(e), "exponent printed twice in ", s);
    got[e] = (u64)v;
  }
  c.eq(show(got), show(a), "printed polynomial '", s, "' reads as");
  std::string id = A.toIdentifier();
  bool neg = false;
  for (auto &[e, v] : a) neg |= (int64_t)v < 0;
  if (!neg)
    for (char ch : id) c.check(isalnum(ch) || ch == '_', "identifier '", id, "'");
}

// Exact dyadic arithmetic: small integer (or half-integer) coefficients.
static std::vector<double> dense(const FloatPolynomial &p, size_t n) {
  std::vector<double> r(n, 0);
  for (auto &t : p.getTerms()) {
    u64 e = t.getExponent().getZExtValue();
    if (e >= r.size()) {
      if (t.getCoefficient().isZero()) continue;
      r.resize(e + 1, 0);
    }
    r[e] += t.getCoefficient().convertToDouble();
  }
  return r;
}
static std::vector<double> pmul(const std::vector<double> &a, const std::vector<double> &b) {
  if (a.empty() || b.empty()) return {};
  std::vector<double> r(a.size() + b.size() - 1, 0);
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j];
  return r;
}
static std::vector<double> padd(std::vector<double> a, const std::vector<double> &b, double k = 1) {
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); ++i) a[i] += k * b[i];
  return a;
}
static std::vector<std::vector<double>> chebs(int n) {
  std::vector<std::vector<double>> t;
  for (int i = 0; i < n; ++i)
    t.push_back(i == 0 ? std::vector<double>{1} : i == 1 ? std::vector<double>{0, 1} : padd(pmul({0, 2}, t[i - 1]), t[i - 2], -1));
  return t;
}
static std::vector<double> trimmed(std::vector<double> v) {
  while (!v.empty() && v.back() == 0) v.pop_back();
  for (auto &x : v) x += 0.0;  // -0
  return v;
}
static std::vector<double> genD(Case &c, int n, int m) {
  std::vector<double> v(n);
  for (auto &x : v) x = c.chance(25) ? 0 : c.sint(m) / (c.chance(30) ? 4.0 : 1.0);
  return v;
}

PROP(C04, float_ring, "both operands of degree at least 1", 50000, 600000) {
  auto a = genD(c, (int)c.range(0, 7), 20), b = genD(c, (int)c.range(0, 7), 20);
  c.desc << "a=" << pbt::str(a) << " b=" << pbt::str(b);
  if (trimmed(a).size() > 1 && trimmed(b).size() > 1) c.nontrivial();
  auto A = FloatPolynomial::fromCoefficients(a), B = FloatPolynomial::fromCoefficients(b);
  c.eq(pbt::str(trimmed(dense(A, 0))), pbt::str(trimmed(a)), "construction");
  c.eq(pbt::str(trimmed(dense(A.add(B), 0))), pbt::str(trimmed(padd(a, b))), "sum");
  c.eq(pbt::str(trimmed(dense(A.sub(B), 0))), pbt::str(trimmed(padd(a, b, -1))), "difference");
  c.eq(pbt::str(trimmed(dense(A.naiveMul(B), 0))), pbt::str(trimmed(pmul(a, b))), "product");
  double s = c.sint(9) / 2.0;
  c.eq(pbt::str(trimmed(dense(A.scale(APFloat(s)), 0))), pbt::str(trimmed(pmul(a, {s}))), "scaling");
  if (!trimmed(a).empty() && !trimmed(b).empty() && a.size() < 6 && b.size() < 4) {
    std::vector<double> r, pw{1};
    for (double x : a) {
      r = padd(r, pw, x);
      pw = pmul(pw, b);
    }
    c.eq(pbt::str(trimmed(dense(A.compose(B), 0))), pbt::str(trimmed(r)), "composition");
  }
}

PROP(C04, chebyshev_basis, "a Chebyshev series of degree at least 2", 30000, 400000) {
  int n = (int)c.range(0, 14);
  auto a = genD(c, n, 20);
  c.desc << "series " << pbt::str(a);
  if (trimmed(a).size() > 2) c.nontrivial();
  auto t = chebs(std::max(n, 12));
  SmallVector<FloatPolynomial> ps;
  ChebyshevPolynomial::getChebyshevPolynomials(n, ps);
  c.eq(ps.size(), (size_t)n, "number of basis polynomials");
  for (int i = 0; i < n; ++i) c.eq(pbt::str(trimmed(dense(ps[i], 0))), pbt::str(t[i]), "T_", i);
  ChebyshevPolynomial A{ArrayRef<double>(a)};
  std::vector<double> want;
  for (int i = 0; i < n; ++i) want = padd(want, t[i], a[i]);
  c.eq(pbt::str(trimmed(dense(A.toStandardBasis(), 0))), pbt::str(trimmed(want)), "standard basis");
  if (n) c.eq(A.isZero() ? 0u : A.getDegree(), trimmed(a).empty() && n == 1 ? 0u : (unsigned)(n - 1), "degree");
}

PROP(C04, chebyshev_compose, "a series of degree at least 2 composed with a non-identity map", 30000, 400000) {
  int n = (int)c.range(0, 9);
  auto a = genD(c, n, 12);
  double k = c.sint(4) / (c.chance(40) ? 2.0 : 1.0), b = c.sint(4) / (c.chance(40) ? 2.0 : 1.0);
  if (k == 0) k = 1;
  c.desc << "series " << pbt::str(a) << " composed with " << k << "x+" << b;
  if (trimmed(a).size() > 2 && (k != 1 || b != 0)) c.nontrivial();
  ChebyshevPolynomial A{ArrayRef<double>(a)};
  auto R = A.compose(FloatPolynomial::fromCoefficients({b, k}));
  auto t = chebs(12);
  std::vector<double> std0, want, pw{1}, got;
  for (int i = 0; i < n; ++i) std0 = padd(std0, t[i], a[i]);
  for (double x : std0) {
    want = padd(want, pw, x);
    pw = pmul(pw, {b, k});
  }
  c.check(R.getTerms().size() <= t.size(), "too many terms");
  for (size_t i = 0; i < R.getTerms().size(); ++i) got = padd(got, t[i], R.getTerms()[i].convertToDouble());
  c.eq(pbt::str(trimmed(got)), pbt::str(trimmed(want)), "composition, in the standard basis");
}

// ---------------------------------------------------------------------------
// C07

PROP(C07, log2_arithmetic, "both values positive and different", 200000, 4000000) {
  auto gen = [&]() -> long double {
    if (c.chance(8)) return 0;
    if (c.chance(30)) return (long double)c.range(1, 100);
    return std::exp2l(c.real(-900, 900)) * (1 + c.real(0, 1));
  };
  long double a = gen(), b = c.chance(15) ? a : gen(), d = gen();
  // exact logs beyond the range of double are built by multiplication
  auto mk = [](long double v) { return Log2Arithmetic::of((double)v); };
  auto lg = [](long double v) { return v == 0 ? -INFINITY : (double)std::log2l(v); };
  auto A = mk(a), B = mk(b), D = mk(d);
  c.desc << "a=" << (double)a << " b=" << (double)b << " d=" << (double)d;
  if (a > 0 && b > 0 && a != b) c.nontrivial();
  auto close = [&](double got, double want, const char *what) {
    if (std::isinf(want)) {
      c.check(got == want, what, ": got ", got, ", expected ", want);
      return;
    }
    c.check(std::fabs(got - want) <= 1e-12 * (1 + std::fabs(want)), what, ": got ", got, ", expected ", want);
  };
  close(A.getLog2Value(), lg(a), "log2");
  close((A + B).getLog2Value(), lg(a + b), "log2 of a sum");
  close((A * B).getLog2Value(), lg(a * b), "log2 of a product");
  close((A * B * D + A).getLog2Value(), lg(a * b * d + a), "log2 of a*b*d + a");
  close((A * (B + D)).getLog2Value(), ((A * B) + (A * D)).getLog2Value(), "distributivity");
  close((A + (B + D)).getLog2Value(), ((A + B) + D).getLog2Value(), "associativity");
  c.check((A + B) == (B + A) && (A * B) == (B * A), "commutativity");
  c.eq(A < B, (double)a < (double)b && lg((double)a) < lg((double)b), "order");
  c.check(!(A < A), "irreflexive order");
  c.check(!((A + B) < A) && !((A + B) < B), "a sum is below one of its terms");
  c.check((Log2Arithmetic() + A) == A && (Log2Arithmetic::of(1.0) * A) == A, "neutral elements");
  c.eq((Log2Arithmetic() * A).getValue(), 0.0, "zero times a");
  double v = A.getValue();
  c.check(std::fabs(v - (double)a) <= 1e-9 * (double)a, "getValue: got ", v);
}
