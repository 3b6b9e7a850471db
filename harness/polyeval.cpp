// C03: circuits that evaluate polynomials (Horner, Paterson-Stockmeyer in the
// monomial and Chebyshev bases), the Chebyshev decomposition behind them, and
// their cost.
#include <cmath>

#include "dag_eval.h"
#include "lib/Utils/Polynomial/ChebyshevDecomposition.h"
#include "lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h"
#include "lib/Utils/Polynomial/Horner.h"
#include "lib/Utils/Polynomial/PatersonStockmeyer.h"

using namespace mlir::heir::kernel;
using namespace mlir::heir::polynomial;
using pbt::Case;
using hk::Val;

// Exact arithmetic modulo the prime 2^61 - 1.
struct Fp {
  static constexpr uint64_t P = (1ull << 61) - 1;
  uint64_t v = 0;
  Fp() = default;
  Fp(int64_t x) : v(x >= 0 ? (uint64_t)x % P : P - 1 - (uint64_t)(-(x + 1)) % P) {}
  Fp(int x) : Fp((int64_t)x) {}
  Fp(double d) : Fp(std::fabs(d) < 9.1e18 ? (int64_t)d : 0) {
    if (std::fabs(d) > 9e15) throw pbt::Discarded{};  // not exact in a double
    if (d != std::floor(d))
      throw pbt::Failure{"coefficient " + std::to_string(d) + " is not an integer although all inputs are"};
  }
  explicit operator int64_t() const { return v > P / 2 ? (int64_t)v - (int64_t)P : (int64_t)v; }
  friend Fp operator+(Fp a, Fp b) { Fp r; r.v = (a.v + b.v) % P; return r; }
  friend Fp operator-(Fp a, Fp b) { Fp r; r.v = (a.v + P - b.v) % P; return r; }
  friend Fp operator*(Fp a, Fp b) { Fp r; r.v = (uint64_t)((unsigned __int128)a.v * b.v % P); return r; }
  friend Fp operator/(Fp, int) { throw pbt::Failure{"division in a polynomial evaluation circuit"}; }
  friend bool operator==(Fp a, Fp b) { return a.v == b.v; }
  friend bool operator!=(Fp a, Fp b) { return a.v != b.v; }
  friend bool operator<(Fp a, Fp b) { return (int64_t)a < (int64_t)b; }
  friend bool operator<=(Fp a, Fp b) { return !(b < a); }
  friend bool operator>(Fp a, Fp b) { return b < a; }
  friend bool operator>=(Fp a, Fp b) { return !(a < b); }
  friend std::ostream &operator<<(std::ostream &o, Fp a) { return o << (int64_t)a; }
};

using Node = ArithmeticDagNode<LiteralDouble>;
using Ptr = std::shared_ptr<Node>;

template <class N>
static Val<N> run(const Ptr &dag, const std::vector<int64_t> &shape, const std::vector<N> &x) {
  hk::DagEval<LiteralDouble, N> ev;
  ev.leaf = [&](const LiteralDouble &) { return Val<N>{shape, x}; };
  return ev.one(dag);
}

// Cost of a circuit: nodes that depend on the input only.
struct Cost {
  std::map<const Node *, int> depth;  // -1: does not depend on x
  int muls = 0, rots = 0;
  int go(const Ptr &p) {
    auto it = depth.find(p.get());
    if (it != depth.end()) return it->second;
    int d = -1;
    auto &v = p->node_variant;
    if (std::get_if<LeafNode<LiteralDouble>>(&v)) d = 0;
    else if (auto *n = std::get_if<AddNode<LiteralDouble>>(&v)) d = std::max(go(n->left), go(n->right));
    else if (auto *n = std::get_if<SubtractNode<LiteralDouble>>(&v)) d = std::max(go(n->left), go(n->right));
    else if (auto *n = std::get_if<MultiplyNode<LiteralDouble>>(&v)) {
      int a = go(n->left), b = go(n->right);
      d = std::max(a, b);
      if (a >= 0 && b >= 0) d++, muls++;
    } else if (auto *n = std::get_if<PowerNode<LiteralDouble>>(&v)) {
      d = go(n->base);
      if (d >= 0) d += n->exponent, muls += n->exponent;
    }
    return depth[p.get()] = d;
  }
};

static int clog2(int64_t n) {
  int k = 0;
  while ((1ll << k) < n) ++k;
  return k;
}

struct Ty {
  DagType t;
  std::vector<int64_t> shape;
  int64_t n;
};
static Ty genType(Case &c) {
  switch (c.weighted({4, 3, 3, 1})) {
    case 0: return {DagType::floatTy(c.chance(50) ? 64 : 32), {}, 1};
    case 1: {
      int64_t n = c.range(1, 6);
      return {DagType::floatTensor(c.chance(50) ? 64 : 32, {n}), {n}, n};
    }
    case 2: {
      int64_t r = c.range(1, 3), n = c.range(1, 4);
      return {DagType::floatTensor(64, {r, n}), {r, n}, r * n};
    }
    default: {
      int64_t n = c.range(1, 4);
      return {DagType::intTensor(32, {n}), {n}, n};
    }
  }
}
static std::vector<Fp> genPoints(Case &c, int64_t n) {
  std::vector<Fp> x;
  for (int64_t i = 0; i < n; ++i)
    switch (c.weighted({3, 1})) {
      case 0: x.push_back(Fp((int64_t)c.draw(1ull << 60))); break;
      default: x.push_back(Fp(c.sint(3)));
    }
  return x;
}
static std::string show(const std::map<int64_t, double> &m) {
  std::ostringstream o;
  o << "{";
  for (auto &[k, v] : m) o << k << ":" << v << " ";
  o << "}";
  return o.str();
}
static std::map<int64_t, double> genMono(Case &c, int64_t maxDeg) {
  std::map<int64_t, double> m;
  int64_t d = c.sized(0, maxDeg);
  unsigned density = c.pickOf<unsigned>({100, 70, 40, 10});
  for (int64_t i = 0; i <= d; ++i)
    if (i == d || c.chance(density)) m[i] = (double)c.sint(c.chance(10) ? (1ll << 50) : 1000);
  if (c.chance(3)) m.clear();
  return m;
}
static Fp directMono(const std::map<int64_t, double> &m, Fp x) {
  Fp r = 0;
  for (auto &[e, v] : m) {
    Fp t = v;
    for (int64_t i = 0; i < e; ++i) t = t * x;
    r = r + t;
  }
  return r;
}
static void compare(Case &c, const Val<Fp> &got, const Ty &t, const std::vector<Fp> &x,
                    const std::function<Fp(Fp)> &want, const std::string &what) {
  c.check(got.shape == t.shape, what, ": the result has shape ", pbt::str(got.shape), " but the input has shape ", pbt::str(t.shape));
  for (size_t i = 0; i < x.size(); ++i)
    c.eq(got.data[i], want(x[i]), what, ": element ", i, " (x = ", x[i], ")");
}

PROP(C03, monomial, "the polynomial has degree at least 2 and a zero or missing lower coefficient, or degree at least 5", 20000, 400000) {
  auto m = genMono(c, c.thorough ? 300 : 60);
  Ty t = genType(c);
  auto x = genPoints(c, t.n);
  c.desc << "coefficients " << show(m) << " input shape " << pbt::str(t.shape) << " x=" << pbt::str(x);
  int64_t deg = m.empty() ? 0 : m.rbegin()->first;
  if (deg >= 5 || (deg >= 2 && (int64_t)m.size() <= deg)) c.nontrivial();
  auto want = [&](Fp p) { return directMono(m, p); };
  {
    auto dag = hornerMonomialPolynomialEvaluation<LiteralDouble>(Node::leaf(LiteralDouble(0)), m, t.t);
    compare(c, run<Fp>(dag, t.shape, x), t, x, want, "Horner");
  }
  auto dag = patersonStockmeyerMonomialPolynomialEvaluation<LiteralDouble>(Node::leaf(LiteralDouble(0)), m, t.t);
  compare(c, run<Fp>(dag, t.shape, x), t, x, want, "Paterson-Stockmeyer");
  if (deg >= 1) {
    Cost cost;
    cost.go(dag);
    int64_t k = std::max<int64_t>(1, (int64_t)std::ceil(std::sqrt((double)deg)));
    int64_t chunks = (deg + k) / k;  // ceil((deg + 1) / k)
    c.check(cost.muls <= k - 1 + chunks - 1, "Paterson-Stockmeyer of degree ", deg, " multiplies ", cost.muls, " times, more than ", k - 1 + chunks - 1);
  }
}

PROP(C03, powers, "the largest power is at least 4", 1500, 10000) {
  int64_t k = c.sized(0, c.thorough ? 600 : 160);
  Ty t = genType(c);
  auto x = genPoints(c, t.n);
  bool cheb = c.chance(50);
  c.desc << (cheb ? "T_0..T_" : "x^0..x^") << k << " shape " << pbt::str(t.shape) << " x=" << pbt::str(x);
  if (k >= 4) c.nontrivial();
  auto check = [&](int64_t i, const Ptr &p, bool isCheb, const char *what) {
    c.check(!!p, what, ": entry ", i, " is missing");
    hk::DagEval<LiteralDouble, Fp> ev;
    compare(c, run<Fp>(p, t.shape, x), t, x, [&](Fp a) {
      if (!isCheb) {
        Fp r = 1;
        for (int64_t j = 0; j < i; ++j) r = r * a;
        return r;
      }
      Fp u = 1, v = a;
      for (int64_t j = 0; j < i; ++j) { Fp w = Fp(2) * a * v - u; u = v; v = w; }
      return u;
    }, std::string(what) + " entry " + std::to_string(i));
  };
  auto probe = [&](int64_t n) { return n <= 12 ? n : 0; };
  (void)probe;
  // every entry for small k, a random handful otherwise
  std::vector<int64_t> idx;
  if (k <= 20) for (int64_t i = 0; i <= k; ++i) idx.push_back(i);
  else {
    for (int i = 0; i < 6; ++i) idx.push_back(c.range(0, k));
    idx.push_back(k);
    idx.push_back(k - 1);
  }
  Cost cost;
  auto depthOk = [&](int64_t i, const Ptr &p, const char *what) {
    int d = cost.go(p);
    int want = i == 0 ? -1 : clog2(i);
    c.check(d <= want, what, " entry ", i, " has multiplicative depth ", d, ", more than ", want);
  };
  if (!cheb) {
    auto v = computePowers<LiteralDouble>(Node::leaf(LiteralDouble(0)), k, t.t);
    c.eq((int64_t)v.size(), k + 1, "computePowers: number of powers");
    for (int64_t i : idx) check(i, v[i], false, "computePowers");
    for (int64_t i = 0; i <= k; ++i) depthOk(i, v[i], "computePowers");
    c.check(cost.muls <= std::max<int64_t>(0, k - 1), "computePowers(", k, ") multiplies ", cost.muls, " times");
  } else if (c.chance(50)) {
    auto v = computeChebyshevPolynomialValues<LiteralDouble>(LiteralDouble(0), k, t.t);
    c.eq((int64_t)v.size(), k + 1, "computeChebyshevPolynomialValues: number of values");
    for (int64_t i : idx) check(i, v[i], true, "computeChebyshevPolynomialValues");
    for (int64_t i = 0; i <= k; ++i) depthOk(i, v[i], "computeChebyshevPolynomialValues");
    c.check(cost.muls <= std::max<int64_t>(0, k - 1), "computeChebyshevPolynomialValues(", k, ") multiplies ", cost.muls, " times");
  } else {
    auto v = genChebyshevPowersRecursive<LiteralDouble>(Node::leaf(LiteralDouble(0)), k, t.t);
    for (int64_t i : idx) {
      c.check(v.count(i), "genChebyshevPowersRecursive: T_", i, " is missing");
      check(i, v.at(i), true, "genChebyshevPowersRecursive");
    }
    for (auto &[i, p] : v) depthOk(i, p, "genChebyshevPowersRecursive");
    c.check(cost.muls <= std::max<int64_t>(0, k - 1), "genChebyshevPowersRecursive(", k, ") multiplies ", cost.muls, " times");
  }
}

// A Chebyshev series with integer coefficients, sparse, dense, odd, even or
// with long runs of zeros.
static std::vector<double> genCheb(Case &c, int64_t maxDeg, int64_t mag) {
  int64_t d = c.sized(0, maxDeg);
  std::vector<double> v(d + 1, 0.0);
  switch (c.weighted({4, 2, 2, 2, 1})) {
    case 0: for (auto &x : v) x = (double)c.sint(mag); break;
    case 1: for (size_t i = c.draw(2); i < v.size(); i += 2) v[i] = (double)c.sint(mag); break;
    case 2: for (int i = 0; i < 3; ++i) v[c.draw(v.size())] = (double)c.sint(mag); break;
    case 3: {
      size_t lo = c.draw(v.size()), hi = c.draw(v.size());
      if (lo > hi) std::swap(lo, hi);
      for (size_t i = lo; i <= hi; ++i) v[i] = (double)c.sint(mag);
      break;
    }
    default: v[d] = 1 + (double)c.draw(mag);
  }
  return v;
}
static Fp directCheb(const std::vector<double> &v, Fp x) {
  Fp a = 1, b = x, r = 0;
  for (double k : v) {
    r = r + Fp(k) * a;
    Fp n = Fp(2) * x * b - a;
    a = b;
    b = n;
  }
  return r;
}

PROP(C03, chebyshev, "the series has degree at least 4 (the split is not trivial)", 20000, 400000) {
  auto v = genCheb(c, c.thorough ? 400 : 130, 200);
  Ty t = genType(c);
  auto x = genPoints(c, t.n);
  c.desc << "chebyshev " << pbt::str(v) << " input shape " << pbt::str(t.shape) << " x=" << pbt::str(x);
  int64_t d = v.size() - 1;
  if (d >= 4) c.nontrivial();
  auto dag = patersonStockmeyerChebyshevPolynomialEvaluation<LiteralDouble>(LiteralDouble(0), v, kMinCoeffs, t.t);
  bool zero = true;
  for (double k : v) zero &= k == 0;
  if (!dag) {
    c.check(zero, "no circuit was built for a non-zero series");
    return;
  }
  compare(c, run<Fp>(dag, t.shape, x), t, x, [&](Fp p) { return directCheb(v, p); }, "Chebyshev Paterson-Stockmeyer");
  if (d >= 1) {
    Cost cost;
    int depth = cost.go(dag);
    int lim = (int)std::bit_width((uint64_t)d);
    c.check(depth <= lim, "degree ", d, ": multiplicative depth ", depth, " exceeds ", lim);
    int64_t lg = lim;
    int64_t most = 4 * (int64_t)std::ceil(std::sqrt((double)d + 1)) + lg;
    c.check(cost.muls <= most, "degree ", d, ": ", cost.muls, " ciphertext multiplications exceed ", most);
  }
}

PROP(C03, chebyshev_threshold, "some coefficient is dropped and some is kept", 3000, 40000) {
  int64_t d = c.sized(1, 40);
  double thr = c.pickOf<double>({1e-15, 1e-9, 1e-6, 1e-3});
  std::vector<double> v(d + 1);
  bool small = false, large = false;
  for (auto &k : v)
    switch (c.weighted({3, 2, 1})) {
      case 0: k = c.real(-4, 4); large |= std::fabs(k) >= thr; break;
      case 1: k = thr * c.real(-1, 1) * 0.9; small |= k != 0; break;
      default: k = 0;
    }
  double x = c.real(-1, 1);
  c.desc << "chebyshev " << pbt::str(v) << " threshold " << thr << " x=" << x;
  if (small && large) c.nontrivial();
  double a = 1, b = x, want = 0, mag = 0;
  for (double k : v) {
    want += k * a;
    mag += std::fabs(k);
    double n = 2 * x * b - a;
    a = b;
    b = n;
  }
  auto dag = patersonStockmeyerChebyshevPolynomialEvaluation<LiteralDouble>(LiteralDouble(0), v, thr, DagType::floatTy(64));
  double got = dag ? run<double>(dag, {}, {x}).data.at(0) : 0.0;
  // Each decomposed coefficient below the threshold contributes at most the
  // threshold on [-1, 1]; there are fewer than 2(d + 1) + 1 of them, and
  // rounding is bounded by the growth of the decomposition.
  double tol = thr * (4 * (d + 2)) + 1e-11 * (1 + mag) * (d + 1);
  c.check(std::fabs(got - want) <= tol, "evaluates to ", got, ", expected ", want, " +- ", tol);
}

PROP(C03, decomposition, "the series is longer than the generator and has at least 2 quotient digits", 20000, 400000) {
  auto v = genCheb(c, c.thorough ? 200 : 80, 1000);
  if (c.chance(3)) v.clear();
  int k = (int)c.sized(1, 40);
  c.desc << "decompose " << pbt::str(v) << " by T_" << k;
  auto dec = decompose(v, k);
  if ((int)v.size() > k) c.nontrivial();
  c.eq(dec.generatorDegree, k, "generatorDegree");
  for (auto &p : dec.coeffs) c.check((int)p.size() <= k, "a digit has ", p.size(), " coefficients for generator T_", k);
  Fp x((int64_t)c.draw(1ull << 60));
  Fp a = 1, b = x;
  for (int i = 0; i < k; ++i) { Fp n = Fp(2) * x * b - a; a = b; b = n; }
  Fp tk = a, pw = 1, sum = 0;
  for (auto &p : dec.coeffs) {
    sum = sum + directCheb(p, x) * pw;
    pw = pw * tk;
  }
  c.eq(sum, directCheb(v, x), "sum of digits times powers of T_", k, " at x = ", x);
}

PROP(C03, degree_split, "the degree is at least 3", 3000, 20000) {
  int64_t n = c.chance(70) ? c.range(1, 5000) : 1 + (int64_t)c.bits(40);
  c.desc << "splitDegree(" << n << ")";
  if (n >= 3) c.nontrivial();
  auto [a, b] = splitDegree(n);
  c.eq(a + b, n, "the parts do not add up");
  if (n > 1) {
    c.check(a >= 1 && b >= 1, "parts ", a, " and ", b, " of ", n, " must both be smaller than ", n);
    c.check(clog2(std::max(a, b)) <= clog2(n) - 1, "parts ", a, " and ", b, " of ", n, " do not reach depth ", clog2(n));
    if (n & (n - 1)) c.check((a & 1) || (b & 1), "neither part of ", n, " is odd: ", a, ", ", b);
  }
}
