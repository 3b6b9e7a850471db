// C16 noise models: formulas, invariants, and a toy BGV scheme measured against the worst-case bounds.
#include <boost/math/special_functions/erf.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>

#include "lib/Analysis/NoiseAnalysis/BFV/NoiseByBoundCoeffModel.h"
#include "lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.h"
#include "lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.h"
#include "lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.h"
#include "lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.h"
#include "lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.h"
#include "lib/Utils/MathUtils.h"
#include "lib/Dialect/BGV/IR/BGVAttributes.h"
#include "lib/Dialect/CKKS/IR/CKKSAttributes.h"
#include "lib/Parameters/BGV/Params.h"
#include "lib/Parameters/CKKS/Params.h"
#include "lib/Parameters/RLWESecurityParams.h"
#include "mlir/include/mlir/IR/BuiltinAttributes.h"
#include "mlir/include/mlir/IR/MLIRContext.h"
#include "pbt.h"
#include "src/core/include/openfhecore.h"

using namespace mlir::heir;
using pbt::Case;
using ld = long double;  // exponent range 2^16384: values stay in the linear domain
using bgv::LocalParam;
using bgv::SchemeParam;

// What the code under test says a state is worth, in the linear domain.
struct V {
  ld v = 0;
  int deg = 0;
};

struct Par {
  int logN, N, level, dnum;
  std::vector<double> logqi, logpi;
  std::vector<int64_t> qi, pi;
  int64_t t;
  bool pk, ext;
  SchemeParam make() const {
    if (qi.empty()) return SchemeParam(RLWESchemeParam(N, level, logqi, dnum, logpi, pk, ext), t);
    return SchemeParam(RLWESchemeParam(N, level, logqi, qi, dnum, logpi, pi, pk, ext), t);
  }
  ld sumQ(int upto) const {
    ld s = 0;
    for (int i = 0; i <= upto; ++i) s += logqi[i];
    return s;
  }
  std::string str() const {
    std::ostringstream o;
    o << "N=" << N << " level=" << level << " dnum=" << dnum << " t=" << t << (pk ? " pk" : " sk") << (ext ? " ext" : "")
      << " logqi=" << pbt::str(logqi) << " logpi=" << pbt::str(logpi) << (pi.empty() ? "" : " exact");
    return o.str();
  }
};

static Par genPar(Case &c) {
  Par p;
  p.logN = (int)c.range(2, 17);
  p.N = 1 << p.logN;
  p.level = (int)c.sized(0, 20);
  p.dnum = (int)c.range(1, 4);
  switch (c.weighted({30, 20, 25, 25})) {
    case 0: p.t = 65537; break;
    case 1: p.t = c.pickOf<int64_t>({2, 3, 17, 257, 786433, 536903681, 4295294977, 1ll << 40, (1ll << 59) + 55}); break;
    case 2: p.t = (int64_t)c.range(2, 70000); break;
    default: p.t = ((int64_t)1 << c.range(1, 60)) + (int64_t)c.range(0, 1000); break;
  }
  p.pk = c.chance(50);
  p.ext = c.chance(25);
  bool exact = c.chance(40);
  if (p.level > 12 && p.dnum < 3) p.dnum = 3;  // P stays within double range, as the models assume
  int np = (p.level + 1 + p.dnum - 1) / p.dnum;
  auto modulus = [&](std::vector<double> &lg, std::vector<int64_t> &ex) {
    if (exact) {
      int64_t q = ((int64_t)1 << c.range(20, 60)) + 2 * (int64_t)c.range(0, 5000) + 1;
      ex.push_back(q);
      lg.push_back(std::log2((double)q));
    } else
      lg.push_back(c.chance(50) ? (double)c.range(20, 60) : (double)c.range(200, 600) / 10.0);
  };
  for (int i = 0; i <= p.level; ++i) modulus(p.logqi, p.qi);
  for (int i = 0; i < np; ++i) modulus(p.logpi, p.pi);
  return p;
}

// ---------------------------------------------------------------- reference models
struct Ref {
  virtual ~Ref() = default;
  virtual V encrypt(const Par &, int level) const = 0;
  virtual V constant(const Par &) const = 0;
  virtual V add(V, V) const = 0;
  virtual V mul(const Par &, V, V) const = 0;
  virtual V relin(const Par &, int level, V) const = 0;
  virtual bool hasModReduce() const { return true; }
  virtual V modReduce(const Par &, int level, V) const { return {}; }
  virtual ld bound(const Par &, V) const = 0;  // log2
  virtual ld total(const Par &, int level) const = 0;
  // the bound with the repository's own approximation of the quantile (C06 says how good it is)
  virtual ld boundAlt(const Par &p, V v) const { return bound(p, v); }
};
static const ld kSigma = 3.2L, kVarKey = 2.0L / 3.0L;
static ld digits(const Par &p, int level) { return (level + 1 + p.dnum - 1) / p.dnum + 1; }
static V mx(V a, V b, ld v) { return {v, std::max(a.deg, b.deg)}; }

struct BgvBound : Ref {
  bool worst;
  explicit BgvBound(bool w) : worst(w) {}
  ld del(const Par &p) const { return worst ? (ld)p.N : 2 * sqrtl(p.N); }
  ld delMS(const Par &p) const { return worst ? (ld)p.N : 4 * sqrtl(p.N); }
  V encrypt(const Par &p, int level) const override {
    ld b = 6 * kSigma, pkn = b * (1 + 2 * del(p));
    if (p.ext) return modReduce(p, level, {pkn});
    return {p.pk ? pkn : b};
  }
  V constant(const Par &) const override { return {0}; }
  V add(V a, V b) const override { return mx(a, b, a.v + b.v + 1); }
  V mul(const Par &p, V a, V b) const override {
    return mx(a, b, del(p) * (ld)p.t * a.v * b.v + (a.v + b.v + 1) * ((ld)p.N * (ld)p.t / 2));
  }
  V modReduce(const Par &p, int level, V a) const override {
    return {a.v / exp2l(p.logqi[level]) + (1 + delMS(p)) / 2, a.deg};
  }
  V relin(const Par &p, int level, V a) const override {
    return {a.v + digits(p, level) * del(p) * 6 * kSigma / 2 + (1 + delMS(p)) / 2, a.deg};
  }
  ld bound(const Par &p, V a) const override { return log2l(a.v) + log2l(p.t); }
  ld total(const Par &p, int level) const override { return p.sumQ(level) - 1; }
};
static ld quantile(int N) {
  // erfinv((1-2^-32)^(1/N)) = erfcinv(1 - (1-2^-32)^(1/N))
  ld tail = -expm1l(log1pl(-exp2l(-32)) / N);
  return boost::math::erfc_inv(tail);
}
struct BgvVar : Ref {
  ld tt(const Par &p) const { return (ld)p.t * (ld)p.t; }
  V encrypt(const Par &p, int level) const override {
    ld pkn = tt(p) * kSigma * kSigma * (2 * (ld)p.N * kVarKey + 1);
    if (p.ext) return modReduce(p, level, {pkn});
    return {p.pk ? pkn : tt(p) * kSigma * kSigma};
  }
  V constant(const Par &p) const override { return {tt(p) / 12}; }
  V add(V a, V b) const override { return mx(a, b, a.v + b.v); }
  V mul(const Par &p, V a, V b) const override { return mx(a, b, a.v * b.v * p.N); }
  V modReduce(const Par &p, int level, V a) const override {
    return {a.v / exp2l(2 * p.logqi[level]) + tt(p) / 12 * (1 + p.N * kVarKey), a.deg};
  }
  V relin(const Par &p, int level, V a) const override {
    return {a.v + tt(p) * digits(p, level) / 12 * p.N * kSigma * kSigma + tt(p) / 12 * (1 + p.N * kVarKey), a.deg};
  }
  ld bound(const Par &p, V a) const override { return (1 + log2l(a.v)) / 2 + log2l(quantile(p.N)); }
  ld total(const Par &p, int level) const override { return p.sumQ(level) - 1; }
  ld boundAlt(const Par &p, V a) const override {
    return (1 + log2l(a.v)) / 2 + log2l(erfinv(std::pow(1.0 - std::exp2(-32), 1.0 / p.N)));
  }
};
struct BgvCan : Ref {
  static constexpr ld D = 6;
  ld bscale(const Par &p) const { return D * p.t * sqrtl((ld)p.N / 12 * (1 + p.N * kVarKey)); }
  V encrypt(const Par &p, int level) const override {
    ld N = p.N, ve = kSigma * kSigma;
    ld pkn = D * p.t * sqrtl(N * (1.0L / 12 + 2 * N * ve * kVarKey + ve));
    if (p.ext) return modReduce(p, level, {pkn});
    return {p.pk ? pkn : D * p.t * sqrtl(N * (1.0L / 12 + ve))};
  }
  V constant(const Par &p) const override { return {(ld)p.t * p.N / 2}; }
  V add(V a, V b) const override { return mx(a, b, a.v + b.v); }
  V mul(const Par &, V a, V b) const override { return mx(a, b, a.v * b.v); }
  V modReduce(const Par &p, int level, V a) const override { return {a.v / exp2l(p.logqi[level]) + bscale(p), a.deg}; }
  V relin(const Par &p, int level, V a) const override {
    ld maxP = 0, logP = 0;
    size_t k = p.logpi.size();
    for (size_t i = 0; i < k; ++i) {
      ld l = p.pi.empty() ? (ld)p.logpi[i] : log2l(p.pi[i]);
      maxP = std::max(maxP, l);
      logP += l;
    }
    ld bks = D * p.t * p.N * sqrtl(kSigma * kSigma / 12);
    ld pw = (level + p.dnum - 1) / p.dnum;
    return {a.v + sqrtl((ld)p.dnum * (level + 1)) * exp2l(maxP * pw - logP) * bks + sqrtl(k) * bscale(p), a.deg};
  }
  ld bound(const Par &, V a) const override { return log2l(a.v); }
  ld total(const Par &p, int level) const override { return p.sumQ(level) - 1; }
};
struct BfvBound : Ref {
  BgvBound b;
  explicit BfvBound(bool w) : b(w) {}
  V encrypt(const Par &p, int) const override {
    ld e = 6 * kSigma;
    if (p.ext) return {(1 + b.delMS(p)) / 2};
    return {p.pk ? e * (1 + 2 * b.del(p)) : e};
  }
  V constant(const Par &) const override { return {0}; }
  V add(V x, V y) const override { return mx(x, y, x.v + y.v + 1); }
  V mul(const Par &p, V x, V y) const override {
    ld d = b.del(p), m = b.delMS(p);
    return mx(x, y, x.v * exp2l(-p.sumQ(p.level)) * y.v * d * p.t + (x.v + y.v) * (d * p.t / 2) * (4 + m) + (1 + m + d * m) / 2);
  }
  V relin(const Par &p, int, V x) const override {
    return {x.v + digits(p, p.level) * b.del(p) * 6 * kSigma / 2 + (1 + b.delMS(p)) / 2, x.deg};
  }
  bool hasModReduce() const override { return false; }
  ld bound(const Par &, V x) const override { return log2l(x.v); }
  ld total(const Par &p, int) const override { return p.sumQ(p.level) - log2l(p.t) - 1; }
};
struct BfvVar : Ref {
  V encrypt(const Par &p, int) const override {
    ld ve = kSigma * kSigma;
    if (p.ext) return {(1 + p.N * kVarKey) / 12, 1};
    if (p.pk) return {ve * (2 * (ld)p.N * kVarKey + 1), 1};
    return {ve, 0};
  }
  V constant(const Par &) const override { return {0, 0}; }
  V add(V a, V b) const override { return mx(a, b, a.v + b.v); }
  V mul(const Par &p, V a, V b) const override {
    ld tt = (ld)p.t * p.t, N = p.N;
    ld iq = exp2l(-p.sumQ(p.level));
    ld r = (a.v * iq) * (b.v * iq) * N * tt + (a.v + b.v) * N * tt / 12;
    int deg = std::max(a.deg, b.deg);
    if (a.v != 0 && b.v != 0) {
      r += (a.v * (a.deg + 1) + b.v * (b.deg + 1)) * (1 + N * kVarKey) / 12 * N * tt;
      ++deg;
    }
    return {r, deg};
  }
  V relin(const Par &p, int, V a) const override {
    ld tt = (ld)p.t * p.t;
    return {a.v + tt * digits(p, p.level) / 12 * p.N * kSigma * kSigma + (1 + p.N * kVarKey) / 12, a.deg};
  }
  bool hasModReduce() const override { return false; }
  ld bound(const Par &p, V a) const override { return (1 + log2l(a.v)) / 2 + log2l(quantile(p.N)); }
  ld total(const Par &p, int) const override { return p.sumQ(p.level) - log2l(p.t) - 1; }
  ld boundAlt(const Par &p, V a) const override {
    return (1 + log2l(a.v)) / 2 + log2l(erfinv(std::pow(1.0 - std::exp2(-32), 1.0 / p.N)));
  }
};
struct BfvCan : Ref {
  static constexpr ld D = 6;
  ld bscale(const Par &p) const { return D * sqrtl((ld)p.N / 12 * (1 + p.N * kVarKey)); }
  V encrypt(const Par &p, int level) const override {
    ld N = p.N, ve = kSigma * kSigma;
    ld pkn = D * sqrtl(N * (2 * N * ve * kVarKey + ve));
    if (p.ext) return modReduce(p, level, {pkn});
    return {p.pk ? pkn : D * sqrtl(N * ve)};
  }
  V constant(const Par &p) const override { return {p.t * sqrtl((ld)p.N / 12)}; }
  V add(V a, V b) const override { return mx(a, b, a.v + b.v); }
  V mul(const Par &p, V a, V b) const override {
    return mx(a, b, a.v * exp2l(-p.sumQ(p.level)) * b.v * p.t + (a.v + b.v) * p.t * bscale(p));
  }
  V modReduce(const Par &p, int level, V a) const override { return {a.v / exp2l(p.logqi[level]) + bscale(p), a.deg}; }
  V relin(const Par &, int, V a) const override { return a; }
  ld bound(const Par &, V a) const override { return log2l(a.v); }
  ld total(const Par &p, int level) const override { return p.sumQ(level) - log2l(p.t) - 1; }
};

// ---------------------------------------------------------------- driver
static bool close(ld got, ld want) {
  if (std::isinf((double)want) || std::isinf((double)got)) return got == want;
  return fabsl(got - want) <= 1e-7L + 1e-11L * fabsl(want);
}
static V of(const NoiseState &s) { return {exp2l(s.getValue()), s.getDegree()}; }

template <typename M>
static void drive(Case &c, const M &model, const Ref &ref, bool bfv) {
  Par p = genPar(c);
  SchemeParam sp = p.make();
  c.desc << p.str() << "\n";
  std::vector<NoiseState> st;
  std::vector<V> rv;
  int muls = 0, kinds = 0;
  auto keep = [&](const NoiseState &s, V want, const char *what) {
    if (!(log2l(want.v) < 12000)) c.discard();
    c.check(s.isKnown(), what, ": result is not known");
    c.check(close(s.getValue(), log2l(want.v)), what, ": log2 of the noise is ", s.getValue(), ", the formula gives ", (double)log2l(want.v));
    c.eq(s.getDegree(), want.deg, std::string(what) + ": degree");
    // reports: bound, total, budget
    int lv = bfv ? p.level : (int)c.range(0, p.level);
    LocalParam lp(&sp, lv, 2);
    ld b = ref.bound(p, want), t = ref.total(p, lv);
    ld gb = model.toLogBound(lp, s), gt = model.toLogTotal(lp), gu = model.toLogBudget(lp, s);
    if (std::isinf((double)b))
      c.check(gb == b, what, ": bound ", (double)gb, " instead of ", (double)b);
    else
      c.check(fabsl(gb - b) <= 1e-6L + 1e-11L * fabsl(b) || fabsl(gb - ref.boundAlt(p, want)) <= 1e-6L + 1e-11L * fabsl(b), what, ": log2 bound ", (double)gb, ", expected ", (double)b);
    c.check(close(gt, t), what, ": total of ", (double)gt, " bits at level ", lv, ", expected ", (double)t);
    if (!std::isinf((double)b)) c.check(close(gu, gt - gb), what, ": budget ", (double)gu, " is not total - bound");
    st.push_back(s);
    rv.push_back(of(s));
    // keep the degree of the reference so that later steps compare like with like
    rv.back().deg = want.deg;
  };
  auto pickState = [&]() -> size_t { return c.draw(st.size()); };
  {
    int lv = (int)c.range(0, p.level);
    LocalParam lp(&sp, lv, 2);
    keep(model.evalEncrypt(lp), ref.encrypt(p, lv), "encrypt");
    keep(model.evalConstant(lp), ref.constant(p), "constant");
    // an arbitrary state
    ld lim = ref.total(p, p.level);
    if (dynamic_cast<const BfvVar *>(&ref) || dynamic_cast<const BgvVar *>(&ref)) lim *= 2;
    if (lim > 1) {
      double lg = (double)c.range(0, (int64_t)(lim * 8)) / 8;
      int deg = bfv ? (int)c.range(0, 3) : 0;
      if (lg < 1000) {
        NoiseState s = NoiseState::of(std::exp2(lg), deg);
        keep(s, {exp2l(lg), deg}, "given state");
      }
    }
  }
  int n = (int)c.range(2, 10);
  std::set<int> ops;
  for (int i = 0; i < n; ++i) {
    int lv = (int)c.range(0, p.level);
    LocalParam lp(&sp, lv, 2);
    int op = (int)c.weighted({25, 35, 20, ref.hasModReduce() && !bfv ? 20u : 0u});
    size_t a = pickState(), b = pickState();
    ops.insert(op);
    if (op == 0) {
      c.desc << "add " << a << " " << b << "\n";
      keep(model.evalAdd(st[a], st[b]), ref.add(rv[a], rv[b]), "add");
    } else if (op == 1) {
      c.desc << "mul " << a << " " << b << " at level " << lv << "\n";
      ++muls;
      // the product term is allowed to vanish when it is beyond double range
      V want = ref.mul(p, rv[a], rv[b]);
      NoiseState got = model.evalMul(lp, st[a], st[b]);
      if (bfv && p.sumQ(p.level) > 500) {
        V lo = ref.mul(p, {rv[a].v, rv[a].deg}, {rv[b].v, rv[b].deg});
        if (!close(got.getValue(), log2l(lo.v)) && rv[a].v != 0 && rv[b].v != 0) c.discard();
      }
      keep(got, want, "mul");
    } else if (op == 2) {
      c.desc << "relinearize " << a << " at level " << lv << "\n";
      keep(model.evalRelinearize(LocalParam(&sp, lv, (int)c.range(2, 4)), st[a]), ref.relin(p, lv, rv[a]), "relinearize");
    } else if constexpr (requires { model.evalModReduce(lp, st[a]); }) {
      c.desc << "modreduce " << a << " at level " << lv << "\n";
      keep(model.evalModReduce(lp, st[a]), ref.modReduce(p, lv, rv[a]), "modulus reduction");
    }
  }
  kinds = (int)ops.size();
  if (muls && kinds > 1) c.nontrivial();
  // join
  size_t a = pickState(), b = pickState();
  NoiseState j = NoiseState::join(st[a], st[b]), un = NoiseState::uninitialized();
  c.eq(j.getValue(), std::max(st[a].getValue(), st[b].getValue()), "join value");
  c.eq(j.getDegree(), std::max(st[a].getDegree(), st[b].getDegree()), "join degree");
  c.check(NoiseState::join(un, st[a]) == st[a] && NoiseState::join(st[a], un) == st[a], "joining with an unknown state changes it");
  c.check(NoiseState::join(un, un) == un && !un.isKnown(), "joining unknown states");
}

#define RULE "a multiplication and another kind of operation"
PROP(C16, bgv_bound_model, RULE, 40000, 1500000) {
  bool w = c.chance(50);
  c.desc << (w ? "worst " : "average ");
  drive(c, bgv::NoiseByBoundCoeffModel(w ? WORST_CASE : AVERAGE_CASE), BgvBound(w), false);
}
PROP(C16, bgv_variance_model, RULE, 40000, 1500000) { drive(c, bgv::NoiseByVarianceCoeffModel(), BgvVar(), false); }
PROP(C16, bgv_canonical_model, RULE, 40000, 1500000) { drive(c, bgv::NoiseCanEmbModel(), BgvCan(), false); }
PROP(C16, bfv_bound_model, RULE, 40000, 1500000) {
  bool w = c.chance(50);
  c.desc << (w ? "worst " : "average ");
  drive(c, bfv::NoiseByBoundCoeffModel(w ? WORST_CASE : AVERAGE_CASE), BfvBound(w), true);
}
PROP(C16, bfv_variance_model, RULE, 40000, 1500000) { drive(c, bfv::NoiseByVarianceCoeffModel(), BfvVar(), true); }
PROP(C16, bfv_canonical_model, RULE, 40000, 1500000) { drive(c, bfv::NoiseCanEmbModel(), BfvCan(), true); }

// ---------------------------------------------------------------- a toy BGV scheme
// Worst-case bounds are checked against ciphertexts of a small but real scheme:
// the noise of every ciphertext of a random circuit, measured with the secret
// key, never exceeds the bound, and while a budget is left it decrypts to the
// result computed in the clear.
using Z = boost::multiprecision::number<
    boost::multiprecision::cpp_int_backend<512, 512, boost::multiprecision::signed_magnitude, boost::multiprecision::unchecked, void>>;
using Poly = std::vector<Z>;
static Z cmod(const Z &a, const Z &q) {  // centred residue
  Z r = a % q;
  if (r < 0) r += q;
  if (2 * r > q) r -= q;
  return r;
}
static Poly pmul(const Poly &a, const Poly &b) {
  size_t n = a.size();
  Poly r(n, 0);
  for (size_t i = 0; i < n; ++i) {
    if (a[i] == 0) continue;
    for (size_t j = 0; j < n; ++j) {
      if (i + j < n) r[i + j] += a[i] * b[j];
      else r[i + j - n] -= a[i] * b[j];
    }
  }
  return r;
}
static Poly padd(const Poly &a, const Poly &b) {
  Poly r = a;
  for (size_t i = 0; i < r.size(); ++i) r[i] += b[i];
  return r;
}
static Poly pscale(const Poly &a, const Z &k) {
  Poly r = a;
  for (auto &x : r) x *= k;
  return r;
}
static Poly pmod(const Poly &a, const Z &q) {
  Poly r = a;
  for (auto &x : r) x = cmod(x, q);
  return r;
}
static Z inv(const Z &a, const Z &m) {
  Z r0 = m, r1 = ((a % m) + m) % m, s0 = 0, s1 = 1;
  while (r1 != 0) {
    Z q = r0 / r1, t = r0 - q * r1;
    r0 = r1, r1 = t;
    t = s0 - q * s1;
    s0 = s1, s1 = t;
  }
  return ((s0 % m) + m) % m;
}

PROP(C16, worst_case_bound_on_real_ciphertexts, "at least one multiplication and one of relinearization or modulus reduction", 4000, 150000) {
  int N = 1 << c.range(2, 4), L = (int)c.range(0, 3);
  int dnum = computeDnum(L), alpha = (L + 1 + dnum - 1) / dnum;
  int64_t t = c.pickOf<int64_t>({17, 257, 5, 3});
  // pairwise coprime odd moduli
  std::vector<int64_t> q, ps;
  std::vector<double> lq, lp;
  std::vector<int64_t> all = {t};
  auto fresh = [&]() {
    int64_t x = ((int64_t)1 << c.range(22, 26)) + 2 * (int64_t)c.range(0, 1000) + 1;
    auto prime = [](int64_t v) {
      for (int64_t d = 3; d * d <= v; d += 2)
        if (v % d == 0) return false;
      return true;
    };
    while (!prime(x) || std::find(all.begin(), all.end(), x) != all.end()) x += 2;
    all.push_back(x);
    return x;
  };
  for (int i = 0; i <= L; ++i) q.push_back(fresh()), lq.push_back(std::log2((double)q.back()));
  Z P = 1;
  double maxDigit = 0;
  for (int i = 0; i < alpha; ++i) {
    int64_t x = ((int64_t)1 << 29) + 2 * (int64_t)c.range(0, 1000) + 1;
    while (!([&] { for (int64_t d = 3; d * d <= x; d += 2) if (x % d == 0) return false; return true; })() ||
           std::find(all.begin(), all.end(), x) != all.end()) x += 2;
    all.push_back(x);
    ps.push_back(x);
    lp.push_back(std::log2((double)x));
    P *= x;
  }
  bool pk = c.chance(60);
  SchemeParam sp(RLWESchemeParam(N, L, lq, q, dnum, lp, ps, pk, false), t);
  bgv::NoiseByBoundCoeffModel model(WORST_CASE);
  auto Ql = [&](int l) {
    Z r = 1;
    for (int i = 0; i <= l; ++i) r *= q[i];
    return r;
  };
  auto small = [&](int m) {
    Poly r(N);
    // extreme values are as likely as all the others
    for (auto &x : r) x = c.chance(40) ? (c.chance(50) ? m : -m) : (int)c.range(-m, m);
    return r;
  };
  auto uniform = [&](const Z &m) {
    Poly r(N);
    for (auto &x : r) {
      Z v = 0;
      for (int k = 0; k < 6; ++k) v = (v << 32) | Z(c.draw(1ull << 32));
      x = cmod(v, m);
    }
    return r;
  };
  Poly s = small(1);
  Poly s2 = pmul(s, s);
  struct Ct {
    std::vector<Poly> c;
    int level;
    NoiseState bound;
    Poly m;  // centred mod t
  };
  auto measure = [&](const Ct &x) {
    Poly v = padd(x.c[0], pmul(x.c[1], s));
    if (x.c.size() > 2) v = padd(v, pmul(x.c[2], s2));
    return pmod(v, Ql(x.level));
  };
  std::vector<Ct> cts;
  auto verify = [&](const Ct &x, const char *what) {
    Poly v = measure(x);
    LocalParam lp(&sp, x.level, (int)x.c.size());
    bool budget = model.toLogBudget(lp, x.bound) > 0;
    Z worst = 0;
    for (int i = 0; i < N; ++i) {
      Z m = cmod(v[i], t), e = (v[i] - m) / t;
      if (e < 0) e = -e;
      if (e > worst) worst = e;
      if (budget) c.check(m == x.m[i], what, ": a ciphertext with budget left does not decrypt to the result in the clear");
    }
    if (budget && worst > 0) {
      double lg = std::log2(worst.convert_to<double>());
      c.check(lg <= x.bound.getValue() + 1e-9, what, ": measured noise 2^", lg, " above the worst-case bound 2^", x.bound.getValue());
      if (lg > x.bound.getValue() - 6) c.label("noise within 6 bits of the bound");
    }
    if (budget) c.label("budget left");
  };
  // keys
  Z Q = Ql(L);
  Poly a = uniform(Q), ePk = small(19);
  Poly b = pmod(padd(pscale(pmul(a, s), -1), pscale(ePk, t)), Q);  // b = -as + te
  // key switching key for s^2 over the digits of alpha primes
  int nd = (L + 1 + alpha - 1) / alpha;
  std::vector<std::pair<Poly, Poly>> ksk;
  std::vector<Z> digitMod(nd, 1);
  for (int d = 0; d < nd; ++d) {
    for (int i = d * alpha; i < std::min(L + 1, (d + 1) * alpha); ++i) digitMod[d] *= q[i];
    Z g = Q / digitMod[d];
    g = g * inv(g, digitMod[d]);  // 1 mod this digit, 0 mod the others
    Poly ai = uniform(Q * P), ei = small(19);
    Poly bi = padd(padd(pscale(pmul(ai, s), -1), pscale(ei, t)), pscale(s2, P * g));
    ksk.push_back({pmod(bi, Q * P), ai});
  }
  c.desc << "N=" << N << " L=" << L << " dnum=" << dnum << " t=" << t << " q=" << pbt::str(q) << " p=" << pbt::str(ps) << (pk ? " pk" : " sk") << "\n";
  // divide by D with rounding that keeps the plaintext a multiple of D^-1
  auto divide = [&](const Poly &x, const Z &D) {
    Poly r(N);
    Z Di = inv(D, t);
    for (int i = 0; i < N; ++i) {
      // delta = -x mod D, 0 mod t, |delta| <= D t / 2
      Z d0 = cmod(-x[i], D);
      Z k = cmod(-d0 * Di, t);
      r[i] = (x[i] + d0 + k * D) / D;
    }
    return r;
  };
  int nIn = (int)c.range(1, 3);
  for (int i = 0; i < nIn; ++i) {
    Poly m = small((int)(t / 2));
    Ct x{{}, L, model.evalEncrypt(LocalParam(&sp, L, 2)), m};
    if (pk) {
      Poly u = small(1), e0 = small(19), e1 = small(19);
      x.c = {pmod(padd(padd(pmul(b, u), pscale(e0, t)), m), Q), pmod(padd(pmul(a, u), pscale(e1, t)), Q)};
    } else {
      Poly aa = uniform(Q), e = small(19);
      x.c = {pmod(padd(padd(pscale(pmul(aa, s), -1), pscale(e, t)), m), Q), aa};
    }
    verify(x, "encrypt");
    cts.push_back(x);
  }
  bool mul = false, other = false;
  int n = (int)c.range(1, 6);
  for (int i = 0; i < n; ++i) {
    size_t ia = c.draw(cts.size());
    switch (c.weighted({25, 35, 20, 20})) {
      case 0: {
        size_t ib = c.draw(cts.size());
        if (cts[ia].level != cts[ib].level) continue;
        c.desc << cts.size() << " = add " << ia << " " << ib << "\n";
        Ct r = cts[ia];
        Z ql = Ql(r.level);
        const Ct &y = cts[ib];
        while (r.c.size() < y.c.size()) r.c.push_back(Poly(N, 0));
        for (size_t k = 0; k < y.c.size(); ++k) r.c[k] = pmod(padd(r.c[k], y.c[k]), ql);
        r.m = pmod(padd(r.m, y.m), t);
        r.bound = model.evalAdd(cts[ia].bound, y.bound);
        verify(r, "add");
        cts.push_back(r);
        break;
      }
      case 1: {
        size_t ib = c.draw(cts.size());
        const Ct &x = cts[ia], &y = cts[ib];
        if (x.level != y.level || x.c.size() != 2 || y.c.size() != 2) continue;
        c.desc << cts.size() << " = mul " << ia << " " << ib << "\n";
        mul = true;
        Z ql = Ql(x.level);
        Ct r{{pmod(pmul(x.c[0], y.c[0]), ql), pmod(padd(pmul(x.c[0], y.c[1]), pmul(x.c[1], y.c[0])), ql), pmod(pmul(x.c[1], y.c[1]), ql)},
             x.level, model.evalMul(LocalParam(&sp, x.level, 3), x.bound, y.bound), pmod(pmul(x.m, y.m), t)};
        verify(r, "mul");
        cts.push_back(r);
        break;
      }
      case 2: {
        Ct x = cts[ia];
        if (x.c.size() != 3) continue;
        c.desc << cts.size() << " = relinearize " << ia << "\n";
        other = true;
        Z ql = Ql(x.level);
        Poly c0(N, 0), c1(N, 0);
        Z qp = ql * P;
        for (int d = 0; d < nd && d * alpha <= x.level; ++d) {
          Z dm = 1;
          for (int k = d * alpha; k < std::min(x.level + 1, (d + 1) * alpha); ++k) dm *= q[k];
          Poly dig = pmod(x.c[2], dm);
          c0 = padd(c0, pmul(dig, ksk[d].first));
          c1 = padd(c1, pmul(dig, ksk[d].second));
        }
        // the digits recombine only if every group factor is 1 modulo its own primes below the level
        c0 = divide(pmod(c0, qp), P);
        c1 = divide(pmod(c1, qp), P);
        // dividing by P multiplies the plaintext of the switched part by P^-1 * P = 1: P * s^2 * c2 / P
        Ct r{{pmod(padd(x.c[0], c0), ql), pmod(padd(x.c[1], c1), ql)}, x.level, model.evalRelinearize(LocalParam(&sp, x.level, 3), x.bound), x.m};
        verify(r, "relinearize");
        cts.push_back(r);
        break;
      }
      case 3: {
        Ct x = cts[ia];
        if (x.c.size() != 2 || x.level == 0) continue;
        c.desc << cts.size() << " = modreduce " << ia << "\n";
        other = true;
        Z qi = q[x.level];
        Ct r{{divide(x.c[0], qi), divide(x.c[1], qi)}, x.level - 1, model.evalModReduce(LocalParam(&sp, x.level, 2), x.bound), pmod(pscale(x.m, inv(qi, t)), t)};
        r.c = {pmod(r.c[0], Ql(r.level)), pmod(r.c[1], Ql(r.level))};
        verify(r, "modulus reduction");
        cts.push_back(r);
        break;
      }
    }
  }
  if (mul && other) c.nontrivial();
}

// ---------------------------------------------------------------- C17 parameters
static const std::vector<std::pair<int, int>> kSecurity = {{1024, 26},   {2048, 53},   {4096, 106},   {8192, 214},
                                                           {16384, 430}, {32768, 868}, {65536, 1747}, {131072, 3523}};
static int refRingDim(int logPQ, int minN) {
  for (auto [n, q] : kSecurity)
    if (n >= minN && q >= logPQ) return n;
  return 0;
}
static bool isPrime64(uint64_t n) { return lbcrypto::detail::prime(n); }

PROP(C17, ring_dimension, "a minimum above 1024 or a modulus of more than 53 bits", 20000, 200000) {
  int logPQ = c.chance(50) ? (int)c.range(1, 3523) : kSecurity[c.draw(8)].second + (int)c.range(-1, 1);
  int minN = c.chance(50) ? (int)c.range(1, 131072) : (1 << c.range(0, 17)) + (int)c.range(-1, 1);
  if (minN < 0) minN = 0;
  c.desc << "log2(PQ)=" << logPQ << " minimum " << minN;
  int want = refRingDim(logPQ, minN);
  if (!want) c.discard();
  if (logPQ > 53 || minN > 1024) c.nontrivial();
  c.eq(computeRingDim(logPQ, minN), want, "ring dimension");
}

static void checkParams(Case &c, const RLWESchemeParam &p, size_t nq, int minN, bool pk, bool ext, int64_t t) {
  int N = p.getRingDim();
  const auto &q = p.getQi(), &pp = p.getPi();
  const auto &lq = p.getLogqi(), &lp = p.getLogpi();
  c.eq(lq.size(), nq, "number of moduli");
  c.eq(p.getLevel(), (int)nq - 1, "level");
  c.eq(p.getUsePublicKey(), pk, "public key flag");
  c.eq(p.isEncryptionTechniqueExtended(), ext, "extended encryption flag");
  c.check(N >= minN, "ring dimension ", N, " below the minimum ", minN);
  c.eq(lp.size(), (nq + p.getDnum() - 1) / p.getDnum(), "number of special moduli");
  double sum = 0;
  for (double x : lq) sum += x;
  for (double x : lp) sum += x;
  int lo = refRingDim((int)std::floor(sum), minN), hi = refRingDim((int)std::ceil(sum), minN);
  c.check(lo && N >= lo && N <= std::max(lo, hi), "ring dimension ", N, " for log2(PQ)=", sum, " and minimum ", minN, ", expected ", lo);
  if (q.empty()) return;
  c.eq(q.size(), nq, "number of primes");
  c.eq(pp.size(), lp.size(), "number of special primes");
  std::set<int64_t> seen;
  if (t) seen.insert(t);
  for (int k = 0; k < 2; ++k)
    for (size_t i = 0; i < (k ? pp : q).size(); ++i) {
      int64_t x = (k ? pp : q)[i];
      c.check(x > 1 && isPrime64(x), (k ? "p" : "q"), i, " = ", x, " is not prime");
      c.check(x % (2 * N) == 1, (k ? "p" : "q"), i, " = ", x, " is not 1 modulo 2N, N = ", N);
      c.check(seen.insert(x).second, (k ? "p" : "q"), i, " = ", x, " is used twice (or is the plaintext modulus)");
      c.check(std::fabs((k ? lp : lq)[i] - std::log2((double)x)) < 1e-9, "logarithm recorded for ", x, " is ", (k ? lp : lq)[i]);
    }
}

PROP(C17, find_prime, "at least one existing prime in the way", 6000, 100000) {
  int N = 1 << c.range(4, 17), bits = (int)c.range(10, 59);
  std::vector<int64_t> have;
  // walk: every prime found is in the way of the next search
  int n = (int)c.range(1, 6);
  c.desc << "N=" << N << " bits";
  for (int i = 0; i < n; ++i) {
    if (c.chance(30)) bits = (int)c.range(10, 59);
    c.desc << " " << bits;
    int64_t p = findPrime(bits, N, have);
    c.check(isPrime64(p) && p % (2 * N) == 1, "found ", p, ", not a prime that is 1 modulo ", 2 * N);
    c.check(std::find(have.begin(), have.end(), p) == have.end(), "found ", p, " again");
    c.check(p > ((int64_t)1 << bits), "found ", p, ", smaller than 2^", bits);
    // the smallest one that is not taken
    uint64_t x = (1ull << bits);
    x = x - x % (2 * N) + 1;
    if (x < (1ull << bits)) x += 2 * N;
    for (int k = 0; x < (uint64_t)p && k < 3000; x += 2 * N, ++k)
      c.check(!isPrime64(x) || std::find(have.begin(), have.end(), (int64_t)x) != have.end(), "found ", p, " although ", x, " is free");
    have.push_back(p);
    if (c.chance(20)) have.erase(have.begin() + c.draw(have.size()));
  }
  if (n > 1) c.nontrivial();
}

PROP(C17, concrete_parameters, "at least two moduli", 2500, 40000) {
  int n = (int)c.sized(1, 16);
  std::vector<double> lq;
  int base = (int)c.range(18, 58);
  for (int i = 0; i < n; ++i) lq.push_back(c.chance(60) ? base : (int)c.range(10, 59));
  if (c.chance(10)) for (auto &x : lq) if (c.chance(30)) x += (double)c.range(0, 9) / 10;
  int slots = c.chance(70) ? 1 << c.range(0, 14) : (int)c.range(1, 16384);
  bool pk = c.chance(50), ext = c.chance(50);
  int64_t t = c.pickOf<int64_t>({65537, 786433, 536903681, 4295294977, 17, 257});
  // the plaintext modulus may itself be an NTT prime of the size asked for
  if (c.chance(30)) {
    int N = 1 << c.range(10, 15);
    try { t = (int64_t)lbcrypto::FirstPrime<lbcrypto::NativeInteger>(std::max(20, (int)lq[0]), 2 * N).raw(); } catch (...) {}
  }
  c.desc << "logqi=" << pbt::str(lq) << " slots " << slots << " t=" << t << (pk ? " pk" : " sk") << (ext ? " ext" : "");
  if (n > 1) c.nontrivial();
  bool ckksLike = c.chance(20);
  int minN = ckksLike ? slots : 2 * slots;
  std::optional<RLWESchemeParam> p;
  if (ckksLike) p = RLWESchemeParam::getConcreteRLWESchemeParam(lq, minN, pk, ext);
  else {
    SchemeParam s = SchemeParam::getConcreteSchemeParam(lq, t, slots, pk, ext);
    c.eq(s.getPlaintextModulus(), t, "plaintext modulus");
    p = s;
  }
  c.eq(p->getDnum(), n - 1 > 3 ? 3 : n - 1 > 0 ? 2 : 1, "number of digits");
  checkParams(c, *p, n, minN, pk, ext, ckksLike ? 0 : t);
  double maxq = 20;
  for (double x : lq) maxq = std::max(maxq, x);
  for (int i = 0; i < n; ++i)
    c.check(p->getQi()[i] > (int64_t)1 << std::max(20, (int)lq[i]), "q", i, " = ", p->getQi()[i], " has fewer bits than asked for");
  for (int64_t x : p->getPi()) c.check(x > (int64_t)1 << (int)maxq, "special prime ", x, " has fewer bits than the largest modulus");
}

PROP(C17, conservative_parameters, "level above 0", 3000, 20000) {
  int level = (int)c.range(0, 40);
  int slots = c.chance(70) ? 1 << c.range(0, 15) : (int)c.range(1, 32768);
  bool pk = c.chance(50), ext = c.chance(50);
  int64_t t = (int64_t)c.range(2, 1 << 20);
  c.desc << "level " << level << " slots " << slots << " t=" << t;
  if (level) c.nontrivial();
  SchemeParam s = SchemeParam::getConservativeSchemeParam(level, t, slots, pk, ext);
  c.eq(s.getPlaintextModulus(), t, "plaintext modulus");
  c.eq(s.getDnum(), level > 3 ? 3 : level > 0 ? 2 : 1, "number of digits");
  checkParams(c, s, level + 1, 2 * slots, pk, ext, t);
  for (double x : s.getLogqi()) c.eq(x, 60.0, "size of a modulus");
  for (double x : s.getLogpi()) c.eq(x, 60.0, "size of a special modulus");
}

static void attrCase(Case &c, bool isCkks) {
  static mlir::MLIRContext *ctx = [] {
    auto *m = new mlir::MLIRContext(mlir::MLIRContext::Threading::DISABLED);
    m->loadDialect<bgv::BGVDialect, ckks::CKKSDialect>();
    return m;
  }();
  int logN = (int)c.range(4, 17), nq = (int)c.range(1, 20), np = (int)c.range(1, 8);
  std::vector<int64_t> q, p;
  auto gen = [&] { return ((int64_t)1 << c.range(15, 62)) + (int64_t)c.range(0, 100000); };
  for (int i = 0; i < nq; ++i) q.push_back(gen());
  for (int i = 0; i < np; ++i) p.push_back(gen());
  int64_t t = isCkks ? c.range(20, 60) : gen();
  bool pk = c.chance(50), ext = c.chance(50);
  c.desc << "logN " << logN << " Q " << pbt::str(q) << " P " << pbt::str(p) << (isCkks ? " scale " : " t ") << t << (pk ? " pk" : " sk") << (ext ? " ext" : "");
  if (nq > 1 && np > 1) c.nontrivial();
  auto Q = mlir::DenseI64ArrayAttr::get(ctx, q), P = mlir::DenseI64ArrayAttr::get(ctx, p);
  auto same = [&](const RLWESchemeParam &s) {
    c.eq(s.getRingDim(), 1 << logN, "ring dimension");
    c.eq(s.getLevel(), nq - 1, "level");
    c.eq(s.getDnum(), (nq + np - 1) / np, "number of digits");
    c.eq(s.getUsePublicKey(), pk, "public key flag");
    c.eq(s.isEncryptionTechniqueExtended(), ext, "extended encryption flag");
    c.check(s.getQi() == q && s.getPi() == p, "moduli changed");
    c.eq(s.getLogqi().size(), q.size(), "number of logarithms");
    c.eq(s.getLogpi().size(), p.size(), "number of special logarithms");
    for (int i = 0; i < nq; ++i) c.check(std::fabs(s.getLogqi()[i] - std::log2((double)q[i])) < 1e-9, "log2 of q", i);
    for (int i = 0; i < np; ++i) c.check(std::fabs(s.getLogpi()[i] - std::log2((double)p[i])) < 1e-9, "log2 of p", i);
  };
  if (isCkks) {
    auto s = ckks::getSchemeParamFromAttr(ckks::SchemeParamAttr::get(
        ctx, logN, Q, P, (int)t, pk ? ckks::CKKSEncryptionType::pk : ckks::CKKSEncryptionType::sk,
        ext ? ckks::CKKSEncryptionTechnique::extended : ckks::CKKSEncryptionTechnique::standard));
    c.eq(s.getLogDefaultScale(), t, "default scale");
    same(s);
  } else {
    auto s = SchemeParam::getSchemeParamFromAttr(bgv::SchemeParamAttr::get(
        ctx, logN, Q, P, t, pk ? bgv::BGVEncryptionType::pk : bgv::BGVEncryptionType::sk,
        ext ? bgv::BGVEncryptionTechnique::extended : bgv::BGVEncryptionTechnique::standard));
    c.eq(s.getPlaintextModulus(), t, "plaintext modulus");
    same(s);
  }
}
PROP(C17, bgv_attribute, "at least two moduli and two special moduli", 4000, 60000) { attrCase(c, false); }
PROP(C17, ckks_attribute, "at least two moduli and two special moduli", 4000, 60000) { attrCase(c, true); }

PROP(C17, ckks_parameters, "at least three levels", 1500, 20000) {
  int L = (int)c.sized(0, 20), scale = (int)c.range(30, 55), first = scale + (c.chance(30) ? 0 : (int)c.range(0, std::min(20, 59 - scale)));
  int slots = 1 << c.range(0, 14);
  bool pk = c.chance(50), ext = c.chance(50), red = c.chance(50);
  c.desc << "first modulus " << first << " bits, scale " << scale << " bits, " << L << " levels, " << slots << " slots" << (red ? ", reduced error" : "");
  if (L >= 3) c.nontrivial();
  auto s = ckks::SchemeParam::getConcreteSchemeParam(first, scale, L, slots, pk, ext, red);
  c.eq(s.getLogDefaultScale(), (int64_t)scale, "default scale");
  const auto &q = s.getQi();
  c.eq(q.size(), (size_t)L + 1, "number of moduli");
  c.eq(s.getDnum(), L > 3 ? 3 : L > 0 ? 2 : 1, "number of digits");
  std::set<int64_t> seen;
  int N = s.getRingDim();
  c.check(N >= 2 * slots, "ring dimension ", N, " for ", slots, " slots");
  double sum = 0;
  auto all = [&](const std::vector<int64_t> &v, const std::vector<double> &lg, const char *what) {
    c.eq(v.size(), lg.size(), "number of logarithms of ", what);
    for (size_t i = 0; i < v.size(); ++i) {
      c.check(isPrime64(v[i]) && v[i] % (2 * N) == 1, what, i, " = ", v[i], " is not a prime that is 1 modulo 2N, N = ", N);
      c.check(seen.insert(v[i]).second, what, i, " = ", v[i], " is used twice");
      c.check(std::fabs(lg[i] - std::log2((double)v[i])) < 1e-9, "log2 of ", what, i);
      sum += lg[i];
    }
  };
  all(q, s.getLogqi(), "q");
  all(s.getPi(), s.getLogpi(), "p");
  int lo = refRingDim((int)std::floor(sum), 2 * slots), hi = refRingDim((int)std::ceil(sum), 2 * slots);
  c.check(lo && N >= lo && N <= std::max(lo, hi), "ring dimension ", N, " for log2(PQ)=", sum, ", expected ", lo);
  // scaling moduli stay at the scale, and P covers a digit of Q
  for (int i = 1; i <= L; ++i)
    c.check(std::fabs(s.getLogqi()[i] - scale) < 1.0, "q", i, " has ", s.getLogqi()[i], " bits, the scale has ", scale);
  double logQ = first + (double)scale * L, logP = 0;
  for (double x : s.getLogpi()) logP += x;
  c.check(logP + 1e-9 >= std::ceil(logQ / s.getDnum()), "special moduli have ", logP, " bits, a digit needs ", logQ / s.getDnum());
  c.eq(s.getLevel(), L, "level");
  c.eq(s.getUsePublicKey(), pk, "public key flag");
  c.eq(s.isEncryptionTechniqueExtended(), ext, "extended encryption flag");
}
