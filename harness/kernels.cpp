// C01: kernels compute the plain linear-algebra result.
// C02: rotation prediction and counting agree with the circuit.
#include <numeric>
#include <optional>

#include "dag_eval.h"
#include "lib/Analysis/RotationAnalysis/RotationEvalVisitor.h"
#include "lib/Kernel/EvalVisitor.h"
#include "lib/Kernel/KernelImplementation.h"
#include "lib/Kernel/RotationCountVisitor.h"
#include "lib/Utils/RotationUtils.h"

using namespace hk;
using pbt::Case;
using Vec = std::vector<int>;
using Mat = std::vector<Vec>;
using Ptr = std::shared_ptr<ArithmeticDagNode<LiteralValue>>;

static Vec genVec(Case &c, int64_t n, int64_t m = 20) {
  Vec v(n);
  for (auto &x : v) x = (int)c.sint(m);
  return v;
}
static Mat genMat(Case &c, int64_t r, int64_t n, int64_t m = 20) {
  Mat v(r);
  for (auto &x : v) x = genVec(c, n, m);
  return v;
}
static int64_t at(const Vec &v, int64_t i) {
  int64_t n = v.size();
  return v[((i % n) + n) % n];
}
static std::vector<int64_t> run(Case &c, const Ptr &dag, bool alsoRepo = true) {
  LitEval e;
  e.leaf = litVal;
  auto r = e.one(dag).data;
  if (alsoRepo) {
    // The repository's own evaluator must agree with the independent one.
    auto rr = evalKernel(dag);
    auto v = litVal(rr[0]);
    c.check(v.data == r, "evaluators disagree: ", pbt::str(v.data), " vs ", pbt::str(r));
  }
  return r;
}
static int64_t pow2(Case &c, int maxLog, int minLog = 0) { return 1ll << c.range(minLog, maxLog); }

PROP(C01, matvec_diagonal, "any matrix with at least 2 diagonals and a non-zero input", 36000, 720000) {
  int64_t n = c.sized(1, 24), rows = c.range(1, n);
  Mat diag = genMat(c, rows, n);
  Vec v = genVec(c, n);
  c.desc << "matvec diagonals=" << pbt::str(diag) << " v=" << pbt::str(v);
  auto got = run(c, implementMatvec(mlir::heir::KernelName::MatvecDiagonal, LiteralValue(diag), LiteralValue(v)));
  c.eq((int64_t)got.size(), n, "result size");
  for (int64_t j = 0; j < n; ++j) {
    int64_t want = 0;
    for (int64_t i = 0; i < rows; ++i) want += (int64_t)diag[i][j] * at(v, i + j);
    c.eq(got[j], want, "slot ", j);
  }
  if (rows > 1) c.nontrivial();
}

PROP(C01, rotate_and_reduce, "at least 2 steps without plaintexts: every slot is the reduction over the period", 45000, 900000) {
  int64_t n = c.sized(1, 64);
  int64_t steps = pow2(c, 5), period = c.range(1, 9);
  bool unroll = c.chance(50), mul = c.chance(30), flt = c.chance(30);
  if (mul) steps = std::min<int64_t>(steps, 8);
  Vec v = genVec(c, n, mul ? 3 : 100);
  std::string op = std::string("arith.") + (mul ? "mul" : "add") + (flt ? "f" : "i");
  auto ty = DagType::intTensor(32, {n});
  c.desc << "rotate_and_reduce n=" << n << " steps=" << steps << " period=" << period << " unroll=" << unroll << " op=" << op << " v=" << pbt::str(v);
  auto got = run(c, implementRotateAndReduce<LiteralValue>(LiteralValue(v), std::nullopt, period, steps, ty, {}, op, unroll));
  for (int64_t j = 0; j < n; ++j) {
    int64_t want = mul ? 1 : 0;
    for (int64_t i = 0; i < steps; ++i) {
      if (mul)
        want *= at(v, j + i * period);
      else
        want += at(v, j + i * period);
    }
    c.eq(got[j], want, "slot ", j);
  }
  c.label(unroll ? "unrolled" : "rolled");
  c.label(op);
  if (steps > 1) c.nontrivial();
}

PROP(C01, rotate_and_reduce_plaintexts, "at least 2 plaintexts, some with all-zero plaintexts skipped", 60000, 1200000) {
  int64_t n = c.sized(1, 40);
  int64_t steps = c.chance(25) ? pow2(c, 5) : c.sized(1, 40), period = c.range(1, 7);
  bool unroll = c.chance(50);
  Vec v = genVec(c, n);
  Mat pt = genMat(c, steps, n);
  std::map<int, bool> zeros;
  int zmode = (int)c.weighted({4, 3, 1});
  for (int64_t i = 0; i < steps; ++i)
    if (zmode == 2 || (zmode == 1 && c.chance(40))) {
      pt[i].assign(n, 0);
      zeros[i] = true;
    }
  auto ty = DagType::intTensor(32, {n});
  c.desc << "rotate_and_reduce n=" << n << " steps=" << steps << " period=" << period << " unroll=" << unroll << " zero diagonals=" << zeros.size() << " v=" << pbt::str(v) << " plaintexts=" << pbt::str(pt);
  auto got = run(c, implementRotateAndReduce<LiteralValue>(LiteralValue(v), LiteralValue(pt), period, steps, ty, zeros, "arith.addi", unroll));
  c.eq((int64_t)got.size(), n, "result size");
  for (int64_t j = 0; j < n; ++j) {
    int64_t want = 0;
    for (int64_t i = 0; i < steps; ++i) want += (int64_t)pt[i][j] * at(v, j + i * period);
    c.eq(got[j], want, "slot ", j);
  }
  c.label(unroll ? "unrolled" : "rolled");
  c.label(zmode == 0 ? "no zero plaintext" : zmode == 1 ? "some zero plaintexts" : "all zero");
  int64_t b = (int64_t)std::ceil(std::sqrt((double)steps));
  if (steps % b) c.label("incomplete last giant step");
  if (steps > 1) c.nontrivial();
}

PROP(C01, dot, "at least 2 entries", 12000, 240000) {
  int64_t n = c.sized(1, 48), steps = pow2(c, 5);
  Vec a = genVec(c, n), b = genVec(c, n);
  c.desc << "dot steps=" << steps << " a=" << pbt::str(a) << " b=" << pbt::str(b);
  auto got = run(c, implementDot<LiteralValue>(LiteralValue(a), LiteralValue(b), steps, DagType::intTensor(32, {n})));
  for (int64_t j = 0; j < n; ++j) {
    int64_t want = 0;
    for (int64_t i = 0; i < steps; ++i) want += at(a, i + j) * at(b, i + j);
    c.eq(got[j], want, "slot ", j);
  }
  if (steps > 1) c.nontrivial();
}

PROP(C01, broadcasted_reduce, "at least 2 steps; masked (several blocks) or naturally replicated", 36000, 720000) {
  int64_t steps = pow2(c, 5), period = c.chance(50) ? pow2(c, 3) : c.range(1, 6), blocks = c.chance(40) ? 1 : c.range(2, 5);
  bool unroll = c.chance(50), mul = blocks == 1 && c.chance(30);
  if (mul) steps = std::min<int64_t>(steps, 8);
  int64_t blk = steps * period, n = blk * blocks;
  Vec v = genVec(c, n, mul ? 3 : 100);
  using NodeTy = ArithmeticDagNode<LiteralValue>;
  std::optional<Ptr> mask;
  if (blocks > 1) {
    Vec m(n, 0);
    for (int64_t i = 0; i < n; ++i) m[i] = (i % blk) >= blk - period;
    mask = NodeTy::leaf(LiteralValue(m));
  }
  c.desc << "broadcasted_reduce steps=" << steps << " period=" << period << " slots=" << n << " unroll=" << unroll << " mul=" << mul << " v=" << pbt::str(v);
  auto got = run(c, implementBroadcastedReduce<LiteralValue>(NodeTy::leaf(LiteralValue(v)), mask, period, steps, n, DagType::intTensor(32, {n}), mul ? "arith.muli" : "arith.addi", unroll));
  for (int64_t j = 0; j < n; ++j) {
    int64_t want = mul ? 1 : 0, base = j / blk * blk, off = j % period;
    for (int64_t i = 0; i < steps; ++i)
      if (mul) want *= v[base + i * period + off];
      else want += v[base + i * period + off];
    c.eq(got[j], want, "slot ", j);
  }
  c.label(blocks > 1 ? "masked" : "natural");
  c.label(unroll ? "unrolled" : "rolled");
  if (steps > 1) c.nontrivial();
}

PROP(C01, halevi_shoup, "matrix-vector product, squat or square, at least 2x2", 45000, 900000) {
  int64_t r = c.sized(1, 20), k = c.sized(1, 24);
  bool unroll = c.chance(50);
  Mat A = genMat(c, r, k);
  Vec x = genVec(c, k);
  auto np2 = [](int64_t v) { int64_t p = 1; while (p < v) p *= 2; return p; };
  int64_t R = np2(r), K = np2(k);
  int64_t cols = std::max(R, K);  // a tall matrix is padded to a square one
  int64_t n = cols << c.range(0, 1);
  // Sparse rows/diagonals make whole diagonals vanish.
  if (c.chance(50))
    for (int64_t i = 0; i < r; ++i)
      for (int64_t j = 0; j < k; ++j)
        if (((j - i) % R + R) % R != (int64_t)(c.draw(3)) && c.chance(70)) A[i][j] = 0;
  Mat D(R, Vec(n, 0));
  Vec v(n, 0);
  std::map<int, bool> zeros;
  for (int64_t j = 0; j < n; ++j) v[j] = j % cols < k ? x[j % cols] : 0;
  for (int64_t i = 0; i < R; ++i) {
    bool z = true;
    for (int64_t j = 0; j < n; ++j) {
      int64_t row = j % R, col = (i + j) % cols;
      D[i][j] = row < r && col < k ? A[row][col] : 0;
      z &= D[i][j] == 0;
    }
    if (z) zeros[i] = true;
  }
  bool useZeros = c.chance(70);
  c.desc << "halevi-shoup " << r << "x" << k << " slots=" << n << " unroll=" << unroll << " skip zero diagonals=" << useZeros << " (" << zeros.size() << ") A=" << pbt::str(A) << " x=" << pbt::str(x);
  auto got = run(c, implementHaleviShoup<LiteralValue>(LiteralValue(v), LiteralValue(D), {r, k}, DagType::intTensor(32, {n}), useZeros ? zeros : std::map<int, bool>{}, unroll));
  c.eq((int64_t)got.size(), n, "result size");
  for (int64_t i = 0; i < n; ++i) {
    int64_t want = 0;
    if (i % R < r)
      for (int64_t j = 0; j < k; ++j) want += (int64_t)A[i % R][j] * x[j];
    c.eq(got[i], want, "slot ", i, " (row ", i % R, ")");
  }
  c.label(R == K ? "square" : R < K ? "squat" : "tall");
  c.label(unroll ? "unrolled" : "rolled");
  if (useZeros && !zeros.empty()) c.label("zero diagonals skipped");
  if (r > 1 && k > 1) c.nontrivial();
}

PROP(C01, bicyclic_matmul, "all dimensions pairwise coprime, inner dimension at least 2", 27000, 540000) {
  int64_t m, n, p;
  m = c.range(1, 12);
  n = c.range(1, 12);
  p = c.range(1, 12);
  for (int t = 0; t < 40 && (std::gcd(m, n) != 1); ++t) n = n % 12 + 1;
  for (int t = 0; t < 40 && (std::gcd(m, p) != 1 || std::gcd(n, p) != 1); ++t) p = p % 12 + 1;
  if (std::gcd(m, n) != 1 || std::gcd(m, p) != 1 || std::gcd(n, p) != 1) c.discard();
  Mat A = genMat(c, m, n), B = genMat(c, n, p);
  int64_t slots = 1;
  while (slots < m * n + n * p + m * p) slots *= 2;
  slots <<= c.range(0, 1);
  Vec a(slots), b(slots);
  for (int64_t s = 0; s < slots; ++s) a[s] = A[s % m][s % n], b[s] = B[s % n][s % p];
  c.desc << "bicyclic m=" << m << " n=" << n << " p=" << p << " slots=" << slots << " A=" << pbt::str(A) << " B=" << pbt::str(B);
  auto got = run(c, implementBicyclicMatmul<LiteralValue>(LiteralValue(a), LiteralValue(b), m, n, p, DagType::intTensor(32, {slots})));
  int64_t valid = slots - (n * p - 1 + m * (n - 1));
  std::set<std::pair<int64_t, int64_t>> seen;
  for (int64_t s = 0; s < valid; ++s) {
    int64_t i = s % m, j = s % p, want = 0;
    for (int64_t k = 0; k < n; ++k) want += (int64_t)A[i][k] * B[k][j];
    c.eq(got[s], want, "slot ", s, " entry (", i, ",", j, ")");
    seen.insert({i, j});
  }
  c.check((int64_t)seen.size() == m * p, "harness: valid prefix does not cover the product");
  if (n > 1) c.nontrivial();
}

PROP(C01, tricyclic_matmul, "all dimensions pairwise coprime, inner dimension at least 2", 15000, 300000) {
  int64_t d[4];
  for (auto &x : d) x = c.range(1, 7);
  auto ok = [&](int u) {
    for (int w = 0; w < u; ++w)
      if (std::gcd(d[u], d[w]) != 1) return false;
    return true;
  };
  for (int u = 1; u < 4; ++u)
    for (int t = 0; t < 14 && !ok(u); ++t) d[u] = d[u] % 7 + 1;
  int64_t h = d[0], m = d[1], n = d[2], p = d[3];
  std::vector<Mat> A(h), B(h);
  for (auto &x : A) x = genMat(c, m, n);
  for (auto &x : B) x = genMat(c, n, p);
  int64_t slots = 1;
  while (slots < h * (m * n + n * p + m * p)) slots *= 2;
  Vec a(slots), b(slots);
  for (int64_t s = 0; s < slots; ++s) a[s] = A[s % h][s % m][s % n], b[s] = B[s % h][s % n][s % p];
  c.desc << "tricyclic h=" << h << " m=" << m << " n=" << n << " p=" << p << " slots=" << slots;
  auto got = run(c, implementTricyclicBatchMatmul<LiteralValue>(LiteralValue(a), LiteralValue(b), h, m, n, p, DagType::intTensor(32, {slots})));
  int64_t valid = slots - (h * n * p - 1 + h * m * (n - 1));
  for (int64_t s = 0; s < valid; ++s) {
    int64_t g = s % h, i = s % m, j = s % p, want = 0;
    for (int64_t k = 0; k < n; ++k) want += (int64_t)A[g][i][k] * B[g][k][j];
    c.eq(got[s], want, "slot ", s);
  }
  if (n > 1 && h * m * p > 1) c.nontrivial();
}

// Baby-step giant-step with a caller-chosen inner rotation, ciphertext operands.
PROP(C01, ct_ct_bsgs, "at least 2 steps", 15000, 300000) {
  int64_t n = c.sized(1, 32), steps = c.sized(1, 30), period = c.range(1, 5);
  Vec g = genVec(c, n), b = genVec(c, n);
  int64_t k1 = c.sint(9), k2 = c.sint(9), k3 = c.sint(30);
  c.desc << "ct-ct bsgs n=" << n << " steps=" << steps << " period=" << period << " coeffs " << k1 << "," << k2 << "," << k3;
  auto fn = [&](int64_t gs, int64_t j, int64_t i, int64_t per) { return k1 * (gs * j + i) + k2 * per * j + k3; };
  auto got = run(c, implementCiphertextCiphertextBabyStepGiantStep<LiteralValue>(LiteralValue(g), LiteralValue(b), period, steps, DagType::intTensor(32, {n}), fn));
  // The sum over c of rot(b, f(c)+ giant rotation) * rot(g, c*period)
  int64_t gs = (int64_t)std::ceil(std::sqrt((double)steps));
  for (int64_t s = 0; s < n; ++s) {
    int64_t want = 0;
    for (int64_t q = 0; q < steps; ++q) {
      int64_t j = q / gs, i = q % gs;
      want += at(b, s + fn(gs, j, i, period) + period * gs * j) * at(g, s + period * q);
    }
    c.eq(got[s], want, "slot ", s);
  }
  if (steps > 1) c.nontrivial();
}

// ---------------------------------------------------------------------------
// C02
template <class T>
struct SecretWalk {
  // Distinct rotation nodes whose operand is secret, and their static amounts.
  using Node = ArithmeticDagNode<T>;
  std::map<const Node *, bool> secret;
  std::function<bool(const T &)> leaf;
  int64_t rotations = 0;
  std::vector<int64_t> amounts;
  bool visit(const std::shared_ptr<Node> &p) {
    auto it = secret.find(p.get());
    if (it != secret.end()) return it->second;
    bool s = false;
    auto &v = p->node_variant;
    if (auto *n = std::get_if<LeafNode<T>>(&v)) s = leaf(n->value);
    if (auto *n = std::get_if<AddNode<T>>(&v)) s = visit(n->left) | visit(n->right);
    if (auto *n = std::get_if<SubtractNode<T>>(&v)) s = visit(n->left) | visit(n->right);
    if (auto *n = std::get_if<MultiplyNode<T>>(&v)) s = visit(n->left) | visit(n->right);
    if (auto *n = std::get_if<FloorDivNode<T>>(&v)) s = visit(n->left);
    if (auto *n = std::get_if<PowerNode<T>>(&v)) s = visit(n->base);
    if (auto *n = std::get_if<ExtractNode<T>>(&v)) s = visit(n->operand), visit(n->index);
    if (auto *n = std::get_if<InsertNode<T>>(&v)) s = visit(n->scalar) | visit(n->dest), visit(n->index);
    if (auto *n = std::get_if<ComparisonNode<T>>(&v)) s = visit(n->left) | visit(n->right);
    if (auto *n = std::get_if<IfElseNode<T>>(&v)) s = visit(n->condition) | visit(n->thenBody) | visit(n->elseBody);
    if (auto *n = std::get_if<YieldNode<T>>(&v))
      for (auto &e : n->elements) s |= visit(e);
    if (auto *n = std::get_if<ResultAtNode<T>>(&v)) s = visit(n->operand);
    if (auto *n = std::get_if<LeftRotateNode<T>>(&v)) {
      s = visit(n->operand);
      if (s) {
        rotations++;
        if (auto *k = std::get_if<ConstantScalarNode>(&n->shift->node_variant)) amounts.push_back((int64_t)k->value);
      }
    }
    if (auto *n = std::get_if<LeftRotateBulkNode<T>>(&v)) {
      s = visit(n->operand);
      if (s) rotations += n->shifts.size();
    }
    secret[p.get()] = s;
    return s;
  }
};
using SPtr = std::shared_ptr<ArithmeticDagNode<SymbolicValue>>;

PROP(C02, reduce_indices, "the rotate-and-reduce circuit performs at least one non-zero rotation", 75000, 1500000) {
  bool pts = c.chance(60);
  int64_t steps = pts ? c.sized(1, 150) : pow2(c, 9);
  int64_t period = c.sized(1, 40), n = c.range(1, 4096);
  SymbolicValue v({n}, true);
  std::optional<SymbolicValue> m;
  if (pts) m = SymbolicValue({steps, n}, false);
  std::map<int, bool> zeros;
  if (pts && c.chance(40))
    for (int64_t i = 0; i < steps; ++i)
      if (c.chance(50)) zeros[i] = true;
  c.desc << "steps=" << steps << " period=" << period << " plaintexts=" << pts << " zero diagonals=" << zeros.size();
  SPtr dag = implementRotateAndReduce<SymbolicValue>(v, m, period, steps, DagType::intTensor(32, {n}), zeros);
  SecretWalk<SymbolicValue> w;
  w.leaf = [](const SymbolicValue &s) { return s.isSecret(); };
  w.visit(dag);
  std::set<int64_t> used(w.amounts.begin(), w.amounts.end());
  used.erase(0);
  auto pred = mlir::heir::rotateAndReduceRotationIndices(period, steps, pts);
  std::set<int64_t> p(pred.begin(), pred.end());
  for (int64_t u : used) c.check(p.count(u), "the circuit rotates a ciphertext by ", u, ", which was not predicted");
  if (zeros.empty())
    for (int64_t u : p) c.check(used.count(u), "predicted rotation ", u, " is never used");
  RotationCountVisitor rc;
  c.eq(rc.process(dag), w.rotations, "rotation count");
  if (!used.empty()) c.nontrivial(c.desc.str());
}

PROP(C02, kernel_counts, "the kernel rotates at least one ciphertext", 24000, 480000) {
  SPtr dag;
  auto sec = [&] { return c.chance(50); };
  switch (c.draw(5)) {
    case 0: {
      int64_t r = c.sized(1, 64), k = c.sized(1, 64);
      auto np2 = [](int64_t v) { int64_t p = 1; while (p < v) p *= 2; return p; };
      int64_t R = np2(r), n = std::max(R, np2(k));
      bool sv = sec(), sm = sec();
      std::map<int, bool> zeros;
      if (c.chance(40))
        for (int64_t i = 0; i < R; ++i)
          if (c.chance(50)) zeros[i] = true;
      c.desc << "halevi-shoup " << r << "x" << k << " secret vector=" << sv << " matrix=" << sm << " zeros=" << zeros.size();
      dag = implementHaleviShoup<SymbolicValue>(SymbolicValue({n}, sv), SymbolicValue({R, n}, sm), {r, k}, DagType::intTensor(32, {n}), zeros);
      break;
    }
    case 1: {
      int64_t m = c.range(1, 15), n = c.range(1, 15), p = c.range(1, 15);
      for (int t = 0; t < 15 && std::gcd(n, p) != 1; ++t) p = p % 15 + 1;
      for (int t = 0; t < 15 && std::gcd(m, n) != 1; ++t) m = m % 15 + 1;
      bool a = sec(), b = sec();
      c.desc << "bicyclic " << m << "," << n << "," << p << " secret " << a << b;
      dag = implementBicyclicMatmul<SymbolicValue>(SymbolicValue({m * n}, a), SymbolicValue({n * p}, b), m, n, p, DagType::intTensor(32, {m * n}));
      break;
    }
    case 2: {
      int64_t steps = pow2(c, 6);
      bool a = sec(), b = sec();
      c.desc << "dot steps=" << steps << " secret " << a << b;
      dag = implementDot<SymbolicValue>(SymbolicValue({steps}, a), SymbolicValue({steps}, b), steps, DagType::intTensor(32, {steps}));
      break;
    }
    case 3: {
      int64_t n = c.range(1, 40);
      bool a = sec(), b = sec();
      c.desc << "matvec rows=" << n << " secret " << a << b;
      dag = implementMatvec(mlir::heir::KernelName::MatvecDiagonal, SymbolicValue({n, n}, a), SymbolicValue({n}, b));
      break;
    }
    default: {
      int64_t steps = pow2(c, 5), period = c.range(1, 6), blocks = c.range(1, 3);
      bool a = sec();
      c.desc << "broadcasted reduce steps=" << steps << " period=" << period << " blocks=" << blocks << " secret " << a;
      using N = ArithmeticDagNode<SymbolicValue>;
      std::optional<SPtr> mask;
      if (blocks > 1) mask = N::leaf(SymbolicValue({blocks * steps * period}, false));
      dag = implementBroadcastedReduce<SymbolicValue>(N::leaf(SymbolicValue({blocks * steps * period}, a)), mask, period, steps, blocks * steps * period, DagType::intTensor(32, {1}));
    }
  }
  SecretWalk<SymbolicValue> w;
  w.leaf = [](const SymbolicValue &s) { return s.isSecret(); };
  w.visit(dag);
  RotationCountVisitor rc;
  c.eq(rc.process(dag), w.rotations, "rotation count");
  if (w.rotations) c.nontrivial(c.desc.str());
}

PROP(C02, random_circuit_counts, "a circuit with both secret and plaintext rotations and a shared node", 60000, 1200000) {
  using N = ArithmeticDagNode<SymbolicValue>;
  std::vector<SPtr> pool;
  int nl = (int)c.range(1, 4);
  for (int i = 0; i < nl; ++i) pool.push_back(N::leaf(SymbolicValue({8}, c.chance(50))));
  pool.push_back(N::constantTensor({1, 2, 3, 4, 5, 6, 7, 8}, DagType::intTensor(32, {8})));
  pool.push_back(N::splat(2, DagType::intTensor(32, {8})));
  int ops = (int)c.sized(1, 25);
  int pt = 0, uses = 0;
  auto any = [&] {
    size_t k = pool.size() - 1 - c.draw(pool.size());
    return pool[k];
  };
  for (int i = 0; i < ops; ++i) {
    switch (c.weighted({5, 2, 2, 3, 1, 1, 2, 1, 1, 1})) {
      case 0: pool.push_back(N::leftRotate(any(), c.range(-9, 9))); c.desc << "rot "; break;
      case 1: pool.push_back(N::add(any(), any())); c.desc << "add "; break;
      case 2: pool.push_back(N::sub(any(), any())); c.desc << "sub "; break;
      case 3: pool.push_back(N::mul(any(), any())); c.desc << "mul "; break;
      case 4: pool.push_back(N::floorDiv(any(), 2)); c.desc << "div "; break;
      case 5: pool.push_back(N::power(any(), c.range(0, 4))); c.desc << "pow "; break;
      case 6: {
        std::vector<SPtr> sh;
        int k = (int)c.range(0, 3);
        for (int j = 0; j < k; ++j) sh.push_back(N::constantScalar((double)c.range(0, 7), DagType::index()));
        pool.push_back(N::leftRotateBulk(any(), sh));
        c.desc << "bulk" << k << " ";
        break;
      }
      case 7: pool.push_back(N::ifElse(N::comparison(any(), any(), ComparisonPredicate::LT), N::yield({any()}), N::yield({any()}))); c.desc << "if "; break;
      case 8: pool.push_back(N::extract(any(), (size_t)c.range(0, 7))); c.desc << "extract "; break;
      default: pool.push_back(N::insert(any(), any(), (size_t)c.range(0, 7))); c.desc << "insert "; break;
    }
  }
  (void)pt;
  (void)uses;
  SPtr root = N::yield({pool.back(), any(), any()});
  SecretWalk<SymbolicValue> w;
  w.leaf = [](const SymbolicValue &s) { return s.isSecret(); };
  w.visit(root);
  RotationCountVisitor rc;
  c.eq(rc.process(root), w.rotations, "rotation count");
  if (w.rotations >= 2) c.nontrivial();
}

PROP(C02, executed_shifts, "an executed circuit with at least two distinct rotation amounts", 45000, 900000) {
  Ptr dag;
  int64_t n = c.sized(1, 32);
  bool unroll = c.chance(50);
  auto ty = DagType::intTensor(32, {n});
  switch (c.draw(4)) {
    case 0: {
      int64_t steps = c.sized(1, 40), period = c.range(1, 9);
      std::map<int, bool> zeros;
      if (c.chance(50))
        for (int64_t i = 0; i < steps; ++i)
          if (c.chance(50)) zeros[i] = true;
      c.desc << "bsgs steps=" << steps << " period=" << period << " zeros=" << zeros.size();
      dag = implementRotateAndReduce<LiteralValue>(LiteralValue(Vec(n, 1)), LiteralValue(Mat(steps, Vec(n, 1))), period, steps, ty, zeros, "arith.addi", unroll);
      break;
    }
    case 1: {
      int64_t steps = pow2(c, 6), period = c.range(1, 9);
      c.desc << "reduce steps=" << steps << " period=" << period;
      dag = implementRotateAndReduce<LiteralValue>(LiteralValue(Vec(n, 1)), std::nullopt, period, steps, ty, {}, "arith.addi", unroll);
      break;
    }
    case 2: {
      int64_t r = c.sized(1, 20), k = c.sized(1, 24);
      auto np2 = [](int64_t v) { int64_t p = 1; while (p < v) p *= 2; return p; };
      int64_t R = np2(r);
      n = std::max(R, np2(k));
      c.desc << "halevi-shoup " << r << "x" << k;
      dag = implementHaleviShoup<LiteralValue>(LiteralValue(Vec(n, 1)), LiteralValue(Mat(R, Vec(n, 1))), {r, k}, DagType::intTensor(32, {n}), {}, unroll);
      break;
    }
    default: {
      using N = ArithmeticDagNode<LiteralValue>;
      std::vector<Ptr> pool{N::leaf(LiteralValue(Vec(n, 1)))};
      int ops = (int)c.range(1, 14);
      c.desc << "random:";
      for (int i = 0; i < ops; ++i) {
        auto any = [&] { return pool[pool.size() - 1 - c.draw(pool.size())]; };
        switch (c.weighted({4, 2, 2, 1})) {
          case 0: {
            int64_t s = c.sint(60);
            c.desc << " rot " << s;
            pool.push_back(N::leftRotate(any(), s));
            break;
          }
          case 1: pool.push_back(N::add(any(), any())); break;
          case 2: pool.push_back(N::mul(any(), any())); break;
          default: {
            // a loop whose rotation amount depends on its induction variable
            int lo = (int)c.range(-3, 3), hi = lo + (int)c.range(0, 5), st = (int)c.range(1, 3);
            int64_t mulBy = c.sint(7);
            c.desc << " loop " << lo << ".." << hi << " by " << st << " x" << mulBy;
            auto l = N::loop({any()}, {DagType::intTensor(32, {n})}, lo, hi, st, [&](Ptr iv, const std::vector<Ptr> &it) {
              return N::yield({N::leftRotate(it[0], N::mul(iv, N::constantScalar((double)mulBy, DagType::index())))});
            });
            pool.push_back(N::resultAt(l, 0));
          }
        }
      }
      dag = pool.back();
    }
  }
  c.desc << " slots=" << n << " unroll=" << unroll;
  LitEval e;
  e.leaf = litVal;
  e.one(dag);
  std::set<int> want(e.shifts.begin(), e.shifts.end());
  std::set<int> got = mlir::heir::evalRotations(dag);
  std::ostringstream w, g;
  for (int x : want) w << x << " ";
  for (int x : got) g << x << " ";
  c.check(got == want, "reported rotation amounts {", g.str(), "}, executed {", w.str(), "}");
  if (want.size() >= 2) c.nontrivial();
}

PROP(C02, linear_transform_indices, "at least 2 diagonals", 90000, 1800000) {
  int64_t slots = pow2(c, 12, 1);
  int nd = (int)c.sized(1, 60);
  std::vector<int32_t> diags;
  int mode = (int)c.draw(3);
  for (int i = 0; i < nd; ++i)
    diags.push_back(mode == 0 ? i : mode == 1 ? (int32_t)c.range(0, slots - 1) : (int32_t)c.range(-2 * slots, 2 * slots));
  int64_t logB = c.range(-1, 4);
  c.desc << "slots=" << slots << " log ratio=" << logB << " diagonals=" << pbt::str(diags);
  auto ds = mlir::heir::lintransRotationIndices(diags, slots, logB);
  std::set<int64_t> got(ds.begin(), ds.end());
  auto md = [&](int64_t x) { return ((x % slots) + slots) % slots; };
  int64_t n1 = slots;
  if (logB >= 0) {
    // the documented search: the first power of two whose baby/giant ratio
    // reaches the target
    n1 = 1;
    int64_t ratio = 1ll << logB;
    for (int64_t t = 1; t < slots; t *= 2) {
      std::set<int64_t> gi, ba;
      for (auto d : diags) {
        gi.insert(md(d) - md(d) % t);
        ba.insert(md(d) % t);
      }
      int64_t a = (int64_t)gi.size() - 1, b = (int64_t)ba.size() - 1;
      if (a <= 0) continue;
      if (b == ratio * a) { n1 = t; break; }
      if (b > ratio * a) { n1 = t / 2; break; }
    }
    c.eq(mlir::heir::findBestBSGSRatio(diags, slots, logB), n1, "baby-step size");
    c.check(n1 >= 1, "baby-step size must be positive");
  }
  std::set<int64_t> want;
  for (auto d : diags) {
    int64_t r = md(d), b = r % n1, g = r - b;
    if (b) want.insert(b);
    if (md(g)) want.insert(md(g));
  }
  c.check(got == want, "rotation indices: got ", got.size(), " expected ", want.size());
  for (auto x : got) c.check(x > 0 && x < slots, "index ", x, " out of range");
  if (want.size() >= 2) c.nontrivial();
}

PROP(C02, normalise, "rotation amount outside [0, slots)", 60000, 1200000) {
  int64_t slots = c.range(1, 1 << 16), r = c.sint(1ll << 40);
  int64_t g = mlir::heir::normalizeRotation(r, slots);
  c.desc << "rotation " << r << " slots " << slots;
  c.check(g >= 0 && g < slots && (g - r) % slots == 0, "normalised to ", g);
  if (r < 0 || r >= slots) c.nontrivial();
}
