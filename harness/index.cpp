// C12: affine index maps and flattened index expressions.
#include <map>
#include <numeric>
#include <set>
#include <sstream>

#include "lib/Utils/AffineMapUtils.h"
#include "lib/Utils/TargetUtils.h"
#include "lib/Utils/TensorUtils.h"
#include "mlir/include/mlir/IR/AffineExpr.h"
#include "mlir/include/mlir/IR/Block.h"
#include "mlir/include/mlir/IR/Builders.h"
#include "mlir/include/mlir/IR/BuiltinTypes.h"
#include "mlir/include/mlir/IR/MLIRContext.h"
#include "pbt.h"

using namespace mlir;
using namespace mlir::heir;
using pbt::Case;
using Ints = std::vector<int64_t>;

static MLIRContext *ctx() {
  static MLIRContext *c = new MLIRContext(MLIRContext::Threading::DISABLED);
  return c;
}
static RankedTensorType tensorOf(const Ints &s) { return RankedTensorType::get(s, Float32Type::get(ctx())); }
static int64_t numel(const Ints &s) { return std::accumulate(s.begin(), s.end(), int64_t(1), std::multiplies<>()); }
static int64_t flat(const Ints &shape, const Ints &p) {
  int64_t r = 0;
  for (size_t i = 0; i < shape.size(); ++i) r = r * shape[i] + p[i];
  return r;
}
static Ints unflat(const Ints &shape, int64_t f) {
  Ints p(shape.size());
  for (size_t i = shape.size(); i-- > 0;) { p[i] = f % shape[i]; f /= shape[i]; }
  return p;
}
static Ints genShape(Case &c, size_t rank, int64_t maxDim, int64_t maxNumel) {
  Ints s(rank);
  int64_t n = 1;
  for (auto &d : s) {
    d = c.range(1, std::min(maxDim, std::max<int64_t>(1, maxNumel / n)));
    n *= d;
  }
  c.shuffle(s);
  return s;
}
static int64_t floordiv(int64_t a, int64_t b) { int64_t q = a / b; return q - (a % b != 0 && (a < 0) != (b < 0)); }

// A random affine expression with an independent evaluator.
struct Ex {
  AffineExpr e;
  std::function<int64_t(const Ints &)> f;
};
static Ex genExpr(Case &c, int nd, int depth) {
  int k = depth <= 0 ? (int)c.draw(2) : (int)c.weighted({2, 1, 3, 2, 2, 2, 2});
  auto *x = ctx();
  switch (k) {
    case 0: {
      if (nd == 0) { int64_t v = c.range(-9, 9); return {getAffineConstantExpr(v, x), [v](const Ints &) { return v; }}; }
      int d = (int)c.draw(nd);
      return {getAffineDimExpr(d, x), [d](const Ints &p) { return p[d]; }};
    }
    case 1: {
      int64_t v = c.range(-9, 9);
      return {getAffineConstantExpr(v, x), [v](const Ints &) { return v; }};
    }
    case 2: {
      Ex a = genExpr(c, nd, depth - 1), b = genExpr(c, nd, depth - 1);
      return {a.e + b.e, [=](const Ints &p) { return a.f(p) + b.f(p); }};
    }
    case 3: {
      Ex a = genExpr(c, nd, depth - 1);
      int64_t v = c.range(-5, 5);
      return {a.e * v, [=](const Ints &p) { return a.f(p) * v; }};
    }
    case 4: {
      Ex a = genExpr(c, nd, depth - 1);
      int64_t v = c.range(1, 9);
      return {a.e % v, [=](const Ints &p) { int64_t r = a.f(p) % v; return r < 0 ? r + v : r; }};
    }
    case 5: {
      Ex a = genExpr(c, nd, depth - 1);
      int64_t v = c.range(1, 9);
      return {a.e.floorDiv(v), [=](const Ints &p) { return floordiv(a.f(p), v); }};
    }
    default: {
      Ex a = genExpr(c, nd, depth - 1);
      int64_t v = c.range(1, 9);
      return {a.e.ceilDiv(v), [=](const Ints &p) { return -floordiv(-a.f(p), v); }};
    }
  }
}
static std::string show(AffineMap m) {
  std::string s;
  llvm::raw_string_ostream o(s);
  m.print(o);
  return s;
}
static Ints evalMap(AffineMap m, const Ints &p) {
  SmallVector<int64_t> r;
  evaluateStatic(m, p, r);
  return Ints(r.begin(), r.end());
}

PROP(C12, evaluate_affine_map, "an expression with a division or remainder", 20000, 400000) {
  int nd = (int)c.range(0, 3), nr = (int)c.range(1, 3);
  std::vector<Ex> ex;
  SmallVector<AffineExpr> es;
  for (int i = 0; i < nr; ++i) { ex.push_back(genExpr(c, nd, (int)c.range(0, 4))); es.push_back(ex.back().e); }
  auto m = AffineMap::get(nd, 0, es, ctx());
  Ints p;
  for (int i = 0; i < nd; ++i) p.push_back(c.range(-40, 40));
  std::string t = show(m);
  c.desc << t << " at " << pbt::str(p);
  if (t.find("mod") != std::string::npos || t.find("div") != std::string::npos) c.nontrivial();
  Ints want;
  for (auto &e : ex) want.push_back(e.f(p));
  c.eq(evalMap(m, p), want, "value of the map");
}

PROP(C12, explicit_mapping, "a mapping of at least 3 elements", 15000, 300000) {
  int nd = c.chance(85) ? 1 : (int)c.range(0, 2), nr = c.chance(85) ? 1 : 2, ns = c.chance(92) ? 0 : 1;
  unsigned n = (unsigned)c.range(0, 24);
  std::vector<Ex> ex;
  SmallVector<AffineExpr> es;
  if (nd == 1 && c.chance(40)) {  // a permutation, or nearly one: (a * i + b) mod m
    int64_t a = c.range(1, 12), b = c.range(0, 12), m = c.chance(80) ? std::max<int64_t>(1, n) : c.range(1, 26);
    auto d = getAffineDimExpr(0, ctx());
    ex.push_back({(d * a + b) % m, [=](const Ints &p) { return (a * p[0] + b) % m; }});
    es.push_back(ex.back().e);
    nr = 1;
  } else
    for (int i = 0; i < nr; ++i) { ex.push_back(genExpr(c, nd, (int)c.range(0, 3))); es.push_back(ex.back().e); }
  auto m = AffineMap::get(nd, ns, es, ctx());
  c.desc << show(m) << " on " << n << " positions";
  SmallVector<int64_t> got;
  bool ok = succeeded(makeExplicit1DMapping(m, n, got));
  c.eq(ok, nd == 1 && nr == 1 && ns == 0, "accepts exactly one-dimensional maps");
  if (!ok) return;
  if (n >= 3) c.nontrivial();
  Ints want, g(got.begin(), got.end());
  for (unsigned i = 0; i < n; ++i) want.push_back(ex[0].f({(int64_t)i}));
  c.eq(g, want, "explicit mapping");
  Ints sorted = want, id(n);
  std::sort(sorted.begin(), sorted.end());
  std::iota(id.begin(), id.end(), 0);
  c.label(sorted == id ? "permutation" : "not a permutation");
  c.eq(isPermutation(got), sorted == id, "isPermutation of " + pbt::str(want));
  auto ident = identity(n);
  c.eq(Ints(ident.begin(), ident.end()), id, "identity");
}

PROP(C12, is_permutation, "at least 3 elements, a permutation or one change away from it", 20000, 400000) {
  int64_t n = c.range(0, 12);
  Ints p(n);
  std::iota(p.begin(), p.end(), 0);
  c.shuffle(p);
  int changes = (int)c.range(0, 2);
  for (int i = 0; i < changes && n; ++i) p[c.draw(n)] = c.range(-2, n + 1);
  c.desc << pbt::str(p);
  if (n >= 3) c.nontrivial();
  std::set<int64_t> s(p.begin(), p.end());
  bool want = (int64_t)s.size() == n && (n == 0 || (*s.begin() == 0 && *s.rbegin() == n - 1));
  c.label(want ? "permutation" : "not a permutation");
  c.eq(isPermutation(p), want, "isPermutation");
}

PROP(C12, row_major_map, "an input of rank 3 or more with dimensions above 1", 8000, 150000) {
  Ints in = genShape(c, (size_t)c.range(1, 4), 6, 120), out = genShape(c, (size_t)c.range(1, 3), 12, 256);
  c.desc << pbt::str(in) << " -> " << pbt::str(out);
  if (in.size() >= 3 && std::count_if(in.begin(), in.end(), [](int64_t d) { return d > 1; }) >= 3) c.nontrivial();
  auto I = tensorOf(in), O = tensorOf(out);
  AffineMap m = getRowMajorLayoutMap(I, O);
  c.eq((int64_t)m.getNumDims(), (int64_t)in.size(), "dimensions");
  c.eq((int64_t)m.getNumResults(), (int64_t)out.size(), "results");
  int64_t n = numel(in), cap = numel(out);
  for (int64_t f = 0; f < n; ++f) {
    Ints p = unflat(in, f);
    c.eq(evalMap(m, p), unflat(out, f % cap), "row-major position of " + pbt::str(p));
  }
  c.check(isLayoutRowMajor(I, O, m), "its own map is not recognised");
  // any map that is accepted is the row-major map
  SmallVector<AffineExpr> es(m.getResults());
  size_t r = c.draw(es.size());
  int64_t k = c.range(1, 3);
  if (c.chance(50)) es[r] = es[r] + k; else es[r] = (es[r] + k) % std::max<int64_t>(1, out[r]);
  AffineMap other = AffineMap::get((unsigned)in.size(), 0, es, ctx());
  bool same = true;
  for (int64_t f = 0; f < n && same; ++f) same = evalMap(other, unflat(in, f)) == evalMap(m, unflat(in, f));
  if (!same) c.check(!isLayoutRowMajor(I, O, other), "a different map is accepted: " + show(other));
}

PROP(C12, diagonal_map, "at least 2 rows and 4 columns", 6000, 100000) {
  int64_t n = 1ll << c.range(0, 4), m = n << c.range(0, 3);
  c.desc << n << "x" << m;
  if (n >= 2 && m >= 4) c.nontrivial(std::to_string(n) + "x" + std::to_string(m));
  auto T = tensorOf({n, m});
  AffineMap map = getDiagonalLayoutMap(T, T);
  std::set<Ints> seen;
  for (int64_t r = 0; r < n; ++r)
    for (int64_t q = 0; q < m; ++q) {
      Ints s = evalMap(map, {r, q});
      c.check(s[0] >= 0 && s[0] < n && s[1] >= 0 && s[1] < m, "position out of range " + pbt::str(s));
      c.eq(Ints{s[1] % n, (s[0] + s[1]) % m}, Ints{r, q}, "element at ciphertext " + std::to_string(s[0]) + " slot " + std::to_string(s[1]));
      seen.insert(s);
    }
  c.eq((int64_t)seen.size(), n * m, "distinct positions");
  AffineExpr i, j;
  bindDims(ctx(), i, j);
  auto rm = AffineMap::get(2, 0, {i, j}, ctx());
  bool same = true;
  for (int64_t r = 0; r < n; ++r)
    for (int64_t q = 0; q < m; ++q) same &= evalMap(map, {r, q}) == Ints{r, q};
  if (!same) c.check(!isLayoutSquatDiagonal(T, T, rm), "the identity is accepted as a diagonal layout");
  c.check(!isLayoutSquatDiagonal(tensorOf({n * m}), T, map), "an input of rank 1 is accepted");
}

PROP(C12, flattened_index, "a rank of at least 2, or more than 2^31 elements", 20000, 400000) {
  size_t rank = (size_t)c.range(1, 4);
  bool big = c.chance(30);
  Ints shape(rank), p(rank);
  for (auto &d : shape) d = big ? c.range(1, 1 << 14) : c.range(1, 9);
  for (size_t i = 0; i < rank; ++i) p[i] = c.chance(30) ? shape[i] - 1 : c.range(0, shape[i] - 1);
  c.desc << "index " << pbt::str(p) << " in " << pbt::str(shape);
  if (rank >= 2) c.nontrivial();
  if (numel(shape) > INT32_MAX) c.label("more than 2^31 elements");
  auto T = tensorOf(shape);
  int64_t want = flat(shape, p);
  c.eq(getFlattenedIndex(T, SmallVector<int64_t>(p.begin(), p.end())), want, "getFlattenedIndex");
  Builder b(ctx());
  SmallVector<OpFoldResult> ofr;
  for (auto v : p) ofr.push_back(b.getIndexAttr(v));
  auto r = getFlattenedIndex(T, ofr);
  c.check(succeeded(r), "constant indices are refused");
  c.eq(*r, want, "getFlattenedIndex of constants");
  Block blk;
  Location loc = UnknownLoc::get(ctx());
  std::map<void *, int64_t> val;
  SmallVector<Value> vs;
  for (auto v : p) { auto a = blk.addArgument(IndexType::get(ctx()), loc); val[a.getAsOpaquePointer()] = v; vs.push_back(a); }
  auto dyn = ofr;
  dyn[c.draw(rank)] = vs[0];
  c.check(failed(getFlattenedIndex(T, dyn)), "a dynamic index is accepted");
  std::function<int64_t(Value)> toInt = [&](Value v) { return val.at(v.getAsOpaquePointer()); };
  c.eq(heir::flattenedIndex((ShapedType)T, ValueRange(vs), toInt), want, "flattenedIndex of a tensor");
  auto M = MemRefType::get(shape, Float32Type::get(ctx()));
  c.eq(heir::flattenedIndex(M, ValueRange(vs), toInt), want, "flattenedIndex of a memref");
  if (!big) {
    Ints strides(rank);
    for (auto &s : strides) s = c.range(1, 40);
    int64_t off = c.range(0, 20), w = off;
    for (size_t i = 0; i < rank; ++i) w += strides[i] * p[i];
    auto S = MemRefType::get(shape, Float32Type::get(ctx()), StridedLayoutAttr::get(ctx(), off, strides));
    c.eq(heir::flattenedIndex(S, ValueRange(vs), toInt), w, "flattenedIndex of a strided memref");
  }
  auto back = getIndicesFromRowMajorShape(want, SmallVector<int64_t>(shape.begin(), shape.end()));
  c.eq(Ints(back.begin(), back.end()), p, "getIndicesFromRowMajorShape");
}

PROP(C12, reassociation, "dimensions that are kept and dropped next to each other", 15000, 300000) {
  int64_t rank = c.range(1, 7);
  SmallVector<int64_t> drop;
  Ints keep;
  int pct = (int)c.range(10, 90);
  for (int64_t i = 0; i < rank; ++i) (c.chance(pct) ? (void)drop.push_back(i) : keep.push_back(i));
  c.desc << "rank " << rank << " drop " << pbt::str(Ints(drop.begin(), drop.end()));
  if (!drop.empty() && keep.size() > 1) c.nontrivial();
  auto g = getReassociationForReshapeAtDim(rank, drop);
  c.eq(g.size(), keep.size(), "groups");
  int64_t next = 0;
  for (size_t i = 0; i < g.size(); ++i) {
    int kept = 0;
    for (auto d : g[i]) {
      c.eq(d, next++, "dimensions in order");
      kept += std::find(keep.begin(), keep.end(), d) != keep.end();
    }
    c.eq(kept, 1, "kept dimensions in group " + std::to_string(i));
  }
  if (!g.empty()) c.eq(next, rank, "every dimension is in a group");
}

// ---------------------------------------------------------------------------
// Emitted text, read back by a small interpreter of C index expressions.
struct Parser {
  const std::string &s;
  const std::map<std::string, int64_t> &env;
  size_t i = 0;
  void ws() { while (i < s.size() && isspace((unsigned char)s[i])) ++i; }
  bool eat(char c) { ws(); if (i < s.size() && s[i] == c) { ++i; return true; } return false; }
  int64_t atom() {
    ws();
    if (eat('(')) { int64_t v = sum(); if (!eat(')')) throw pbt::Failure{"expected ) in " + s}; return v; }
    if (eat('-')) return -atom();
    size_t b = i;
    while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_')) ++i;
    if (b == i) throw pbt::Failure{"bad expression " + s};
    std::string w = s.substr(b, i - b);
    if (isdigit((unsigned char)w[0])) return std::stoll(w);
    auto it = env.find(w);
    if (it == env.end()) throw pbt::Failure{"unknown name " + w + " in " + s};
    return it->second;
  }
  int64_t prod() { int64_t v = atom(); while (eat('*')) v *= atom(); return v; }
  int64_t sum() { int64_t v = prod(); while (true) { if (eat('+')) v += prod(); else if (eat('-')) v -= prod(); else return v; } }
  int64_t all() { int64_t v = sum(); ws(); if (i != s.size()) throw pbt::Failure{"trailing text in " + s}; return v; }
};
static int64_t evalText(const std::string &s, const std::map<std::string, int64_t> &env) { return Parser{s, env}.all(); }

PROP(C12, flattened_text, "a rank of at least 2", 15000, 300000) {
  size_t rank = (size_t)c.range(1, 4);
  Ints shape(rank), p(rank);
  for (auto &d : shape) d = c.range(1, 9);
  for (size_t i = 0; i < rank; ++i) p[i] = c.range(0, shape[i] - 1);
  c.desc << "index " << pbt::str(p) << " in " << pbt::str(shape);
  if (rank >= 2) c.nontrivial();
  std::map<std::string, int64_t> env;
  std::vector<std::string> names, dims;
  Block blk;
  Location loc = UnknownLoc::get(ctx());
  SmallVector<Value> vs;
  std::map<void *, std::string> nm;
  for (size_t i = 0; i < rank; ++i) {
    std::string n = "v" + std::to_string(i);
    env[n] = p[i];
    if (c.chance(25)) { int64_t k = c.range(1, 5); env[n] = p[i] - k; names.push_back(n + " + " + std::to_string(k)); }
    else names.push_back(n);
    dims.push_back(c.chance(50) ? std::to_string(shape[i]) : "d" + std::to_string(i));
    env["d" + std::to_string(i)] = shape[i];
    auto a = blk.addArgument(IndexType::get(ctx()), loc);
    nm[a.getAsOpaquePointer()] = "w" + std::to_string(i);
    env["w" + std::to_string(i)] = p[i];
    vs.push_back(a);
  }
  std::function<std::string(Value)> str = [&](Value v) { return nm.at(v.getAsOpaquePointer()); };
  int64_t want = flat(shape, p);
  c.eq(evalText(flattenIndexExpression(ArrayRef<std::string>(dims), names), env), want, "symbolic shape");
  c.eq(evalText(flattenIndexExpression(ArrayRef<int64_t>(shape), names), env), want, "static shape");
  c.eq(evalText(flattenIndexExpression((ShapedType)tensorOf(shape), ValueRange(vs), str), env), want, "tensor type");
  c.eq(evalText(flattenIndexExpressionSOP(MemRefType::get(shape, Float32Type::get(ctx())), ValueRange(vs), str), env), want, "memref, sum of products");
  Ints strides(rank);
  for (auto &s : strides) s = c.range(1, 40);
  int64_t off = c.range(0, 20), w = off;
  for (size_t i = 0; i < rank; ++i) w += strides[i] * p[i];
  auto S = MemRefType::get(shape, Float32Type::get(ctx()), StridedLayoutAttr::get(ctx(), off, strides));
  c.eq(evalText(flattenIndexExpressionSOP(S, ValueRange(vs), str), env), w, "strided memref, sum of products");
}

PROP(C12, extract_slice_text, "a slice with an offset and a stride above 1", 8000, 150000) {
  size_t rank = (size_t)c.range(1, 3);
  Ints src(rank), off(rank), size(rank), stride(rank), result;
  for (size_t i = 0; i < rank; ++i) {
    src[i] = c.range(1, 8);
    stride[i] = c.range(1, 3);
    off[i] = c.range(0, src[i] - 1);
    size[i] = c.range(1, (src[i] - 1 - off[i]) / stride[i] + 1);
  }
  for (size_t i = 0; i < rank; ++i) if (size[i] > 1 || !c.chance(50)) result.push_back(size[i]);
  bool dynamic = c.chance(40);
  c.desc << "slice of " << pbt::str(src) << " offsets " << pbt::str(off) << " sizes " << pbt::str(size) << " strides " << pbt::str(stride) << (dynamic ? " (dynamic)" : "");
  if (numel(off) > 0 && numel(stride) > 1 && numel(size) > 1) c.nontrivial();
  Builder b(ctx());
  Block blk;
  Location loc = UnknownLoc::get(ctx());
  std::map<std::string, int64_t> env;
  std::map<void *, std::string> nm;
  auto any = [&](int64_t v, bool mayBeDynamic) -> OpFoldResult {
    if (!mayBeDynamic || c.chance(50)) return b.getIndexAttr(v);
    auto a = blk.addArgument(IndexType::get(ctx()), loc);
    std::string n = "u" + std::to_string(env.size());
    env[n] = v;
    nm[a.getAsOpaquePointer()] = n;
    return Value(a);
  };
  SmallVector<OpFoldResult> o, z, t;
  for (size_t i = 0; i < rank; ++i) { o.push_back(any(off[i], true)); z.push_back(any(size[i], dynamic)); t.push_back(any(stride[i], dynamic)); }
  auto ofrText = [&](OpFoldResult r) -> std::string {
    if (auto a = dyn_cast<Attribute>(r)) return std::to_string(cast<IntegerAttr>(a).getInt());
    return nm.at(cast<Value>(r).getAsOpaquePointer());
  };
  std::string text;
  {
    llvm::raw_string_ostream so(text);
    raw_indented_ostream os(so);
    auto iv = [](int i) { return "iv" + std::to_string(i); };
    if (dynamic)
      emitFlattenedExtractSlice(tensorOf(result), tensorOf(src), "dst", "src", o, z, t, ofrText, iv,
                                DynamicLoopOpenerFn([&](raw_indented_ostream &s, std::string v, OpFoldResult n) { s << "loop " << v << " " << ofrText(n) << " {\n"; }), os);
    else
      emitFlattenedExtractSlice(tensorOf(result), tensorOf(src), "dst", "src", o, ArrayRef<int64_t>(size), ArrayRef<int64_t>(stride), ofrText, iv,
                                LoopOpenerFn([&](raw_indented_ostream &s, std::string v, int64_t n) { s << "loop " << v << " " << n << " {\n"; }), os);
  }
  // run the text
  std::vector<std::string> lines;
  { std::istringstream is(text); for (std::string l; std::getline(is, l);) lines.push_back(l.substr(std::min(l.size(), l.find_first_not_of(' ')))); }
  std::map<int64_t, int64_t> dst;
  size_t writes = 0;
  std::function<size_t(size_t, std::map<std::string, int64_t> &)> run = [&](size_t i, std::map<std::string, int64_t> &e) -> size_t {
    while (i < lines.size() && lines[i] != "}") {
      if (lines[i].rfind("loop ", 0) == 0) {
        std::istringstream is(lines[i]);
        std::string w, v, n;
        is >> w >> v >> n;
        int64_t count = evalText(n, e);
        size_t end = i + 1;
        c.check(count > 0, "an empty loop");
        for (int64_t k = 0; k < count; ++k) { e[v] = k; end = run(i + 1, e); }
        e.erase(v);
        c.check(end < lines.size() && lines[end] == "}", "unbalanced loops in\n" + text);
        i = end + 1;
      } else {
        const std::string &l = lines[i];
        size_t a = l.find("] = src[");
        c.check(l.rfind("dst[", 0) == 0 && a != std::string::npos && l.size() > 2 && l.substr(l.size() - 2) == "];", "unexpected line " + l);
        int64_t d = evalText(l.substr(4, a - 4), e), s = evalText(l.substr(a + 8, l.size() - a - 10), e);
        c.check(dst.emplace(d, s).second, "element " + std::to_string(d) + " is written twice");
        ++writes;
        ++i;
      }
    }
    return i;
  };
  auto e = env;
  c.eq(run(0, e), lines.size(), "all lines are executed");
  c.eq((int64_t)writes, numel(size), "elements written");
  for (int64_t f = 0; f < numel(size); ++f) {
    Ints p = unflat(size, f), q(rank);
    for (size_t i = 0; i < rank; ++i) q[i] = off[i] + p[i] * stride[i];
    auto it = dst.find(f);
    c.check(it != dst.end(), "element " + std::to_string(f) + " is not written");
    c.eq(it->second, flat(src, q), "source of element " + std::to_string(f));
  }
}

PROP(C12, lists, "at least 2 elements", 10000, 200000) {
  size_t n = (size_t)c.range(0, 5);
  Block blk;
  Location loc = UnknownLoc::get(ctx());
  std::vector<std::string> names;
  SmallVector<Value> vs;
  SmallVector<Type> types;
  std::map<void *, std::string> nm;
  SmallVector<int64_t> ints;
  std::vector<int> bad;
  for (size_t i = 0; i < n; ++i) {
    bool isBad = c.chance(12);
    Type t = isBad ? (Type)Float64Type::get(ctx()) : (Type)IntegerType::get(ctx(), (unsigned)c.range(1, 64));
    if (isBad) bad.push_back((int)i);
    types.push_back(t);
    auto a = blk.addArgument(t, loc);
    names.push_back("x" + std::to_string(c.range(0, 99)));
    nm[a.getAsOpaquePointer()] = names.back();
    vs.push_back(a);
    ints.push_back(c.range(-1000, 1000));
  }
  if (n >= 2) c.nontrivial();
  c.desc << n << " values, unsupported types at " << pbt::str(bad);
  std::function<std::string(Value)> str = [&](Value v) { return nm.at(v.getAsOpaquePointer()); };
  std::string commas, brackets, nums, ty;
  for (size_t i = 0; i < n; ++i) {
    commas += (i ? ", " : "") + names[i];
    brackets += "[" + names[i] + "]";
    nums += (i ? ", " : "") + std::to_string(ints[i]);
    if (bad.empty()) ty += (i ? ", i" : "i") + std::to_string(types[i].getIntOrFloatBitWidth());
  }
  c.eq(commaSeparatedValues(ValueRange(vs), str), commas, "commaSeparatedValues");
  c.eq(bracketEnclosedValues(ValueRange(vs), str), brackets, "bracketEnclosedValues");
  c.eq(commaSeparated<int64_t>(ints), nums, "commaSeparated");
  c.eq(initializerList<int64_t>(ints), "{" + nums + "}", "initializerList");
  auto r = commaSeparatedTypes(TypeRange(types), [&](Type t) -> FailureOr<std::string> {
    if (!t.isInteger()) return failure();
    return "i" + std::to_string(t.getIntOrFloatBitWidth());
  });
  c.eq(succeeded(r), bad.empty(), "commaSeparatedTypes succeeds exactly when every type can be written");
  if (succeeded(r)) c.eq(*r, ty, "commaSeparatedTypes");
  static const char *stems[] = {"__heir_debug", "__heir_debu", "_heir_debug", "", "f", "x__heir_debug"};
  std::string s = stems[c.draw(6)];
  if (c.chance(50)) s += "_" + std::to_string(c.range(0, 99));
  bool dbg = s.substr(0, 12) == "__heir_debug";
  c.eq(isDebugPort(s), dbg, "isDebugPort " + s);
  c.eq(canonicalizeDebugPort(s).str(), dbg ? std::string("__heir_debug") : s, "canonicalizeDebugPort " + s);
}
