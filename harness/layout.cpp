// C10: layout constructors, recognisers, evaluation and set queries.
// C11: transformations of layouts.
#include <numeric>

#include "include/isl/map.h"
#include "layout_model.h"
#include "lib/Utils/Layout/Evaluate.h"
#include "lib/Utils/Layout/Hoisting.h"
#include "lib/Utils/Layout/IslConversion.h"
#include "lib/Utils/Layout/Utils.h"

using namespace mlir::heir;
using namespace mlir;
using namespace lm;
using pbt::Case;

static int64_t genSlots(Case &c, int64_t atLeast = 1, int lg = 6) {
  if (c.chance(80)) {
    int64_t s = 1ll << c.range(0, lg);
    while (s < atLeast) s *= 2;
    return s;
  }
  return std::max<int64_t>(atLeast, c.range(1, 1ll << lg));
}
static Pt genShape(Case &c, size_t rank, int64_t maxNumel = 64) {
  Pt s(rank);
  int64_t n = 1;
  for (auto &d : s) {
    d = c.range(1, std::min<int64_t>(9, std::max<int64_t>(1, maxNumel / n)));
    n *= d;
  }
  c.shuffle(s);
  return s;
}

// ---------------------------------------------------------------------------
// C10

PROP(C10, row_major, "several elements, and padding, several ciphertexts or repetition", 5000, 80000) {
  Pt shape = genShape(c, (size_t)c.range(1, 4), c.thorough ? 256 : 64);
  int64_t slots = genSlots(c);
  c.desc << "row-major " << pbt::str(shape) << " in ciphertexts of " << slots << " slots";
  int64_t n = numel(shape);
  if (n > 1 && (n != pow2ceil(n) || n != slots)) c.nontrivial();
  auto rel = getRowMajorLayoutRelation(tensorOf(shape), slots);
  Set got = points(rel), want = rowMajor(shape, slots);
  same(c, got, want, "row-major layout");
}

PROP(C10, large_row_major, "more elements than a 24-bit mantissa can count", 4000, 40000) {
  // membership only; the sets are too large to list
  int64_t lg = c.range(8, 16), slots = 1ll << lg;
  Pt shape;
  int rank = (int)c.range(1, 3);
  int64_t budget = 1ll << c.range(10, 30);
  for (int i = 0; i < rank; ++i) {
    int64_t d = i + 1 == rank ? std::max<int64_t>(1, budget + c.range(-3, 3)) : c.range(1, std::max<int64_t>(1, (int64_t)std::sqrt((double)budget)));
    budget = std::max<int64_t>(1, budget / d);
    shape.push_back(d);
  }
  if (numel(shape) >= (1ll << 31)) c.discard();
  int64_t n = numel(shape), padded = pow2ceil(n);
  c.desc << "row-major " << pbt::str(shape) << " in ciphertexts of " << slots << " slots";
  if (n > (1 << 24)) c.nontrivial();
  auto rel = getRowMajorLayoutRelation(tensorOf(shape), slots);
  for (int t = 0; t < 3; ++t) {
    Pt p;
    for (auto d : shape) p.push_back(t == 0 ? d - 1 : c.range(0, d - 1));
    int64_t f = flat(shape, p), slot = f % slots;
    c.check(rel.containsPointNoLocal(cat(p, {f / slots, slot})).has_value(), "element ", pbt::str(p), " is not at ciphertext ", f / slots, " slot ", slot);
    c.check(!rel.containsPointNoLocal(cat(p, {f / slots, (slot + 1) % slots})).has_value() || (slots > padded && (slot + 1) % padded == slot % padded) || slots == 1,
            "element ", pbt::str(p), " is also in the next slot");
    if (padded < slots) c.check(rel.containsPointNoLocal(cat(p, {0, slot + padded >= slots ? slot : slot + padded})).has_value(), "element ", pbt::str(p), " is not repeated");
    c.check(!rel.containsPointNoLocal(cat(p, {f / slots + 1, slot})).has_value(), "element ", pbt::str(p), " is also in the next ciphertext");
  }
}

PROP(C10, diagonal, "at least 2 rows and columns", 5000, 80000) {
  int64_t rows = c.range(1, 9), cols = c.range(1, 9);
  int64_t slots = genSlots(c, std::max(rows, cols));
  c.desc << "diagonal " << rows << "x" << cols << " slots " << slots;
  if (rows > 1 && cols > 1) c.nontrivial();
  same(c, points(getDiagonalLayoutRelation(tensorOf({rows, cols}), slots)), diagonal(rows, cols, slots), "diagonal layout");
}

PROP(C10, cyclic_layouts, "coprime dimensions above 1", 5000, 80000) {
  bool tri = c.chance(50);
  Pt shape;
  for (int i = 0; i < (tri ? 3 : 2); ++i) {
    int64_t d = c.range(1, tri ? 7 : 11);
    int tries = 0;
    while (std::any_of(shape.begin(), shape.end(), [&](int64_t x) { return std::gcd(x, d) != 1; }) && ++tries < 12) d = d % 11 + 1;
    shape.push_back(d);
  }
  for (size_t i = 0; i < shape.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      if (std::gcd(shape[i], shape[j]) != 1) c.discard();
  if (numel(shape) > 250) c.discard();
  int64_t slots = genSlots(c, c.chance(70) ? numel(shape) : 1, 7);
  c.desc << (tri ? "tricyclic " : "bicyclic ") << pbt::str(shape) << " slots " << slots;
  if (std::all_of(shape.begin(), shape.end(), [](int64_t d) { return d > 1; })) c.nontrivial();
  auto rel = tri ? getTricyclicLayoutRelation(tensorOf(shape), slots) : getBicyclicLayoutRelation(tensorOf(shape), slots);
  same(c, points(rel), cyclic(shape, slots), "layout");
}

PROP(C10, bicyclic_diagonal, "at least 2 rows and columns, stride above 1", 4000, 60000) {
  int64_t rows = c.range(1, 7), cols = c.range(1, 7), stride = c.range(0, 9), con = c.draw(2), slots = genSlots(c);
  c.desc << "bicyclic diagonal " << rows << "x" << cols << " contracting " << con << " stride " << stride << " slots " << slots;
  if (rows > 1 && cols > 1 && stride > 1) c.nontrivial();
  same(c, points(getBicyclicDiagonalRelation(tensorOf({rows, cols}), con, stride, slots)), bicyclicDiagonal(rows, cols, con, stride, slots), "layout");
}

PROP(C10, per_row_and_replication, "several rows or a real repetition", 5000, 80000) {
  if (c.chance(50)) {
    int64_t rows = c.range(1, 7), cols = c.range(1, 12), slots = genSlots(c, cols);
    c.desc << "per-row " << rows << "x" << cols << " slots " << slots;
    if (rows > 1 && cols > 1) c.nontrivial();
    same(c, points(getPerRowLayoutRelation(tensorOf({rows, cols}), slots)), perRow(rows, cols, slots), "per-row layout");
  } else {
    int64_t slots = genSlots(c), period = c.range(1, slots);
    c.desc << "period " << period << " in " << slots << " slots";
    if (period < slots) c.nontrivial();
    Set want;
    for (int64_t k = 0; k < slots; ++k) want.insert({0, k % period, 0, k});
    same(c, points(getPeriodicReplicationRelation(1, slots, period)), want, "replication");
  }
}

struct Named {
  IntegerRelation rel;
  Set pts;
  Pt shape;
  int64_t cts, slots;
  int kind;
};
// kind 0 row-major, 1 diagonal, 2 bicyclic, 3 tricyclic, 4 per-row
static Named genNamed(Case &c, int kind, const Pt *wantShape = nullptr, int64_t wantSlots = 0) {
  Pt s = wantShape ? *wantShape : genShape(c, kind == 0 ? (size_t)c.range(1, 3) : kind == 3 ? 3 : 2, 48);
  if (kind == 2 || kind == 3)
    for (size_t i = 0; i < s.size(); ++i)
      for (size_t j = 0; j < i; ++j)
        if (std::gcd(s[i], s[j]) != 1) {
          if (!wantShape) { s = kind == 2 ? Pt{3, 5} : Pt{2, 3, 5}; if (c.chance(50)) s = kind == 2 ? Pt{4, 7} : Pt{3, 5, 1}; c.shuffle(s); }
          else c.discard();
        }
  int64_t least = kind == 1 ? *std::max_element(s.begin(), s.end()) : kind == 4 ? s[1] : 1;
  int64_t slots = wantSlots ? std::max(wantSlots, least) : genSlots(c, least);
  auto t = tensorOf(s);
  auto ceil = [&](int64_t n) { return (n + slots - 1) / slots; };
  switch (kind) {
    case 0: return {getRowMajorLayoutRelation(t, slots), rowMajor(s, slots), s, ceil(numel(s)), slots, 0};
    case 1: return {getDiagonalLayoutRelation(t, slots), diagonal(s[0], s[1], slots), s, std::min(pow2ceil(s[0]), pow2ceil(s[1])), slots, 1};
    case 2: return {getBicyclicLayoutRelation(t, slots), cyclic(s, slots), s, ceil(numel(s)), slots, 2};
    case 3: return {getTricyclicLayoutRelation(t, slots), cyclic(s, slots), s, ceil(numel(s)), slots, 3};
    default: return {getPerRowLayoutRelation(t, slots), perRow(s[0], s[1], slots), s, s[0], slots, 4};
  }
}
static const char *kNames[] = {"row-major", "diagonal", "bicyclic", "tricyclic", "per-row"};

PROP(C10, recognisers, "the relation is a different layout of the same shape, or the layout itself in another presentation", 6000, 100000) {
  int kind = (int)c.draw(5);
  Named a = genNamed(c, kind);
  IntegerRelation rel = a.rel;
  Set pts = a.pts;
  int how = (int)c.weighted({25, 25, 25, 25});
  c.desc << "is (" << kNames[kind] << " " << pbt::str(a.shape) << " slots " << a.slots << ", ";
  if (how == 1) {
    Pt lo, hi;
    for (auto d : a.shape) lo.push_back(0), hi.push_back(d - 1);
    lo.push_back(0); hi.push_back(a.cts - 1);
    lo.push_back(0); hi.push_back(a.slots - 1);
    rel = disguise(c, a.rel, lo, hi);
    c.desc << "rewritten) ";
  } else if (how == 2) {  // drop or restrict a few points
    IntegerRelation x(a.rel);
    unsigned v = (unsigned)c.draw(a.shape.size() + 2);
    int64_t limit = v < a.shape.size() ? a.shape[v] - 1 : v == a.shape.size() ? a.cts - 1 : a.slots - 1;
    int64_t at = c.range(0, limit);
    x.addBound(presburger::BoundType::UB, v, at);
    rel = x;
    Set q;
    for (auto &p : pts) if (p[v] <= at) q.insert(p);
    pts = q;
    c.desc << "variable " << v << " limited to " << at << ") ";
  } else if (how == 3) {
    int64_t s2 = genSlots(c, 1);
    int k2 = a.shape.size() == 2 ? c.pickOf<int>({0, 1, 2, 4}) : a.shape.size() == 3 ? c.pickOf<int>({0, 3}) : 0;
    if ((k2 == 2 || k2 == 3))
      for (size_t i = 0; i < a.shape.size(); ++i)
        for (size_t j = 0; j < i; ++j)
          if (std::gcd(a.shape[i], a.shape[j]) != 1) k2 = 0;
    Pt sh = a.shape;
    if (c.chance(30)) for (auto &d : sh) d = std::max<int64_t>(1, d + c.range(-1, 1));
    if (k2 == 2 || k2 == 3) sh = a.shape;
    Named b = genNamed(c, k2, &sh, c.chance(60) ? a.slots : s2);
    rel = b.rel;
    pts = b.pts;
    c.desc << "really " << kNames[k2] << " " << pbt::str(sh) << " slots " << b.slots << ") ";
  } else c.desc << "as built) ";
  auto t = tensorOf(a.shape);
  auto verdict = [&](int k, const Pt &shape, int64_t slots) {
    switch (k) {
      case 0: return isRelationRowMajor(t, slots, rel);
      case 1: return isRelationSquatDiagonal(t, slots, rel);
      case 2: return isRelationBicyclic(t, slots, rel);
      case 3: return isRelationTricyclic(t, slots, rel);
      default: return isRelationPerRow(t, slots, rel);
    }
  };
  bool equal = pts == a.pts, unit = std::any_of(a.shape.begin(), a.shape.end(), [](int64_t d) { return d == 1; });
  if (how == 1 || how == 3) c.nontrivial();
  bool is = verdict(kind, a.shape, a.slots);
  c.desc << (is ? "-> yes" : "-> no");
  c.label(is ? "recognised" : "rejected");
  c.check(!is || equal, "a relation that is not the ", kNames[kind], " layout is recognised as one");
  if (how == 0 && !(unit && (kind == 2 || kind == 3))) c.check(is, "the ", kNames[kind], " layout itself is not recognised");
  c.eq(isRelationEqual(rel, a.rel) && !equal, false, "isRelationEqual of different relations");
  if (how == 0) c.check(isRelationEqual(a.rel, rel), "isRelationEqual of identical relations");
  // the bicyclic and tricyclic recognisers reject shapes they do not apply to
  if (a.shape.size() == 2) c.check(!isRelationTricyclic(t, a.slots, rel), "a matrix is tricyclic");
  if (a.shape.size() == 2 && std::gcd(a.shape[0], a.shape[1]) != 1) c.check(!isRelationBicyclic(t, a.slots, rel), "bicyclic with dimensions that are not coprime");
}

PROP(C10, evaluate_unpack, "at least 4 elements", 5000, 80000) {
  Named a = genNamed(c, (int)c.draw(5));
  c.desc << "evaluate " << kNames[a.kind] << " " << pbt::str(a.shape) << " slots " << a.slots;
  if (numel(a.shape) >= 4) c.nontrivial();
  auto value = [&](const Pt &p) { return flat(a.shape, p) + 1; };
  bool shaped = c.chance(30);
  int64_t extraCt = shaped ? c.range(0, 2) : 0, extraSlot = shaped ? c.range(0, 3) : 0;
  std::vector<Pt> want(a.cts + extraCt, Pt(a.slots + extraSlot, 0));
  size_t r = a.shape.size();
  bool fullCt = false, fullSlot = false;
  for (auto &p : a.pts) {
    want[p[r]][p[r + 1]] = value(Pt(p.begin(), p.begin() + r));
    fullCt |= p[r] == a.cts - 1;
    fullSlot |= p[r + 1] == a.slots - 1;
  }
  (void)fullCt; (void)fullSlot;
  std::vector<Pt> got;
  std::optional<SmallVector<int64_t>> os;
  if (shaped) os = SmallVector<int64_t>{a.cts + extraCt, a.slots + extraSlot};
  if (r == 1) {
    Pt in(a.shape[0]);
    for (size_t i = 0; i < in.size(); ++i) in[i] = i + 1;
    got = evaluateLayoutOnVector<int64_t>(a.rel, in, os);
  } else if (r == 2 && !shaped) {
    std::vector<Pt> in(a.shape[0], Pt(a.shape[1]));
    for (int64_t i = 0; i < a.shape[0]; ++i) for (int64_t j = 0; j < a.shape[1]; ++j) in[i][j] = value({i, j});
    got = evaluateLayoutOnMatrix<int64_t>(a.rel, in);
  } else if (r == 3 && !shaped) {
    std::vector<std::vector<Pt>> in(a.shape[0], std::vector<Pt>(a.shape[1], Pt(a.shape[2])));
    forShape(a.shape, [&](const Pt &p) { in[p[0]][p[1]][p[2]] = value(p); });
    got = evaluateLayoutOnTensor<int64_t>(a.rel, in);
  } else {
    got = evaluateLayout<int64_t>(a.rel, [&](const Pt &p) { return value(p); }, os);
  }
  // without an explicit shape the result may be cut to the used part
  if (!shaped) {
    c.check(got.size() <= want.size(), "too many ciphertexts: ", got.size());
    got.resize(want.size());
    for (auto &g : got) { c.check(g.size() <= (size_t)a.slots, "too many slots"); g.resize(a.slots); }
  }
  c.check(got == want, "packed data differ from the layout");
  // every element can be read back
  bool covers = true;
  {
    std::set<Pt> seen;
    for (auto &p : a.pts) seen.insert(Pt(p.begin(), p.begin() + r));
    covers = (int64_t)seen.size() == numel(a.shape);
  }
  if (a.kind == 0 || a.kind == 4 || (a.kind == 1 && a.slots == pow2ceil(a.slots))) c.check(covers, "the layout does not cover the tensor");
  if (!covers) return;
  if (r == 1) {
    auto back = unpackLayoutToVector<int64_t>(a.rel, got, a.shape);
    for (int64_t i = 0; i < a.shape[0]; ++i) c.eq(back[i], i + 1, "unpacked element ", i);
  } else if (r == 2) {
    auto back = unpackLayoutToMatrix<int64_t>(a.rel, got, a.shape);
    forShape(a.shape, [&](const Pt &p) { c.eq(back[p[0]][p[1]], value(p), "unpacked element ", pbt::str(p)); });
  } else if (r == 3) {
    auto back = unpackLayoutTo3DTensor<int64_t>(a.rel, got, a.shape);
    forShape(a.shape, [&](const Pt &p) { c.eq(back[p[0]][p[1]][p[2]], value(p), "unpacked element ", pbt::str(p)); });
  }
}

PROP(C10, point_queries, "at least 4 points and not the whole box", 6000, 100000) {
  Rel g = genRel(c, (size_t)c.range(1, 3), 2, 500, 10);
  c.desc << "relation " << text(g.rel);
  int64_t vol = 1;
  for (size_t i = 0; i < g.lo.size(); ++i) vol *= g.hi[i] - g.lo[i] + 1;
  if (g.pts.size() >= 4 && (int64_t)g.pts.size() < vol) c.nontrivial();
  c.label(g.pts.empty() ? "empty" : "non-empty");
  same(c, points(g.rel), g.pts, "the built relation");
  PointPairCollector pc((int)g.nd, 2);
  enumeratePoints(g.rel, pc);
  Set got;
  for (auto &[d, r] : pc.points) got.insert(cat(d, r));
  c.eq(got.size(), pc.points.size(), "enumeratePoints repeats points");
  same(c, got, g.pts, "enumeratePoints");
  Set range;
  for (auto &p : g.pts) range.insert(Pt(p.begin() + g.nd, p.end()));
  PointCollector rc;
  getRangePoints(g.rel, rc);
  Set gotR(rc.points.begin(), rc.points.end());
  same(c, gotR, range, "getRangePoints");
  c.eq(gotR.size(), rc.points.size(), "getRangePoints repeats points");
  if (!g.pts.empty()) {
    Pt any = anyRangePoint(g.rel);
    c.check(range.count(any), "anyRangePoint returned ", pbt::str(any), " which is not in the range");
  }
  c.eq(relationSize(g.rel), (int64_t)g.pts.size(), "relationSize");
  int64_t numCts = std::max<int64_t>(1, g.hi[g.nd] + 1 + c.range(-1, 3)), numSlots = std::max<int64_t>(1, g.hi[g.nd + 1] + 1 + (c.chance(80) ? 0 : c.range(-1, 1)));
  auto ty = tensorOf({numCts, numSlots});
  PointCollector cc;
  getCtComplementPoints(g.rel, cc, ty);
  std::vector<Pt> wantC;
  for (int64_t ct = 0; ct < numCts; ++ct)
    if (std::none_of(range.begin(), range.end(), [&](const Pt &p) { return p[0] == ct; })) wantC.push_back({ct});
  c.check(cc.points == wantC, "getCtComplementPoints for ", numCts, " ciphertexts: ", pbt::str(cc.points), ", expected ", pbt::str(wantC));
  Set full;
  forShape({numCts, numSlots}, [&](const Pt &p) { full.insert(p); });
  bool dense = range == full;
  c.label(dense ? "dense" : "not dense");
  c.eq(isDenseLayout(g.rel, ty), dense, "isDenseLayout for ", numCts, "x", numSlots);
}

PROP(C10, single_ciphertext_permutation, "the relation passes the test or fails only by one point", 5000, 80000) {
  // index -> (0, slot): random arithmetic or random relation
  int64_t n = c.range(1, 12), slots = c.range(n, 16);
  IntegerRelation r(PresburgerSpace::getRelationSpace(1, 2, 0, 0));
  Set pts;
  if (c.chance(75)) {
    addBounds(r, 0, 0, n - 1);
    addBounds(r, 1, 0, c.chance(80) ? 0 : 1);
    addBounds(r, 2, 0, slots - 1);
    int64_t a = c.range(-4, 5), b = c.range(0, 9), m = c.chance(70) ? slots : c.range(1, 16), ct = c.chance(80) ? 0 : c.range(-1, 1);
    SmallVector<int64_t> e(r.getNumCols(), 0);
    e[0] = a; e[2] = -1; e[3] = b;
    auto mod = addModConstraint(r, e, m);
    addConstraint(r, {{(int64_t)mod, 1}}, true);
    bool fix = c.chance(80);
    if (fix) addConstraint(r, {{1, 1}, {(int64_t)r.getNumCols() - 1, -ct}}, true);
    pts = points(r);
    c.desc << "slot = " << a << "*i + " << b << " mod " << m << ", i < " << n << ", slot < " << slots << " " << text(r);
  } else {
    Rel g = genRel(c, 1, 2, 120, 8);
    r = g.rel;
    pts = g.pts;
    c.desc << text(r);
  }
  bool one = true;
  std::map<int64_t, int64_t> fwd, bwd;
  for (auto &p : pts) {
    one &= p[1] == 0;
    if (!fwd.emplace(p[0], p[2]).second && fwd[p[0]] != p[2]) one = false;
    if (!bwd.emplace(p[2], p[0]).second && bwd[p[2]] != p[0]) one = false;
  }
  bool is = isOneToOneSingleCiphertextPacking(r);
  if (is || (one && !pts.empty())) c.nontrivial();
  c.label(is ? "accepted" : "rejected");
  if (!pts.empty()) c.check(!is || one, "accepted although it is no injection into ciphertext zero: ", show(pts));
  // acceptance of a plainly presented permutation
  if (one && (int64_t)fwd.size() == n && c.chance(50)) {
    IntegerRelation id(PresburgerSpace::getRelationSpace(1, 2, 0, 0));
    addBounds(id, 0, 0, n - 1);
    addConstraint(id, {{1, 1}}, true);
    int64_t off = c.range(0, 5);
    addConstraint(id, {{2, 1}, {0, -1}, {3, -off}}, true);
    c.check(isOneToOneSingleCiphertextPacking(id), "i -> (0, i + ", off, ") is rejected");
  }
}

PROP(C10, isl_conversion, "the relation has local variables or several constraints", 5000, 80000) {
  Rel g = genRel(c, (size_t)c.range(1, 3), (size_t)c.range(1, 3), 400, 8, false);
  c.desc << text(g.rel);
  if (g.rel.getNumLocalVars() || g.pts.size() > 3) c.nontrivial();
  {
    Isl isl;
    isl_basic_map *b = convertRelationToBasicMap(g.rel, isl.ctx);
    c.check(b != nullptr, "convertRelationToBasicMap failed");
    same(c, pointsOfMap(isl_map_from_basic_map(b)), g.pts, "converted to isl");
  }
  {
    isl_ctx *ctx = isl_ctx_alloc();
    isl_basic_map *b = convertRelationToBasicMap(g.rel, ctx);
    IntegerRelation back = convertBasicMapToRelation(b);
    c.eq(back.getNumDomainVars(), (unsigned)g.nd, "domain dimensions after the round trip");
    c.eq(back.getNumRangeVars(), (unsigned)g.nr, "range dimensions after the round trip");
    same(c, points(back), g.pts, "round trip through isl");
  }
  auto viaText = getIntegerRelationFromIslStr(text(g.rel));
  c.check(succeeded(viaText), "getIntegerRelationFromIslStr failed");
  same(c, points(*viaText), g.pts, "read from text");
}

// ---------------------------------------------------------------------------
// C11

static Set mapPts(const Set &s, const std::function<void(const Pt &, Set &)> &f) {
  Set r;
  for (auto &p : s) f(p, r);
  return r;
}

PROP(C11, fix_and_shift, "the result keeps some but not all points, or the shift is non-zero", 6000, 100000) {
  size_t nd = (size_t)c.range(1, 3);
  Rel g = genRel(c, nd, 2, 500, 9);
  c.desc << text(g.rel) << " ";
  switch (c.draw(3)) {
    case 0: {
      bool dom = c.chance(60);
      size_t off = dom ? 0 : nd, n = dom ? nd : 2;
      Pt v;
      if (!g.pts.empty() && c.chance(70)) {
        auto it = g.pts.begin();
        std::advance(it, c.draw(g.pts.size()));
        v = Pt(it->begin() + off, it->begin() + off + n);
      } else for (size_t i = 0; i < n; ++i) v.push_back(c.range(g.lo[off + i], g.hi[off + i] + 1));
      c.desc << "fix " << (dom ? "domain" : "range") << " to " << pbt::str(v);
      Set want;
      for (auto &p : g.pts) if (std::equal(v.begin(), v.end(), p.begin() + off)) want.insert(p);
      if (!want.empty() && want.size() < g.pts.size()) c.nontrivial();
      {
        IntegerRelation ref(g.rel);
        for (size_t i = 0; i < n; ++i) addConstraint(ref, {{(int64_t)(off + i), 1}, {(int64_t)ref.getNumCols() - 1, -v[i]}}, true);
        if (!libraryKeeps(ref, want)) c.discard();
      }
      auto r = dom ? fixDomainVars(g.rel, v) : fixRangeVars(g.rel, v);
      same(c, points(r), want, "fixVars");
      c.eq(r.getNumDomainVars(), (unsigned)nd, "domain dimensions");
      break;
    }
    case 1: {
      unsigned pos = (unsigned)c.draw(nd + 2);
      int64_t k = c.range(-9, 9);
      c.desc << "shift variable " << pos << " by " << k;
      if (k && !g.pts.empty()) c.nontrivial();
      auto r = shiftVar(g.rel, pos, k);
      c.eq(r.getNumDomainVars(), (unsigned)nd, "domain dimensions");
      c.eq(r.getNumRangeVars(), 2u, "range dimensions");
      same(c, points(r), mapPts(g.pts, [&](Pt p, Set &o) { p[pos] += k; o.insert(p); }), "shiftVar");
      break;
    }
    default: {
      int64_t lb = c.range(-2, 3), ub = lb + c.range(0, 3);
      c.desc << "prepend passthrough dimension in [" << lb << ", " << ub << "]";
      if (ub > lb && !g.pts.empty()) c.nontrivial();
      IntegerRelation r(g.rel);
      bool bounded = c.chance(70);
      prependPassthroughDim(r, bounded ? std::optional<int64_t>(lb) : std::nullopt, bounded ? std::optional<int64_t>(ub) : std::nullopt);
      c.eq(r.getNumDomainVars(), (unsigned)nd + 1, "domain dimensions");
      c.eq(r.getNumRangeVars(), 3u, "range dimensions");
      if (!bounded) {
        r.addBound(presburger::BoundType::LB, 0, lb);
        r.addBound(presburger::BoundType::UB, 0, ub);
      }
      same(c, points(r), mapPts(g.pts, [&](const Pt &p, Set &o) {
        for (int64_t k = lb; k <= ub; ++k) {
          Pt q{k};
          q.insert(q.end(), p.begin(), p.begin() + nd);
          q.push_back(k);
          q.insert(q.end(), p.begin() + nd, p.end());
          o.insert(q);
        }
      }), "prependPassthroughDim");
    }
  }
}

// A random grouping of n dimensions into consecutive groups.
static SmallVector<ReassociationIndices> genGroups(Case &c, size_t n) {
  SmallVector<ReassociationIndices> g;
  for (size_t i = 0; i < n; ++i) {
    if (g.empty() || c.chance(45)) g.push_back({});
    g.back().push_back((int64_t)i);
  }
  return g;
}
static std::string showGroups(const SmallVector<ReassociationIndices> &g) {
  std::string s;
  for (auto &x : g) {
    s += "[";
    for (auto d : x) s += std::to_string(d) + " ";
    s += "]";
  }
  return s;
}

PROP(C11, collapse_expand, "a unit dimension is added or removed next to a larger one", 6000, 100000) {
  // full shape: groups with at most one non-unit dimension each
  size_t n = (size_t)c.range(1, 5);
  auto groups = genGroups(c, n);
  Pt full(n, 1), reduced;
  bool any = false;
  std::vector<size_t> keep;  // full dimension that represents each reduced dimension
  for (auto &g : groups) {
    size_t which = c.draw(g.size());
    int64_t d = c.range(1, 4);
    if (g.size() > 1 && d == 1) d = 2;  // "the collapsed dimensions are all unit dimensions"
    full[g[which]] = d;
    reduced.push_back(d);
    keep.push_back((size_t)g[which]);
    any |= g.size() > 1;
  }
  if (any) c.nontrivial();
  c.desc << "groups " << showGroups(groups) << " full " << pbt::str(full) << " reduced " << pbt::str(reduced);
  auto genOver = [&](const Pt &shape) {
    Named d = genNamed(c, 0, &shape, 1ll << c.range(0, 4));
    Set pts = d.pts;
    IntegerRelation rel = d.rel;
    if (c.chance(50)) {
      // a restriction, so that not only row-major layouts are seen
      SmallVector<std::pair<int64_t, int64_t>> pc;
      Pt k;
      for (size_t i = 0; i < shape.size() + 2; ++i) {
        k.push_back(c.range(-2, 2));
        pc.push_back({(int64_t)i, k.back()});
      }
      int64_t b = c.range(-2, 8);
      pc.push_back({(int64_t)rel.getNumCols() - 1, b});
      addConstraint(rel, pc, false);
      Set q;
      for (auto &p : pts) {
        int64_t v = b;
        for (size_t i = 0; i < p.size(); ++i) v += k[i] * p[i];
        if (v >= 0) q.insert(p);
      }
      pts = q;
    }
    return std::make_pair(rel, pts);
  };
  if (c.chance(50)) {
    auto [rel, pts] = genOver(full);
    auto r = collapseDimensions(rel, tensorOf(full), groups);
    c.eq(r.getNumDomainVars(), (unsigned)reduced.size(), "collapsed rank");
    same(c, points(r), mapPts(pts, [&](const Pt &p, Set &o) {
      Pt q;
      for (auto k : keep) q.push_back(p[k]);
      o.insert(cat(q, {p[n], p[n + 1]}));
    }), "collapseDimensions");
  } else {
    auto [rel, pts] = genOver(reduced);
    auto r = expandDimensions(rel, tensorOf(full), groups);
    c.eq(r.getNumDomainVars(), (unsigned)n, "expanded rank");
    same(c, points(r), mapPts(pts, [&](const Pt &p, Set &o) {
      Pt q(n, 0);
      for (size_t i = 0; i < keep.size(); ++i) q[keep[i]] = p[i];
      o.insert(cat(q, {p[reduced.size()], p[reduced.size() + 1]}));
    }), "expandDimensions");
  }
}

PROP(C11, collapsed_relation, "a group of at least 2 dimensions above 1", 5000, 80000) {
  size_t n = (size_t)c.range(1, 4);
  auto groups = genGroups(c, n);
  Pt shape = genShape(c, n, 60), dest;
  bool any = false;
  for (auto &g : groups) {
    int64_t p = 1, big = 0;
    for (auto d : g) p *= shape[d], big += shape[d] > 1;
    dest.push_back(p);
    any |= big > 1;
  }
  if (any) c.nontrivial();
  c.desc << "collapse " << pbt::str(shape) << " by " << showGroups(groups);
  Set want;
  forShape(shape, [&](const Pt &p) {
    Pt q;
    for (auto &g : groups) {
      int64_t f = 0;
      for (auto d : g) f = f * shape[d] + p[d];
      q.push_back(f);
    }
    want.insert(cat(p, q));
  });
  same(c, points(getCollapsedRelation(tensorOf(shape), tensorOf(dest), groups)), want, "getCollapsedRelation");
}

PROP(C11, slices, "a rank-reduced slice or a unit dimension that is kept, with a non-zero offset", 7000, 120000) {
  size_t n = (size_t)c.range(1, 4);
  Pt full(n), off(n), size(n), stride(n), slice;
  std::vector<int> dim(n, -1);
  bool reduced = false, keptUnit = false, moved = false;
  for (size_t i = 0; i < n; ++i) {
    full[i] = c.range(1, 7);
    stride[i] = c.chance(70) ? 1 : c.range(2, 3);
    off[i] = c.chance(40) ? 0 : c.range(0, full[i] - 1);
    int64_t most = (full[i] - 1 - off[i]) / stride[i] + 1;
    size[i] = c.chance(35) ? 1 : c.range(1, most);
    moved |= off[i] != 0;
    if (size[i] == 1 && c.chance(55)) reduced = true;
    else {
      keptUnit |= size[i] == 1;
      dim[i] = (int)slice.size();
      slice.push_back(size[i]);
    }
  }
  if (moved && (reduced || keptUnit)) c.nontrivial();
  c.desc << "slice " << pbt::str(slice) << " of " << pbt::str(full) << " offsets " << pbt::str(off) << " sizes " << pbt::str(size) << " strides " << pbt::str(stride);
  Set ins, ext;
  forShape(slice, [&](const Pt &p) {
    Pt q(n);
    for (size_t i = 0; i < n; ++i) q[i] = off[i] + (dim[i] >= 0 ? p[dim[i]] * stride[i] : 0);
    ins.insert(cat(p, q));
    ext.insert(cat(q, p));
  });
  auto sv = [](const Pt &p) { return SmallVector<int64_t>(p.begin(), p.end()); };
  auto a = getSliceInsertionRelation(tensorOf(slice), tensorOf(full), sv(off), sv(size), sv(stride));
  c.check(succeeded(a), "getSliceInsertionRelation failed");
  same(c, points(*a), ins, "getSliceInsertionRelation");
  auto b = getSliceExtractionRelation(tensorOf(full), tensorOf(slice), sv(off), sv(size), sv(stride));
  c.check(succeeded(b), "getSliceExtractionRelation failed");
  same(c, points(*b), ext, "getSliceExtractionRelation");
  if (c.chance(25)) {
    auto dyn = sv(off), st = sv(stride);
    (c.chance(70) ? dyn : st)[c.draw(n)] = ShapedType::kDynamic;
    auto x = getSliceInsertionRelation(tensorOf(slice), tensorOf(full), dyn, sv(size), st);
    c.check(failed(x) || points(*x).size() >= ins.size(), "a slice at a dynamic position maps to ", succeeded(x) ? show(points(*x)) : "");
  }
}

PROP(C11, padding, "some padding on both sides", 5000, 80000) {
  size_t n = (size_t)c.range(1, 3);
  Pt in(n), out(n), low(n);
  bool both = false;
  for (size_t i = 0; i < n; ++i) {
    in[i] = c.range(1, 5);
    low[i] = c.range(0, 3);
    int64_t high = c.range(0, 3);
    out[i] = in[i] + low[i] + high;
    both |= low[i] && high;
  }
  if (both) c.nontrivial();
  c.desc << "pad " << pbt::str(in) << " low " << pbt::str(low) << " to " << pbt::str(out);
  Set want;
  forShape(in, [&](const Pt &p) {
    Pt q = p;
    for (size_t i = 0; i < n; ++i) q[i] += low[i];
    want.insert(cat(q, p));
  });
  same(c, points(getPaddingRelation(tensorOf(out), tensorOf(in), low)), want, "getPaddingRelation");
}

PROP(C11, fold_permutation, "a permutation other than the identity and at least 2 rows", 4000, 60000) {
  int64_t rows = c.range(1, 5), cols = c.range(2, 8);
  int64_t a = c.range(1, 9), b = c.range(0, 9), m = cols;
  if (std::gcd(a, m) != 1) a = 1;
  bool mod = c.chance(70);
  IntegerRelation vp(PresburgerSpace::getRelationSpace(1, 2, 0, 0));
  addBounds(vp, 0, 0, cols - 1);
  addConstraint(vp, {{1, 1}}, true);
  addBounds(vp, 2, 0, cols - 1);
  SmallVector<int64_t> e(vp.getNumCols(), 0);
  if (mod) {
    e[0] = a; e[3] = b;
    auto q = addModConstraint(vp, e, m);
    addConstraint(vp, {{(int64_t)q, 1}, {2, -1}}, true);
  } else {
    addConstraint(vp, {{0, 1}, {2, 1}, {3, -(cols - 1)}}, true);  // reversal
  }
  Set vpts;
  for (int64_t i = 0; i < cols; ++i) vpts.insert({i, 0, mod ? (a * i + b) % m : cols - 1 - i});
  Pt shape{rows, cols};
  Named l = genNamed(c, c.pickOf<int>({0, 1, 4}), &shape, 1ll << c.range(3, 5));
  c.desc << (mod ? "slot = " + std::to_string(a) + "*col + " + std::to_string(b) + " mod " + std::to_string(m) : std::string("reversal")) << ", " << kNames[l.kind] << " " << rows << "x" << cols << " slots " << l.slots;
  if (rows > 1 && (!mod || a != 1 || b % m)) c.nontrivial();
  same(c, points(vp), vpts, "permutation");
  Set lift;
  for (auto &p : vpts) for (int64_t r = 0; r < rows; ++r) lift.insert({r, p[0], r, p[2]});
  auto r = foldVectorPermutationIntoMatrixLayout(vp, l.rel);
  same(c, points(r), compose(lift, 2, l.pts, 2), "foldVectorPermutationIntoMatrixLayout");
}

PROP(C11, hoist_matvec, "the vector layouts differ", 3000, 50000) {
  int64_t n = c.range(2, 8), slots = pow2ceil(n) * (1ll << c.range(0, 1));
  int64_t rows = c.range(1, std::min<int64_t>(6, slots));
  auto vec = [&](Set &pts) {
    int64_t shift = c.range(0, slots - 1), neg = c.chance(25);
    if (c.chance(35)) {
      Pt s{n};
      Named x = genNamed(c, 0, &s, slots);
      pts = x.pts;
      c.desc << " row-major";
      return x.rel;
    }
    IntegerRelation r(PresburgerSpace::getRelationSpace(1, 2, 0, 0));
    addBounds(r, 0, 0, n - 1);
    addBounds(r, 1, 0, 0);
    addBounds(r, 2, 0, slots - 1);
    int64_t m = c.chance(50) ? slots : pow2ceil(n);
    SmallVector<int64_t> e(r.getNumCols(), 0);
    e[0] = neg ? 1 : -1; e[2] = 1; e[3] = shift;
    auto q = addModConstraint(r, e, m);
    addConstraint(r, {{(int64_t)q, 1}}, true);
    for (int64_t i = 0; i < n; ++i) for (int64_t k = 0; k < slots; ++k) if (emod((neg ? i : -i) + k + shift, m) == 0) pts.insert({i, 0, k});
    c.desc << " (" << (neg ? "" : "-") << "i + slot + " << shift << ") mod " << m << " = 0";
    return r;
  };
  c.desc << n << " elements, from";
  Set fp, tp;
  IntegerRelation from = vec(fp);
  c.desc << " to";
  IntegerRelation to = vec(tp);
  Pt shape{rows, n};
  Named l = genNamed(c, c.pickOf<int>({1, 1, 4, 0}), &shape, slots);
  c.desc << ", matrix " << kNames[l.kind] << " " << rows << "x" << n << " slots " << l.slots;
  if (fp != tp) c.nontrivial();
  if (!from.getConstantBoundOnDimSize64(1) || !to.getConstantBoundOnDimSize64(1)) {
    // a layout attribute holds the simplified form
    auto simple = [&](IntegerRelation &r) {
      Isl isl;
      isl_map *m = isl_map_coalesce(isl_map_read_from_str(isl.ctx, text(r).c_str()));
      char *t = isl_map_to_str(m);
      auto x = getIntegerRelationFromIslStr(t);
      free(t);
      isl_map_free(m);
      if (succeeded(x)) r = *x;
    };
    simple(from);
    simple(to);
    if (!from.getConstantBoundOnDimSize64(1) || !to.getConstantBoundOnDimSize64(1)) c.discard();
  }
  // slot s is repacked to slot t when some element is at s before and at t after
  Set repack;
  int64_t cts = 0;
  for (auto &p : l.pts) cts = std::max(cts, p[2]);
  for (auto &p : fp) for (auto &q : tp) if (p[0] == q[0]) for (int64_t k = 0; k <= cts; ++k) repack.insert({k, p[2], k, q[2]});
  auto r = hoistConversionThroughMatvec(l.rel, from, to);
  same(c, points(r), compose(l.pts, 2, repack, 2), "hoistConversionThroughMatvec");
}

PROP(C11, insert_slice_layout, "several slices are placed next to each other", 4000, 60000) {
  // result shape; the slice fills it except in unit dimensions
  size_t n = (size_t)c.range(1, 4);
  Pt result(n), sizes(n), sliceShape;
  std::vector<size_t> unit;
  bool reduced = c.chance(60);
  for (size_t i = 0; i < n; ++i) {
    bool u = c.chance(50);
    result[i] = c.range(1, 4);
    sizes[i] = u ? 1 : result[i];
    if (sizes[i] == 1) unit.push_back(i);
    if (!(sizes[i] == 1 && reduced)) sliceShape.push_back(sizes[i]);
  }
  if (reduced && sliceShape.empty()) c.discard();
  if (unit.empty()) reduced = false;
  Named l = genNamed(c, 0, &sliceShape, 1ll << c.range(0, 4));
  // non-unit sizes follow the layout, each slice gets its own ciphertexts
  int64_t maxCt = 0;
  for (auto &p : l.pts) maxCt = std::max(maxCt, p[sliceShape.size()]);
  int64_t count = 1;
  for (auto u : unit) count *= result[u];
  c.desc << "sizes " << pbt::str(sizes) << " into " << pbt::str(result) << ", slice " << pbt::str(sliceShape) << " row-major in " << l.slots << " slots";
  if (count > 1) c.nontrivial();
  auto r = pushSliceLayoutThroughInsertSlice(SmallVector<int64_t>(sizes.begin(), sizes.end()), result, l.rel);
  c.check(succeeded(r), "failed");
  Set got = points(*r);
  // Every slice keeps its own layout as a contiguous block of ciphertexts, and
  // different slices do not overlap.
  std::map<Pt, Set> perSlice;  // unit coordinates -> (slice domain, ct, slot)
  std::map<Pt, Pt> where;
  for (auto &p : got) {
    Pt key, dom;
    for (size_t i = 0; i < n; ++i) {
      bool u = std::find(unit.begin(), unit.end(), i) != unit.end();
      if (u) key.push_back(p[i]);
      if (!(u && reduced)) dom.push_back(u ? 0 : p[i]);
    }
    perSlice[key].insert(cat(dom, {p[n], p[n + 1]}));
    auto [it, fresh] = where.emplace(Pt{p[n], p[n + 1]}, Pt(p.begin(), p.begin() + n));
    if (l.kind == 0) c.check(fresh || it->second == Pt(p.begin(), p.begin() + n), "elements ", pbt::str(it->second), " and ", pbt::str(Pt(p.begin(), p.begin() + n)), " share a slot");
  }
  c.eq((int64_t)perSlice.size(), count, "number of slices placed");
  std::set<int64_t> blocks;
  for (auto &[key, s] : perSlice) {
    int64_t lo = INT64_MAX;
    for (auto &p : s) lo = std::min(lo, p[p.size() - 2]);
    Set shifted;
    for (auto p : s) { p[p.size() - 2] -= lo; shifted.insert(p); }
    same(c, shifted, l.pts, "the layout of slice " + pbt::str(key));
    c.check(lo % (maxCt + 1) == 0 && lo / (maxCt + 1) >= 0 && lo / (maxCt + 1) < count, "slice ", pbt::str(key), " starts at ciphertext ", lo);
    c.check(blocks.insert(lo).second, "two slices start at ciphertext ", lo);
  }
}
