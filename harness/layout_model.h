// Explicit point sets as the model of layout relations.
#pragma once
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <vector>

#include "include/isl/ctx.h"
#include "include/isl/map.h"
#include "include/isl/options.h"
#include "include/isl/point.h"
#include "include/isl/set.h"
#include "include/isl/space.h"
#include "include/isl/val.h"
#include "lib/Utils/Layout/Utils.h"
#include "mlir/include/mlir/IR/BuiltinTypes.h"
#include "mlir/include/mlir/IR/MLIRContext.h"
#include "pbt.h"

namespace lm {
using mlir::presburger::IntegerRelation;
using mlir::presburger::PresburgerSpace;
using mlir::presburger::VarKind;
using Pt = std::vector<int64_t>;   // domain coordinates followed by range coordinates
using Set = std::set<Pt>;

inline mlir::MLIRContext *context() {
  static mlir::MLIRContext *ctx = new mlir::MLIRContext(mlir::MLIRContext::Threading::DISABLED);
  return ctx;
}
inline mlir::RankedTensorType tensorOf(const Pt &shape) {
  return mlir::RankedTensorType::get(shape, mlir::Float32Type::get(context()));
}

// The relation as text, written from its constraints.
inline std::string text(const IntegerRelation &r) {
  unsigned nd = r.getNumDomainVars(), nr = r.getNumRangeVars(), nv = r.getNumVars(), ns = r.getNumSymbolVars();
  (void)ns;
  auto name = [&](unsigned i) {
    if (i < nd) return "d" + std::to_string(i);
    if (i < nd + nr) return "r" + std::to_string(i - nd);
    return "l" + std::to_string(i - nd - nr);
  };
  std::ostringstream o;
  o << "{ [";
  for (unsigned i = 0; i < nd; ++i) o << (i ? "," : "") << name(i);
  o << "] -> [";
  for (unsigned i = 0; i < nr; ++i) o << (i ? "," : "") << name(nd + i);
  o << "] : ";
  if (nv > nd + nr) {
    o << "exists (";
    for (unsigned i = nd + nr; i < nv; ++i) o << (i > nd + nr ? "," : "") << name(i);
    o << " : ";
  }
  bool first = true;
  auto row = [&](auto at, const char *rel) {
    o << (first ? "" : " and ");
    first = false;
    for (unsigned j = 0; j < nv; ++j)
      if (int64_t k = at(j)) o << k << name(j) << " + ";
    o << at(nv) << rel;
  };
  for (unsigned i = 0; i < r.getNumEqualities(); ++i) row([&](unsigned j) { return r.atEq64(i, j); }, " = 0");
  for (unsigned i = 0; i < r.getNumInequalities(); ++i) row([&](unsigned j) { return r.atIneq64(i, j); }, " >= 0");
  if (first) o << "0 = 0";
  if (nv > nd + nr) o << ")";
  o << " }";
  return o.str();
}

struct Isl {
  isl_ctx *ctx;
  Isl() : ctx(isl_ctx_alloc()) { isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE); }
  ~Isl() { isl_ctx_free(ctx); }
};
inline isl_stat collect(isl_point *p, void *u) {
  auto &[out, cap] = *(std::pair<Set, size_t> *)u;
  isl_space *sp = isl_point_get_space(p);
  int n = (int)isl_space_dim(sp, isl_dim_set);
  isl_space_free(sp);
  Pt v(n);
  for (int i = 0; i < n; ++i) {
    isl_val *x = isl_point_get_coordinate_val(p, isl_dim_set, i);
    v[i] = isl_val_get_num_si(x);
    isl_val_free(x);
  }
  isl_point_free(p);
  out.insert(v);
  return out.size() > cap ? isl_stat_error : isl_stat_ok;
}
inline Set pointsOfMap(isl_map *m, size_t cap = 200000) {
  isl_set *s = isl_map_wrap(m);
  std::pair<Set, size_t> acc{{}, cap};
  if (isl_set_is_bounded(s) != isl_bool_true) {
    isl_set_free(s);
    throw pbt::Failure{"the relation is unbounded"};
  }
  // Flatten the wrapped map so that points have plain coordinates.
  s = isl_set_flatten(s);
  isl_set_foreach_point(s, collect, &acc);
  isl_set_free(s);
  if (acc.first.size() > cap) throw pbt::Failure{"the relation has more than " + std::to_string(cap) + " points"};
  return acc.first;
}
inline Set points(const IntegerRelation &r, size_t cap = 200000) {
  Isl isl;
  isl_map *m = isl_map_read_from_str(isl.ctx, text(r).c_str());
  if (!m) throw pbt::Failure{"could not parse " + text(r)};
  return pointsOfMap(m, cap);
}
inline std::string show(const Set &s, size_t n = 12) {
  std::ostringstream o;
  o << s.size() << " points {";
  size_t k = 0;
  for (auto &p : s) {
    if (k++ == n) { o << " ..."; break; }
    o << " " << pbt::str(p);
  }
  o << " }";
  return o.str();
}
inline void same(pbt::Case &c, const Set &got, const Set &want, const std::string &what) {
  if (got == want) return;
  std::ostringstream o;
  o << what << ": ";
  for (auto &p : want)
    if (!got.count(p)) { o << "point " << pbt::str(p) << " is missing; "; break; }
  for (auto &p : got)
    if (!want.count(p)) { o << "point " << pbt::str(p) << " does not belong; "; break; }
  o << got.size() << " points, expected " << want.size();
  c.fail(o.str());
}

// All integer points of a box, in row-major order.
inline void forBox(const Pt &lo, const Pt &hi, const std::function<void(const Pt &)> &f) {
  for (size_t i = 0; i < lo.size(); ++i)
    if (lo[i] > hi[i]) return;
  Pt p = lo;
  while (true) {
    f(p);
    int i = (int)p.size() - 1;
    for (; i >= 0; --i) {
      if (++p[i] <= hi[i]) break;
      p[i] = lo[i];
    }
    if (i < 0) return;
  }
}
inline void forShape(const Pt &shape, const std::function<void(const Pt &)> &f) {
  Pt lo(shape.size(), 0), hi;
  for (auto s : shape) hi.push_back(s - 1);
  forBox(lo, hi, f);
}
inline int64_t flat(const Pt &shape, const Pt &p) {
  int64_t r = 0;
  for (size_t i = 0; i < shape.size(); ++i) r = r * shape[i] + p[i];
  return r;
}
inline int64_t pow2ceil(int64_t n) {
  int64_t p = 1;
  while (p < n) p *= 2;
  return p;
}
inline int64_t numel(const Pt &s) {
  int64_t r = 1;
  for (auto x : s) r *= x;
  return r;
}
inline int64_t emod(int64_t a, int64_t m) { return ((a % m) + m) % m; }
inline Pt cat(const Pt &a, const Pt &b) {
  Pt r = a;
  r.insert(r.end(), b.begin(), b.end());
  return r;
}
// a: pairs X->Y, b: pairs Y->Z
inline Set compose(const Set &a, size_t nx, const Set &b, size_t ny) {
  std::map<Pt, std::vector<Pt>> idx;
  for (auto &p : b) idx[Pt(p.begin(), p.begin() + ny)].push_back(Pt(p.begin() + ny, p.end()));
  Set r;
  for (auto &p : a) {
    auto it = idx.find(Pt(p.begin() + nx, p.end()));
    if (it == idx.end()) continue;
    for (auto &z : it->second) r.insert(cat(Pt(p.begin(), p.begin() + nx), z));
  }
  return r;
}

// The layouts as formulas.
inline Set rowMajor(const Pt &shape, int64_t slots) {
  Set s;
  int64_t n = numel(shape), padded = pow2ceil(n);
  forShape(shape, [&](const Pt &p) {
    int64_t f = flat(shape, p);
    for (int64_t k = 0; k < slots; ++k)
      if (k % padded == f % slots) s.insert(cat(p, {f / slots, k}));
  });
  return s;
}
inline Set diagonal(int64_t rows, int64_t cols, int64_t slots) {
  Set s;
  int64_t pr = pow2ceil(rows), pc = pow2ceil(cols);
  for (int64_t ct = 0; ct < std::min(pr, pc); ++ct)
    for (int64_t k = 0; k < slots; ++k) {
      int64_t r = k % pr, q = (ct + k) % pc;
      if (r < rows && q < cols) s.insert({r, q, ct, k});
    }
  return s;
}
inline Set cyclic(const Pt &shape, int64_t slots) {
  Set s;
  int64_t cts = (numel(shape) + slots - 1) / slots;
  for (int64_t k = 0; k < cts * slots; ++k) {
    Pt p;
    for (auto d : shape) p.push_back(k % d);
    s.insert(cat(p, {k / slots, k % slots}));
  }
  return s;
}
inline Set perRow(int64_t rows, int64_t cols, int64_t slots) {
  Set s;
  int64_t pc = pow2ceil(cols);
  for (int64_t r = 0; r < rows; ++r)
    for (int64_t k = 0; k < slots; ++k)
      if (k % pc < cols) s.insert({r, k % pc, r, k});
  return s;
}
inline Set bicyclicDiagonal(int64_t rows, int64_t cols, int64_t contraction, int64_t stride, int64_t slots) {
  Set s;
  int64_t n = contraction ? cols : rows, p = contraction ? rows : cols;
  for (int64_t d = 0; d < n; ++d)
    for (int64_t k = 0; k < slots; ++k) {
      int64_t x = emod(k + d * stride, n), y = k % p;
      if (contraction) s.insert({y, x, d, k});
      else s.insert({x, y, d, k});
    }
  return s;
}

// A random relation over a small box together with its points.
struct Rel {
  IntegerRelation rel;
  Set pts;
  Pt lo, hi;
  size_t nd, nr;
};
// MLIR 20's own Gaussian elimination (in the prebuilt library, not part of this repository) changes the set when an
// inequality mentions a variable that comes before a non-unit pivot: such relations say nothing about this repository.
inline bool libraryKeeps(IntegerRelation r, const Set &pts) {
  r.simplify();
  r.removeRedundantConstraints();
  return points(r) == pts;
}

inline Rel genRel(pbt::Case &c, size_t nd, size_t nr, int64_t maxVol = 700, int64_t rangeMax = 12, bool nonneg = true) {
  using mlir::heir::addBounds;
  using mlir::heir::addConstraint;
  using mlir::heir::addModConstraint;
  size_t n = nd + nr;
  IntegerRelation r(PresburgerSpace::getRelationSpace(nd, nr, 0, 0));
  Pt lo(n), hi(n);
  int64_t vol = 1;
  for (size_t i = 0; i < n; ++i) {
    lo[i] = nonneg || c.chance(60) ? 0 : c.range(-3, 3);
    int64_t most = std::min<int64_t>(rangeMax, std::max<int64_t>(1, maxVol / vol));
    int64_t len = c.range(1, most);
    hi[i] = lo[i] + len - 1;
    vol *= len;
    addBounds(r, i, lo[i], hi[i]);
  }
  struct Con { Pt k; int64_t c; int kind; int64_t m; };
  std::vector<Con> cons;
  int nc = (int)c.range(0, 3);
  for (int j = 0; j < nc; ++j) {
    Con q;
    q.k.resize(n);
    for (auto &x : q.k) x = c.chance(45) ? 0 : c.range(-3, 3);
    q.c = c.range(-6, 6);
    // (an equality of a single variable has a unit coefficient)
    q.kind = (int)c.weighted({3, 2, 4, 3});
    q.m = c.range(2, 6);
    if (q.kind == 3) q.m = c.range(1, 5);
    if (q.kind == 1 && std::count_if(q.k.begin(), q.k.end(), [](int64_t x) { return x != 0; }) == 1)
      for (auto &x : q.k) x = x > 0 ? 1 : x < 0 ? -1 : 0;
    cons.push_back(q);
    if (q.kind <= 1) {
      llvm::SmallVector<std::pair<int64_t, int64_t>> pc;
      for (size_t i = 0; i < n; ++i) if (q.k[i]) pc.push_back({(int64_t)i, q.k[i]});
      pc.push_back({(int64_t)r.getNumCols() - 1, q.c});
      addConstraint(r, pc, q.kind == 1);
    } else {
      llvm::SmallVector<int64_t> e(r.getNumCols(), 0);
      for (size_t i = 0; i < n; ++i) e[i] = q.k[i];
      e[r.getNumCols() - 1] = q.c;
      // the modulus expression of addModConstraint ranges over the non-local variables
      auto mod = addModConstraint(r, e, q.m);
      if (q.kind == 2) addConstraint(r, {{(int64_t)mod, 1}}, true);                                         // expr = 0 mod m
      else addConstraint(r, {{(int64_t)mod, -1}, {(int64_t)r.getNumCols() - 1, q.m / 2}}, false);  // expr mod m <= m/2
    }
  }
  Set s;
  forBox(lo, hi, [&](const Pt &p) {
    for (auto &q : cons) {
      int64_t v = q.c;
      for (size_t i = 0; i < n; ++i) v += q.k[i] * p[i];
      if (q.kind == 0 && v < 0) return;
      if (q.kind == 1 && v != 0) return;
      if (q.kind == 2 && emod(v, q.m) != 0) return;
      if (q.kind == 3 && emod(v, q.m) > q.m / 2) return;
    }
    s.insert(p);
  });
  if (!libraryKeeps(r, s)) c.discard();
  return {r, s, lo, hi, nd, nr};
}

// The same set in a different presentation (redundant and split constraints).
inline IntegerRelation disguise(pbt::Case &c, const IntegerRelation &r, const Pt &lo, const Pt &hi) {
  IntegerRelation x(r);
  unsigned n = (unsigned)lo.size();
  int k = (int)c.range(1, 3);
  for (int i = 0; i < k; ++i) {
    switch (c.draw(3)) {
      case 0: {  // a redundant bound
        unsigned v = (unsigned)c.draw(n);
        mlir::heir::addBounds(x, v, lo[v] - c.range(0, 3), hi[v] + c.range(0, 3));
        break;
      }
      case 1: {  // a redundant sum
        unsigned a = (unsigned)c.draw(n), b = (unsigned)c.draw(n);
        if (a == b) break;
        mlir::heir::addConstraint(x, {{a, 1}, {b, 1}, {(int64_t)x.getNumCols() - 1, -lo[a] - lo[b]}}, false);
        break;
      }
      default: {  // a vacuous remainder
        unsigned a = (unsigned)c.draw(n);
        llvm::SmallVector<int64_t> e(x.getNumCols(), 0);
        e[a] = 1;
        mlir::heir::addModConstraint(x, e, c.range(2, 5));
      }
    }
  }
  return x;
}
}  // namespace lm
