// C09: layouts of convolutions.
#include "layout_model.h"
#include "lib/Kernel/EvalVisitor.h"
#include "lib/Kernel/KernelImplementation.h"
#include "lib/Utils/Layout/Convolution.h"
#include "lib/Utils/Layout/Evaluate.h"
#include "lib/Utils/Layout/Utils.h"

using namespace mlir::heir;
using namespace mlir;
using namespace lm;
using pbt::Case;

static int64_t outSize(int64_t data, int64_t filter, int64_t stride, int64_t pad) { return (data + 2 * pad - filter) / stride + 1; }

struct Axis { int64_t data, filter, stride, pad, out; };
// A window that fits at least once.
static Axis genAxis(Case &c, int64_t maxData, int64_t maxFilter, int64_t maxStride, int64_t maxPad, int64_t pad = -1) {
  Axis a;
  a.data = c.range(1, maxData);
  a.pad = pad >= 0 ? pad : c.range(0, maxPad);
  a.filter = c.range(1, std::min<int64_t>(maxFilter, a.data + 2 * a.pad));
  a.stride = c.range(1, maxStride);
  a.out = outSize(a.data, a.filter, a.stride, a.pad);
  return a;
}
static std::string show(const Axis &a) {
  std::ostringstream o;
  o << "data " << a.data << " filter " << a.filter << " stride " << a.stride << " pad " << a.pad;
  return o.str();
}
// (filter index, output index) -> data index, or -1 in the padding
static int64_t dataAt(const Axis &a, int64_t f, int64_t o) {
  int64_t d = o * a.stride - a.pad + f;
  return d >= 0 && d < a.data ? d : -1;
}
static Set toeplitz1(const Axis &x) {
  Set s;
  for (int64_t f = 0; f < x.filter; ++f)
    for (int64_t o = 0; o < x.out; ++o)
      if (int64_t d = dataAt(x, f, o); d >= 0) s.insert({f, o, d});
  return s;
}
static Set toeplitz2(const Axis &y, const Axis &x) {
  Set s;
  for (int64_t fy = 0; fy < y.filter; ++fy)
    for (int64_t fx = 0; fx < x.filter; ++fx)
      for (int64_t oy = 0; oy < y.out; ++oy)
        for (int64_t ox = 0; ox < x.out; ++ox) {
          int64_t dy = dataAt(y, fy, oy), dx = dataAt(x, fx, ox);
          if (dy >= 0 && dx >= 0) s.insert({fy, fx, oy * x.out + ox, dy * x.data + dx});
        }
  return s;
}
static Set channels(const Set &one, size_t nf, int64_t F, int64_t C, int64_t rows, int64_t cols) {
  Set s;
  for (auto &p : one)
    for (int64_t f = 0; f < F; ++f)
      for (int64_t ch = 0; ch < C; ++ch) {
        Pt q{f, ch};
        q.insert(q.end(), p.begin(), p.begin() + nf);
        q.push_back(f * rows + p[nf]);
        q.push_back(ch * cols + p[nf + 1]);
        s.insert(q);
      }
  return s;
}
static void shapeIs(Case &c, RankedTensorType t, int64_t rows, int64_t cols, const char *what) {
  c.eq(t.getRank(), (int64_t)2, what);
  c.eq(t.getDimSize(0), rows, std::string(what) + " rows");
  c.eq(t.getDimSize(1), cols, std::string(what) + " cols");
}

PROP(C09, toeplitz_1d, "padding or stride above 1 with a filter of at least 2", 3000, 40000) {
  Axis x = genAxis(c, c.thorough ? 20 : 12, 5, 4, 3);
  c.desc << show(x);
  c.label(x.stride > 1 ? "strided" : "dense");
  if (x.filter > 1 && (x.pad || x.stride > 1)) c.nontrivial();
  auto F = tensorOf({x.filter}), D = tensorOf({x.data});
  same(c, points(get1dConvFilterRelation(F, D, x.stride, x.pad)), toeplitz1(x), "1-D convolution matrix");
  shapeIs(c, get1dConvFilterExpandedType(F, D, x.stride, x.pad), x.out, x.data, "1-D expanded type");
}

PROP(C09, toeplitz_2d, "padding or stride above 1 with a filter of at least 2x2", 3000, 40000) {
  Axis y = genAxis(c, 6, 4, 3, 2), x = genAxis(c, 6, 4, 3, 2, y.pad);
  c.desc << "rows: " << show(y) << "; cols: " << show(x);
  c.label(y.stride == x.stride ? "equal strides" : "unequal strides");
  if (y.filter > 1 && x.filter > 1 && (x.pad || x.stride > 1 || y.stride > 1)) c.nontrivial();
  auto F = tensorOf({y.filter, x.filter}), D = tensorOf({y.data, x.data});
  same(c, points(get2dConvFilterRelation(F, D, {y.stride, x.stride}, y.pad)), toeplitz2(y, x), "2-D convolution matrix");
  shapeIs(c, get2dConvFilterExpandedType(F, D, y.pad, {y.stride, x.stride}), y.out * x.out, y.data * x.data, "2-D expanded type");
}

PROP(C09, toeplitz_channels, "at least 2 channels in or out, and padding or stride", 2500, 30000) {
  bool two = c.chance(50);
  int64_t F = c.range(1, 4), C = c.range(1, 3);
  Axis x = genAxis(c, two ? 5 : 9, two ? 3 : 4, 3, 2);
  c.desc << "F=" << F << " C=" << C << " " << show(x);
  if ((F > 1 || C > 1) && (x.pad || x.stride > 1)) c.nontrivial();
  if (!two) {
    auto fT = tensorOf({F, C, x.filter}), dT = tensorOf({1, C, x.data});
    same(c, points(get1dConvCwFcwFilterRelation(fT, dT, x.stride, x.pad)), channels(toeplitz1(x), 1, F, C, x.out, x.data), "multi-channel 1-D convolution matrix");
    shapeIs(c, get1dConvCwFcwFilterExpandedType(fT, dT, x.stride, x.pad), F * x.out, C * x.data, "multi-channel 1-D expanded type");
    return;
  }
  Axis y = genAxis(c, 5, 3, 3, 2, x.pad);
  c.desc << "; rows: " << show(y);
  auto fT = tensorOf({F, C, y.filter, x.filter}), dT = tensorOf({1, C, y.data, x.data});
  same(c, points(get2dConvChwFchwFilterRelation(fT, dT, {y.stride, x.stride}, x.pad)),
       channels(toeplitz2(y, x), 2, F, C, y.out * x.out, y.data * x.data), "multi-channel 2-D convolution matrix");
  shapeIs(c, get2dConvChwFchwFilterExpandedType(fT, dT, x.pad, {y.stride, x.stride}), F * y.out * x.out, C * y.data * x.data, "multi-channel 2-D expanded type");
}

// The image of one point (a full enumeration of the interchange layout can be very slow in isl).
static Set imageOf(const IntegerRelation &r, const Pt &p) {
  IntegerRelation q(r);
  for (size_t i = 0; i < p.size(); ++i) addBounds(q, i, p[i], p[i]);
  Set s;
  for (auto &x : points(q)) s.insert(Pt(x.begin() + p.size(), x.end()));
  return s;
}

// The pixel shuffle: channel ci of pixel (hi, wi) moves to sub-pixel ((ci mod g^2) div g, ci mod g) of channel ci div g^2.
static int64_t shuffle2(int64_t c, int64_t h, int64_t w, int64_t g, int64_t idx) {
  int64_t wi = idx % w, hi = idx / w % h, ci = idx / (w * h);
  (void)c;
  int64_t co = ci / (g * g), wo = wi * g + ci % g, ho = hi * g + ci % (g * g) / g;
  return (co * h * g + ho) * w * g + wo;
}
static int64_t shuffle1(int64_t w, int64_t g, int64_t idx) {
  int64_t wi = idx % w, ci = idx / w;
  return ci / g * w * g + wi * g + ci % g;
}

PROP(C09, row_interchange, "gap above 1 and at least 2 output positions", 2500, 30000) {
  int64_t g = c.range(1, 3);
  bool two = c.chance(60);
  int64_t ch = c.range(1, 2) * (two ? g * g : g), h = two ? c.range(1, 4) : 1, w = c.range(1, two ? 4 : 8);
  int64_t n = ch * h * w;
  c.desc << (two ? "2-D " : "1-D ") << "channels " << ch << " " << h << "x" << w << " gap " << g;
  if (g > 1 && h * w > 1) c.nontrivial();
  auto to = [&](int64_t i) { return two ? shuffle2(ch, h, w, g, i) : shuffle1(w, g, i); };
  auto rel = two ? get2dConvRowInterchangeRelation(ch, h, w, g) : get1dConvRowInterchangeRelation(ch, w, g);
  if (n > 10) {
    for (int k = 0; k < 8; ++k) {
      int64_t i = c.range(0, n - 1);
      same(c, imageOf(rel, {i}), {{to(i)}}, "row interchange of row " + std::to_string(i));
    }
    same(c, imageOf(rel, {n}), {}, "row interchange of a row that does not exist");
    return;
  }
  Set want;
  for (int64_t i = 0; i < n; ++i) want.insert({i, to(i)});
  same(c, points(rel), want, "row interchange");
}

static int64_t genNumSlots(Case &c, int64_t n) {
  int64_t s = pow2ceil(n);
  switch (c.draw(4)) {
    case 0: return s;
    case 1: return s * 2;
    case 2: return std::max<int64_t>(1, s / 2);
    default: return s * 4;
  }
}
// positions of flat element idx: ciphertext idx div slots, every slot congruent to idx mod slots modulo the padded size
static void placements(Set &s, const Pt &p, int64_t idx, int64_t n, int64_t slots) {
  int64_t padded = pow2ceil(n);
  for (int64_t k = 0; k < slots; ++k)
    if (k % padded == idx % slots % padded) s.insert(cat(p, {idx / slots, k}));
}

PROP(C09, result_layout, "several output channels and positions", 2500, 30000) {
  bool two = c.chance(60), inter = c.chance(50);
  int64_t g = c.range(1, 3);
  int64_t ch = inter ? c.range(1, 2) * (two ? g * g : g) : c.range(1, 5), h = two ? c.range(1, 4) : 1, w = c.range(1, two ? 4 : 8);
  int64_t n = ch * h * w, slots = genNumSlots(c, n);
  c.desc << (two ? "2-D" : "1-D") << (inter ? " interchanged" : "") << " channels " << ch << " " << h << "x" << w << " gap " << g << " slots " << slots;
  c.label(slots < n ? "several ciphertexts" : "one ciphertext");
  if (ch > 1 && h * w > 1) c.nontrivial();
  Pt shape = two ? Pt{1, ch, h, w} : Pt{1, ch, w};
  auto T = tensorOf(shape);
  Set plain, want;
  forShape(shape, [&](const Pt &p) {
    int64_t i = flat(shape, p);
    placements(plain, p, i, n, slots);
    placements(want, p, inter ? (two ? shuffle2(ch, h, w, g, i) : shuffle1(w, g, i)) : i, n, slots);
  });
  if (!two) {
    same(c, points(get1dConvResultRelation(T, g, 0, slots, inter)), want, "1-D result layout");
    return;
  }
  same(c, points(get2dConvResultRelation(T, {g, g}, 0, slots)), plain, "2-D result layout");
  if (!inter) return;
  // the second part of the layout of an interchanged result: moves each copy of the data
  int64_t cts = (n + slots - 1) / slots, padded = pow2ceil(n);
  auto layout = get2dConvRowInterchangeLayoutRelation(T, {g, g}, slots);
  for (int i = 0; i < 8; ++i) {
    int64_t f = c.range(0, cts * slots - 1), r = f % padded;
    Set move;
    if (r < n) {
      int64_t to = f - r + shuffle2(ch, h, w, g, r);
      if (to < cts * slots) move.insert({to / slots, to % slots});
    }
    same(c, imageOf(layout, {f / slots, f % slots}), move, "2-D interchange layout at position " + std::to_string(f));
  }
}

static Set diagonalOf(const Set &mat, size_t nf, int64_t rows, int64_t cols, int64_t slots) {
  return compose(mat, nf, diagonal(rows, cols, slots), 2);
}
static Set rowsBy(const Set &mat, size_t nf, const std::function<int64_t(int64_t)> &f) {
  Set s;
  for (auto p : mat) { p[nf] = f(p[nf]); s.insert(p); }
  return s;
}

PROP(C09, filter_sequence, "several channels or filter positions, and padding, stride or interchange", 800, 12000) {
  bool inter = c.chance(50);
  int64_t g = c.range(1, inter ? 2 : 3);
  int64_t F = inter ? c.range(1, 2) * g * g : c.range(1, 4), C = c.range(1, 2);
  Axis x = genAxis(c, 5, 3, 3, 1), y = genAxis(c, 5, 3, 3, 1, x.pad);
  if (inter) {
    x.stride = y.stride = g;
    x.out = outSize(x.data, x.filter, g, x.pad);
    y.out = outSize(y.data, y.filter, g, y.pad);
  }
  int64_t rows = F * y.out * x.out, cols = C * y.data * x.data;
  int64_t slots = std::max(pow2ceil(rows), pow2ceil(cols)) << c.range(0, 1);
  c.desc << "F=" << F << " C=" << C << (inter ? " interchanged" : "") << " cols: " << show(x) << "; rows: " << show(y) << "; slots " << slots;
  c.label(inter ? "interchanged" : "plain");
  if ((F > 1 || C > 1 || x.filter > 1) && (x.pad || x.stride > 1 || y.stride > 1)) c.nontrivial();
  auto fT = tensorOf({F, C, y.filter, x.filter}), dT = tensorOf({1, C, y.data, x.data});
  auto rels = get2dConvChwFchwFilterAsSequence(fT, dT, {y.stride, x.stride}, x.pad, slots, inter);
  c.check(succeeded(rels), "the sequence was refused");
  Set mat = channels(toeplitz2(y, x), 2, F, C, y.out * x.out, y.data * x.data);
  if (inter) mat = rowsBy(mat, 4, [&](int64_t r) { return shuffle2(F, y.out, x.out, g, r); });
  Set got = points((*rels)[0]);
  for (size_t i = 1; i < rels->size(); ++i) {
    c.eq((*rels)[i].getNumDomainVars(), (*rels)[i - 1].getNumRangeVars(), "dimensions of consecutive relations");
    got = compose(got, 4, points((*rels)[i]), (*rels)[i].getNumDomainVars());
  }
  same(c, got, diagonalOf(mat, 4, rows, cols, slots), "the composed sequence");
}

PROP(C09, diagonalized_single_channel, "a filter of at least 2 and data larger than it", 1200, 15000) {
  bool two = c.chance(50);
  Axis x = genAxis(c, two ? 5 : 12, two ? 3 : 5, 1, two ? 1 : 2), y{1, 1, 1, 0, 1};
  if (two) y = genAxis(c, 5, 3, 1, 1, x.pad);
  int64_t rows = x.out * y.out, cols = x.data * y.data;
  int64_t slots = std::max(pow2ceil(rows), pow2ceil(cols)) << c.range(0, 1);
  c.desc << (two ? "2-D " : "1-D ") << show(x) << "; rows: " << show(y) << "; slots " << slots;
  if (x.filter > 1 && x.data > x.filter) c.nontrivial();
  auto fT = two ? tensorOf({y.filter, x.filter}) : tensorOf({x.filter}), dT = two ? tensorOf({y.data, x.data}) : tensorOf({x.data});
  auto rel = getConvFilterDiagonalizedRelation(fT, dT, x.pad, slots);
  if (failed(rel)) { c.label("refused"); return; }
  size_t nf = two ? 2 : 1;
  Set mat = two ? toeplitz2(y, x) : toeplitz1(x);
  Set got = points(*rel);
  same(c, got, diagonalOf(mat, nf, rows, cols, slots), "diagonalized filter");
  c.check(isRelationConvFilterDiagonalized(fT, dT, x.pad, slots, *rel), "the diagonalized filter is not recognised");
  if (!got.empty()) {
    IntegerRelation other(*rel);
    auto it = got.begin();
    std::advance(it, c.draw(got.size()));
    unsigned v = (unsigned)c.draw(nf + 2);
    // restrict one variable to exclude a point that is there
    if (std::any_of(got.begin(), got.end(), [&](const Pt &p) { return p[v] > (*it)[v]; })) {
      other.addBound(presburger::BoundType::LB, v, (*it)[v] + 1);
      c.check(!isRelationConvFilterDiagonalized(fT, dT, x.pad, slots, other), "a relation without some points is accepted");
    }
  }
}

PROP(C09, diagonalized_1d_channels, "several channels, and padding, stride or interchange", 800, 12000) {
  bool inter = c.chance(50);
  int64_t g = c.range(1, 3), C = c.range(1, 3);
  Axis x = genAxis(c, 8, 4, 3, 2);
  if (inter) { x.stride = g; x.out = outSize(x.data, x.filter, g, x.pad); }
  int64_t F = inter ? g * c.range(1, 2) : c.range(1, 4);
  int64_t rows = F * x.out, cols = C * x.data;
  int64_t slots = std::max(pow2ceil(rows), pow2ceil(cols)) << c.range(0, 1);
  c.desc << "F=" << F << " C=" << C << (inter ? " interchanged " : " ") << show(x) << "; slots " << slots;
  c.label(inter ? "interchanged" : "plain");
  if ((F > 1 || C > 1) && (x.pad || x.stride > 1)) c.nontrivial();
  auto fT = tensorOf({F, C, x.filter}), dT = tensorOf({1, C, x.data});
  auto rel = get1dConvCwFcwFilterDiagonalizedRelation(fT, dT, x.stride, x.pad, slots, inter);
  if (failed(rel)) { c.label("refused"); return; }
  Set mat = channels(toeplitz1(x), 1, F, C, x.out, x.data);
  if (inter) mat = rowsBy(mat, 3, [&](int64_t r) { return shuffle1(x.out, g, r); });
  same(c, points(*rel), diagonalOf(mat, 3, rows, cols, slots), "diagonalized 1-D filter");
}

using Vec = std::vector<int>;
// Pack filter and data, multiply with the matrix-vector kernel, unpack: the convolution.
PROP(C09, packed_convolution, "several channels or strides, a result of at least 2 elements", 1000, 12000) {
  bool two = c.chance(50), inter = c.chance(50), unroll = c.chance(60);
  int64_t g = c.range(1, 2), C = c.range(1, 2);
  Axis x = genAxis(c, two ? 4 : 7, 3, 2, 1), y{1, 1, 1, 0, 1};
  if (two) {
    y = genAxis(c, 4, 3, 2, 1, x.pad);
    y.stride = x.stride;
    y.out = outSize(y.data, y.filter, y.stride, y.pad);
  }
  if (inter) {
    x.stride = g;
    x.out = outSize(x.data, x.filter, g, x.pad);
    if (two) { y.stride = g; y.out = outSize(y.data, y.filter, g, y.pad); }
  }
  int64_t F = inter ? (two ? g * g : g) * c.range(1, 2) : c.range(1, 4);
  int64_t rows = F * x.out * y.out, cols = C * x.data * y.data;
  int64_t slots = std::max(pow2ceil(rows), pow2ceil(cols)) << c.range(0, 1);
  c.desc << (two ? "2-D" : "1-D") << " F=" << F << " C=" << C << (inter ? " interchanged" : "") << (unroll ? " unrolled" : "") << " cols: " << show(x)
         << "; rows: " << show(y) << "; slots " << slots;
  if ((F > 1 || C > 1 || x.stride > 1) && rows > 1) c.nontrivial();
  Pt fShape = two ? Pt{F, C, y.filter, x.filter} : Pt{F, C, x.filter}, dShape = two ? Pt{1, C, y.data, x.data} : Pt{1, C, x.data},
     oShape = two ? Pt{1, F, y.out, x.out} : Pt{1, F, x.out};
  auto fT = tensorOf(fShape), dT = tensorOf(dShape), oT = tensorOf(oShape);
  Vec fv, dv;
  for (int64_t i = 0; i < numel(fShape); ++i) fv.push_back((int)c.range(-5, 5));
  for (int64_t i = 0; i < numel(dShape); ++i) dv.push_back((int)c.range(-5, 5));
  auto at = [](const Vec &v, const Pt &shape) {
    return [&v, shape](const std::vector<int64_t> &p) -> int { return v[flat(shape, Pt(p.begin(), p.end()))]; };
  };
  std::function<int(const std::vector<int64_t> &)> fAt = at(fv, fShape), dAt = at(dv, dShape);
  std::vector<Vec> packedF, packedD = evaluateLayout<int>(getRowMajorLayoutRelation(dT, slots), dAt);
  Set outAt;
  if (two) {
    auto rels = get2dConvChwFchwFilterAsSequence(fT, dT, {y.stride, x.stride}, x.pad, slots, inter);
    c.check(succeeded(rels), "the sequence was refused");
    Set s = points((*rels)[0]);
    for (size_t i = 1; i < rels->size(); ++i) s = compose(s, 4, points((*rels)[i]), (*rels)[i].getNumDomainVars());
    packedF.assign(std::min(pow2ceil(rows), pow2ceil(cols)), Vec(slots, 0));
    for (auto &p : s) {
      c.check(p[4] < (int64_t)packedF.size(), "a diagonal beyond the last");
      packedF[p[4]][p[5]] = fv[flat(fShape, Pt(p.begin(), p.begin() + 4))];
    }
    outAt = points(get2dConvResultRelation(oT, {y.stride, x.stride}, 0, slots));
    if (inter) {
      auto move = get2dConvRowInterchangeLayoutRelation(oT, {g, g}, slots);
      Set seen, moved;
      for (auto &p : outAt) {
        Pt o(p.begin(), p.begin() + 4);
        if (!seen.insert(o).second) continue;
        for (auto &q : imageOf(move, {p[4], p[5]})) moved.insert(cat(o, q));
      }
      outAt = moved;
    }
  } else {
    auto rel = get1dConvCwFcwFilterDiagonalizedRelation(fT, dT, x.stride, x.pad, slots, inter);
    if (failed(rel)) { c.label("refused"); return; }
    packedF = evaluateLayout<int>(*rel, fAt);
    outAt = points(get1dConvResultRelation(oT, x.stride, 0, slots, inter));
  }
  auto T = two ? get2dConvChwFchwFilterExpandedType(fT, dT, x.pad, {y.stride, x.stride}) : get1dConvCwFcwFilterExpandedType(fT, dT, x.stride, x.pad);
  packedF.resize(std::min(pow2ceil(rows), pow2ceil(cols)), Vec(slots, 0));  // trailing diagonals that hold nothing
  kernel::LiteralValue m = packedF, v = packedD[0];
  auto dag = kernel::implementHaleviShoup(v, m, T.getShape(), kernel::DagType::intTensor(32, {slots}), {}, unroll);
  Vec res = std::get<Vec>(kernel::evalKernel(dag)[0].get());
  std::map<Pt, int> want;
  for (int64_t f = 0; f < F; ++f)
    for (int64_t oy = 0; oy < y.out; ++oy)
      for (int64_t ox = 0; ox < x.out; ++ox) {
        int sum = 0;
        for (int64_t ch = 0; ch < C; ++ch)
          for (int64_t fy = 0; fy < y.filter; ++fy)
            for (int64_t fx = 0; fx < x.filter; ++fx) {
              int64_t dy = dataAt(y, fy, oy), dx = dataAt(x, fx, ox);
              if (dy < 0 || dx < 0) continue;
              sum += fv[((f * C + ch) * y.filter + fy) * x.filter + fx] * dv[(ch * y.data + dy) * x.data + dx];
            }
        want[two ? Pt{0, f, oy, ox} : Pt{0, f, ox}] = sum;
      }
  std::set<Pt> seen;
  size_t n = oShape.size();
  for (auto &p : outAt) {
    c.eq(p[n], (int64_t)0, "ciphertext of the result");
    Pt o(p.begin(), p.begin() + n);
    if (!seen.insert(o).second) continue;  // the first copy is the one the kernel guarantees
    c.eq(res[p[n + 1]], want.at(o), "output element " + pbt::str(o) + " in slot " + std::to_string(p[n + 1]));
  }
  c.eq(seen.size(), want.size(), "output elements with a slot");
}
