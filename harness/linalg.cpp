// C18: fusing a convolution with the pooling after it, and the linalg clean-ups
// around it, leave every result as it was.
#include "lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.h"
#include "lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.h"
#include "prog_gen.h"

using namespace mlir;
using namespace mlir::heir;
using llvm::APFloat;
using llvm::APInt;
using pbt::Case;
using Ints = std::vector<int64_t>;

// ---------------------------------------------------------------------------
// The filters.
struct Sizes {
  Conv2DSizeParams v;
  Pool2DSizeParams p;
  int64_t outH, outW, midH, midW, inH, inW;
};
static Sizes sizes(Case &c) {
  Sizes s;
  int64_t top = c.thorough ? 4 : 3;
  s.v = {c.range(1, 3), c.range(1, 3), c.range(1, top), c.range(1, top), c.range(1, 3), c.range(1, 3), c.range(1, 3), c.range(1, 3)};
  s.p = {c.range(1, top), c.range(1, top), c.range(1, 3), c.range(1, 3), c.range(1, 3), c.range(1, 3)};
  s.outH = c.range(1, 3);
  s.outW = c.range(1, 3);
  // Possibly more input than the last window needs.
  s.midH = (s.outH - 1) * s.p.strideH + (s.p.pH - 1) * s.p.dilationH + 1 + c.range(0, s.p.strideH - 1);
  s.midW = (s.outW - 1) * s.p.strideW + (s.p.pW - 1) * s.p.dilationW + 1 + c.range(0, s.p.strideW - 1);
  s.inH = (s.midH - 1) * s.v.strideH + (s.v.kH - 1) * s.v.dilationH + 1 + c.range(0, s.v.strideH - 1);
  s.inW = (s.midW - 1) * s.v.strideW + (s.v.kW - 1) * s.v.dilationW + 1 + c.range(0, s.v.strideW - 1);
  c.desc << "conv F" << s.v.F << " C" << s.v.C << " k" << s.v.kH << "x" << s.v.kW << " stride " << s.v.strideH << "," << s.v.strideW << " dilation " << s.v.dilationH << "," << s.v.dilationW
         << "; pool " << s.p.pH << "x" << s.p.pW << " stride " << s.p.strideH << "," << s.p.strideW << " dilation " << s.p.dilationH << "," << s.p.dilationW << "; output " << s.outH << "x" << s.outW
         << " input " << s.inH << "x" << s.inW;
  return s;
}
static bool interesting(const Sizes &s) {
  return s.v.kH * s.v.kW > 1 && s.p.pH * s.p.pW > 1 && s.v.F * s.v.C > 1;
}
// conv2d, then a sum over each window.
template <class T>
static std::vector<T> convThenPool(const Sizes &s, const std::vector<T> &in, const std::vector<T> &w, T zero) {
  std::vector<T> mid(s.v.F * s.midH * s.midW, zero), out(s.v.F * s.outH * s.outW, zero);
  for (int64_t f = 0; f < s.v.F; ++f)
    for (int64_t y = 0; y < s.midH; ++y)
      for (int64_t x = 0; x < s.midW; ++x)
        for (int64_t ch = 0; ch < s.v.C; ++ch)
          for (int64_t a = 0; a < s.v.kH; ++a)
            for (int64_t b = 0; b < s.v.kW; ++b) {
              auto &m = mid[(f * s.midH + y) * s.midW + x];
              m = m + in[(ch * s.inH + y * s.v.strideH + a * s.v.dilationH) * s.inW + x * s.v.strideW + b * s.v.dilationW] * w[((f * s.v.C + ch) * s.v.kH + a) * s.v.kW + b];
            }
  for (int64_t f = 0; f < s.v.F; ++f)
    for (int64_t y = 0; y < s.outH; ++y)
      for (int64_t x = 0; x < s.outW; ++x)
        for (int64_t a = 0; a < s.p.pH; ++a)
          for (int64_t b = 0; b < s.p.pW; ++b) {
            auto &o = out[(f * s.outH + y) * s.outW + x];
            o = o + mid[(f * s.midH + y * s.p.strideH + a * s.p.dilationH) * s.midW + x * s.p.strideW + b * s.p.dilationW];
          }
  return out;
}
// One convolution with the fused filter, no dilation, the strides multiplied.
template <class T>
static std::vector<T> fusedConv(Case &c, const Sizes &s, const std::vector<T> &in, const std::vector<T> &w, T zero) {
  int64_t kH = getEffectiveKernelHeight(s.v, s.p), kW = getEffectiveKernelWidth(s.v, s.p);
  c.eq(kH, (s.p.pH - 1) * s.p.dilationH * s.v.strideH + (s.v.kH - 1) * s.v.dilationH + 1, "height of the fused filter");
  c.eq(kW, (s.p.pW - 1) * s.p.dilationW * s.v.strideW + (s.v.kW - 1) * s.v.dilationW + 1, "width of the fused filter");
  c.eq((int64_t)w.size(), s.v.F * s.v.C * kH * kW, "number of fused filter entries");
  std::vector<T> out(s.v.F * s.outH * s.outW, zero);
  int64_t sH = s.v.strideH * s.p.strideH, sW = s.v.strideW * s.p.strideW;
  for (int64_t f = 0; f < s.v.F; ++f)
    for (int64_t y = 0; y < s.outH; ++y)
      for (int64_t x = 0; x < s.outW; ++x)
        for (int64_t ch = 0; ch < s.v.C; ++ch)
          for (int64_t a = 0; a < kH; ++a)
            for (int64_t b = 0; b < kW; ++b) {
              auto &o = out[(f * s.outH + y) * s.outW + x];
              int64_t iy = y * sH + a, ix = x * sW + b;
              if (iy >= s.inH || ix >= s.inW) c.fail("the fused filter reads outside the input");
              o = o + in[(ch * s.inH + iy) * s.inW + ix] * w[((f * s.v.C + ch) * kH + a) * kW + b];
            }
  return out;
}

PROP(C18, fuse_int, "more than one filter tap, window cell and channel", 20000, 200000) {
  auto s = sizes(c);
  unsigned w = c.pickOf({1u, 2u, 7u, 8u, 16u, 32u, 33u, 64u, 128u});
  c.desc << " width " << w;
  auto some = [&] {
    if (c.chance(50)) return APInt(w, (uint64_t)c.range(-5, 5), true, true);
    return APInt(64, c.bits(64)).sextOrTrunc(w);
  };
  std::vector<APInt> filter, in;
  for (int64_t i = 0; i < s.v.F * s.v.C * s.v.kH * s.v.kW; ++i) filter.push_back(some());
  for (int64_t i = 0; i < s.v.C * s.inH * s.inW; ++i) in.push_back(APInt(w, c.bits(8), false, true));
  auto fused = fuseIntFilters(filter, s.v, s.p, w);
  auto want = convThenPool(s, in, filter, APInt(w, 0));
  auto got = fusedConv(c, s, in, std::vector<APInt>(fused.begin(), fused.end()), APInt(w, 0));
  for (size_t i = 0; i < want.size(); ++i) c.check(want[i] == got[i], "output ", i, " differs (modulo 2^", w, ")");
  // The attribute form.
  if (w <= 64) {
    auto *x = mi::context();
    auto t = RankedTensorType::get({s.v.F, s.v.C, s.v.kH, s.v.kW}, IntegerType::get(x, w));
    auto a = fuseConv2DPoolingFilters(DenseElementsAttr::get(t, filter), s.v, s.p, std::nullopt);
    c.check(bool(a), "no attribute");
    Ints shape(cast<ShapedType>(a.getType()).getShape());
    c.eq(pbt::str(shape), pbt::str(Ints{s.v.F, s.v.C, getEffectiveKernelHeight(s.v, s.p), getEffectiveKernelWidth(s.v, s.p)}), "attribute shape");
    auto vals = llvm::to_vector(a.getValues<APInt>());
    for (size_t i = 0; i < fused.size(); ++i) c.check(vals[i] == fused[i], "attribute entry ", i);
  }
  if (interesting(s)) c.nontrivial(c.desc.str());
}

PROP(C18, fuse_float, "a scale other than one, more than one filter tap and window cell", 20000, 200000) {
  auto s = sizes(c);
  bool f32 = c.chance(50);
  auto &sem = f32 ? APFloat::IEEEsingle() : APFloat::IEEEdouble();
  auto mk = [&](double d) { APFloat a(d); bool l; a.convert(sem, APFloat::rmNearestTiesToEven, &l); return a; };
  // Small dyadic numbers: no rounding anywhere, so the results are equal.
  std::vector<double> filter, in;
  std::vector<APFloat> af;
  for (int64_t i = 0; i < s.v.F * s.v.C * s.v.kH * s.v.kW; ++i) { filter.push_back(c.range(-8, 8) * (c.chance(50) ? 1.0 : 0.25)); af.push_back(mk(filter.back())); }
  for (int64_t i = 0; i < s.v.C * s.inH * s.inW; ++i) in.push_back((double)c.range(-8, 8));
  std::optional<APFloat> scale;
  double sc = 1;
  if (c.chance(70)) { sc = c.pickOf({0.25, 0.5, 2.0, -0.125, 3.0, 1.0, 0.0}); scale = mk(sc); c.desc << " scale " << sc; }
  auto fused = fuseFloatFilters(af, s.v, s.p, sem, scale);
  std::vector<double> fd;
  for (auto &a : fused) { c.check(&a.getSemantics() == &sem, "semantics of a fused entry"); fd.push_back(a.convertToDouble()); }
  auto want = convThenPool(s, in, filter, 0.0);
  auto got = fusedConv(c, s, in, fd, 0.0);
  for (size_t i = 0; i < want.size(); ++i) c.check(want[i] * sc == got[i], "output ", i, ": ", got[i], " instead of ", want[i] * sc);
  auto *x = mi::context();
  Type et = f32 ? (Type)Float32Type::get(x) : (Type)Float64Type::get(x);
  auto a = fuseConv2DPoolingFilters(DenseElementsAttr::get(RankedTensorType::get({s.v.F, s.v.C, s.v.kH, s.v.kW}, et), af), s.v, s.p, scale);
  auto vals = llvm::to_vector(a.getValues<APFloat>());
  c.eq(vals.size(), fused.size(), "number of attribute entries");
  for (size_t i = 0; i < fused.size(); ++i) c.check(vals[i].compare(fused[i]) == APFloat::cmpEqual, "attribute entry ", i);
  if (interesting(s) && sc != 1) c.nontrivial(c.desc.str());
}

// ---------------------------------------------------------------------------
// Recognising a scaling: if a factor is reported, the operation multiplies the
// pooled value by it.
struct Text {
  Case &c;
  std::string out;
  int n = 0;
  std::vector<std::string> argTypes;
  explicit Text(Case &c) : c(c) {}
  std::string fresh() { return "%v" + std::to_string(n++); }
  std::string line(const std::string &rhs) {
    auto v = fresh();
    out += "  " + v + " = " + rhs + "\n";
    return v;
  }
  std::string arg(const std::string &t) {
    argTypes.push_back(t);
    return "%a" + std::to_string(argTypes.size() - 1);
  }
  std::string func(const std::vector<std::pair<std::string, std::string>> &res) {
    std::string s = "func.func @f(", r, rt;
    for (size_t i = 0; i < argTypes.size(); ++i) s += (i ? ", " : "") + std::string("%a") + std::to_string(i) + ": " + argTypes[i];
    for (auto &[v, t] : res) { r += (r.empty() ? "" : ", ") + v; rt += (rt.empty() ? "" : ", ") + t; }
    return s + ") -> (" + rt + ") {\n" + out + "  return " + r + " : " + rt + "\n}\n";
  }
};
static std::string shapeStr(const Ints &d) {
  std::string s;
  for (auto x : d) s += std::to_string(x) + "x";
  return s;
}
static std::string tt(const Ints &d, const std::string &e) { return "tensor<" + shapeStr(d) + e + ">"; }
static bool isF(const std::string &e) { return e[0] == 'f'; }
static std::string lit(Case &c, const std::string &e) {
  if (e == "i1") return c.chance(50) ? "true" : "false";
  if (isF(e)) return std::to_string(c.range(-8, 8) * (c.chance(60) ? 1.0 : 0.25));
  if (e == "index") return std::to_string(c.range(0, 40));
  unsigned w = std::stoi(e.substr(1));
  int64_t m = w >= 7 ? 40 : (1LL << (w - 1)) - 1;
  return std::to_string(c.range(-m, m));
}
static std::string denseLit(Case &c, const Ints &d, const std::string &e, size_t k = 0) {
  if (k == d.size()) return lit(c, e);
  std::string s = "[";
  for (int64_t i = 0; i < d[k]; ++i) s += (i ? ", " : "") + denseLit(c, d, e, k + 1);
  return s + "]";
}
static std::string dense(Case &c, const Ints &d, const std::string &e, unsigned splatPct = 20) {
  if (c.chance(splatPct)) return "dense<" + lit(c, e) + "> : " + tt(d, e);
  return "dense<" + denseLit(c, d, e) + "> : " + tt(d, e);
}
static int64_t numel(const Ints &d) { int64_t n = 1; for (auto x : d) n *= x; return n; }

PROP(C18, scaling_factor, "a factor was reported", 30000, 300000) {
  Text t(c);
  std::string e = c.chance(50) ? "f32" : "f64";
  bool square = c.chance(60);
  int64_t h = c.range(1, 3), w = square ? h : c.range(1, 3);
  Ints sh = {c.range(1, 2), h, w};
  std::string ty = tt(sh, e);
  std::string pool = t.arg(ty), other = t.arg(ty);
  auto num = [&](bool nz) { return std::string(c.pickOf({"2.0", "4.0", "-8.0", "9.0", "0.25", "1.0", nz ? "3.0" : "0.0"})); };
  std::string res, opn = c.chance(50) ? "arith.mulf" : "arith.divf";
  auto operand = [&](int kind) -> std::string {  // tensor operand
    switch (kind) {
      case 0: return pool;
      case 1: return t.line("arith.constant dense<" + num(true) + "> : " + ty);
      case 2: return t.line("arith.constant " + dense(c, sh, e, 0));
      default: return other;
    }
  };
  if (c.chance(40)) {
    if (c.chance(15)) opn = c.chance(50) ? "arith.addf" : "arith.subf";
    int a = c.weighted({6, 2, 0, 1}), b = a == 0 ? c.weighted({1, 6, 2, 1}) : 0;
    auto x = operand(a), y = operand(b);
    res = t.line(opn + " " + x + ", " + y + " : " + ty);
    c.label("tensor op");
  } else {
    c.label("generic");
    auto k = t.line("arith.constant " + num(true) + " : " + e);
    auto k2 = c.chance(80) ? k : t.line("arith.constant " + num(true) + " : " + e);
    std::string id = "affine_map<(a, b, c) -> (a, b, c)>";
    auto mp = [&] { return square && c.chance(20) ? std::string("affine_map<(a, b, c) -> (a, c, b)>") : id; };
    std::string in = c.chance(85) ? pool : other;
    std::string outv = in == pool ? (c.chance(80) ? t.line("tensor.empty() : " + ty) : c.chance(50) ? pool : other) : pool;
    bool two = c.chance(10);
    std::string m1 = mp(), m2 = two ? mp() : "", m3 = mp();
    bool reads = outv == pool || outv == other;
    auto pickv = [&]() -> std::string { return c.chance(85) ? "%x" : reads ? "%o" : "%x"; };
    std::string x = pickv(), y = k2;
    if (c.chance(15)) std::swap(x, y);
    std::string yield = c.chance(90) ? "%r" : c.chance(50) ? "%x" : k;
    bool extra = c.chance(10);
    std::string body = "    %r = " + opn + " " + x + ", " + y + " : " + e + "\n";
    if (extra) body += "    %s = arith.addf %r, " + k + " : " + e + "\n", yield = c.chance(50) ? "%s" : yield;
    res = t.line("linalg.generic {indexing_maps = [" + m1 + ", " + (two ? m2 + ", " : "") + m3 + "], iterator_types = [\"parallel\", \"parallel\", \"parallel\"]} ins(" + in + (two ? ", " + other : "") + " : " + ty +
                 (two ? ", " + ty : "") + ") outs(" + outv + " : " + ty + ") {\n  ^bb0(%x: " + e + ", " + (two ? "%z: " + e + ", " : "") + "%o: " + e + "):\n" + body + "    linalg.yield " + yield + " : " + e + "\n  } -> " + ty);
  }
  std::string text = t.func({{res, ty}});
  c.desc << text;
  auto m = mi::parse(text);
  c.check(bool(m), "generator produced a program that does not parse");
  auto f = m->lookupSymbol<func::FuncOp>("f");
  Operation *user = f.getBody().front().getTerminator()->getOperand(0).getDefiningOp();
  auto &sem = e == "f32" ? APFloat::IEEEsingle() : APFloat::IEEEdouble();
  auto r = matchScalingFactor(user, f.getArgument(0), sem);
  if (failed(r)) { c.label("no factor"); return; }
  c.check(r->op == user, "reported operation");
  APFloat s = r->scale;
  c.check(&s.getSemantics() == &sem, "semantics of the factor");
  double sc = s.convertToDouble();
  for (int k = 0; k < 2; ++k) {
    std::vector<mi::Val> in;
    for (auto &a : t.argTypes) in.push_back(pg::input(c, a));
    auto run = pg::run(*m, in);
    if (run.ub) c.discard();
    auto p = mi::elems(in[0]), o = mi::elems(run.results[0]);
    for (size_t i = 0; i < p.size(); ++i) {
      double want = o[i].f, got = p[i].f * sc;
      if (o[i].k == mi::Val::Undef) continue;
      bool ok = want == got || (std::isnan(want) && std::isnan(got)) || std::fabs(want - got) <= (e == "f32" ? 1e-6 : 1e-15) * std::fabs(want);
      if (!ok) c.fail("factor " + std::to_string(sc) + " reported, but element " + std::to_string(i) + " of the operation's result is " + mi::show(o[i]) + " for " + mi::show(p[i]));
    }
  }
  if (sc != 1) c.nontrivial(text);
}

// ---------------------------------------------------------------------------
// The pass: programs and what it makes of them.
static void checkCanon(Case &c, Text &t, const std::vector<std::pair<std::string, std::string>> &res) {
  std::string text = t.func(res);
  c.desc << text;
  auto before = mi::parse(text), after = mi::parse(text);
  c.check(bool(before), "generator produced a program that does not parse");
  PassManager pm(after->getContext());
  pm.addPass(createLinalgCanonicalizations());
  if (failed(pm.run(*after))) c.fail("the pass failed or produced invalid IR:\n" + mi::print(*after));
  std::string out = mi::print(*after);
  for (int k = 0; k < 2; ++k) {
    std::vector<mi::Val> in;
    for (auto &a : t.argTypes) in.push_back(pg::input(c, a));
    auto a = pg::run(*before, in);
    if (a.ub) { c.label("undefined input program"); c.discard(); }
    auto b = pg::run(*after, in);
    auto d = pg::diff(a, b, 1e-6, 0);
    if (!d.empty()) c.fail(d + " (inputs " + pg::showAll(in) + ")\ntransformed program:\n" + out);
  }
  std::map<std::string, int> diff;
  before->walk([&](Operation *o) { ++diff[o->getName().getStringRef().str()]; });
  after->walk([&](Operation *o) { --diff[o->getName().getStringRef().str()]; });
  bool changed = false;
  for (auto &[k, v] : diff) if (v > 0 && k.rfind("linalg.", 0) == 0) { c.label("removes " + k); changed = true; }
  if (changed) c.nontrivial(text);
}
static std::string elemType(Case &c) { return c.pickOf({"i32", "i32", "f32", "f32", "f64", "i8", "i16", "i64", "i1", "i4"}); }
static Ints dims(Case &c, int lo, int hi, int64_t top = 3) {
  Ints d;
  for (int i = c.range(lo, hi); i-- > 0;) d.push_back(c.range(1, top));
  return d;
}
// A tensor: argument, constant, fill or empty.
static std::string anyTensor(Text &t, const Ints &d, const std::string &e, unsigned constPct = 50) {
  Case &c = t.c;
  if (c.chance(constPct)) return t.line("arith.constant " + dense(c, d, e));
  return t.arg(tt(d, e));
}
static std::string initTensor(Text &t, const Ints &d, const std::string &e, unsigned zeroPct = 40) {
  Case &c = t.c;
  auto ty = tt(d, e);
  if (c.chance(zeroPct)) {
    std::string z = isF(e) ? "0.0" : e == "i1" ? "false" : "0";
    if (c.chance(50)) return t.line("arith.constant dense<" + z + "> : " + ty);
    auto k = t.line("arith.constant " + (e == "i1" ? z : z + " : " + e)), em = t.line("tensor.empty() : " + ty);
    return t.line("linalg.fill ins(" + k + " : " + e + ") outs(" + em + " : " + ty + ") -> " + ty);
  }
  return anyTensor(t, d, e, 30);
}
static std::string two(int64_t a, int64_t b) { return "dense<[" + std::to_string(a) + ", " + std::to_string(b) + "]> : tensor<2xi64>"; }

static std::string scaleStep(Text &t, const std::string &v, const Ints &d, const std::string &e) {
  Case &c = t.c;
  auto ty = tt(d, e);
  std::string op = isF(e) ? std::string(c.pickOf({"arith.divf", "arith.divf", "arith.mulf", "arith.addf"})) : std::string(c.pickOf({"arith.muli", "arith.addi"}));
  std::string k = isF(e) ? std::string(c.pickOf({"2.0", "4.0", "0.5", "-8.0"})) : std::string("3");
  switch (c.weighted({6, 2, 1, 3})) {
    case 0: { auto x = t.line("arith.constant dense<" + k + "> : " + ty); return t.line(op + " " + v + ", " + x + " : " + ty); }
    case 1: { auto x = t.line("arith.constant dense<" + k + "> : " + ty); return t.line(op + " " + x + ", " + v + " : " + ty); }
    case 2: { auto x = t.arg(ty); return t.line(op + " " + v + ", " + x + " : " + ty); }
    default: {
      auto x = t.line("arith.constant " + k + " : " + e), em = t.line("tensor.empty() : " + ty);
      std::string id = d.size() == 4 ? "affine_map<(a, b, c, d) -> (a, b, c, d)>" : "affine_map<(a, b, c) -> (a, b, c)>";
      std::string it = "\"parallel\", \"parallel\", \"parallel\"";
      if (d.size() == 4) it += ", \"parallel\"";
      return t.line("linalg.generic {indexing_maps = [" + id + ", " + id + "], iterator_types = [" + it + "]} ins(" + v + " : " + ty + ") outs(" + em + " : " + ty + ") {\n  ^bb0(%x: " + e + ", %o: " + e + "):\n    %r = " + op + " %x, " + x + " : " + e + "\n    linalg.yield %r : " + e + "\n  } -> " + ty);
    }
  }
}

PROP(C18, pass_conv_pool, "the pass rewrote a convolution or a pooling", 6000, 60000) {
  Text t(c);
  std::string e = c.pickOf({"f32", "f64", "f32", "i32", "i8"});
  bool d2 = c.chance(60), conv = c.chance(75), pool = !conv || c.chance(70);
  int64_t n = c.weighted({4, 1}) + 1;
  int64_t ch = c.range(1, 2), F = c.range(1, 2);
  auto r = [&](int64_t a, int64_t b) { return c.range(a, b); };
  // 1-d: only the first of each pair is used.
  int64_t k[2] = {r(1, 3), r(1, 2)}, s[2] = {r(1, 2), r(1, 2)}, dl[2] = {r(1, 2), r(1, 2)};
  int64_t pk[2] = {r(1, 2), r(1, 3)}, ps[2] = {r(1, 2), r(1, 2)}, pd[2] = {r(1, 2), r(1, 2)}, o[2] = {r(1, 2), r(1, 2)}, mid[2], in[2];
  int nd = d2 ? 2 : 1;
  for (int i = 0; i < nd; ++i) {
    mid[i] = pool ? (o[i] - 1) * ps[i] + (pk[i] - 1) * pd[i] + 1 + (ps[i] > 1 ? r(0, ps[i] - 1) : 0) : o[i];
    in[i] = conv ? (mid[i] - 1) * s[i] + (k[i] - 1) * dl[i] + 1 + (s[i] > 1 ? r(0, s[i] - 1) : 0) : mid[i];
  }
  auto shape = [&](int64_t a, int64_t b, int64_t *x) { Ints v = {a, b}; for (int i = 0; i < nd; ++i) v.push_back(x[i]); return v; };
  auto attr = [&](int64_t *x) { return d2 ? two(x[0], x[1]) : "dense<" + std::to_string(x[0]) + "> : tensor<1xi64>"; };
  Ints cur = shape(n, ch, in);
  auto v = t.arg(tt(cur, e));
  std::vector<std::pair<std::string, std::string>> res;
  if (conv) {
    Ints fs = shape(F, ch, k), os = shape(n, F, mid);
    auto f = anyTensor(t, fs, e, 85), init = initTensor(t, os, e);
    v = t.line(std::string(d2 ? "linalg.conv_2d_nchw_fchw" : "linalg.conv_1d_ncw_fcw") + " {dilations = " + attr(dl) + ", strides = " + attr(s) + "} ins(" + v + ", " + f + " : " + tt(cur, e) + ", " + tt(fs, e) + ") outs(" + init + " : " + tt(os, e) + ") -> " + tt(os, e));
    cur = os;
    if (c.chance(10)) res.push_back({v, tt(cur, e)});
  }
  if (pool) {
    Ints ws(pk, pk + nd), os = shape(n, cur[1], o);
    auto w = c.chance(50) ? t.line("tensor.empty() : " + tt(ws, e)) : anyTensor(t, ws, e), init = initTensor(t, os, e);
    v = t.line(std::string(d2 ? "linalg.pooling_nchw_sum" : "linalg.pooling_ncw_sum") + " {dilations = " + attr(pd) + ", strides = " + attr(ps) + "} ins(" + v + ", " + w + " : " + tt(cur, e) + ", " + tt(ws, e) + ") outs(" + init + " : " + tt(os, e) + ") -> " + tt(os, e));
    cur = os;
    if (c.chance(10)) res.push_back({v, tt(cur, e)});
  }
  if (c.chance(60)) v = scaleStep(t, v, cur, e);
  res.push_back({v, tt(cur, e)});
  checkCanon(c, t, res);
}

PROP(C18, pass_fold, "the pass removed a transpose, broadcast, fill or slice", 20000, 200000) {
  Text t(c);
  std::string e = c.chance(10) ? std::string("index") : elemType(c);
  Ints d = dims(c, 0, 3);
  std::string v;
  if (c.chance(15)) {
    auto k = c.chance(70) ? t.line("arith.constant " + (e == "i1" ? lit(c, e) : lit(c, e) + " : " + e)) : t.arg(e);
    auto em = t.line("tensor.empty() : " + tt(d, e));
    v = t.line("linalg.fill ins(" + k + " : " + e + ") outs(" + em + " : " + tt(d, e) + ") -> " + tt(d, e));
  } else v = anyTensor(t, d, e, 75);
  std::vector<std::pair<std::string, std::string>> res;
  for (int i = c.range(1, 4); i-- > 0;) {
    if (c.chance(15)) res.push_back({v, tt(d, e)});
    switch (c.weighted({3, 3, 2})) {
      case 0: {
        if (d.empty()) break;  // MLIR cannot print the maps of a rank-0 transpose
        Ints p(d.size()), nd(d.size());
        for (size_t j = 0; j < p.size(); ++j) p[j] = j;
        c.shuffle(p);
        for (size_t j = 0; j < p.size(); ++j) nd[j] = d[p[j]];
        auto init = c.chance(50) ? t.line("tensor.empty() : " + tt(nd, e)) : t.arg(tt(nd, e));
        std::string ps;
        for (auto x : p) ps += (ps.empty() ? "" : ", ") + std::to_string(x);
        v = t.line("linalg.transpose ins(" + v + " : " + tt(d, e) + ") outs(" + init + " : " + tt(nd, e) + ") permutation = [" + ps + "]");
        d = nd;
        break;
      }
      case 1: {
        if (d.size() >= 4) break;
        Ints nd = d, added;
        int extra = c.range(1, d.size() >= 3 ? 1 : 2);
        for (int j = 0; j < extra; ++j) nd.insert(nd.begin() + c.draw(nd.size() + 1), -c.range(1, c.chance(40) ? 1 : 3));
        std::string as;
        for (size_t j = 0; j < nd.size(); ++j) if (nd[j] < 0) { nd[j] = -nd[j]; as += (as.empty() ? "" : ", ") + std::to_string(j); }
        auto init = c.chance(50) ? t.line("tensor.empty() : " + tt(nd, e)) : t.arg(tt(nd, e));
        v = t.line("linalg.broadcast ins(" + v + " : " + tt(d, e) + ") outs(" + init + " : " + tt(nd, e) + ") dimensions = [" + as + "]");
        d = nd;
        break;
      }
      default: {
        if (d.empty()) break;
        Ints off, sz, st, nd;
        bool any = false;
        for (auto x : d) {
          int64_t s = c.range(1, 2), n = c.range(1, (x - 1) / s + 1), o = c.range(0, x - 1 - (n - 1) * s);
          off.push_back(o), sz.push_back(n), st.push_back(s);
          if (n == 1 && c.chance(40)) any = true; else nd.push_back(n);
        }
        auto js = [](const Ints &v) { std::string s; for (auto x : v) s += (s.empty() ? "" : ", ") + std::to_string(x); return "[" + s + "]"; };
        (void)any;
        v = t.line("tensor.extract_slice " + v + js(off) + " " + js(sz) + " " + js(st) + " : " + tt(d, e) + " to " + tt(nd, e));
        d = nd;
      }
    }
  }
  res.push_back({v, tt(d, e)});
  checkCanon(c, t, res);
}

// A chain of elementwise operations over the given scalars.
static std::string body(Case &c, std::vector<std::string> vals, const std::string &e, int nops, std::string &out, bool allowConst, int &id, std::vector<std::string> *all = nullptr) {
  std::vector<std::string> ops = isF(e) ? std::vector<std::string>{"arith.addf", "arith.subf", "arith.mulf", "arith.maximumf"}
                                        : std::vector<std::string>{"arith.addi", "arith.subi", "arith.muli", "arith.andi", "arith.xori", "arith.maxsi", "arith.minui"};
  for (int i = 0; i < nops; ++i) {
    if (allowConst && c.chance(20)) {
      std::string k = "%b" + std::to_string(id++);
      out += "    " + k + " = arith.constant " + (e == "i1" ? lit(c, e) : lit(c, e) + " : " + e) + "\n";
      vals.push_back(k);
    }
    std::string r = "%b" + std::to_string(id++);
    auto x = c.pick(vals), y = c.pick(vals);
    if (c.chance(12)) {
      std::string q = "%b" + std::to_string(id++);
      out += "    " + q + " = " + (isF(e) ? "arith.cmpf olt, " : "arith.cmpi slt, ") + x + ", " + y + " : " + e + "\n";
      out += "    " + r + " = arith.select " + q + ", " + c.pick(vals) + ", " + c.pick(vals) + " : " + e + "\n";
    } else if (isF(e) && c.chance(12)) {
      out += "    " + r + " = arith.negf " + x + " : " + e + "\n";
    } else {
      out += "    " + r + " = " + c.pick(ops) + " " + x + ", " + y + " : " + e + "\n";
    }
    vals.push_back(r);
  }
  if (all) *all = vals;
  return vals.back();
}

PROP(C18, pass_elementwise, "the pass turned a generic or a map into elementwise operations", 20000, 200000) {
  Text t(c);
  std::string e = elemType(c);
  Ints d = dims(c, 1, 3);
  if (c.chance(50)) for (auto &x : d) x = d[0];  // permutable
  auto ty = tt(d, e);
  std::vector<std::pair<std::string, std::string>> res;
  int id = 0;
  std::string scalarArg;
  auto scalar = [&] { return scalarArg = c.chance(50) ? t.arg(e) : t.line("arith.constant " + (e == "i1" ? lit(c, e) : lit(c, e) + " : " + e)); };
  for (int step = c.range(1, 2); step-- > 0;) {
    if (c.chance(35)) {  // linalg.map
      c.label("map");
      int n = c.range(1, 3);
      std::vector<std::string> ins, vals;
      std::string il, tl, bl;
      for (int i = 0; i < n; ++i) {
        ins.push_back(!res.empty() && c.chance(40) ? res.back().first : anyTensor(t, d, e, 30));
        il += (i ? ", " : "") + ins[i];
        tl += (i ? ", " : "") + ty;
        std::string x = "%m" + std::to_string(id++);
        bl += (i ? ", " : "") + x + ": " + e;
        vals.push_back(x);
      }
      if (c.chance(25)) vals.push_back(scalar());
      auto init = c.chance(70) ? t.line("tensor.empty() : " + ty) : t.arg(ty);
      std::string b;
      std::string y = body(c, vals, e, c.weighted({1, 6, 2}), b, c.chance(15), id);
      if (c.chance(8)) y = c.pick(vals);
      auto v = t.line("linalg.map ins(" + il + " : " + tl + ") outs(" + init + " : " + ty + ") (" + bl + ") {\n" + b + "    linalg.yield " + y + " : " + e + "\n  }");
      res.push_back({v, ty});
    } else {
      c.label("generic");
      int n = c.range(0, 3), no = c.weighted({4, 1}) + 1;
      static const char *nm[] = {"i0", "i1", "i2", "i3"};
      std::string dl;
      for (size_t i = 0; i < d.size(); ++i) dl += (i ? ", " : "") + std::string(nm[i]);
      std::string il, tl, ml, bl, ol, otl, rt;
      std::vector<std::string> vals;
      std::vector<std::string> outArgs;
      bool reduce = false;
      for (int i = 0; i < n; ++i) {
        // identity mostly; permuted, dropped or constant (unit) dimensions
        std::string m;
        Ints s;
        std::vector<int> pos(d.size());
        for (size_t j = 0; j < d.size(); ++j) pos[j] = j;
        int kind = c.weighted({6, 3, 2, 2});
        if (kind == 2) c.shuffle(pos);
        for (int j : pos) {
          if (kind >= 1 && c.chance(35)) continue;
          if (kind == 3 && c.chance(35)) { m += (m.empty() ? "" : ", ") + std::string("0"); s.push_back(1); continue; }
          m += (m.empty() ? "" : ", ") + std::string(nm[j]);
          s.push_back(d[j]);
        }
        ml += "affine_map<(" + dl + ") -> (" + m + ")>, ";
        auto x = s == d && !res.empty() && c.chance(40) ? res.back().first : anyTensor(t, s, e, 30);
        il += (i ? ", " : "") + x;
        tl += (i ? ", " : "") + tt(s, e);
        std::string a = "%m" + std::to_string(id++);
        bl += a + ": " + e + ", ";
        vals.push_back(a);
      }
      for (int i = 0; i < no; ++i) {
        std::string m = dl;
        ml += (i ? ", " : "") + std::string("affine_map<(" + dl + ") -> (" + m + ")>");
        auto init = c.chance(70) ? t.line("tensor.empty() : " + ty) : t.arg(ty);
        ol += (i ? ", " : "") + init;
        otl += (i ? ", " : "") + ty;
        std::string a = "%m" + std::to_string(id++);
        bl += (i ? ", " : "") + a + ": " + e;
        if (init[1] == 'a') outArgs.push_back(a);
      }
      (void)reduce;
      if (c.chance(30) || vals.empty()) vals.push_back(scalar());
      // The pass assumes bodies do not read initial values (asserted there).
      std::string b;
      std::vector<std::string> all;
      std::string y = body(c, vals, e, c.weighted({1, 4, 3, 1}), b, c.chance(30), id, &all), yl, yt;
      for (int i = 0; i < no; ++i) {
        if (i || c.chance(10)) y = c.pick(all);
        yl += (i ? ", " : "") + y;
        yt += (i ? ", " : "") + e;
      }
      std::string it;
      for (size_t i = 0; i < d.size(); ++i) it += (i ? ", " : "") + std::string("\"parallel\"");
      auto v = t.fresh();
      t.out += "  " + v + (no > 1 ? ":" + std::to_string(no) : "") + " = linalg.generic {indexing_maps = [" + ml + "], iterator_types = [" + it + "]} " + (n ? "ins(" + il + " : " + tl + ") " : "") + "outs(" + ol + " : " + otl + ") {\n  ^bb0(" + bl + "):\n" + b +
               "    linalg.yield " + yl + " : " + yt + "\n  } -> " + (no > 1 ? "(" + otl + ")" : otl) + "\n";
      if (no > 1) for (int i = 0; i < no; ++i) res.push_back({v + "#" + std::to_string(i), ty});
      else res.push_back({v, ty});
    }
  }
  checkCanon(c, t, res);
}

PROP(C18, pass_matvec, "the pass replaced a matrix-vector product", 10000, 100000) {
  Text t(c);
  std::string e = elemType(c);
  if (e == "i1") e = "i8";
  int64_t m = c.range(1, 4), k = c.chance(40) ? m : c.range(1, 4);
  bool vecmat = c.chance(50), tr = c.chance(85);
  // vecmat: (m) x (m,k) -> k ; matvec: (m,k) x (k) -> m
  Ints md = {m, k}, td = {k, m};
  auto src = anyTensor(t, tr ? td : md, e, 30);
  std::string mat = src;
  if (tr) {
    auto init = c.chance(50) ? t.line("tensor.empty() : " + tt(md, e)) : t.arg(tt(md, e));
    mat = t.line("linalg.transpose ins(" + src + " : " + tt(td, e) + ") outs(" + init + " : " + tt(md, e) + ") permutation = [1, 0]");
  }
  Ints vd = {vecmat ? m : k}, od = {vecmat ? k : m};
  auto v = anyTensor(t, vd, e, 30), init = initTensor(t, od, e);
  std::string r;
  if (vecmat) r = t.line("linalg.vecmat ins(" + v + ", " + mat + " : " + tt(vd, e) + ", " + tt(md, e) + ") outs(" + init + " : " + tt(od, e) + ") -> " + tt(od, e));
  else r = t.line("linalg.matvec ins(" + mat + ", " + v + " : " + tt(md, e) + ", " + tt(vd, e) + ") outs(" + init + " : " + tt(od, e) + ") -> " + tt(od, e));
  std::vector<std::pair<std::string, std::string>> res = {{r, tt(od, e)}};
  if (c.chance(15)) res.push_back({mat, tt(md, e)});
  checkCanon(c, t, res);
}
