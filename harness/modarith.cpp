// C26: modular arithmetic (mod_arith, rns) computes residues exactly, before and
// after its canonicalizations and its lowering to arith.
#include "lib/Dialect/HEIRInterfaces.h"
#include "lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.h"
#include "lib/Dialect/ModArith/IR/ModArithAttributes.h"
#include "lib/Dialect/ModArith/IR/ModArithDialect.h"
#include "lib/Dialect/ModArith/IR/ModArithOps.h"
#include "lib/Dialect/ModArith/IR/ModArithTypes.h"
#include "lib/Dialect/ModArith/Transforms/ConvertToMac.h"
#include "lib/Dialect/RNS/IR/RNSAttributes.h"
#include "lib/Dialect/RNS/IR/RNSDialect.h"
#include "lib/Dialect/RNS/IR/RNSOps.h"
#include "lib/Dialect/RNS/IR/RNSTypes.h"
#include "lib/Dialect/RNS/Transforms/LowerConvertBasis.h"
#include "mlir/AsmParser/AsmParser.h"
#include "mlir/Transforms/Passes.h"
#include "mlir_interp.h"
#include "pbt.h"
using namespace mlir;
using namespace mlir::heir;
using llvm::APInt;
using mi::Val;
using mod_arith::ModArithType;
using pbt::Case;
using rns::RNSType;
using Ints = std::vector<int64_t>;
using std::string;
using std::vector;

// MLIR 20's folders of tensor.splat, from_elements, extract_slice and reshape
// crash on constant elements that are not builtin numbers; the MLIR google/heir uses checks first.
// Do that here: the operation gets a folder that does.
// (foldHook is the first virtual function after the two destructors.)
using FoldHook = LogicalResult (*)(void *, Operation *, ArrayRef<Attribute>, SmallVectorImpl<OpFoldResult> &);
template <class OpT>
static void checkedFold(MLIRContext *c) {
  static FoldHook orig;
  static void *table[32];
  struct Peek : OperationName {
    Peek(OperationName n) : OperationName(n) {}
    void *impl() { return getImpl(); }
  };
  void ***impl = (void ***)Peek(OperationName(OpT::getOperationName(), c)).impl();
  for (int i = 0; i < 32; ++i) table[i] = (*impl)[i - 2];
  orig = (FoldHook)table[4];
  FoldHook mine = [](void *self, Operation *op, ArrayRef<Attribute> a, SmallVectorImpl<OpFoldResult> &r) -> LogicalResult {
    if (!getElementTypeOrSelf(op->getResult(0).getType()).isIntOrIndexOrFloat()) return failure();
    return orig(self, op, a, r);
  };
  table[4] = (void *)mine;
  *impl = table + 2;
}
static MLIRContext *ctx() {
  static MLIRContext *x = [] {
    DialectRegistry reg;
    reg.insert<mod_arith::ModArithDialect, rns::RNSDialect, arith::ArithDialect, func::FuncDialect, tensor::TensorDialect, scf::SCFDialect, affine::AffineDialect, linalg::LinalgDialect>();
    auto *c = new MLIRContext(reg, MLIRContext::Threading::DISABLED);
    c->loadAllAvailableDialects();
    checkedFold<tensor::SplatOp>(c);
    checkedFold<tensor::FromElementsOp>(c);
    checkedFold<tensor::ExtractSliceOp>(c);
    checkedFold<tensor::ReshapeOp>(c);
    return c;
  }();
  return x;
}
struct Quiet {
  ScopedDiagnosticHandler h;
  string last;
  Quiet() : h(ctx(), [this](Diagnostic &d) { if (last.empty()) last = d.str(); return success(); }) {}
};
static string dec(const APInt &a, bool sign = false) {
  llvm::SmallString<64> s;
  a.toString(s, 10, sign);
  return s.str().str();
}

// ---------------------------------------------------------------------------
// Types.
struct Ty {
  char k = 'i';  // i: integer, m: mod_arith, r: rns
  unsigned w = 32;
  vector<APInt> q;
  Ints shape;
  bool operator==(const Ty &o) const { return k == o.k && w == o.w && q == o.q && shape == o.shape; }
  string elem() const {
    auto one = [&](const APInt &a) { return "!mod_arith.int<" + dec(a) + " : i" + std::to_string(w) + ">"; };
    if (k == 'i') return "i" + std::to_string(w);
    if (k == 'm') return one(q[0]);
    string s = "!rns.rns<";
    for (size_t i = 0; i < q.size(); ++i) s += (i ? ", " : "") + one(q[i]);
    return s + ">";
  }
  string str() const {
    if (shape.empty()) return elem();
    string s = "tensor<";
    for (auto d : shape) s += std::to_string(d) + "x";
    return s + elem() + ">";
  }
  int64_t numel() const { int64_t n = 1; for (auto d : shape) n *= d; return n; }
  Ty with(Ints s) const { Ty t = *this; t.shape = std::move(s); return t; }
  Ty limb(size_t i) const { Ty t = *this; t.k = 'm'; t.q = {q[i]}; return t; }
};
// A modulus that fits storage of the given width (one bit must stay free).
static APInt modulus(Case &c, unsigned w, bool odd = false) {
  APInt top = APInt::getLowBitsSet(w, w - 1), q(w, 1);
  switch (c.weighted({4, 3, 2, 2, 1, 1})) {
    case 0: q = APInt(64, 2 + c.draw(40)).zextOrTrunc(w < 64 ? 64 : w); break;
    case 1: q = APInt(w, 0); for (unsigned i = 0; i + 1 < w; i += 32) q |= APInt(64, c.draw(1ull << 32)).zextOrTrunc(std::max(w, 64u)).shl(i).zextOrTrunc(w); break;
    case 2: q = top - APInt(64, c.draw(3)).zextOrTrunc(w); break;
    case 3: q = APInt::getOneBitSet(w, c.draw(w - 1)); break;
    case 4: q = APInt(64, c.pickOf({17ull, 257ull, 65537ull, 7681ull, 3329ull, 8380417ull, 2147483647ull})).zextOrTrunc(std::max(w, 64u)); break;
    default: q = APInt(w, 1);
  }
  if (q.getBitWidth() != w) {
    APInt t = top.zext(std::max(q.getBitWidth(), w));
    if (q.ugt(t)) q = q.urem(t) + 1;
    q = q.zextOrTrunc(w);
  }
  q &= top;
  if (q.isZero()) q = APInt(w, 1);
  if (odd) q.setBit(0);
  return q;
}
static unsigned width(Case &c) {
  switch (c.weighted({6, 3, 1})) {
    case 0: return c.pickOf({32u, 8u, 16u, 64u});
    case 1: return 3 + c.draw(30);
    default: return c.pickOf({65u, 100u, 128u});
  }
}
static bool coprime(const APInt &a, const APInt &b) { return llvm::APIntOps::GreatestCommonDivisor(a, b) == 1; }
static Ty modTy(Case &c, unsigned w, bool odd = false) { Ty t; t.k = 'm'; t.w = w; t.q = {modulus(c, w, odd)}; return t; }
static Ty rnsTy(Case &c, unsigned w, int64_t limbs, bool odd = false) {
  Ty t;
  t.k = 'r';
  t.w = w;
  for (int tries = 0; (int64_t)t.q.size() < limbs && tries < 30; ++tries) {
    APInt q = modulus(c, w, odd);
    if (q == 1 && (odd || c.chance(80))) continue;
    if (llvm::all_of(t.q, [&](const APInt &o) { return coprime(o, q); })) t.q.push_back(q);
  }
  if (t.q.empty()) t.q.push_back(APInt(w, 3));
  return t;
}
static APInt wideProduct(const vector<APInt> &q) {
  unsigned w = 1;
  for (auto &a : q) w += a.getBitWidth();
  APInt p(w, 1);
  for (auto &a : q) p *= a.zext(w);
  return p;
}
// A residue, often near the ends of its range.
static APInt residue(Case &c, const APInt &q) {
  unsigned w = q.getBitWidth();
  APInt r(w, 0);
  switch (c.weighted({2, 2, 5, 1})) {
    case 0: r = APInt(64, c.draw(4)).zextOrTrunc(w); break;
    case 1: r = q - 1 - APInt(64, c.draw(3)).zextOrTrunc(w).urem(q); break;
    case 2: for (unsigned i = 0; i < w; i += 32) r |= APInt(64, c.draw(1ull << 32)).zextOrTrunc(std::max(w, 64u)).shl(i).zextOrTrunc(w); break;
    default: r = q.lshr(1) + APInt(64, c.draw(3)).zextOrTrunc(w);
  }
  return r.urem(q);
}
static APInt anyInt(Case &c, unsigned w) {
  if (c.chance(40)) return APInt(64, (uint64_t)c.range(-20, 20), true, true).sextOrTrunc(w);
  if (c.chance(20)) return c.chance(50) ? APInt::getSignedMaxValue(w) : APInt::getSignedMinValue(w);
  APInt r(w, 0);
  for (unsigned i = 0; i < w; i += 32) r |= APInt(64, c.draw(1ull << 32)).zextOrTrunc(std::max(w, 64u)).shl(i).zextOrTrunc(w);
  return r;
}
static Val input(Case &c, const Ty &t) {
  auto one = [&]() -> Val {
    if (t.k == 'i') return Val::I(anyInt(c, t.w));
    if (t.k == 'm') return Val::I(residue(c, t.q[0]));
    vector<Val> l;
    for (auto &q : t.q) l.push_back(Val::I(residue(c, q)));
    return mi::tensorOf({(int64_t)l.size()}, l);
  };
  if (t.shape.empty()) return one();
  vector<Val> d;
  for (int64_t i = 0; i < t.numel(); ++i) d.push_back(one());
  return mi::tensorOf(t.shape, d);
}
// The value as the lowered program takes it: the limbs are the last dimension.
static void flat(const Val &v, vector<Val> &out) {
  if (!v.shaped()) { out.push_back(v); return; }
  for (auto &e : mi::elems(v)) flat(e, out);
}
static Val lowered(const Ty &t, const Val &v) {
  if (t.k != 'r' || t.shape.empty()) return v;
  vector<Val> d;
  flat(v, d);
  Ints s = t.shape;
  s.push_back(t.q.size());
  return mi::tensorOf(s, d);
}

// ---------------------------------------------------------------------------
// The meaning of the operations.
static APInt smod(const APInt &x, const APInt &q) {
  unsigned w = std::max(x.getBitWidth(), q.getBitWidth()) + 1;
  APInt r = x.sext(w).srem(q.zext(w));
  if (r.isNegative()) r += q.zext(w);
  return r.trunc(q.getBitWidth());
}
static APInt centred(const APInt &r, const APInt &q) {  // in [-q/2, q/2)
  unsigned w = q.getBitWidth() + 2;
  APInt two = r.zext(w).shl(1);
  bool low = q[0] ? two.ult(q.zext(w)) : two.ult(q.zext(w));
  return low ? r : r - q;
}
using ModFn = std::function<APInt(const APInt &q, const vector<APInt> &)>;
static Val each(Type t, const vector<Val> &args, const ModFn &f) {
  if (auto s = dyn_cast<ShapedType>(t)) {
    vector<vector<Val>> e;
    for (auto &a : args) e.push_back(mi::elems(a));
    vector<Val> out;
    for (size_t i = 0; i < e[0].size(); ++i) {
      vector<Val> x;
      for (auto &v : e) x.push_back(v[i]);
      out.push_back(each(s.getElementType(), x, f));
    }
    return mi::tensorOf(args[0].sizes, out);
  }
  if (auto r = dyn_cast<RNSType>(t)) {
    vector<Val> out;
    for (size_t i = 0; i < r.getBasisTypes().size(); ++i) {
      vector<Val> x;
      for (auto &a : args) x.push_back(mi::elems(a)[i]);
      out.push_back(each(r.getBasisTypes()[i], x, f));
    }
    return mi::tensorOf({(int64_t)out.size()}, out);
  }
  vector<APInt> x;
  for (auto &a : args) {
    if (a.k != Val::Int) throw mi::UB{"undefined residue"};
    x.push_back(a.i);
  }
  return Val::I(f(cast<ModArithType>(t).getModulus().getValue(), x));
}
static vector<APInt> moduliOf(RNSType r) {
  vector<APInt> q;
  for (Type b : r.getBasisTypes()) q.push_back(cast<ModArithType>(b).getModulus().getValue());
  return q;
}
// The integer in [0, Q) with the given residues, without inverses: step through
// the residue classes one modulus at a time.
static APInt crt(const vector<APInt> &q, const vector<APInt> &x) {
  unsigned w = 2;
  for (auto &a : q) w += a.getBitWidth();
  APInt v(w, 0), m(w, 1);
  for (size_t i = 0; i < q.size(); ++i) {
    APInt qi = q[i].zext(w);
    // v + m*t ≡ x_i (mod q_i): t = (x_i - v) / m by the extended Euclid.
    APInt a = m.urem(qi), b = qi, s(w, 1), t(w, 0);
    while (!a.isZero()) {  // invariants modulo q_i
      APInt d = b.udiv(a), r = b - d * a;
      APInt sub = (d.urem(qi).zext(2 * w) * s.zext(2 * w)).urem(qi.zext(2 * w)).trunc(w);
      APInt n = (t + qi - sub).urem(qi);
      b = a; a = r; t = s; s = n;
    }
    APInt inv = t.urem(qi);  // m * inv ≡ 1
    APInt diff = (x[i].zext(w) + qi - v.urem(qi)).urem(qi);
    APInt k = (diff.zext(2 * w) * inv.zext(2 * w)).urem(qi.zext(2 * w)).trunc(w);
    v += m * k;
    m *= qi;
  }
  return v;
}
// The centred lift under the largest modulus its storage admits is a known
// finding, probed on its own.
static bool centredFinding(const APInt &q) { return q.isMaxSignedValue(); }
static Val convertBasis(RNSType from, RNSType to, const Val &v) {
  auto q = moduliOf(from);
  if (llvm::any_of(q, centredFinding)) throw mi::UB{"known finding"};
  vector<APInt> x;
  for (auto &e : mi::elems(v)) x.push_back(e.i);
  APInt r = crt(q, x), Q = wideProduct(q).zextOrTrunc(r.getBitWidth() + 2);
  APInt z = centred(r.zext(Q.getBitWidth()), Q).sext(Q.getBitWidth() + 2);
  vector<Val> out;
  for (auto &p : moduliOf(to)) {
    APInt wide = p.zextOrTrunc(std::max(p.getBitWidth(), z.getBitWidth()));
    out.push_back(Val::I(smod(z, wide).zextOrTrunc(p.getBitWidth())));
  }
  return mi::tensorOf({(int64_t)out.size()}, out);
}
static void model(mi::Interp &in) {
  auto bin = [&](const char *n, ModFn f) {
    in.handlers[string("mod_arith.") + n] = [f](mi::Interp &, Operation *op, vector<Val> a) -> vector<Val> { return {each(op->getResult(0).getType(), a, f)}; };
  };
  auto wide = [](const APInt &q, const APInt &x) { return x.zext(2 * q.getBitWidth() + 2); };
  bin("add", [=](const APInt &q, const vector<APInt> &x) { return (wide(q, x[0]) + wide(q, x[1])).urem(wide(q, q)).trunc(q.getBitWidth()); });
  bin("sub", [=](const APInt &q, const vector<APInt> &x) { return (wide(q, x[0]) + wide(q, q) - wide(q, x[1])).urem(wide(q, q)).trunc(q.getBitWidth()); });
  bin("mul", [=](const APInt &q, const vector<APInt> &x) { return (wide(q, x[0]) * wide(q, x[1])).urem(wide(q, q)).trunc(q.getBitWidth()); });
  bin("mac", [=](const APInt &q, const vector<APInt> &x) { return (wide(q, x[0]) * wide(q, x[1]) + wide(q, x[2])).urem(wide(q, q)).trunc(q.getBitWidth()); });
  bin("reduce", [=](const APInt &q, const vector<APInt> &x) { return smod(x[0], q); });
  in.handlers["mod_arith.lift"] = [](mi::Interp &, Operation *op, vector<Val> a) -> vector<Val> {
    bool c = cast<mod_arith::LiftOp>(op).getLiftType() == mod_arith::LiftType::CENTERED;
    return {each(op->getOperand(0).getType(), a, [c](const APInt &q, const vector<APInt> &x) {
              if (c && centredFinding(q)) throw mi::UB{"known finding"};
              APInt r = smod(x[0], q);
              return c ? centred(r, q) : r;
            })};
  };
  in.handlers["mod_arith.encapsulate"] = [](mi::Interp &, Operation *op, vector<Val> a) -> vector<Val> {
    auto s = dyn_cast<ShapedType>(op->getResult(0).getType());
    auto r = dyn_cast<RNSType>(getElementTypeOrSelf(op->getResult(0).getType()));
    if (!s || !r) return {a[0]};
    int64_t n = r.getBasisTypes().size();
    auto e = mi::elems(a[0]);
    vector<Val> out;
    for (size_t i = 0; i < e.size(); i += n) out.push_back(mi::tensorOf({n}, vector<Val>(e.begin() + i, e.begin() + i + n)));
    return {mi::tensorOf(Ints(s.getShape()), out)};
  };
  in.handlers["mod_arith.constant"] = [](mi::Interp &, Operation *op, vector<Val>) -> vector<Val> {
    auto k = cast<mod_arith::ConstantOp>(op);
    APInt q = cast<ModArithType>(getElementTypeOrSelf(k.getType())).getModulus().getValue();
    if (auto i = dyn_cast<IntegerAttr>(k.getValue())) return {Val::I(smod(i.getValue(), q))};
    vector<Val> out;
    for (APInt v : cast<DenseIntElementsAttr>(k.getValue()).getValues<APInt>()) out.push_back(Val::I(smod(v, q)));
    return {mi::tensorOf(Ints(cast<ShapedType>(k.getType()).getShape()), out)};
  };
  in.handlers["mod_arith.mod_switch"] = [](mi::Interp &, Operation *op, vector<Val> a) -> vector<Val> {
    Type f = op->getOperand(0).getType(), t = op->getResult(0).getType();
    if (a[0].k == Val::Undef) throw mi::UB{"undefined"};
    if (auto r = dyn_cast<RNSType>(f)) {
      vector<APInt> x;
      for (auto &e : mi::elems(a[0])) x.push_back(e.i);
      APInt v = crt(moduliOf(r), x);
      return {Val::I(v.zextOrTrunc(cast<ModArithType>(t).getModulus().getValue().getBitWidth()))};
    }
    APInt q = cast<ModArithType>(f).getModulus().getValue();
    if (auto r = dyn_cast<RNSType>(t)) {
      vector<Val> out;
      for (auto &p : moduliOf(r)) {
        unsigned w = std::max(p.getBitWidth(), q.getBitWidth());
        out.push_back(Val::I(a[0].i.zext(w).urem(p.zext(w)).zextOrTrunc(p.getBitWidth())));
      }
      return {mi::tensorOf({(int64_t)out.size()}, out)};
    }
    APInt p = cast<ModArithType>(t).getModulus().getValue();
    unsigned w = std::max(q.getBitWidth(), p.getBitWidth()) + 2;
    // At the middle of an odd modulus either representative is as good.
    if (q[0] && a[0].i == q.lshr(1)) throw mi::UB{"the two representatives of a mod_switch are equally far"};
    APInt z = centred(a[0].i.zext(w), q.zext(w));
    return {Val::I(smod(z, p.zext(w)).trunc(p.getBitWidth()))};
  };
  in.handlers["mod_arith.subifge"] = [](mi::Interp &, Operation *, vector<Val> a) -> vector<Val> {
    auto f = [](const Val &x, const Val &y) { return x.i.uge(y.i) ? Val::I(x.i - y.i) : x; };
    if (!a[0].shaped()) return {f(a[0], a[1])};
    auto x = mi::elems(a[0]), y = mi::elems(a[1]);
    for (size_t i = 0; i < x.size(); ++i) x[i] = f(x[i], y[i]);
    return {mi::tensorOf(a[0].sizes, x)};
  };
  in.handlers["rns.extract_residue"] = [](mi::Interp &, Operation *op, vector<Val> a) -> vector<Val> { return {mi::elems(a[0])[cast<rns::ExtractResidueOp>(op).getIndex().getSExtValue()]}; };
  in.handlers["rns.extract_slice"] = [](mi::Interp &, Operation *op, vector<Val> a) -> vector<Val> {
    auto o = cast<rns::ExtractSliceOp>(op);
    int64_t s = o.getStart().getSExtValue(), n = o.getSize().getSExtValue();
    auto one = [&](const Val &v) { auto e = mi::elems(v); return mi::tensorOf({n}, vector<Val>(e.begin() + s, e.begin() + s + n)); };
    if (!isa<ShapedType>(op->getOperand(0).getType())) return {one(a[0])};
    vector<Val> out;
    for (auto &e : mi::elems(a[0])) {
      if (!e.shaped()) throw mi::UB{"undefined"};
      out.push_back(one(e));
    }
    return {mi::tensorOf(a[0].sizes, out)};
  };
  in.handlers["rns.pack"] = [](mi::Interp &, Operation *, vector<Val> a) -> vector<Val> { return {mi::tensorOf({(int64_t)a.size()}, a)}; };
  in.handlers["rns.constant"] = [](mi::Interp &, Operation *op, vector<Val>) -> vector<Val> {
    vector<Val> out;
    for (Attribute a : cast<rns::ConstantOp>(op).getValue().getValues()) {
      auto m = cast<mod_arith::ModArithAttr>(a);
      out.push_back(Val::I(smod(m.getValue().getValue(), cast<ModArithType>(m.getType()).getModulus().getValue())));
    }
    return {mi::tensorOf({(int64_t)out.size()}, out)};
  };
  in.handlers["rns.convert_basis"] = [](mi::Interp &, Operation *op, vector<Val> a) -> vector<Val> {
    return {convertBasis(cast<RNSType>(op->getOperand(0).getType()), cast<RNSType>(op->getResult(0).getType()), a[0])};
  };
}

// ---------------------------------------------------------------------------
// Random programs.
struct Gen {
  Case &c;
  struct V { string n; Ty t; };
  vector<V> vals;
  std::ostringstream os;
  vector<Ty> mods, rnss;
  int id = 0, indent = 2, ops = 0, arithOps = 0;
  bool odd, rnsConst = false;
  struct F { string n; vector<Ty> in; Ty out; };
  vector<F> helpers;
  explicit Gen(Case &c) : c(c) {
    unsigned w = width(c);
    odd = c.chance(40);
    int64_t nm = c.range(1, 3), nr = c.range(0, 2), most = c.chance(15) ? 7 : 4;
    for (int64_t i = 0; i < nm; ++i) mods.push_back(modTy(c, c.chance(75) ? w : width(c), odd));
    for (int64_t i = 0; i < nr; ++i) {
      Ty t = rnsTy(c, w, c.range(1, most), odd);
      rnss.push_back(t);
      // The type of the product, so that decomposing and interpolating apply.
      APInt p = wideProduct(t.q);
      unsigned need = std::max(p.getActiveBits() + 1, w);
      if (t.q.size() > 1 && need <= 300 && c.chance(60)) {
        Ty m;
        m.k = 'm';
        m.w = need + (c.chance(50) ? 0 : c.draw(20));
        m.q = {p.zextOrTrunc(m.w)};
        if (c.chance(25)) m.q[0] = residue(c, m.q[0]) + 1;
        mods.push_back(m);
      }
      for (auto &q : t.q) if (c.chance(30)) { Ty m; m.k = 'm'; m.w = w; m.q = {q}; mods.push_back(m); }
    }
  }
  string fresh() { return "%v" + std::to_string(id++); }
  void line(const string &s) { os << string(indent, ' ') << s << "\n"; }
  string emit(const string &rhs, const Ty &t) {
    string n = fresh();
    line(n + " = " + rhs);
    vals.push_back({n, t});
    ++ops;
    return n;
  }
  vector<V> where(const std::function<bool(const Ty &)> &f) {
    vector<V> r;
    for (auto &v : vals) if (f(v.t)) r.push_back(v);
    return r;
  }
  Ints shape() {
    if (c.chance(60)) return {};
    Ints s;
    for (int64_t i = 0, n = c.range(1, 2); i < n; ++i) s.push_back(c.range(1, 3));
    return s;
  }
  Ty anyTy(bool scalar = false) {
    size_t n = mods.size() + rnss.size();
    size_t i = c.draw(n + 1);
    Ty t;
    if (i < mods.size()) t = mods[i];
    else if (i < n) t = rnss[i - mods.size()];
    else { t.k = 'i'; t.w = mods[c.draw(mods.size())].w; }
    return scalar ? t : t.with(shape());
  }
  string index(int64_t i) {
    string n = fresh();
    line(n + " = arith.constant " + std::to_string(i) + " : index");
    return n;
  }
  string constantText(const Ty &t) {
    auto v = [&] {
      if (c.chance(80)) return dec(residue(c, t.q[0]));
      return dec(anyInt(c, t.w), true);
    };
    if (t.shape.empty()) return v();
    string s = "dense<[";
    for (int64_t i = 0; i < t.shape[0]; ++i) s += (i ? ", " : "") + v();
    return s + "]>";
  }
  // A value of the type, made if there is none.
  string make(const Ty &t, int depth = 0) {
    auto have = where([&](const Ty &o) { return o == t; });
    if (!have.empty() && (depth > 3 || c.chance(85))) return have[c.draw(have.size())].n;
    if (t.shape.empty()) {
      if (t.k == 'i') { string n = fresh(); line(n + " = arith.constant " + (t.w == 1 ? (c.chance(50) ? "true" : "false") : dec(anyInt(c, t.w), true) + " : " + t.str())); vals.push_back({n, t}); return n; }
      if (t.k == 'm') return emit("mod_arith.constant " + constantText(t) + " : " + t.str(), t);
      string a, ty;
      if (rnsConst && c.chance(70)) {
        for (size_t i = 0; i < t.q.size(); ++i) a += (i ? ", #mod_arith.value<" : "#mod_arith.value<") + constantText(t.limb(i)) + " : " + t.limb(i).str() + ">";
        return emit("rns.constant <[" + a + "]> : " + t.str(), t);
      }
      for (size_t i = 0; i < t.q.size(); ++i) {
        a += (i ? ", " : "") + make(t.limb(i), depth + 1);
        ty += (i ? ", " : "") + t.limb(i).str();
      }
      return emit("rns.pack " + a + " : " + ty, t);
    }
    if (t.k == 'm' && t.shape.size() == 1 && c.chance(40)) return emit("mod_arith.constant " + constantText(t) + " : " + t.str(), t);
    if (t.k == 'i' && c.chance(35)) return emit("tensor.splat " + make(t.with({}), depth + 1) + " : " + t.str(), t);
    string a;
    for (int64_t i = 0; i < t.numel(); ++i) a += (i ? ", " : "") + make(t.with({}), depth + 1);
    return emit("tensor.from_elements " + a + " : " + t.str(), t);
  }
  static bool modq(const Ty &t) { return t.k != 'i'; }
  bool binary() {
    auto v = where(modq);
    if (v.empty()) return false;
    auto a = v[c.draw(v.size())];
    string b = make(a.t), o = c.pickOf({"add", "sub", "mul", "mac"});
    ++arithOps;
    string x = a.n;
    if (c.chance(50)) std::swap(x, b);
    if (o == "mac") { string d = make(a.t); emit("mod_arith.mac " + x + ", " + b + ", " + d + " : " + a.t.str(), a.t); }
    else emit("mod_arith." + o + " " + x + ", " + b + " : " + a.t.str(), a.t);
    return true;
  }
  // Shapes the canonicalizations look for.
  bool pattern() {
    auto v = where([](const Ty &t) { return t.k == 'm'; });
    if (v.empty()) return false;
    auto a = v[c.draw(v.size())];
    Ty t = a.t;
    if (t.shape.size() > 1) return false;
    string y = make(t), cur = a.n, x = a.n;
    auto konst = [&] {
      string s = constantText(t);
      if (t.shape.empty() && c.chance(50)) { int64_t k = c.range(0, 2); s = k == 0 ? "0" : k == 1 ? "1" : dec(t.q[0] - 1); if (t.q[0] == 1) s = "0"; }
      return emit("mod_arith.constant " + s + " : " + t.str(), t);
    };
    for (int64_t i = 0, n = c.range(1, 3); i < n; ++i) {
      string o = c.pickOf({"add", "sub", "mul"});
      string other = c.chance(60) ? konst() : c.chance(50) ? y : x;
      if (c.chance(40)) std::swap(cur, other);
      cur = emit("mod_arith." + o + " " + cur + ", " + other + " : " + t.str(), t);
      ++arithOps;
    }
    return true;
  }
  bool convert() {
    switch (c.draw(5)) {
      case 0: {  // encapsulate
        auto v = where([](const Ty &t) { return t.k == 'i' && t.w > 2; });
        if (v.empty()) return false;
        auto a = v[c.draw(v.size())];
        vector<Ty> to;
        for (auto &m : mods) if (m.w == a.t.w) to.push_back(m.with(a.t.shape));
        for (auto &r : rnss)
          if (r.w == a.t.w && !a.t.shape.empty() && a.t.shape.back() == (int64_t)r.q.size()) to.push_back(r.with(Ints(a.t.shape.begin(), a.t.shape.end() - 1)));
        if (to.empty()) return false;
        Ty t = to[c.draw(to.size())];
        string n = fresh();
        line(n + " = mod_arith.encapsulate " + a.n + " : " + a.t.str() + " -> " + t.str());
        if (t.k == 'm' && c.chance(40)) {
          Ty i = a.t;
          emit(string("mod_arith.lift ") + (c.chance(50) ? "standard " : "centered ") + n + " : " + t.str() + " -> " + i.str(), i);
        } else emit("mod_arith.reduce " + n + " : " + t.str(), t);
        return true;
      }
      case 1: {  // lift
        auto v = where([](const Ty &t) { return t.k == 'm'; });
        if (v.empty()) return false;
        auto a = v[c.draw(v.size())];
        Ty i;
        i.k = 'i'; i.w = a.t.w; i.shape = a.t.shape;
        emit(string("mod_arith.lift ") + (c.chance(40) ? "standard " : "centered ") + a.n + " : " + a.t.str() + " -> " + i.str(), i);
        return true;
      }
      case 2: {  // reduce, or arithmetic on the integers
        auto v = where([](const Ty &t) { return t.w > 2; });
        if (v.empty()) return false;
        auto a = v[c.draw(v.size())];
        if (a.t.k != 'i') emit("mod_arith.reduce " + a.n + " : " + a.t.str(), a.t);
        else emit(string(c.pickOf({"arith.addi ", "arith.subi ", "arith.muli ", "mod_arith.subifge "})) + a.n + ", " + make(a.t) + " : " + a.t.str(), a.t);
        return true;
      }
      default: {  // mod_switch
        auto v = where([](const Ty &t) { return modq(t) && t.shape.empty(); });
        if (v.empty()) return false;
        auto a = v[c.draw(v.size())];
        vector<Ty> to;
        if (a.t.k == 'm') {
          for (auto &m : mods) to.push_back(m);
          for (auto &r : rnss)
            if (r.q.size() > 1 && r.w <= a.t.w) {
              APInt p = wideProduct(r.q);
              unsigned w = std::max(p.getBitWidth(), a.t.w);
              if (a.t.q[0].zext(w).ule(p.zext(w))) { to.push_back(r); to.push_back(r); to.push_back(r); }
            }
        } else if (a.t.q.size() > 1) {
          for (auto &m : mods) {
            APInt p = wideProduct(a.t.q);
            unsigned w = std::max(p.getBitWidth(), m.w);
            if (m.w >= a.t.w && m.q[0].zext(w) == p.zext(w)) to.push_back(m);
          }
        }
        if (to.empty()) return false;
        Ty t = to[c.draw(to.size())];
        emit("mod_arith.mod_switch " + a.n + " : " + a.t.str() + " to " + t.str(), t);
        return true;
      }
    }
  }
  bool rnsOp() {
    auto v = where([](const Ty &t) { return t.k == 'r'; });
    if (v.empty()) {
      if (rnss.empty()) return false;
      make(rnss[c.draw(rnss.size())]);
      return true;
    }
    auto a = v[c.draw(v.size())];
    int64_t n = a.t.q.size();
    switch (c.draw(4)) {
      case 0:
        if (!a.t.shape.empty()) return false;
        { int64_t i = c.draw(n); emit("rns.extract_residue " + a.n + " {index = " + std::to_string(i) + " : index} : " + a.t.str() + " -> " + a.t.limb(i).str(), a.t.limb(i)); }
        return true;
      case 1: {
        int64_t s = c.draw(n), k = c.range(1, n - s);
        Ty t = a.t;
        t.q = vector<APInt>(a.t.q.begin() + s, a.t.q.begin() + s + k);
        emit("rns.extract_slice " + a.n + " {start = " + std::to_string(s) + " : index, size = " + std::to_string(k) + " : index} : " + a.t.str() + " -> " + t.str(), t);
        return true;
      }
      case 2: {
        // Pack scalars that happen to be coprime.
        auto m = where([&](const Ty &t) { return t.k == 'm' && t.shape.empty() && t.w == a.t.w; });
        Ty t = a.t.with({});
        t.q.clear();
        string args, tys;
        for (int k = 0; k < 4 && !m.empty(); ++k) {
          auto x = m[c.draw(m.size())];
          if (!llvm::all_of(t.q, [&](const APInt &o) { return coprime(o, x.t.q[0]); })) continue;
          args += (t.q.empty() ? "" : ", ") + x.n;
          tys += (t.q.empty() ? "" : ", ") + x.t.str();
          t.q.push_back(x.t.q[0]);
        }
        if (t.q.empty()) return false;
        emit("rns.pack " + args + " : " + tys, t);
        return true;
      }
      default: {
        if (!odd || !a.t.shape.empty() || llvm::any_of(a.t.q, [](const APInt &q) { return q == 1; })) return false;
        Ty t = c.chance(50) && rnss.size() > 1 ? rnss[c.draw(rnss.size())] : rnsTy(c, a.t.w, c.range(1, 4), true);
        if (t.w != a.t.w) return false;
        emit("rns.convert_basis " + a.n + " {targetBasis = " + t.str() + "} : " + a.t.str() + " -> " + t.str(), t);
        return true;
      }
    }
  }
  bool tensorOp() {
    auto v = where([](const Ty &t) { return !t.shape.empty() && t.w > 2; });
    if (v.empty()) { make(anyTy(true).with({c.range(1, 3)})); return true; }
    auto a = v[c.draw(v.size())];
    auto idx = [&](const Ints &s) {
      string r;
      for (size_t i = 0; i < s.size(); ++i) r += (i ? ", " : "") + index(c.draw(s[i]));
      return r;
    };
    auto list = [](const Ints &s) { string r = "["; for (size_t i = 0; i < s.size(); ++i) r += (i ? ", " : "") + std::to_string(s[i]); return r + "]"; };
    switch (c.draw(5)) {
      case 0: emit("tensor.extract " + a.n + "[" + idx(a.t.shape) + "] : " + a.t.str(), a.t.with({})); return true;
      case 1: { string s = make(a.t.with({})); emit("tensor.insert " + s + " into " + a.n + "[" + idx(a.t.shape) + "] : " + a.t.str(), a.t); return true; }
      case 2: case 3: {
        Ints off, sz, st, res;
        bool drop = a.t.shape.size() > 1 && c.chance(40);
        for (size_t i = 0; i < a.t.shape.size(); ++i) {
          int64_t d = a.t.shape[i], s = c.range(1, d);
          if (drop && i == 0) s = 1;
          int64_t stride = s > 1 ? c.range(1, (d - 1) / (s - 1)) : 1;
          sz.push_back(s);
          st.push_back(stride);
          off.push_back(c.draw(d - (s - 1) * stride));
          if (!(drop && i == 0)) res.push_back(s);
        }
        Ty t = a.t.with(res);
        if (c.chance(50)) emit("tensor.extract_slice " + a.n + list(off) + " " + list(sz) + " " + list(st) + " : " + a.t.str() + " to " + t.str(), t);
        else { string s = make(t); emit("tensor.insert_slice " + s + " into " + a.n + list(off) + " " + list(sz) + " " + list(st) + " : " + t.str() + " into " + a.t.str(), a.t); }
        return true;
      }
      default: {
        if (a.t.shape.size() != 2) return false;
        Ty t = a.t.with({a.t.numel()});
        if (c.chance(50)) t.shape = {a.t.shape[1], a.t.shape[0]};
        string s = fresh();
        line(s + " = arith.constant dense<" + list(t.shape) + "> : tensor<" + std::to_string(t.shape.size()) + "xindex>");
        emit("tensor.reshape " + a.n + "(" + s + ") : (" + a.t.str() + ", tensor<" + std::to_string(t.shape.size()) + "xindex>) -> " + t.str(), t);
        return true;
      }
    }
  }
  void body(int n, int depth) {
    for (int i = 0; i < n; ++i) op(depth);
  }
  bool control(int depth) {
    if (depth <= 0) return false;
    Ty t = anyTy();
    string init = make(t);
    size_t keep = vals.size();
    string r = fresh(), close = "}";
    switch (c.draw(4)) {
      case 0: case 1: {
        bool aff = c.chance(40);
        string a = fresh(), iv = fresh();
        int64_t trip = c.range(0, 3);
        if (aff) line(r + " = affine.for " + iv + " = 0 to " + std::to_string(trip) + " iter_args(" + a + " = " + init + ") -> (" + t.str() + ") {");
        else {
          string lo = index(0), hi = index(trip), st = index(1);
          line(r + " = scf.for " + iv + " = " + lo + " to " + hi + " step " + st + " iter_args(" + a + " = " + init + ") -> (" + t.str() + ") {");
        }
        indent += 2;
        vals.push_back({a, t});
        body(c.range(1, 4), depth - 1);
        string y = make(t);
        line(string(aff ? "affine.yield " : "scf.yield ") + y + " : " + t.str());
        break;
      }
      case 2: {
        auto v = where([](const Ty &t) { return t.k == 'i' && t.shape.empty() && t.w > 2; });
        if (v.empty()) return false;
        auto x = v[c.draw(v.size())];
        string k = fresh();
        string y0 = make(x.t);
        line(k + " = arith.cmpi " + c.pickOf({"slt", "ult", "eq", "sge"}) + ", " + x.n + ", " + y0 + " : " + x.t.str());
        keep = vals.size();
        line(r + " = scf.if " + k + " -> (" + t.str() + ") {");
        indent += 2;
        body(c.range(0, 3), depth - 1);
        string y = make(t);
        line("scf.yield " + y + " : " + t.str());
        indent -= 2;
        vals.resize(keep);
        line("} else {");
        indent += 2;
        body(c.range(0, 3), depth - 1);
        y = make(t);
        line("scf.yield " + y + " : " + t.str());
        break;
      }
      default: {
        if (t.k != 'm' || t.shape.empty()) return false;
        string e = fresh(), other = make(t);
        keep = vals.size();
        line(e + " = tensor.empty() : " + t.str());
        string map = t.shape.size() == 1 ? "affine_map<(i) -> (i)>" : "affine_map<(i, j) -> (i, j)>", it = t.shape.size() == 1 ? "[\"parallel\"]" : "[\"parallel\", \"parallel\"]";
        Ty s = t.with({});
        string a = fresh(), b = fresh(), o = fresh();
        line(r + " = linalg.generic {indexing_maps = [" + map + ", " + map + ", " + map + "], iterator_types = " + it + "} ins(" + init + ", " + other + " : " + t.str() + ", " + t.str() + ") outs(" + e + " : " + t.str() + ") {");
        line("^bb0(" + a + ": " + s.str() + ", " + b + ": " + s.str() + ", " + o + ": " + s.str() + "):");
        indent += 2;
        // A body over its own scalars.
        auto saved = vals;
        vals.clear();
        vals.push_back({a, s});
        vals.push_back({b, s});
        int64_t n = c.range(1, 3);
        for (int64_t i = 0; i < n; ++i) binary();
        string y = vals.back().n;
        line("linalg.yield " + y + " : " + s.str());
        vals = saved;
        close = "} -> " + t.str();
      }
    }
    indent -= 2;
    vals.resize(keep);
    line(close);
    vals.push_back({r, t});
    return true;
  }
  bool call() {
    if (helpers.empty()) return false;
    auto &h = helpers[c.draw(helpers.size())];
    string a, ty;
    for (size_t i = 0; i < h.in.size(); ++i) { a += (i ? ", " : "") + make(h.in[i]); ty += (i ? ", " : "") + h.in[i].str(); }
    emit("func.call @" + h.n + "(" + a + ") : (" + ty + ") -> " + h.out.str(), h.out);
    return true;
  }
  void op(int depth) {
    for (int tries = 0; tries < 6; ++tries) {
      bool ok = false;
      switch (c.weighted({8, 3, 6, 5, 4, 2, 1})) {
        case 0: ok = binary(); break;
        case 1: ok = pattern(); break;
        case 2: ok = convert(); break;
        case 3: ok = rnsOp(); break;
        case 4: ok = tensorOp(); break;
        case 5: ok = control(depth); break;
        default: ok = call();
      }
      if (ok) return;
    }
  }
  struct Fn { vector<Ty> in, out; };
  Fn func(const string &name, int n, int depth, int outs) {
    Fn f;
    vals.clear();
    string args;
    for (int64_t i = 0, k = c.range(1, 4); i < k; ++i) {
      Ty t = i == 0 ? mods[c.draw(mods.size())].with(shape()) : anyTy();
      string a = fresh();
      args += (i ? ", " : "") + a + ": " + t.str();
      vals.push_back({a, t});
      f.in.push_back(t);
    }
    std::ostringstream saved;
    std::swap(saved, os);
    body(n, depth);
    string rn, rt;
    for (int i = 0; i < outs; ++i) {
      // Prefer late values.
      auto &v = vals[vals.size() - 1 - std::min<size_t>(c.sized(0, 6), vals.size() - 1)];
      rn += (i ? ", " : "") + v.n;
      rt += (i ? ", " : "") + v.t.str();
      f.out.push_back(v.t);
    }
    line("return " + rn + " : " + rt);
    std::swap(saved, os);
    os << "func.func @" << name << "(" << args << ") -> (" << rt << ") {\n" << saved.str() << "}\n";
    return f;
  }
};

static vector<Val> run(ModuleOp m, const vector<Val> &args, bool withModel) {
  mi::Interp in(m);
  mi::addLinalgIndex(in);
  if (withModel) model(in);
  return in.call("f", mi::deepCopy(args));
}
static string showAll(const vector<Val> &v) {
  string s;
  for (auto &x : v) s += (s.empty() ? "" : "; ") + mi::show(x);
  return s;
}
static string text(ModuleOp m) {
  string s;
  llvm::raw_string_ostream o(s);
  m.print(o);
  return s;
}

// Canonicalization (folding included) at the level of the modular dialects, and
// what it leaves printed and parsed again; residue constants of RNS type too.
PROP(C26, canonical, "at least two modular operations, and the program got shorter", 10000, 120000) {
  Gen g(c);
  g.rnsConst = c.chance(60);
  auto f = g.func("f", c.sized(2, c.thorough ? 16 : 10), c.chance(30) ? 1 : 0, c.range(1, 3));
  string src = g.os.str();
  c.desc << src;
  Quiet q;
  auto m = parseSourceString<ModuleOp>(src, ctx());
  c.check(bool(m), "a valid program is refused: ", q.last);
  OwningOpRef<ModuleOp> orig = m->clone();
  PassManager pm(ctx());
  if (c.chance(50)) pm.addPass(mod_arith::createConvertToMac());
  pm.addPass(createCanonicalizerPass());
  c.check(succeeded(pm.run(*m)), "canonicalization fails: ", q.last);
  string mid = text(*m);
  auto again = parseSourceString<ModuleOp>(mid, ctx());
  c.check(bool(again), "the printed program does not parse: ", q.last, "\n", mid);
  c.eq(text(*again), mid, "printed, parsed and printed again");
  int ran = 0;
  for (int k = 0; k < 2; ++k) {
    vector<Val> in, want, got;
    for (auto &t : f.in) in.push_back(input(c, t));
    try { want = run(*orig, in, true); } catch (mi::UB &) { continue; } catch (mi::Unsupported &e) { c.fail("interpreter: " + e.msg); }
    try { got = run(*again, in, true); } catch (mi::UB &e) { c.fail("canonicalization introduces undefined behaviour: " + e.msg + "\n" + mid); } catch (mi::Unsupported &e) { c.fail("interpreter: " + e.msg + mid); }
    for (size_t i = 0; i < want.size(); ++i) c.check(mi::refines(want[i], got[i]), "result ", i, " is ", mi::show(got[i]), " instead of ", mi::show(want[i]), " for ", showAll(in), "\n", mid);
    ++ran;
  }
  if (!ran) c.discard();
  auto count = [](ModuleOp m) { int n = 0; m.walk([&](Operation *) { ++n; }); return n; };
  if (g.arithOps >= 2 && count(*m) < count(*orig)) c.nontrivial(src);
}

PROP(C26, lowering, "at least two modular operations, and the runs defined", 12000, 150000) {
  Gen g(c);
  for (int64_t i = 0, n = c.chance(25) ? c.range(1, 2) : 0; i < n; ++i) {
    string nm = "h" + std::to_string(i);
    auto f = g.func(nm, c.range(1, 4), 1, 1);
    g.helpers.push_back({nm, f.in, f.out[0]});
  }
  auto f = g.func("f", c.sized(1, c.thorough ? 16 : 10), c.chance(50) ? 1 : 0, c.range(1, 3));
  string src = g.os.str();
  c.desc << src;
  Quiet q;
  auto m = parseSourceString<ModuleOp>(src, ctx());
  c.check(bool(m), "a valid program is refused: ", q.last);
  bool macs = c.chance(40), canon = c.chance(50), cse = c.chance(30), after = c.chance(30), fold = src.find("convert_basis") != string::npos;
  c.desc << (macs ? "convert-to-mac " : "") << (canon ? "canonicalize " : "") << (cse ? "cse " : "") << "mod-arith-to-arith" << (after ? " canonicalize" : "") << "\n";
  OwningOpRef<ModuleOp> orig = m->clone();
  PassManager pm(ctx());
  if (canon && c.chance(50)) pm.addPass(createCanonicalizerPass());
  if (macs) pm.addPass(mod_arith::createConvertToMac());
  if (fold) pm.addPass(rns::createLowerConvertBasis());
  if (canon) pm.addPass(createCanonicalizerPass());
  if (cse) pm.addPass(createCSEPass());
  c.check(succeeded(pm.run(*m)), "the passes before the lowering fail: ", q.last);
  string mid = text(*m);
  // An arith.select between modular values (canonicalization makes them of
  // scf.if) has no lowering: refused, not miscompiled.
  bool select = false;
  m->walk([&](arith::SelectOp s) { select |= isa<ModArithType, RNSType>(getElementTypeOrSelf(s.getType())); });
  if (select) { c.label("arith.select of residues"); c.discard(); }
  PassManager low(ctx());
  low.addPass(mod_arith::createModArithToArith());
  if (after) low.addPass(createCanonicalizerPass());
  c.check(succeeded(low.run(*m)), "the lowering fails: ", q.last, "\n", mid);
  m->walk([&](Operation *op) {
    auto d = op->getName().getDialectNamespace();
    if (d == "mod_arith" || d == "rns") c.fail("left in the lowered program: " + op->getName().getStringRef().str() + "\n" + text(*m));
  });
  int ran = 0;
  for (int k = 0; k < 3; ++k) {
    vector<Val> in, lowIn;
    for (auto &t : f.in) { in.push_back(input(c, t)); lowIn.push_back(lowered(t, in.back())); }
    vector<Val> want, got;
    try { want = run(*orig, in, true); } catch (mi::UB &) { continue; } catch (mi::Unsupported &e) { c.fail("interpreter (source): " + e.msg); }
    // What the passes before the lowering made of it means the same.
    if (k == 0) {
      auto again = parseSourceString<ModuleOp>(mid, ctx());
      c.check(bool(again), "the printed program does not parse: ", q.last, "\n", mid);
      vector<Val> w2;
      try { w2 = run(*again, in, true); } catch (mi::UB &e) { c.fail("the passes introduce undefined behaviour: " + e.msg + "\n" + mid); } catch (mi::Unsupported &e) { c.fail("interpreter (middle): " + e.msg + mid); }
      for (size_t i = 0; i < want.size(); ++i) c.check(mi::refines(want[i], w2[i]), "before the lowering, result ", i, " is ", mi::show(w2[i]), " instead of ", mi::show(want[i]), " for ", showAll(in), "\n", mid);
    }
    try { got = run(*m, lowIn, false); } catch (mi::UB &e) { c.fail("the lowered program has undefined behaviour: " + e.msg + "\n" + text(*m)); } catch (mi::Unsupported &e) { c.fail("interpreter (lowered): " + e.msg + text(*m)); }
    c.eq(got.size(), want.size(), "number of results");
    for (size_t i = 0; i < want.size(); ++i) {
      Val w = lowered(f.out[i], want[i]);
      c.check(mi::refines(w, got[i]), "result ", i, " is ", mi::show(got[i]), " instead of ", mi::show(w), " for ", showAll(in), "\n", text(*m));
    }
    ++ran;
  }
  if (!ran) c.discard();
  if (g.arithOps >= 2) c.nontrivial(src);
}

// ---------------------------------------------------------------------------
// Barrett reduction: for 0 <= x < q^2 it gives x mod q, or that plus q.
PROP(C26, barrett, "a product at least q", 4000, 60000) {
  unsigned w = c.chance(80) ? 1 + c.draw(33) : 33 + c.draw(40);
  unsigned W = w + c.draw(w + 1);
  APInt q(w + 1, 0);
  switch (c.draw(4)) {
    case 0: q = APInt::getOneBitSet(w + 1, w) - c.draw(std::min<uint64_t>(3, 1ull << (w > 2 ? 2 : w - 1))); break;
    case 1: q = APInt::getOneBitSet(w + 1, w - 1) + 1; break;
    default: for (unsigned i = 0; i < w; i += 32) q |= APInt(64, c.draw(1ull << 32)).zextOrTrunc(std::max(w + 1, 64u)).shl(i).zextOrTrunc(w + 1); q.setBit(w - 1); q.clearBit(w);
  }
  if (w > 1 && q == APInt::getOneBitSet(w + 1, w - 1)) q += 1;
  if (w == 1) q = APInt(2, 2);
  if (q.ult(2) || (q - 1).getActiveBits() != w) c.discard();
  unsigned attr = q.getActiveBits() + 1 + c.pickOf({0u, 1u, 2u * w, 3u * w, 64u});
  if (c.chance(40) && q.getActiveBits() < 64) attr = 64;
  int64_t n = c.chance(35) ? c.range(1, 3) : 0;
  string el = "i" + std::to_string(W), ty = n ? "tensor<" + std::to_string(n) + "x" + el + ">" : el;
  bool sub = c.chance(40);
  // subifge needs q in the input's own width.
  if (sub && q.getActiveBits() > W) sub = false;
  Val qv = Val::I(q.zextOrTrunc(W));
  string src = "func.func @f(%x: " + ty + ", %q: " + ty + ") -> " + ty + " {\n  %r = mod_arith.barrett_reduce %x {modulus = " + dec(q) + " : i" + std::to_string(attr) + "} : " + ty + "\n";
  if (sub) src += "  %s = mod_arith.subifge %r, %q : " + ty + "\n";
  src += string("  return ") + (sub ? "%s" : "%r") + " : " + ty + "\n}\n";
  c.desc << src;
  Quiet quiet;
  auto m = parseSourceString<ModuleOp>(src, ctx());
  c.check(bool(m), "a valid program is refused: ", quiet.last);
  PassManager pm(ctx());
  pm.addPass(mod_arith::createModArithToArith());
  if (c.chance(30)) pm.addPass(createCanonicalizerPass());
  c.check(succeeded(pm.run(*m)), "the lowering fails: ", quiet.last);
  unsigned big = 3 * w + 70;
  APInt sq = q.zext(big) * q.zext(big), top = APInt::getOneBitSet(big, W);
  if (top.ult(sq)) sq = top;
  bool beyond = false;
  for (int k = 0; k < 4; ++k) {
    vector<Val> xs, qs;
    vector<APInt> raw;
    for (int64_t i = 0; i < std::max<int64_t>(n, 1); ++i) {
      APInt x(big, 0);
      switch (c.draw(4)) {
        case 0: x = sq - 1 - APInt(big, c.draw(4)).urem(sq); break;
        case 1: {  // near a multiple of q
          APInt mult = sq.udiv(q.zext(big));
          for (unsigned b = 0; b < W; b += 32) x |= APInt(big, c.draw(1ull << 32)).shl(b);
          x = x.urem(mult + 1) * q.zext(big);
          if (c.chance(60) && !x.isZero()) x -= 1;
          else if (c.chance(50)) x += 1;
          x = x.urem(sq);
          break;
        }
        default: for (unsigned b = 0; b < W; b += 32) x |= APInt(big, c.draw(1ull << 32)).shl(b); x = x.urem(sq);
      }
      raw.push_back(x);
      beyond |= x.uge(q.zext(big));
      xs.push_back(Val::I(x.trunc(W)));
      qs.push_back(qv);
    }
    vector<Val> in = n ? vector<Val>{mi::tensorOf({n}, xs), mi::tensorOf({n}, qs)} : vector<Val>{xs[0], qs[0]};
    vector<Val> got;
    try { got = run(*m, in, false); } catch (mi::UB &e) { c.fail("the lowered program has undefined behaviour: " + e.msg + "\n" + text(*m)); } catch (mi::Unsupported &e) { c.fail("interpreter: " + e.msg + text(*m)); }
    auto out = n ? mi::elems(got[0]) : vector<Val>{got[0]};
    for (size_t i = 0; i < out.size(); ++i) {
      APInt r = raw[i].urem(q.zext(big)), g = out[i].i.zext(big);
      c.check(g == r || (!sub && g == r + q.zext(big)), "Barrett reduction of ", dec(raw[i]), " modulo ", dec(q), " is ", dec(g), "\n", text(*m));
    }
  }
  if (beyond) c.nontrivial(src);
}

// Basis conversion on its own, through larger bases; even moduli are refused.
PROP(C26, basis, "at least two limbs converted", 3000, 50000) {
  unsigned w = width(c);
  if (w > 70) w = 70;
  bool bad = c.chance(12);
  Ty from = rnsTy(c, w, c.range(1, c.thorough ? 8 : 6), true), to = rnsTy(c, w, c.range(1, 5), true);
  // Limbs shared between the two bases are copied.
  for (auto &q : from.q) if (c.chance(25) && llvm::all_of(to.q, [&](const APInt &o) { return coprime(o, q); })) to.q.insert(to.q.begin() + c.draw(to.q.size() + 1), q);
  if (bad) {
    auto &t = c.chance(50) ? from : to;
    size_t i = c.draw(t.q.size());
    APInt e = t.q[i];
    e.clearBit(0);
    if (e.isZero()) e = APInt(w, 2);
    t.q[i] = e;
    for (size_t j = 0; j < t.q.size(); ++j) if (j != i && !coprime(t.q[j], e)) c.discard();
  }
  if (llvm::any_of(from.q, [](const APInt &q) { return q == 1 || centredFinding(q); })) c.discard();
  string src = "func.func @f(%x: " + from.str() + ") -> " + to.str() + " {\n  %r = rns.convert_basis %x {targetBasis = " + to.str() + "} : " + from.str() + " -> " + to.str() + "\n  return %r : " + to.str() + "\n}\n";
  c.desc << src;
  Quiet quiet;
  auto m = parseSourceString<ModuleOp>(src, ctx());
  c.check(bool(m), "a valid program is refused: ", quiet.last);
  OwningOpRef<ModuleOp> orig = m->clone();
  PassManager pm(ctx());
  pm.addPass(rns::createLowerConvertBasis());
  bool canon = c.chance(30);
  if (canon) pm.addPass(createCanonicalizerPass());
  bool ok = succeeded(pm.run(*m));
  bool left = false;
  m->walk([&](rns::ConvertBasisOp) { left = true; });
  if (bad) {
    c.check(!ok || left, "a basis with an even modulus is converted:\n", text(*m));
    c.label("even modulus");
    return;
  }
  c.check(ok && !left, "the basis conversion is not lowered: ", quiet.last);
  OwningOpRef<ModuleOp> low = m->clone();
  PassManager pm2(ctx());
  pm2.addPass(mod_arith::createModArithToArith());
  c.check(succeeded(pm2.run(*low)), "the lowering fails: ", quiet.last, text(*m));
  for (int k = 0; k < 4; ++k) {
    vector<Val> in;
    if (c.chance(50)) in.push_back(input(c, from));
    else {  // a small positive or negative integer, or one near the ends
      APInt Q = wideProduct(from.q).zext(wideProduct(from.q).getBitWidth() + 2);
      APInt z = c.chance(50) ? APInt(64, c.draw(1 << 12)).zextOrTrunc(Q.getBitWidth()) : Q.lshr(1) - APInt(64, c.draw(4)).zextOrTrunc(Q.getBitWidth());
      if (c.chance(50)) z = -z;
      vector<Val> l;
      for (auto &q : from.q) l.push_back(Val::I(smod(z, q.zextOrTrunc(Q.getBitWidth())).trunc(w)));
      in.push_back(mi::tensorOf({(int64_t)l.size()}, l));
    }
    auto want = run(*orig, in, true);
    vector<Val> a, b;
    try { a = run(*m, in, true); b = run(*low, in, false); } catch (mi::UB &e) { c.fail("undefined behaviour: " + e.msg + "\n" + text(*low)); } catch (mi::Unsupported &e) { c.fail("interpreter: " + e.msg); }
    c.check(mi::refines(want[0], a[0]), "the basis conversion of ", mi::show(in[0]), " is ", mi::show(a[0]), " instead of ", mi::show(want[0]), "\n", text(*m));
    c.check(mi::refines(want[0], b[0]), "the lowered basis conversion of ", mi::show(in[0]), " is ", mi::show(b[0]), " instead of ", mi::show(want[0]), "\n", text(*low));
  }
  if (from.q.size() >= 2) c.nontrivial(src);
}

// What the types and operations accept.
PROP(C26, accepted, "accepted, or one step from it", 15000, 200000) {
  string src, what;
  bool ok = true, near = true;
  auto fn = [&](const string &args, const string &body) { src = "func.func @f(" + args + ") {\n  " + body + "\n  return\n}\n"; };
  auto shp = [](const Ints &s) { string r; for (auto d : s) r += (d < 0 ? string("?") : std::to_string(d)) + "x"; return r; };
  auto wrap = [&](const Ints &s, const string &e) { return s.empty() ? e : "tensor<" + shp(s) + e + ">"; };
  auto someShape = [&](int lo) { Ints s; for (int64_t i = 0, n = c.range(lo, 2); i < n; ++i) s.push_back(c.chance(15) ? -1 : c.range(1, 3)); return s; };
  unsigned w = c.chance(70) ? c.range(2, 20) : width(c);
  switch (c.draw(9)) {
    case 0: {  // a modulus and its storage type
      APInt q(w + 2, 0);
      if (c.chance(70)) q = APInt::getOneBitSet(w + 2, w - 1) + APInt(w + 2, c.range(-2, 2), true, true);
      else q = residue(c, APInt::getOneBitSet(w + 2, w + 1));
      if (q.isNegative() || q.isZero()) q = APInt(w + 2, 1);
      // A literal must fit its type, read as signed or not.
      ok = q.getActiveBits() <= w - 1;
      what = "modulus";
      fn("%x: !mod_arith.int<" + dec(q) + " : i" + std::to_string(w) + ">", "");
      break;
    }
    case 1: {  // the limbs of an RNS type
      vector<APInt> q;
      vector<unsigned> ws;
      int64_t n = c.range(1, 4);
      bool foreign = false;
      string t = "!rns.rns<";
      for (int64_t i = 0; i < n; ++i) {
        unsigned wi = i && c.chance(6) ? w + 1 : w;
        APInt a = c.chance(50) ? APInt(64, 1 + c.draw(40)).zextOrTrunc(std::max(64u, wi)) : modulus(c, wi).zextOrTrunc(std::max(64u, wi));
        APInt top = APInt::getLowBitsSet(a.getBitWidth(), wi - 1);
        a &= top;
        if (a.isZero()) a = APInt(a.getBitWidth(), 1);
        a = a.zextOrTrunc(wi);
        t += i ? ", " : "";
        if (c.chance(5)) { foreign = true; t += c.pickOf({"i32", "index", "tensor<2xi32>", "f32"}); continue; }
        t += "!mod_arith.int<" + dec(a) + " : i" + std::to_string(wi) + ">";
        for (size_t j = 0; j < q.size(); ++j) ok &= ws[j] == wi && coprime(q[j], a);
        q.push_back(a);
        ws.push_back(wi);
      }
      ok &= !foreign;
      what = "RNS type";
      fn("%x: " + t + ">", "");
      break;
    }
    case 2: case 3: {  // encapsulate and lift
      bool enc = c.chance(50), r = enc && c.chance(50);
      Ty t = r ? rnsTy(c, std::max(w, 4u), c.range(1, 3)) : modTy(c, w);
      Ints s = someShape(0), is = s;
      if (r) is.push_back(t.q.size());
      unsigned iw = t.w;
      if (c.chance(20)) iw += c.pickOf({1, -1});
      if (c.chance(20)) {
        if (is.empty() || c.chance(30)) is.push_back(c.range(1, 3));
        else if (c.chance(50)) is.pop_back();
        else is.back() = is.back() < 0 ? 2 : is.back() + 1;
      }
      Ints need = s;
      if (r) need.push_back(t.q.size());
      ok = iw == t.w && need == is;
      string mt = wrap(s, t.elem()), it = wrap(is, "i" + std::to_string(iw));
      what = enc ? "encapsulate" : "lift";
      if (enc) fn("%x: " + it, "%r = mod_arith.encapsulate %x : " + it + " -> " + mt);
      else fn("%x: " + mt, string("%r = mod_arith.lift ") + (c.chance(50) ? "standard" : "centered") + " %x : " + mt + " -> " + it);
      break;
    }
    case 4: {  // mod_switch
      unsigned v = std::max(w, 4u);
      Ty r = rnsTy(c, v, 2 + c.draw(3));
      if (r.q.size() < 2) c.discard();
      APInt p = wideProduct(r.q);
      Ty m;
      m.k = 'm';
      m.w = std::max(p.getActiveBits() + 1, v);
      if (c.chance(25)) m.w = v - c.draw(2);
      m.q = {p.zextOrTrunc(m.w) & APInt::getLowBitsSet(m.w, m.w - 1)};
      if (c.chance(40)) m.q[0] += c.pickOf({1, -1});
      m.q[0] &= APInt::getLowBitsSet(m.w, m.w - 1);
      if (m.q[0].isZero()) m.q[0] = APInt(m.w, 1);
      unsigned big = std::max(p.getBitWidth(), m.w);
      bool le = m.q[0].zext(big).ule(p.zext(big)), eq = m.q[0].zext(big) == p.zext(big);
      string a = m.str(), b = r.str();
      switch (c.draw(4)) {
        case 0: ok = m.w >= r.w && le; break;
        case 1: ok = m.w >= r.w && eq; std::swap(a, b); break;
        case 2: ok = false; a = b; near = false; break;
        default: ok = true; b = modTy(c, width(c)).str();
      }
      what = "mod_switch";
      fn("%x: " + a, "%r = mod_arith.mod_switch %x : " + a + " to " + b);
      break;
    }
    case 5: {  // barrett_reduce
      unsigned aw = 2 + c.draw(40);
      APInt q(aw, 0);
      if (c.chance(60)) q = APInt::getOneBitSet(aw, c.draw(aw)) + APInt(aw, c.range(-1, 1), true, true);
      else q = anyInt(c, aw);
      unsigned bits = (q - 1).getActiveBits();
      unsigned W = c.pickOf({bits, 2 * bits, bits + bits / 2, bits - 1, 2 * bits + 1, aw});
      if (!W || W > 200) W = 1;
      ok = q.isStrictlyPositive() && bits <= W && W <= 2 * bits;
      string t = wrap(c.chance(30) ? Ints{2} : Ints{}, "i" + std::to_string(W));
      what = "barrett_reduce";
      fn("%x: " + t, "%r = mod_arith.barrett_reduce %x {modulus = " + dec(q, true) + " : i" + std::to_string(aw) + "} : " + t);
      break;
    }
    case 6: {  // constants
      Ty t = modTy(c, w);
      auto v = [&] {
        APInt z = c.chance(50) ? anyInt(c, w).sext(w + 3) : APInt::getOneBitSet(w + 3, w - c.draw(2)) + APInt(w + 3, c.range(-2, 1), true, true);
        if (c.chance(40)) z = -z;
        ok &= z.isNegative() ? z.getSignificantBits() <= w : z.getActiveBits() <= w;
        return dec(z, true);
      };
      Ints s;
      string val;
      if (c.chance(50)) val = v();
      else {
        int64_t n = c.range(1, 3);
        s = {n};
        if (c.chance(25)) { val = "dense<" + v() + ">"; s = someShape(1); for (auto d : s) ok &= d >= 0; }
        else {
          for (int64_t i = 0; i < n; ++i) val += (i ? ", " : "dense<[") + v();
          val += "]>";
          if (c.chance(15)) { s = {n + 1}; ok = false; }
          if (c.chance(10)) { s = {1, n}; ok = false; }
        }
        if (c.chance(8)) { s = {}; ok = false; }
      }
      what = "constant";
      fn("", "%r = mod_arith.constant " + val + " : " + wrap(s, t.elem()));
      break;
    }
    case 7: {  // extract_slice, extract_residue
      Ty t = rnsTy(c, std::max(w, 5u), c.range(1, 4));
      int64_t n = t.q.size();
      Ints s = someShape(0);
      auto wild = [&](int64_t lo, int64_t hi) -> int64_t {
        switch (c.weighted({8, 2, 1})) {
          case 0: return c.range(lo, hi);
          case 1: return c.pickOf<int64_t>({-1, n, n + 1});
          default: return c.pickOf<int64_t>({1ll << 32, (1ll << 32) + 1, -(1ll << 32), INT64_MAX, INT64_MIN, 1ll << 31});
        }
      };
      string in = wrap(s, t.elem());
      if (c.chance(50)) {
        int64_t i = wild(0, n - 1), shown = i;
        ok = i >= 0 && i < n;
        Ty o = t.limb(ok ? i : 0);
        if (ok && n > 1 && c.chance(10)) { o = t.limb((i + 1) % n); ok = o == t.limb(i); }
        fn("%x: " + in, "%r = rns.extract_residue %x {index = " + std::to_string(shown) + " : index} : " + in + " -> " + wrap(s, o.elem()));
        what = "extract_residue";
      } else {
        int64_t b = wild(0, n - 1), k = b >= 0 && b < n ? wild(1, n - b) : wild(1, n);
        ok = b >= 0 && b < n && k >= 1 && k <= n - b;
        // An empty slice is left open.
        if (k == 0) c.discard();
        Ty o = t;
        if (ok) o.q = vector<APInt>(t.q.begin() + b, t.q.begin() + b + k);
        if (ok && c.chance(10)) { auto sv = o.q; if (o.q.size() > 1) o.q.pop_back(); else if (n > 1) o.q[0] = t.q[(b + 1) % n]; ok = o.q == sv; }
        fn("%x: " + in, "%r = rns.extract_slice %x {start = " + std::to_string(b) + " : index, size = " + std::to_string(k) + " : index} : " + in + " -> " + wrap(s, o.elem()));
        what = "extract_slice";
      }
      break;
    }
    default: {  // rns.pack and rns.constant
      Ty t = rnsTy(c, std::max(w, 5u), c.range(1, 4));
      vector<Ty> l;
      for (size_t i = 0; i < t.q.size(); ++i) l.push_back(t.limb(i));
      if (c.chance(20)) l.push_back(l[c.draw(l.size())]);
      if (c.chance(20)) l.push_back(modTy(c, t.w + (c.chance(20) ? 1 : 0)));
      for (size_t i = 0; i < l.size(); ++i) for (size_t j = 0; j < i; ++j) ok &= l[i].w == l[j].w && coprime(l[i].q[0], l[j].q[0]);
      if (c.chance(50)) {
        string args, xs, ts;
        for (size_t i = 0; i < l.size(); ++i) {
          string x = "%x" + std::to_string(i), sep = i ? ", " : "";
          args += sep + x + ": " + l[i].str();
          xs += sep + x;
          ts += sep + l[i].str();
        }
        fn(args, "%r = rns.pack " + xs + " : " + ts);
        what = "pack";
      } else {
        string a;
        for (size_t i = 0; i < l.size(); ++i) a += string(i ? ", " : "") + "#mod_arith.value<" + dec(residue(c, l[i].q[0])) + " : " + l[i].str() + ">";
        // Its type is the type of its limbs.
        ok &= l.size() == t.q.size();
        fn("", "%r = rns.constant <[" + a + "]> : " + t.str());
        what = "rns.constant";
      }
    }
  }
  c.desc << src << (ok ? "valid\n" : "invalid\n");
  c.label(what + (ok ? " accepted" : " refused"));
  Quiet quiet;
  auto m = parseSourceString<ModuleOp>(src, ctx());
  if (ok) c.check(bool(m), "a valid ", what, " is refused: ", quiet.last);
  else c.check(!m, "an invalid ", what, " is accepted");
  if (ok) {
    string once = text(*m);
    auto again = parseSourceString<ModuleOp>(once, ctx());
    c.check(bool(again), "the printed program does not parse: ", quiet.last, "\n", once);
    c.eq(text(*again), once, "printed, parsed and printed again");
    // The generic form names the same operations.
    string gen;
    { llvm::raw_string_ostream o(gen); m->print(o, OpPrintingFlags().printGenericOpForm()); }
    auto third = parseSourceString<ModuleOp>(gen, ctx());
    c.check(bool(third), "the generic form does not parse: ", quiet.last, "\n", gen);
    c.eq(text(*third), once, "parsed from the generic form");
  }
  if (near) c.nontrivial(src);
}

// What the types answer about themselves, and their attributes.
PROP(C26, types, "at least two limbs", 3000, 40000) {
  unsigned w = std::max(width(c), 4u);
  Ty t = rnsTy(c, w, c.range(1, 5));
  c.desc << t.str() << "\n";
  Quiet quiet;
  auto rt = dyn_cast_or_null<RNSType>(parseType(t.str(), ctx()));
  c.check(bool(rt), "the type does not parse: ", quiet.last);
  auto q = moduliOf(rt);
  c.check(q == t.q, "the moduli of the type are not those written");
  string s;
  { llvm::raw_string_ostream o(s); o << Type(rt); }
  c.check(parseType(s, ctx()) == rt, "the type is printed as ", s);
  auto store = IntegerType::get(ctx(), w);
  c.check(rt.getLoweringType() == RankedTensorType::get({(int64_t)q.size()}, store), "the storage type of the RNS type is wrong");
  c.eq(rt.getNumResidues(), (unsigned)q.size(), "number of residues");
  for (unsigned i = 0; i < q.size(); ++i) {
    auto l = dyn_cast<ModArithType>(rt.getResidueType(i));
    c.check(l && l == rt.getBasisTypes()[i] && l.getModulus().getValue() == t.q[i], "residue type ", i);
    c.check(l.getLoweringType() == store && l.getNumResidues() == 1 && l.getResidueType(0) == l && !l.getResidueType(1 + c.draw(3)), "the modular type ", t.limb(i).str(), " describes itself wrongly");
    // Compatible within one basis: the same storage, and coprime.
    Ty o = c.chance(30) ? t.limb(c.draw(q.size())) : modTy(c, c.chance(80) ? w : w + 1);
    auto om = cast<ModArithType>(parseType(o.str(), ctx()));
    bool want = o.w == w && coprime(o.q[0], t.q[i]);
    c.check(l.isCompatibleWith(om) == want && om.isCompatibleWith(l) == want, t.limb(i).str(), " and ", o.str(), want ? " are" : " are not", " compatible");
    c.check(!l.isCompatibleWith(store), "an integer type is compatible with a modular one");
    // A residue as an attribute.
    APInt v = c.chance(70) ? residue(c, t.q[i]) : anyInt(c, w);
    string at = "#mod_arith.value<" + dec(v, true) + " : " + t.limb(i).str() + ">";
    auto a = dyn_cast_or_null<mod_arith::ModArithAttr>(parseAttribute(at, ctx()));
    c.check(bool(a), at, " does not parse: ", quiet.last);
    c.check(a.getType() == l && a.getValue().getType() == store && a.getValue().getValue() == v, at, " is read as ", dec(a.getValue().getValue(), true));
    string p;
    { llvm::raw_string_ostream o(p); o << Attribute(a); }
    c.check(parseAttribute(p, ctx()) == a, at, " is printed as ", p);
  }
  string ra = "#rns.value<[";
  for (size_t i = 0; i < q.size(); ++i) ra += (i ? ", #mod_arith.value<" : "#mod_arith.value<") + dec(residue(c, q[i])) + " : " + t.limb(i).str() + ">";
  ra += "]>";
  auto r = dyn_cast_or_null<rns::RNSAttr>(parseAttribute(ra, ctx()));
  c.check(r && r.getType() == rt && r.getNumLimbs() == q.size(), ra, " does not parse as written: ", quiet.last);
  string p;
  { llvm::raw_string_ostream o(p); o << Attribute(r); }
  c.check(parseAttribute(p, ctx()) == r, ra, " is printed as ", p);
  vector<Attribute> limbs;
  for (unsigned i = 0; i < q.size(); ++i) {
    limbs.push_back(r.extractLimb(i));
    c.check(r.getLimbType(i) == rt.getBasisTypes()[i] && cast<TypedAttr>(limbs.back()).getType() == rt.getBasisTypes()[i], "limb ", i, " of ", ra);
  }
  c.check(r.assembleFromLimbs(rt, limbs) == r, "the limbs of ", ra, " do not make it again");
  if (q.size() > 1) c.nontrivial(t.str());
}

// Known finding: see known_findings.json.
PROP(C26, kf_centred_lift_top_modulus, "always", 30, 30) {
  unsigned w = c.pickOf({8u, 16u, 32u, 64u});
  Ty t;
  t.k = 'm';
  t.w = w;
  t.q = {APInt::getSignedMaxValue(w)};
  string it = "i" + std::to_string(w), src = "func.func @f(%x: " + t.str() + ") -> " + it + " {\n  %r = mod_arith.lift centered %x : " + t.str() + " -> " + it + "\n  return %r : " + it + "\n}\n";
  c.desc << src;
  Quiet quiet;
  auto m = parseSourceString<ModuleOp>(src, ctx());
  c.check(bool(m), "refused");
  PassManager pm(ctx());
  pm.addPass(mod_arith::createModArithToArith());
  c.check(succeeded(pm.run(*m)), "not lowered");
  APInt x = residue(c, t.q[0]);
  auto got = run(*m, {Val::I(x)}, false);
  APInt want = centred(x, t.q[0]);
  c.nontrivial();
  c.check(got[0].k == Val::Int && got[0].i == want, "the centred lift of ", dec(x), " is ", mi::show(got[0]), " instead of ", dec(want, true));
}
