// A reference interpreter for the builtin MLIR dialects (arith, math, scf,
// affine, memref, tensor, linalg, func), used as the oracle for passes: a
// program and the program a pass made of it must behave alike.
#pragma once
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "llvm/include/llvm/ADT/APFloat.h"
#include "llvm/include/llvm/ADT/APInt.h"
#include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"
#include "mlir/include/mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/include/mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/include/mlir/Dialect/Linalg/IR/Linalg.h"
#include "mlir/include/mlir/Dialect/Math/IR/Math.h"
#include "mlir/include/mlir/Dialect/MemRef/IR/MemRef.h"
#include "mlir/include/mlir/Dialect/SCF/IR/SCF.h"
#include "mlir/include/mlir/Dialect/Tensor/IR/Tensor.h"
#include "mlir/include/mlir/IR/AsmState.h"
#include "mlir/include/mlir/IR/BuiltinOps.h"
#include "mlir/include/mlir/IR/IntegerSet.h"
#include "mlir/include/mlir/IR/Verifier.h"
#include "mlir/include/mlir/Parser/Parser.h"
#include "mlir/include/mlir/Pass/Pass.h"
#include "mlir/include/mlir/Pass/PassManager.h"

namespace mi {
using namespace mlir;
using llvm::APFloat;
using llvm::APInt;
using Ints = std::vector<int64_t>;

// Undefined behaviour in the interpreted program (out of bounds, division by
// zero, ...): the run decides nothing.
struct UB {
  std::string msg;
};
// Something the interpreter does not model.
struct Unsupported {
  std::string msg;
};

struct Val;
struct Buf {
  std::vector<Val> data;
  bool freed = false;
};
struct Val {
  enum K { Undef, Int, Float, Mem, Tensor, Opaque } k = Undef;
  APInt i{64, 0};
  double f = 0;
  bool f32 = false;
  // Mem: buffer + view; Tensor: buf with dense row-major data (value semantics,
  // never mutated in place).
  std::shared_ptr<Buf> buf;
  int64_t offset = 0;
  Ints sizes, strides;
  std::string op;  // Opaque: a symbolic description
  static Val I(const APInt &a) { Val v; v.k = Int; v.i = a; return v; }
  static Val I(int64_t x, unsigned w = 64) { return I(APInt(64, (uint64_t)x).sextOrTrunc(w)); }
  static Val F(double d, bool f32 = false) { Val v; v.k = Float; v.f = f32 ? (double)(float)d : d; v.f32 = f32; return v; }
  int64_t s() const { return i.getSExtValue(); }
  int64_t numel() const { int64_t n = 1; for (auto d : sizes) n *= d; return n; }
  bool shaped() const { return k == Mem || k == Tensor; }
};
inline Ints rowMajor(const Ints &sizes) {
  Ints st(sizes.size());
  int64_t s = 1;
  for (size_t i = sizes.size(); i-- > 0;) { st[i] = s; s *= sizes[i]; }
  return st;
}
inline Val makeShaped(Val::K k, const Ints &sizes) {
  Val v;
  v.k = k;
  v.sizes = sizes;
  v.strides = rowMajor(sizes);
  v.buf = std::make_shared<Buf>();
  v.buf->data.resize(v.numel());
  return v;
}
inline int64_t at(const Val &v, const Ints &idx) {
  if (!v.shaped()) throw UB{"access through an undefined value"};
  if (idx.size() != v.sizes.size()) throw Unsupported{"rank"};
  int64_t o = v.offset;
  for (size_t i = 0; i < idx.size(); ++i) {
    if (idx[i] < 0 || idx[i] >= v.sizes[i]) throw UB{"index out of bounds"};
    o += idx[i] * v.strides[i];
  }
  if (v.buf->freed) throw UB{"use after free"};
  if (o < 0 || o >= (int64_t)v.buf->data.size()) throw UB{"view out of bounds"};
  return o;
}
inline Val &ref(const Val &v, const Ints &idx) { return v.buf->data[at(v, idx)]; }
inline Ints unflat(const Ints &sizes, int64_t n) {
  Ints r(sizes.size());
  for (size_t i = sizes.size(); i-- > 0;) { r[i] = n % sizes[i]; n /= sizes[i]; }
  return r;
}
// The elements of a shaped value in row-major order.
inline std::vector<Val> elems(const Val &v) {
  std::vector<Val> r;
  int64_t n = v.numel();
  for (int64_t i = 0; i < n; ++i) r.push_back(ref(v, unflat(v.sizes, i)));
  return r;
}
inline Val tensorOf(const Ints &sizes, std::vector<Val> data) {
  Val t = makeShaped(Val::Tensor, sizes);
  t.buf->data = std::move(data);
  return t;
}
inline std::string show(const Val &v) {
  std::ostringstream os;
  os.precision(17);
  switch (v.k) {
    case Val::Undef: os << "undef"; break;
    case Val::Int: { llvm::SmallString<40> s; v.i.toStringSigned(s); os << s.c_str(); break; }
    case Val::Float: os << v.f << (v.f == std::floor(v.f) ? ".0" : ""); break;
    case Val::Opaque: os << v.op; break;
    default: {
      os << "[";
      bool first = true;
      for (auto &e : elems(v)) { os << (first ? "" : ","); first = false; os << show(e); }
      os << "]";
    }
  }
  return os.str();
}
// `b` is an acceptable behaviour where `a` was specified (undef admits all).
inline bool refines(const Val &a, const Val &b, double relTol = 0, double absTol = 0) {
  if (a.k == Val::Undef) return true;
  if (a.k != b.k) return false;
  switch (a.k) {
    case Val::Int: return a.i.getBitWidth() == b.i.getBitWidth() && a.i == b.i;
    case Val::Float:
      if (std::isnan(a.f) || std::isnan(b.f)) return std::isnan(a.f) == std::isnan(b.f);
      if (a.f == b.f) return true;
      return std::fabs(a.f - b.f) <= absTol + relTol * std::max(std::fabs(a.f), std::fabs(b.f));
    case Val::Opaque: return a.op == b.op;
    default: {
      if (a.sizes != b.sizes) return false;
      auto x = elems(a), y = elems(b);
      for (size_t i = 0; i < x.size(); ++i)
        if (!refines(x[i], y[i], relTol, absTol)) return false;
      return true;
    }
  }
}

class Interp {
 public:
  using Env = llvm::DenseMap<Value, Val>;
  // Handlers for ops the interpreter does not know, by op name: they set the
  // results.
  std::map<std::string, std::function<std::vector<Val>(Interp &, Operation *, std::vector<Val>)>> handlers;
  // Called for calls to functions without a body.
  std::function<std::vector<Val>(Interp &, func::CallOp, std::vector<Val>)> external;
  ModuleOp module;
  int64_t fuel = 2000000;
  // When set: every branch taken and every loop bound and subscript used.
  std::vector<int64_t> *decisions = nullptr;
  std::map<std::string, int64_t> opCount;  // executed ops by name

  explicit Interp(ModuleOp m) : module(m) {}

  std::vector<Val> call(StringRef name, std::vector<Val> args) {
    auto f = module.lookupSymbol<func::FuncOp>(name);
    if (!f || f.isExternal()) throw Unsupported{"no function " + name.str()};
    return call(f, std::move(args));
  }
  std::vector<Val> call(func::FuncOp f, std::vector<Val> args) {
    if (++depth > 50) throw UB{"recursion"};
    Env saved = std::move(env);
    env = Env();
    auto r = block(f.getBody().front(), args);
    env = std::move(saved);
    --depth;
    return r;
  }
  Val get(Value v) {
    auto it = env.find(v);
    if (it == env.end()) throw Unsupported{"value not computed"};
    return it->second;
  }
  void set(Value v, Val x) { env[v] = std::move(x); }

  // Runs a block, returns the operands of its terminator.
  Operation *lastTerm = nullptr;
  std::vector<Val> block(Block &b, const std::vector<Val> &args) {
    if (args.size() != b.getNumArguments()) throw Unsupported{"block arguments"};
    for (size_t i = 0; i < args.size(); ++i) set(b.getArgument(i), args[i]);
    for (Operation &op : b) {
      if (--fuel < 0) throw UB{"out of fuel"};
      if (op.hasTrait<OpTrait::IsTerminator>()) {
        std::vector<Val> r;
        for (Value v : op.getOperands()) r.push_back(get(v));
        lastTerm = &op;
        return r;
      }
      exec(&op);
    }
    return {};
  }

  static bool isF32(Type t) { return isa<Float32Type>(getElementTypeOrSelf(t)); }
  static unsigned width(Type t) {
    t = getElementTypeOrSelf(t);
    if (t.isIndex()) return 64;
    return cast<IntegerType>(t).getWidth();
  }
  static Val fromAttr(Attribute a, Type t) {
    if (auto ia = dyn_cast<IntegerAttr>(a)) return Val::I(ia.getValue());
    if (auto fa = dyn_cast<FloatAttr>(a)) return Val::F(fa.getValueAsDouble(), isF32(t));
    if (auto da = dyn_cast<DenseElementsAttr>(a)) {
      auto st = cast<ShapedType>(da.getType());
      Val v = makeShaped(Val::Tensor, Ints(st.getShape()));
      int64_t n = v.numel();
      if (isa<FloatType>(st.getElementType())) {
        auto vals = da.getValues<APFloat>();
        for (int64_t i = 0; i < n; ++i) { APFloat x = vals[i]; bool l; x.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); v.buf->data[i] = Val::F(x.convertToDouble(), isF32(t)); }
      } else {
        auto vals = da.getValues<APInt>();
        for (int64_t i = 0; i < n; ++i) v.buf->data[i] = Val::I(vals[i]);
      }
      return v;
    }
    throw Unsupported{"constant attribute"};
  }
  // Elementwise lifting over tensors.
  static Val lift(const std::vector<Val> &ops, const std::function<Val(const std::vector<Val> &)> &f) {
    const Val *sh = nullptr;
    for (auto &o : ops)
      if (o.k == Val::Tensor) sh = &o;
    auto safe = [&](const std::vector<Val> &xs) {
      for (auto &x : xs)
        if (x.k == Val::Undef) return Val();
      return f(xs);
    };
    if (!sh) return safe(ops);
    std::vector<Val> out;
    std::vector<std::vector<Val>> es;
    for (auto &o : ops) es.push_back(o.k == Val::Tensor ? elems(o) : std::vector<Val>(sh->numel(), o));
    for (int64_t i = 0; i < sh->numel(); ++i) {
      std::vector<Val> xs;
      for (auto &e : es) xs.push_back(e[i]);
      out.push_back(safe(xs));
    }
    return tensorOf(sh->sizes, out);
  }
  static APInt floorDiv(const APInt &a, const APInt &b) {
    APInt q = a.sdiv(b), r = a.srem(b);
    if (!r.isZero() && (r.isNegative() != b.isNegative())) q -= 1;
    return q;
  }
  static APInt ceilDiv(const APInt &a, const APInt &b) {
    APInt q = a.sdiv(b), r = a.srem(b);
    if (!r.isZero() && (r.isNegative() == b.isNegative())) q += 1;
    return q;
  }
  static bool cmpi(arith::CmpIPredicate p, const APInt &a, const APInt &b) {
    using P = arith::CmpIPredicate;
    switch (p) {
      case P::eq: return a == b;
      case P::ne: return a != b;
      case P::slt: return a.slt(b);
      case P::sle: return a.sle(b);
      case P::sgt: return a.sgt(b);
      case P::sge: return a.sge(b);
      case P::ult: return a.ult(b);
      case P::ule: return a.ule(b);
      case P::ugt: return a.ugt(b);
      case P::uge: return a.uge(b);
    }
    throw Unsupported{"cmpi"};
  }
  static bool cmpf(arith::CmpFPredicate p, double a, double b) {
    using P = arith::CmpFPredicate;
    bool un = std::isnan(a) || std::isnan(b);
    switch (p) {
      case P::AlwaysFalse: return false;
      case P::AlwaysTrue: return true;
      case P::OEQ: return !un && a == b;
      case P::OGT: return !un && a > b;
      case P::OGE: return !un && a >= b;
      case P::OLT: return !un && a < b;
      case P::OLE: return !un && a <= b;
      case P::ONE: return !un && a != b;
      case P::ORD: return !un;
      case P::UEQ: return un || a == b;
      case P::UGT: return un || a > b;
      case P::UGE: return un || a >= b;
      case P::ULT: return un || a < b;
      case P::ULE: return un || a <= b;
      case P::UNE: return un || a != b;
      case P::UNO: return un;
    }
    throw Unsupported{"cmpf"};
  }
  static int64_t evalExpr(AffineExpr e, ArrayRef<int64_t> dims, ArrayRef<int64_t> syms) {
    switch (e.getKind()) {
      case AffineExprKind::Constant: return cast<AffineConstantExpr>(e).getValue();
      case AffineExprKind::DimId: return dims[cast<AffineDimExpr>(e).getPosition()];
      case AffineExprKind::SymbolId: return syms[cast<AffineSymbolExpr>(e).getPosition()];
      default: break;
    }
    auto b = cast<AffineBinaryOpExpr>(e);
    int64_t l = evalExpr(b.getLHS(), dims, syms), r = evalExpr(b.getRHS(), dims, syms);
    auto fd = [](int64_t a, int64_t d) { int64_t q = a / d; return q - (a % d != 0 && a < 0); };
    switch (e.getKind()) {
      case AffineExprKind::Add: return l + r;
      case AffineExprKind::Mul: return l * r;
      default: break;
    }
    if (r <= 0) throw UB{"affine division by a non-positive number"};
    switch (e.getKind()) {
      case AffineExprKind::FloorDiv: return fd(l, r);
      case AffineExprKind::CeilDiv: return -fd(-l, r);
      case AffineExprKind::Mod: return l - r * fd(l, r);
      default: throw Unsupported{"affine expression"};
    }
  }
  Ints evalMap(AffineMap m, ValueRange operands) {
    Ints xs;
    for (Value v : operands) xs.push_back(intOf(v));
    Ints r;
    for (AffineExpr e : m.getResults())
      r.push_back(evalExpr(e, ArrayRef<int64_t>(xs).take_front(m.getNumDims()), ArrayRef<int64_t>(xs).drop_front(m.getNumDims())));
    return r;
  }
  int64_t intOf(Value v) {
    Val x = get(v);
    if (x.k == Val::Undef) throw UB{"undefined value used as an index"};
    if (x.k != Val::Int) throw Unsupported{"index"};
    if (decisions) decisions->push_back(x.s());
    return x.s();
  }
  Ints intsOf(ValueRange vs) {
    Ints r;
    for (Value v : vs) r.push_back(intOf(v));
    return r;
  }
  Ints intsOf(ArrayRef<OpFoldResult> vs) {
    Ints r;
    for (auto v : vs) r.push_back(isa<Value>(v) ? intOf(cast<Value>(v)) : cast<IntegerAttr>(cast<Attribute>(v)).getInt());
    return r;
  }
  bool truth(Value v) {
    Val x = get(v);
    if (x.k != Val::Int) throw UB{"branch on undefined"};
    if (decisions) decisions->push_back(!x.i.isZero());
    return !x.i.isZero();
  }

  bool execArith(Operation *op) {
    StringRef n = op->getName().getStringRef();
    bool isArith = n.consume_front("arith.");
    bool isMath = !isArith && n.consume_front("math.");
    if (!isArith && !isMath) return false;
    if (auto cst = dyn_cast<arith::ConstantOp>(op)) {
      set(cst.getResult(), fromAttr(cst.getValue(), cst.getType()));
      return true;
    }
    std::vector<Val> ops;
    for (Value v : op->getOperands()) ops.push_back(get(v));
    Type rt = op->getResult(0).getType();
    auto put = [&](const std::function<Val(const std::vector<Val> &)> &f) { set(op->getResult(0), lift(ops, f)); return true; };
    static const std::map<StringRef, std::function<APInt(const APInt &, const APInt &)>> bin = {
        {"addi", [](auto &a, auto &b) { return a + b; }},
        {"subi", [](auto &a, auto &b) { return a - b; }},
        {"muli", [](auto &a, auto &b) { return a * b; }},
        {"andi", [](auto &a, auto &b) { return a & b; }},
        {"ori", [](auto &a, auto &b) { return a | b; }},
        {"xori", [](auto &a, auto &b) { return a ^ b; }},
        {"maxsi", [](auto &a, auto &b) { return a.sgt(b) ? a : b; }},
        {"minsi", [](auto &a, auto &b) { return a.slt(b) ? a : b; }},
        {"maxui", [](auto &a, auto &b) { return a.ugt(b) ? a : b; }},
        {"minui", [](auto &a, auto &b) { return a.ult(b) ? a : b; }},
    };
    if (auto it = bin.find(n); isArith && it != bin.end()) return put([&](auto &x) { return Val::I(it->second(x[0].i, x[1].i)); });
    static const std::map<StringRef, std::function<APInt(const APInt &, const APInt &)>> divs = {
        {"divsi", [](auto &a, auto &b) { return a.sdiv(b); }},
        {"divui", [](auto &a, auto &b) { return a.udiv(b); }},
        {"remsi", [](auto &a, auto &b) { return a.srem(b); }},
        {"remui", [](auto &a, auto &b) { return a.urem(b); }},
        {"floordivsi", floorDiv},
        {"ceildivsi", ceilDiv},
        {"ceildivui", [](auto &a, auto &b) { APInt q = a.udiv(b); return a.urem(b).isZero() ? q : q + 1; }},
    };
    if (auto it = divs.find(n); isArith && it != divs.end())
      return put([&](auto &x) {
        if (x[1].i.isZero()) throw UB{"division by zero"};
        if (n != "divui" && n != "remui" && n != "ceildivui" && x[0].i.isMinSignedValue() && x[1].i.isAllOnes() && x[0].i.getBitWidth() > 1) throw UB{"division overflow"};
        return Val::I(it->second(x[0].i, x[1].i));
      });
    if (isArith && (n == "shli" || n == "shrsi" || n == "shrui"))
      return put([&](auto &x) {
        if (x[1].i.uge(x[0].i.getBitWidth())) return Val();
        unsigned k = x[1].i.getZExtValue();
        return Val::I(n == "shli" ? x[0].i.shl(k) : n == "shrsi" ? x[0].i.ashr(k) : x[0].i.lshr(k));
      });
    if (auto c = dyn_cast<arith::CmpIOp>(op)) return put([&](auto &x) { return Val::I(APInt(1, cmpi(c.getPredicate(), x[0].i, x[1].i))); });
    if (auto c = dyn_cast<arith::CmpFOp>(op)) return put([&](auto &x) { return Val::I(APInt(1, cmpf(c.getPredicate(), x[0].f, x[1].f))); });
    if (isa<arith::SelectOp>(op)) {
      if (ops[0].k == Val::Tensor) return put([&](auto &x) { return x[0].i.isZero() ? x[2] : x[1]; });
      if (ops[0].k == Val::Undef) set(op->getResult(0), Val());
      else set(op->getResult(0), ops[0].i.isZero() ? ops[2] : ops[1]);
      return true;
    }
    if (isArith && (n == "extsi" || n == "index_cast")) return put([&](auto &x) { return Val::I(x[0].i.sextOrTrunc(width(rt))); });
    if (isArith && (n == "extui" || n == "index_castui")) return put([&](auto &x) { return Val::I(x[0].i.zextOrTrunc(width(rt))); });
    if (isArith && n == "trunci") return put([&](auto &x) { return Val::I(x[0].i.trunc(width(rt))); });
    bool f32 = isF32(rt);
    static const std::map<StringRef, std::function<double(double, double)>> fbin = {
        {"addf", [](double a, double b) { return a + b; }},
        {"subf", [](double a, double b) { return a - b; }},
        {"mulf", [](double a, double b) { return a * b; }},
        {"divf", [](double a, double b) { return a / b; }},
        {"maximumf", [](double a, double b) { return std::isnan(a) || std::isnan(b) ? NAN : a > b ? a : b; }},
        {"minimumf", [](double a, double b) { return std::isnan(a) || std::isnan(b) ? NAN : a < b ? a : b; }},
        {"maxnumf", [](double a, double b) { return std::fmax(a, b); }},
        {"minnumf", [](double a, double b) { return std::fmin(a, b); }},
        {"powf", [](double a, double b) { return std::pow(a, b); }},
    };
    if (auto it = fbin.find(n); it != fbin.end()) return put([&](auto &x) { return Val::F(it->second(x[0].f, x[1].f), f32); });
    static const std::map<StringRef, std::function<double(double)>> fun = {
        {"negf", [](double a) { return -a; }}, {"absf", [](double a) { return std::fabs(a); }},
        {"sqrt", [](double a) { return std::sqrt(a); }}, {"rsqrt", [](double a) { return 1 / std::sqrt(a); }}, {"exp", [](double a) { return std::exp(a); }},
        {"exp2", [](double a) { return std::exp2(a); }}, {"log", [](double a) { return std::log(a); }},
        {"tanh", [](double a) { return std::tanh(a); }}, {"sin", [](double a) { return std::sin(a); }},
        {"cos", [](double a) { return std::cos(a); }}, {"erf", [](double a) { return std::erf(a); }},
        {"floor", [](double a) { return std::floor(a); }}, {"ceil", [](double a) { return std::ceil(a); }},
        {"extf", [](double a) { return a; }}, {"truncf", [](double a) { return a; }},
    };
    if (auto it = fun.find(n); it != fun.end()) return put([&](auto &x) { return Val::F(it->second(x[0].f), f32); });
    if (isMath && n == "absi") return put([&](auto &x) { return Val::I(x[0].i.abs()); });
    if (isMath && n == "ipowi") return put([&](auto &x) {
      APInt r(x[0].i.getBitWidth(), 1);
      if (x[1].i.isNegative()) throw Unsupported{"negative power"};
      for (uint64_t k = x[1].i.getZExtValue(); k > 0; --k) r *= x[0].i;
      return Val::I(r);
    });
    if (isMath && n == "fpowi") return put([&](auto &x) { return Val::F(std::pow(x[0].f, (double)x[1].s()), f32); });
    if (isMath && n == "fma") return put([&](auto &x) { return Val::F(std::fma(x[0].f, x[1].f, x[2].f), f32); });
    if (n == "sitofp") return put([&](auto &x) { return Val::F((double)x[0].s(), f32); });
    if (n == "uitofp") return put([&](auto &x) { return Val::F((double)x[0].i.getZExtValue(), f32); });
    if (n == "fptosi") return put([&](auto &x) {
      double t = std::trunc(x[0].f);
      unsigned w = width(rt);
      if (!(t >= -std::ldexp(1.0, w - 1) && t < std::ldexp(1.0, w - 1))) return Val();
      return Val::I((int64_t)t, w);
    });
    return false;
  }

  void results(Operation *op, const std::vector<Val> &r) {
    if (r.size() != op->getNumResults()) throw Unsupported{"result count of " + op->getName().getStringRef().str()};
    for (size_t i = 0; i < r.size(); ++i) set(op->getResult(i), r[i]);
  }

  static Val view(const Val &v, const Ints &offsets, const Ints &sizes, const Ints &strides) {
    Val r = v;
    for (size_t i = 0; i < offsets.size(); ++i) {
      if (sizes[i] > 0 && (offsets[i] < 0 || offsets[i] + (sizes[i] - 1) * strides[i] >= v.sizes[i] || offsets[i] + (sizes[i] - 1) * strides[i] < 0)) throw UB{"slice out of bounds"};
      r.offset += offsets[i] * v.strides[i];
      r.strides[i] = v.strides[i] * strides[i];
    }
    r.sizes = sizes;
    return r;
  }
  static Val dropDims(Val v, const llvm::SmallBitVector &dropped) {
    Val r = v;
    r.sizes.clear();
    r.strides.clear();
    for (size_t i = 0; i < v.sizes.size(); ++i)
      if (!dropped[i]) { r.sizes.push_back(v.sizes[i]); r.strides.push_back(v.strides[i]); }
    return r;
  }
  static Val denseCopy(const Val &v) { return tensorOf(v.sizes, elems(v)); }

  std::vector<Val> loop(Block &body, int64_t lb, int64_t ub, int64_t step, std::vector<Val> iter, unsigned ivWidth) {
    if (step <= 0) throw UB{"loop step"};
    for (int64_t i = lb; i < ub; i += step) {
      std::vector<Val> args = {Val::I(i, ivWidth)};
      args.insert(args.end(), iter.begin(), iter.end());
      iter = block(body, args);
    }
    return iter;
  }

  void exec(Operation *op) {
    ++opCount[op->getName().getStringRef().str()];
    if (auto h = handlers.find(op->getName().getStringRef().str()); h != handlers.end()) {
      std::vector<Val> ops;
      for (Value v : op->getOperands()) ops.push_back(get(v));
      results(op, h->second(*this, op, ops));
      return;
    }
    if (execArith(op)) return;
    if (execControl(op)) return;
    if (execMem(op)) return;
    if (execTensor(op)) return;
    if (auto l = dyn_cast<linalg::LinalgOp>(op)) { execLinalg(l); return; }
    throw Unsupported{"op " + op->getName().getStringRef().str()};
  }

  std::vector<Val> vals(ValueRange vs) {
    std::vector<Val> r;
    for (Value v : vs) r.push_back(get(v));
    return r;
  }

  bool execControl(Operation *op) {
    if (auto c = dyn_cast<func::CallOp>(op)) {
      auto f = module.lookupSymbol<func::FuncOp>(c.getCallee());
      if (!f) throw Unsupported{"callee"};
      if (f.isExternal()) {
        if (!external) throw Unsupported{"external call"};
        results(op, external(*this, c, vals(op->getOperands())));
      } else {
        results(op, call(f, vals(op->getOperands())));
      }
      return true;
    }
    if (auto f = dyn_cast<scf::ForOp>(op)) {
      unsigned w = width(f.getInductionVar().getType());
      results(op, loop(*f.getBody(), intOf(f.getLowerBound()), intOf(f.getUpperBound()), intOf(f.getStep()), vals(f.getInitArgs()), w));
      return true;
    }
    if (auto f = dyn_cast<scf::IfOp>(op)) {
      if (truth(f.getCondition())) results(op, block(*f.thenBlock(), {}));
      else if (f.elseBlock()) results(op, block(*f.elseBlock(), {}));
      return true;
    }
    if (auto w = dyn_cast<scf::WhileOp>(op)) {
      std::vector<Val> args = vals(w.getInits());
      for (;;) {
        auto r = block(w.getBefore().front(), args);
        if (r[0].k != Val::Int) throw UB{"branch on undefined"};
        bool go = !r[0].i.isZero();
        if (decisions) decisions->push_back(go);
        r.erase(r.begin());
        if (!go) { results(op, r); break; }
        args = block(w.getAfter().front(), r);
      }
      return true;
    }
    if (isa<scf::ExecuteRegionOp>(op)) { results(op, block(op->getRegion(0).front(), {})); return true; }
    if (auto f = dyn_cast<affine::AffineForOp>(op)) {
      Ints l = evalMap(f.getLowerBoundMap(), f.getLowerBoundOperands()), u = evalMap(f.getUpperBoundMap(), f.getUpperBoundOperands());
      results(op, loop(*f.getBody(), *std::max_element(l.begin(), l.end()), *std::min_element(u.begin(), u.end()), f.getStepAsInt(), vals(f.getInits()), 64));
      return true;
    }
    if (auto f = dyn_cast<affine::AffineIfOp>(op)) {
      IntegerSet s = f.getIntegerSet();
      Ints xs = intsOf(op->getOperands());
      bool ok = true;
      for (unsigned i = 0; i < s.getNumConstraints(); ++i) {
        int64_t v = evalExpr(s.getConstraint(i), ArrayRef<int64_t>(xs).take_front(s.getNumDims()), ArrayRef<int64_t>(xs).drop_front(s.getNumDims()));
        ok &= s.isEq(i) ? v == 0 : v >= 0;
      }
      if (ok) results(op, block(*f.getThenBlock(), {}));
      else if (f.hasElse()) results(op, block(*f.getElseBlock(), {}));
      return true;
    }
    if (auto a = dyn_cast<affine::AffineApplyOp>(op)) { set(a.getResult(), Val::I(evalMap(a.getAffineMap(), a.getMapOperands())[0])); return true; }
    if (auto a = dyn_cast<affine::AffineMinOp>(op)) { auto r = evalMap(a.getAffineMap(), op->getOperands()); set(a.getResult(), Val::I(*std::min_element(r.begin(), r.end()))); return true; }
    if (auto a = dyn_cast<affine::AffineMaxOp>(op)) { auto r = evalMap(a.getAffineMap(), op->getOperands()); set(a.getResult(), Val::I(*std::max_element(r.begin(), r.end()))); return true; }
    return false;
  }

  bool execMem(Operation *op) {
    if (auto a = dyn_cast<affine::AffineLoadOp>(op)) { set(a.getResult(), ref(get(a.getMemRef()), evalMap(a.getAffineMap(), a.getMapOperands()))); return true; }
    if (auto a = dyn_cast<affine::AffineStoreOp>(op)) { Val v = get(a.getValueToStore()); ref(get(a.getMemRef()), evalMap(a.getAffineMap(), a.getMapOperands())) = v; return true; }
    if (auto a = dyn_cast<memref::LoadOp>(op)) { set(a.getResult(), ref(get(a.getMemRef()), intsOf(a.getIndices()))); return true; }
    if (auto a = dyn_cast<memref::StoreOp>(op)) { Val v = get(a.getValueToStore()); ref(get(a.getMemRef()), intsOf(a.getIndices())) = v; return true; }
    if (isa<memref::AllocOp, memref::AllocaOp>(op)) {
      auto t = cast<MemRefType>(op->getResult(0).getType());
      Ints s(t.getShape());
      size_t k = 0;
      for (auto &d : s)
        if (ShapedType::isDynamic(d)) d = intOf(op->getOperand(k++));
      set(op->getResult(0), makeShaped(Val::Mem, s));
      return true;
    }
    if (auto d = dyn_cast<memref::DeallocOp>(op)) {
      Val v = get(d.getMemref());
      if (v.buf->freed) throw UB{"double free"};
      v.buf->freed = true;
      return true;
    }
    if (auto a = dyn_cast<memref::CopyOp>(op)) {
      Val s = get(a.getSource()), t = get(a.getTarget());
      if (s.sizes != t.sizes) throw UB{"copy shape"};
      auto es = elems(s);
      for (size_t i = 0; i < es.size(); ++i) ref(t, unflat(t.sizes, i)) = es[i];
      return true;
    }
    if (auto a = dyn_cast<memref::SubViewOp>(op)) {
      Val v = view(get(a.getSource()), intsOf(a.getMixedOffsets()), intsOf(a.getMixedSizes()), intsOf(a.getMixedStrides()));
      set(a.getResult(), dropDims(v, a.getDroppedDims()));
      return true;
    }
    if (auto a = dyn_cast<memref::CastOp>(op)) { set(a.getResult(), get(a.getSource())); return true; }
    if (auto a = dyn_cast<memref::DimOp>(op)) { Val v = get(a.getSource()); int64_t i = intOf(a.getIndex()); if (i < 0 || i >= (int64_t)v.sizes.size()) throw UB{"dim"}; set(a.getResult(), Val::I(v.sizes[i])); return true; }
    if (isa<memref::CollapseShapeOp, memref::ExpandShapeOp>(op)) {
      Val v = get(op->getOperand(0));
      if (v.strides != rowMajor(v.sizes)) throw Unsupported{"reshape of a strided view"};
      v.sizes = Ints(cast<MemRefType>(op->getResult(0).getType()).getShape());
      for (auto d : v.sizes) if (ShapedType::isDynamic(d)) throw Unsupported{"dynamic reshape"};
      v.strides = rowMajor(v.sizes);
      set(op->getResult(0), v);
      return true;
    }
    if (auto a = dyn_cast<memref::GetGlobalOp>(op)) {
      auto g = module.lookupSymbol<memref::GlobalOp>(a.getName());
      if (!globals.count(a.getName().str())) {
        Val v = makeShaped(Val::Mem, Ints(g.getType().getShape()));
        if (g.getInitialValue() && !isa<UnitAttr>(*g.getInitialValue())) v.buf->data = fromAttr(*g.getInitialValue(), g.getType()).buf->data;
        globals[a.getName().str()] = v;
      }
      set(a.getResult(), globals[a.getName().str()]);
      return true;
    }
    return false;
  }
  std::map<std::string, Val> globals;

  bool execTensor(Operation *op) {
    if (auto a = dyn_cast<tensor::EmptyOp>(op)) {
      Ints s(a.getType().getShape());
      size_t k = 0;
      for (auto &d : s)
        if (ShapedType::isDynamic(d)) d = intOf(op->getOperand(k++));
      set(a.getResult(), makeShaped(Val::Tensor, s));
      return true;
    }
    if (auto a = dyn_cast<tensor::ExtractOp>(op)) { set(a.getResult(), ref(get(a.getTensor()), intsOf(a.getIndices()))); return true; }
    if (auto a = dyn_cast<tensor::InsertOp>(op)) {
      Val t = denseCopy(get(a.getDest()));
      ref(t, intsOf(a.getIndices())) = get(a.getScalar());
      set(a.getResult(), t);
      return true;
    }
    if (auto a = dyn_cast<tensor::FromElementsOp>(op)) { set(a.getResult(), tensorOf(Ints(a.getType().getShape()), vals(a.getElements()))); return true; }
    if (auto a = dyn_cast<tensor::SplatOp>(op)) {
      Val t = makeShaped(Val::Tensor, Ints(a.getType().getShape()));
      for (auto &e : t.buf->data) e = get(a.getInput());
      set(a.getResult(), t);
      return true;
    }
    if (auto a = dyn_cast<tensor::ExtractSliceOp>(op)) {
      Val v = view(get(a.getSource()), intsOf(a.getMixedOffsets()), intsOf(a.getMixedSizes()), intsOf(a.getMixedStrides()));
      set(a.getResult(), denseCopy(dropDims(v, a.getDroppedDims())));
      return true;
    }
    if (isa<tensor::InsertSliceOp, tensor::ParallelInsertSliceOp>(op)) {
      auto a = cast<tensor::InsertSliceOp>(op);
      Val t = denseCopy(get(a.getDest()));
      Val v = dropDims(view(t, intsOf(a.getMixedOffsets()), intsOf(a.getMixedSizes()), intsOf(a.getMixedStrides())), a.getDroppedDims());
      auto es = elems(get(a.getSource()));
      for (size_t i = 0; i < es.size(); ++i) ref(v, unflat(v.sizes, i)) = es[i];
      set(a.getResult(), t);
      return true;
    }
    if (isa<tensor::CollapseShapeOp, tensor::ExpandShapeOp, tensor::ReshapeOp>(op)) {
      Val v = get(op->getOperand(0));
      Ints s(cast<RankedTensorType>(op->getResult(0).getType()).getShape());
      for (auto d : s) if (ShapedType::isDynamic(d)) throw Unsupported{"dynamic reshape"};
      set(op->getResult(0), tensorOf(s, elems(v)));
      return true;
    }
    if (auto a = dyn_cast<tensor::CastOp>(op)) { set(a.getResult(), get(a.getSource())); return true; }
    if (auto a = dyn_cast<tensor::DimOp>(op)) { set(a.getResult(), Val::I(get(a.getSource()).sizes[intOf(a.getIndex())])); return true; }
    if (auto a = dyn_cast<tensor::ConcatOp>(op)) {
      Val t = makeShaped(Val::Tensor, Ints(a.getType().getShape()));
      int64_t d = a.getDim(), base = 0;
      for (Value in : a.getInputs()) {
        Val v = get(in);
        for (int64_t i = 0; i < v.numel(); ++i) { Ints p = unflat(v.sizes, i), q = p; q[d] += base; ref(t, q) = ref(v, p); }
        base += v.sizes[d];
      }
      set(a.getResult(), t);
      return true;
    }
    if (auto a = dyn_cast<tensor::PadOp>(op)) {
      Val v = get(a.getSource());
      Ints lo = intsOf(a.getMixedLowPad()), hi = intsOf(a.getMixedHighPad());
      Ints s = v.sizes;
      for (size_t i = 0; i < s.size(); ++i) s[i] += lo[i] + hi[i];
      Val t = makeShaped(Val::Tensor, s);
      for (int64_t i = 0; i < t.numel(); ++i) {
        Ints p = unflat(s, i), q = p;
        bool in = true;
        for (size_t k = 0; k < s.size(); ++k) { q[k] -= lo[k]; in &= q[k] >= 0 && q[k] < v.sizes[k]; }
        if (in) { t.buf->data[i] = ref(v, q); continue; }
        std::vector<Val> args;
        for (auto x : p) args.push_back(Val::I(x));
        t.buf->data[i] = block(a.getRegion().front(), args)[0];
      }
      set(a.getResult(), t);
      return true;
    }
    if (auto a = dyn_cast<tensor::GenerateOp>(op)) {
      Ints s(cast<RankedTensorType>(a.getType()).getShape());
      for (auto d : s) if (ShapedType::isDynamic(d)) throw Unsupported{"dynamic generate"};
      Val t = makeShaped(Val::Tensor, s);
      for (int64_t i = 0; i < t.numel(); ++i) {
        std::vector<Val> args;
        for (auto x : unflat(s, i)) args.push_back(Val::I(x));
        t.buf->data[i] = block(a.getBody().front(), args)[0];
      }
      set(a.getResult(), t);
      return true;
    }
    return false;
  }

  llvm::SmallVector<Ints> indexStack;  // linalg.index
  void execLinalg(linalg::LinalgOp op) {
    auto maps = op.getIndexingMapsArray();
    unsigned nl = op.getNumLoops();
    std::vector<Val> ops;
    for (OpOperand &o : op->getOpOperands()) ops.push_back(get(o.get()));
    unsigned nIn = op.getNumDpsInputs(), nOut = op.getNumDpsInits();
    // Outputs: tensors are copied, memrefs updated in place.
    for (unsigned o = 0; o < nOut; ++o)
      if (ops[nIn + o].k == Val::Tensor) ops[nIn + o] = denseCopy(ops[nIn + o]);
    // Loop ranges from the shapes.
    AffineMap s2l = op.getShapesToLoopsMap();
    Ints shape;
    for (auto &v : ops) if (v.shaped()) shape.insert(shape.end(), v.sizes.begin(), v.sizes.end());
    Ints ranges;
    for (AffineExpr e : s2l.getResults()) ranges.push_back(evalExpr(e, shape, {}));
    int64_t total = 1;
    for (auto r : ranges) total *= r;
    Block &body = op->getRegion(0).front();
    for (int64_t t = 0; t < total; ++t) {
      Ints iv = unflat(ranges, t);
      std::vector<Val> args;
      std::vector<Ints> pos(ops.size());
      for (size_t k = 0; k < ops.size(); ++k) {
        for (AffineExpr e : maps[k].getResults()) pos[k].push_back(evalExpr(e, iv, {}));
        args.push_back(ops[k].shaped() ? ref(ops[k], pos[k]) : ops[k]);
      }
      indexStack.push_back(iv);
      if (body.getNumArguments() < args.size()) args.resize(body.getNumArguments());
      auto r = block(body, args);
      indexStack.pop_back();
      for (unsigned o = 0; o < nOut; ++o) ref(ops[nIn + o], pos[nIn + o]) = r[o];
    }
    (void)nl;
    std::vector<Val> res;
    for (unsigned o = 0; o < nOut; ++o)
      if (ops[nIn + o].k == Val::Tensor) res.push_back(ops[nIn + o]);
    results(op, res);
  }

 private:
  Env env;
  int depth = 0;
};

// linalg.index needs the loop indices.
inline void addLinalgIndex(Interp &in) {
  in.handlers["linalg.index"] = [](Interp &i, Operation *op, std::vector<Val>) -> std::vector<Val> {
    return {Val::I(i.indexStack.back()[cast<linalg::IndexOp>(op).getDim()])};
  };
}

inline MLIRContext *context() {
  static MLIRContext *c = [] {
    DialectRegistry r;
    r.insert<affine::AffineDialect, arith::ArithDialect, func::FuncDialect, linalg::LinalgDialect, math::MathDialect, memref::MemRefDialect, scf::SCFDialect, tensor::TensorDialect>();
    auto *x = new MLIRContext(r, MLIRContext::Threading::DISABLED);
    x->loadAllAvailableDialects();
    return x;
  }();
  return c;
}
// Parses, or reports the generator as broken.
inline OwningOpRef<ModuleOp> parse(const std::string &text, MLIRContext *x = nullptr) {
  return parseSourceString<ModuleOp>(text, x ? x : context());
}
inline std::string print(Operation *op) {
  std::string s;
  llvm::raw_string_ostream os(s);
  op->print(os);
  return s;
}
inline Val deepCopy(const Val &v, std::map<Buf *, std::shared_ptr<Buf>> &seen) {
  Val r = v;
  if (v.buf) {
    auto &b = seen[v.buf.get()];
    if (!b) b = std::make_shared<Buf>(*v.buf);
    r.buf = b;
  }
  return r;
}
inline std::vector<Val> deepCopy(const std::vector<Val> &vs) {
  std::map<Buf *, std::shared_ptr<Buf>> seen;
  std::vector<Val> r;
  for (auto &v : vs) r.push_back(deepCopy(v, seen));
  return r;
}
}  // namespace mi
