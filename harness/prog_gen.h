// Random programs (as MLIR text) over arith/scf/affine/memref/tensor with
// defined behaviour by construction: every index value carries its range, so
// accesses stay in bounds, and no division can trap.
#pragma once
#include <algorithm>
#include <functional>
#include <set>
#include <string>
#include <vector>

#include "mlir_interp.h"
#include "pbt.h"

namespace pg {
using Ints = std::vector<int64_t>;
struct Shape {
  Ints dims;
  std::string elem;
  std::string body() const {
    std::string s;
    for (auto d : dims) s += std::to_string(d) + "x";
    return s + elem;
  }
};
struct Idx { std::string n; int64_t lo, hi; bool affineOk; };  // affineOk: valid affine dim/symbol
struct Var { std::string n, t; };
struct Arr { std::string n; Shape s; bool local = false; bool view = false; };

struct Opts {
  bool mem = true, tensor = false, affine = true, scf = true, calls = true, copies = true, views = false, emptyLoops = true;
  bool bigTrips = false, negLoops = false;
  bool computedYields = false;  // affine loops yield values computed by an operation of their body
  bool dynIdx = true, dealloc = true, slices = false, insertLoops = false;
  int minOps = 4, maxOps = 24, maxDepth = 2;
  std::string elem = "i32";
  int64_t maxDim = 4;
  int64_t maxRank = 2;
};

class Gen {
 public:
  Gen(pbt::Case &c, Opts o) : c(c), o(o) {}
  pbt::Case &c;
  Opts o;
  std::string out;
  int next = 0, indent = 2;
  std::vector<Idx> idx;
  std::vector<Var> vars;  // scalars of type o.elem or i1
  std::vector<Arr> mems, tens;
  std::vector<std::string> argTypes;
  std::vector<std::string> resTypes;

  std::string fresh(const char *p = "v") { return std::string("%") + p + std::to_string(next++); }
  void line(const std::string &s) { out += std::string(indent, ' ') + s + "\n"; }
  std::string cst(int64_t v) {
    // Either a fresh constant op (two equal constants are different values) or
    // a re-used one.
    std::vector<Idx *> same;
    for (auto &i : idx) if (i.lo == v && i.hi == v && i.affineOk) same.push_back(&i);
    if (!same.empty() && c.chance(60)) return same[c.draw(same.size())]->n;
    std::string n = fresh("c");
    line(n + " = arith.constant " + std::to_string(v) + " : index");
    idx.push_back({n, v, v, true});
    return n;
  }
  // An index value in [0, d).
  std::string index(int64_t d, bool affineOnly = false) {
    std::vector<const Idx *> ok;
    if (o.dynIdx)
      for (auto &i : idx) if (i.lo >= 0 && i.hi < d && i.lo != i.hi && (!affineOnly || i.affineOk)) ok.push_back(&i);
    if (!ok.empty() && c.chance(55)) return ok[c.draw(ok.size())]->n;
    return cst(c.draw(d));
  }
  std::string scalar(const std::string &t) {
    std::vector<const Var *> ok;
    for (auto &v : vars) if (v.t == t) ok.push_back(&v);
    if (!ok.empty() && !c.chance(10)) return ok[c.draw(ok.size())]->n;
    std::string n = fresh("k");
    line(n + " = arith.constant " + (t == "i1" ? (c.chance(50) ? "true" : "false") : std::to_string(c.range(-9, 9)) + (t[0] == 'f' ? ".0" : "") + " : " + t));
    vars.push_back({n, t});
    return n;
  }
  // A subscript for a memref access; the affine flavour may use expressions.
  std::string subscript(const Shape &s, bool aff) {
    std::string r;
    for (size_t k = 0; k < s.dims.size(); ++k) {
      if (k) r += ", ";
      int64_t d = s.dims[k];
      if (aff && c.chance(35)) {
        // i + const, with the sum in range
        std::vector<const Idx *> ok;
        for (auto &i : idx) if (i.affineOk && i.hi - i.lo < d) ok.push_back(&i);
        if (!ok.empty()) {
          const Idx *i = ok[c.draw(ok.size())];
          int64_t off = c.range(-i->lo, d - 1 - i->hi);
          // `symbol(...)` when not a loop variable would also do; dims accept both.
          r += i->n + (off < 0 ? " - " + std::to_string(-off) : " + " + std::to_string(off));
          continue;
        }
      }
      r += index(d, aff);
    }
    return r;
  }
  std::string memT(const Shape &s) { return "memref<" + s.body() + ">"; }
  std::string tenT(const Shape &s) { return "tensor<" + s.body() + ">"; }
  Shape shape() {
    Shape s;
    s.elem = o.elem;
    int64_t r = c.range(1, o.maxRank);
    for (int64_t i = 0; i < r; ++i) s.dims.push_back(c.range(2, o.maxDim));
    return s;
  }
  void alloc() {
    Shape s = shape();
    std::string n = fresh("m");
    line(n + " = memref.alloc() : " + memT(s));
    mems.push_back({n, s, true});
  }
  void storeOp() {
    const Arr m = mems[c.draw(mems.size())];
    bool aff = o.affine && c.chance(40);
    std::string v = scalar(o.elem), sub = subscript(m.s, aff);
    line(std::string(aff ? "affine" : "memref") + ".store " + v + ", " + m.n + "[" + sub + "] : " + memT(m.s));
  }
  void loadOp() {
    const Arr m = mems[c.draw(mems.size())];
    bool aff = o.affine && c.chance(40);
    std::string sub = subscript(m.s, aff), n = fresh();
    line(n + " = " + (aff ? "affine" : "memref") + ".load " + m.n + "[" + sub + "] : " + memT(m.s));
    vars.push_back({n, o.elem});
  }
  void arithOp() {
    std::string n, a, b;
    bool fl = o.elem[0] == 'f';
    switch (c.weighted({5, 2, 1})) {
      case 0: {
        a = scalar(o.elem); b = scalar(o.elem); n = fresh();
        static const std::vector<std::string> is = {"addi", "subi", "muli", "xori", "maxsi"}, fs = {"addf", "subf", "mulf", "maximumf"};
        line(n + " = arith." + (fl ? c.pick(fs) : c.pick(is)) + " " + a + ", " + b + " : " + o.elem);
        vars.push_back({n, o.elem});
        break;
      }
      case 1: {
        a = scalar(o.elem); b = scalar(o.elem); n = fresh("b");
        line(n + (fl ? " = arith.cmpf olt, " : " = arith.cmpi slt, ") + a + ", " + b + " : " + o.elem);
        vars.push_back({n, "i1"});
        break;
      }
      default: {
        std::string q = scalar("i1");
        a = scalar(o.elem); b = scalar(o.elem); n = fresh();
        line(n + " = arith.select " + q + ", " + a + ", " + b + " : " + o.elem);
        vars.push_back({n, o.elem});
      }
    }
  }
  void indexOp() {
    // Another SSA value with a range that follows from its operands'.
    if (idx.empty()) return;
    const Idx a = idx[c.draw(idx.size())];
    if (c.chance(60)) {
      int64_t k = c.range(-2, 2);
      std::string kc = cst(k), n = fresh("i");
      line(n + " = arith.addi " + a.n + ", " + kc + " : index");
      idx.push_back({n, a.lo + k, a.hi + k, false});
    } else {
      std::string q = scalar("i1");
      const Idx b = idx[c.draw(idx.size())];
      std::string n = fresh("i");
      line(n + " = arith.select " + q + ", " + a.n + ", " + b.n + " : index");
      idx.push_back({n, std::min(a.lo, b.lo), std::max(a.hi, b.hi), false});
    }
  }
  void copyOp() {
    std::vector<std::pair<size_t, size_t>> ok;
    for (size_t i = 0; i < mems.size(); ++i)
      for (size_t j = 0; j < mems.size(); ++j)
        if (i != j && mems[i].s.dims == mems[j].s.dims && !mems[i].view && !mems[j].view) ok.push_back({i, j});
    if (ok.empty()) return storeOp();
    auto [i, j] = ok[c.draw(ok.size())];
    line("memref.copy " + mems[i].n + ", " + mems[j].n + " : " + memT(mems[i].s) + " to " + memT(mems[j].s));
  }
  std::set<std::string> externs;
  void callOp() {
    const Arr m = mems[c.draw(mems.size())];
    std::string f = "@ext_" + std::to_string(m.s.dims[0]) + (m.s.dims.size() > 1 ? "_" + std::to_string(m.s.dims[1]) : "");
    std::string n = fresh();
    externs.insert("func.func private " + f + "(" + memT(m.s) + ") -> " + o.elem);
    line(n + " = func.call " + f + "(" + m.n + ") : (" + memT(m.s) + ") -> " + o.elem);
    vars.push_back({n, o.elem});
  }
  struct Mark { size_t i, v, m, t; };
  Mark mark() { return {idx.size(), vars.size(), mems.size(), tens.size()}; }
  void release(Mark k) { idx.resize(k.i); vars.resize(k.v); mems.resize(k.m); tens.resize(k.t); }
  void ifOp(int depth) {
    std::string q = scalar("i1");
    std::string a0 = scalar(o.elem);
    bool res = c.chance(50), els = res || c.chance(40);
    std::string n = fresh();
    line((res ? n + " = " : "") + "scf.if " + q + (res ? " -> (" + o.elem + ")" : "") + " {");
    for (int k = 0; k < (els ? 2 : 1); ++k) {
      if (k) line("} else {");
      Mark mk = mark();
      indent += 2;
      ops(c.range(0, 5), depth - 1);
      if (res) line("scf.yield " + scalar(o.elem) + " : " + o.elem);
      indent -= 2;
      release(mk);
    }
    line("}");
    if (res) vars.push_back({n, o.elem});
  }
  void forOp(int depth, bool aff) {
    int64_t lo = c.range(o.negLoops ? -3 : 0, 2), tripMax = o.bigTrips && c.chance(10) ? c.range(4, 40) : c.range(o.emptyLoops ? 0 : 1, 3);
    int64_t step = c.range(1, o.bigTrips ? 5 : 2);
    int64_t hi = lo + tripMax * step - (step > 1 && tripMax > 0 && c.chance(50) ? c.range(1, step - 1) : 0);
    std::string iv = fresh("j"), n = fresh();
    int nres = c.chance(45) ? (int)c.weighted({0, 5, 3, 1}) : 0;
    std::string types, args, yields;
    std::vector<std::string> accs;
    for (int k = 0; k < nres; ++k) {
      accs.push_back(fresh("acc"));
      types += (k ? ", " : "") + o.elem;
      args += (k ? ", " : "") + accs[k] + " = " + scalar(o.elem);
    }
    std::string head = (nres ? n + (nres > 1 ? ":" + std::to_string(nres) : "") + " = " : ""), tail = (nres ? " iter_args(" + args + ") -> (" + types + ")" : "") + " {";
    if (aff) {
      line(head + "affine.for " + iv + " = " + std::to_string(lo) + " to " + std::to_string(hi) + " step " + std::to_string(step) + tail);
    } else {
      std::string l = cst(lo), h = cst(hi), s = cst(step);
      line(head + "scf.for " + iv + " = " + l + " to " + h + " step " + s + tail);
    }
    Mark mk = mark();
    indent += 2;
    int64_t trips = hi > lo ? (hi - lo + step - 1) / step : 0;
    idx.push_back({iv, lo, trips ? lo + (trips - 1) * step : lo, aff});
    for (auto &a : accs) vars.push_back({a, o.elem});
    ops(c.range(1, 5), depth - 1);
    for (int k = 0; k < nres; ++k) {
      std::string y = scalar(o.elem);
      if (o.computedYields && aff) {
        std::string r = fresh("y");
        line(r + " = arith.xori " + y + ", " + scalar(o.elem) + " : " + o.elem);
        y = r;
      }
      yields += (k ? ", " : "") + y;
    }
    if (nres) line(std::string(aff ? "affine" : "scf") + ".yield " + yields + " : " + types);
    indent -= 2;
    release(mk);
    line("}");
    for (int k = 0; k < nres; ++k) vars.push_back({nres > 1 ? n + "#" + std::to_string(k) : n, o.elem});
  }
  // tensors
  std::string indices(const Shape &s) {
    std::string r;
    for (size_t k = 0; k < s.dims.size(); ++k) r += (k ? ", " : "") + index(s.dims[k]);
    return r;
  }
  void tensorOp() {
    switch (tens.empty() ? 3 + c.weighted({2, 2, 1}) : c.weighted({6, 6, 0, 1, 1, 1})) {
      case 0: {
        const Arr t = tens[c.chance(60) ? tens.size() - 1 : c.draw(tens.size())];
        std::string v = scalar(o.elem), i = indices(t.s), n = fresh("t");
        line(n + " = tensor.insert " + v + " into " + t.n + "[" + i + "] : " + tenT(t.s));
        tens.push_back({n, t.s});
        break;
      }
      case 1: {
        const Arr t = tens[c.chance(60) ? tens.size() - 1 : c.draw(tens.size())];
        std::string i = indices(t.s), n = fresh();
        line(n + " = tensor.extract " + t.n + "[" + i + "] : " + tenT(t.s));
        vars.push_back({n, o.elem});
        break;
      }
      case 3: {
        Shape s = shape();
        int64_t ne = 1;
        for (auto d : s.dims) ne *= d;
        std::string vs;
        for (int64_t i = 0; i < ne; ++i) vs += (i ? ", " : "") + scalar(o.elem);
        std::string n = fresh("t");
        line(n + " = tensor.from_elements " + vs + " : " + tenT(s));
        tens.push_back({n, s});
        break;
      }
      case 4: {
        Shape s = shape();
        std::string n = fresh("t"), lit;
        bool fl = o.elem[0] == 'f';
        auto num = [&] { return std::to_string(c.range(-9, 9)) + (fl ? ".0" : ""); };
        if (c.chance(35)) lit = num();
        else {
          auto row = [&](int64_t d) { std::string r = "["; for (int64_t i = 0; i < d; ++i) r += (i ? ", " : "") + num(); return r + "]"; };
          if (s.dims.size() == 1) lit = row(s.dims[0]);
          else { lit = "["; for (int64_t i = 0; i < s.dims[0]; ++i) lit += (i ? ", " : "") + row(s.dims[1]); lit += "]"; }
        }
        line(n + " = arith.constant dense<" + lit + "> : " + tenT(s));
        tens.push_back({n, s});
        break;
      }
      default: {
        Shape s = shape();
        std::string v = scalar(o.elem), n = fresh("t");
        line(n + " = tensor.splat " + v + " : " + tenT(s));
        tens.push_back({n, s});
      }
    }
  }
  void sliceOp() {
    if (tens.empty()) return tensorOp();
    const Arr t = tens[c.chance(70) ? tens.size() - 1 : c.draw(tens.size())];
    Ints off, sz, st;
    Shape rs;
    rs.elem = t.s.elem;
    std::string offS, szS, stS;
    for (size_t k = 0; k < t.s.dims.size(); ++k) {
      int64_t d = t.s.dims[k], z = c.range(1, d), stp = z > 1 ? c.range(1, (d - 1) / (z - 1)) : 1, f = c.range(0, d - 1 - (z - 1) * stp);
      // A dynamic offset when one fits.
      std::string fs = std::to_string(f);
      if (o.dynIdx && c.chance(30)) {
        std::vector<const Idx *> ok;
        for (auto &i : idx) if (i.lo >= 0 && i.hi + (z - 1) * stp < d) ok.push_back(&i);
        if (!ok.empty()) fs = ok[c.draw(ok.size())]->n;
      }
      offS += (k ? ", " : "") + fs;
      szS += (k ? ", " : "") + std::to_string(z);
      stS += (k ? ", " : "") + std::to_string(stp);
      sz.push_back(z);
    }
    // Rank reduction of unit sizes.
    for (size_t k = 0; k < sz.size(); ++k)
      if (!(sz[k] == 1 && rs.dims.size() + (sz.size() - k) > 1 && c.chance(40))) rs.dims.push_back(sz[k]);
    if (rs.dims.empty()) rs.dims.push_back(1);
    std::string n = fresh("t");
    std::vector<const Arr *> srcs;
    for (auto &x : tens) if (x.s.dims == rs.dims) srcs.push_back(&x);
    if (!srcs.empty() && c.chance(55)) {
      std::string src = srcs[c.draw(srcs.size())]->n;
      line(n + " = tensor.insert_slice " + src + " into " + t.n + "[" + offS + "] [" + szS + "] [" + stS + "] : " + tenT(rs) + " into " + tenT(t.s));
      tens.push_back({n, t.s});
    } else {
      line(n + " = tensor.extract_slice " + t.n + "[" + offS + "] [" + szS + "] [" + stS + "] : " + tenT(t.s) + " to " + tenT(rs));
      tens.push_back({n, rs});
    }
  }
  std::vector<std::function<void(int)>> extra;  // further op generators
  unsigned extraWeight = 3;
  void ops(int64_t n, int depth) {
    for (int64_t i = 0; i < n; ++i) {
      bool m = o.mem && !mems.empty();
      std::vector<unsigned> w = {m ? 8u : 0u, m ? 8u : 0u, 4u, o.dynIdx ? 2u : 0u, m && o.copies ? 1u : 0u, m && o.calls ? 1u : 0u,
                                 depth > 0 && o.scf ? 2u : 0u, depth > 0 && o.scf ? 1u : 0u, depth > 0 && o.affine ? 2u : 0u, o.mem ? 1u : 0u, o.tensor ? 8u : 0u,
                                 o.tensor && o.slices ? 5u : 0u, extra.empty() ? 0u : extraWeight};
      switch (c.weighted(w)) {
        case 0: storeOp(); break;
        case 1: loadOp(); break;
        case 2: arithOp(); break;
        case 3: indexOp(); break;
        case 4: copyOp(); break;
        case 5: callOp(); break;
        case 6: ifOp(depth); break;
        case 7: forOp(depth, false); break;
        case 8: forOp(depth, true); break;
        case 9: alloc(); break;
        case 10: tensorOp(); break;
        case 11: sliceOp(); break;
        default: extra[c.draw(extra.size())](depth);
      }
    }
  }
  // The whole module: one function @f.
  std::string module() {
    std::string args;
    auto arg = [&](const std::string &t) {
      std::string n = "%arg" + std::to_string(argTypes.size());
      args += (argTypes.empty() ? "" : ", ") + n + ": " + t;
      argTypes.push_back(t);
      return n;
    };
    int64_t nm = o.mem ? c.range(1, 2) : 0, ni = o.dynIdx ? c.range(1, 3) : 0, nt = o.tensor ? c.range(0, 2) : 0;
    for (int64_t k = 0; k < nm; ++k) { Shape s = shape(); mems.push_back({arg(memT(s)), s}); }
    for (int64_t k = 0; k < nt; ++k) { Shape s = shape(); tens.push_back({arg(tenT(s)), s}); }
    for (int64_t k = 0; k < ni; ++k) idx.push_back({arg("index"), 0, 1, true});
    vars.push_back({arg(o.elem), o.elem});
    vars.push_back({arg(o.elem), o.elem});
    vars.push_back({arg("i1"), "i1"});
    ops(c.range(o.minOps, o.maxOps), o.maxDepth);
    std::string rv, rt;
    auto ret = [&](const std::string &v, const std::string &t) {
      rv += (rv.empty() ? "" : ", ") + v;
      rt += (rt.empty() ? "" : ", ") + t;
      resTypes.push_back(t);
    };
    // Return the last few scalars and some local arrays.
    int64_t nr = c.range(1, 4);
    std::vector<Var> sv;
    for (auto &v : vars) if (v.t == o.elem) sv.push_back(v);
    for (int64_t k = 0; k < nr && k < (int64_t)sv.size(); ++k) ret(sv[sv.size() - 1 - k].n, o.elem);
    std::vector<std::string> returned;
    for (auto &m : mems)
      if (m.local && c.chance(30)) { ret(m.n, memT(m.s)); returned.push_back(m.n); }
    if (o.dealloc)
      for (auto &m : mems)
        if (m.local && std::find(returned.begin(), returned.end(), m.n) == returned.end() && c.chance(40)) line("memref.dealloc " + m.n + " : " + memT(m.s));
    if (!tens.empty() && c.chance(40)) ret(tens.back().n, tenT(tens.back().s));
    line("return " + rv + " : " + rt);
    std::string mod;
    for (auto &e : externs) mod += e + "\n";
    mod += "func.func @f(" + args + ") -> (" + rt + ") {\n" + out + "}\n";
    return mod;
  }
};

// A random value of a type written as text.
inline mi::Val input(pbt::Case &c, const std::string &t) {
  using mi::Val;
  auto scalar = [&](const std::string &e) -> Val {
    if (e == "i1") return Val::I(c.draw(2), 1);
    if (e == "index") return Val::I(c.draw(2), 64);
    if (e[0] == 'f') return Val::F((double)c.range(-8, 8), e == "f32");
    return Val::I(c.range(-20, 20), std::stoi(e.substr(1)));
  };
  auto lt = t.find('<');
  if (lt == std::string::npos) return scalar(t);
  std::string body = t.substr(lt + 1, t.size() - lt - 2);
  Ints dims;
  size_t p = 0;
  for (size_t x; (x = body.find('x', p)) != std::string::npos && isdigit(body[p]); p = x + 1) dims.push_back(std::stoll(body.substr(p, x - p)));
  Val v = mi::makeShaped(t[0] == 'm' ? Val::Mem : Val::Tensor, dims);
  for (auto &e : v.buf->data) e = scalar(body.substr(p));
  return v;
}

struct Run {
  bool ub = false;
  std::string why;
  std::vector<mi::Val> results, args, trace;
  std::map<std::string, int64_t> opCount;
};
// Runs @f on (copies of) the inputs; external functions record what they see
// and overwrite the array they are given.
inline Run run(mlir::ModuleOp m, std::vector<mi::Val> inputs, const std::string &fn = "f", const std::function<void(mi::Interp &)> &setup = nullptr) {
  Run r;
  r.args = mi::deepCopy(inputs);
  mi::Interp in(m);
  mi::addLinalgIndex(in);
  int64_t calls = 0;
  in.external = [&](mi::Interp &, mlir::func::CallOp call, std::vector<mi::Val> as) -> std::vector<mi::Val> {
    ++calls;
    uint64_t h = calls;
    for (auto &a : as) {
      if (!a.shaped()) continue;
      r.trace.push_back(mi::tensorOf(a.sizes, mi::elems(a)));
      for (int64_t i = 0; i < a.numel(); ++i) {
        auto &e = mi::ref(a, mi::unflat(a.sizes, i));
        if (e.k == mi::Val::Int) e = mi::Val::I(e.i + llvm::APInt(e.i.getBitWidth(), 3 * i + calls, false, true));
        else if (e.k == mi::Val::Float) e = mi::Val::F(e.f + i + calls, e.f32);
      }
    }
    std::vector<mi::Val> res;
    for (auto t : call.getResultTypes()) res.push_back(llvm::isa<mlir::FloatType>(t) ? mi::Val::F((double)h) : mi::Val::I(h, mi::Interp::width(t)));
    return res;
  };
  if (setup) setup(in);
  try {
    r.results = in.call(fn, r.args);
  } catch (mi::UB &u) {
    r.ub = true;
    r.why = u.msg;
  }
  r.opCount = in.opCount;
  return r;
}
inline std::string showAll(const std::vector<mi::Val> &vs) {
  std::string s;
  for (auto &v : vs) {
    try { s += (s.empty() ? "" : " ") + mi::show(v); } catch (mi::UB &) { s += " freed"; }
  }
  return s;
}
// Compares two runs of the same function; a run of `b` has to be a behaviour
// `a` allows.
inline std::string diff(const Run &a, const Run &b, double rel = 0, double abs = 0) {
  if (a.ub) return "";
  if (b.ub) return "the transformed program has undefined behaviour (" + b.why + ")";
  auto cmp = [&](const char *what, const std::vector<mi::Val> &x, const std::vector<mi::Val> &y) -> std::string {
    if (x.size() != y.size()) return std::string(what) + ": number differs";
    for (size_t i = 0; i < x.size(); ++i)
      if (!mi::refines(x[i], y[i], rel, abs)) return std::string(what) + " " + std::to_string(i) + ": " + mi::show(y[i]) + ", the original program gives " + mi::show(x[i]);
    return "";
  };
  for (auto [w, x, y] : {std::tuple{"result", &a.results, &b.results}, std::tuple{"argument contents", &a.args, &b.args}, std::tuple{"array seen by external call", &a.trace, &b.trace}})
    if (auto s = cmp(w, *x, *y); !s.empty()) return s;
  return "";
}
}  // namespace pg
