// C30: the rewrites that turn element-wise programs into rotations, and those
// that simplify rotations and masks, keep every value.
#include "lib/Analysis/RotationAnalysis/RotationAnalysis.h"
#include "lib/Dialect/ModuleAttributes.h"
#include "lib/Dialect/TensorExt/IR/TensorExtDialect.h"
#include "lib/Dialect/TensorExt/IR/TensorExtOps.h"
#include "lib/Dialect/TensorExt/Transforms/CollapseInsertionChains.h"
#include "lib/Dialect/TensorExt/Transforms/InsertRotate.h"
#include "lib/Transforms/FoldPlaintextMasks/FoldPlaintextMasks.h"
#include "mlir/Transforms/Passes.h"
#include "prog_gen.h"

using namespace mlir;
using namespace mlir::heir;
using pbt::Case;
using std::string;

namespace {
MLIRContext *ctx() {
  static MLIRContext *c = [] {
    DialectRegistry r;
    r.insert<arith::ArithDialect, func::FuncDialect, scf::SCFDialect, tensor::TensorDialect, affine::AffineDialect, tensor_ext::TensorExtDialect>();
    auto *x = new MLIRContext(r, MLIRContext::Threading::DISABLED);
    x->loadAllAvailableDialects();
    return x;
  }();
  return c;
}
struct Quiet {
  string msgs;
  ScopedDiagnosticHandler h;
  Quiet() : h(ctx(), [this](Diagnostic &d) {
    if (d.getSeverity() == DiagnosticSeverity::Error) msgs += d.str() + "\n";
    return success();
  }) {}
};

// A left rotation of the last axis, recording the shifts that are executed.
struct Shifts { std::set<int64_t> seen; };
std::function<void(mi::Interp &)> rotations(Shifts *s = nullptr) {
  return [s](mi::Interp &in) {
    in.handlers["tensor_ext.rotate"] = [s](mi::Interp &, Operation *, std::vector<mi::Val> v) {
      auto e = mi::elems(v[0]), out = e;
      int64_t n = v[0].sizes.back(), k = ((v[1].s() % n) + n) % n;
      if (s) s->seen.insert(v[1].s());
      for (size_t i = 0; i < e.size(); ++i) out[i] = e[i - i % n + (i % n + k) % n];
      return std::vector<mi::Val>{mi::tensorOf(v[0].sizes, out)};
    };
  };
}

// Text of a program over tensors of one type.
struct Text {
  Case &c;
  int64_t n;
  string e, t;
  bool flt;
  string args, body;
  std::vector<string> argTypes;
  std::map<string, string> consts;
  int id = 0;
  std::vector<string> tensors, scalars, dyn;  // dyn: index arguments used as shifts
  Text(Case &c) : c(c) {
    n = c.chance(15) ? c.range(1, 2) : c.range(3, c.thorough ? 12 : 9);
    flt = c.chance(25);
    e = flt ? (c.chance(50) ? "f32" : "f64") : c.pickOf({"i8", "i16", "i32", "i64"});
    t = "tensor<" + std::to_string(n) + "x" + e + ">";
  }
  string fresh() { return "%v" + std::to_string(id++); }
  string line(const string &s) {
    auto v = fresh();
    body += "  " + v + " = " + s + "\n";
    return v;
  }
  string arg(const string &ty) {
    auto v = fresh();
    args += (args.empty() ? "" : ", ") + v + ": " + ty;
    argTypes.push_back(ty);
    return v;
  }
  string cst(const string &val, const string &ty) {
    auto &v = consts[val + ":" + ty];
    if (v.empty()) v = line("arith.constant " + val + " : " + ty);
    return v;
  }
  string index(int64_t v) { return cst(std::to_string(v), "index"); }
  string value() { return flt ? std::to_string(c.range(-4, 4)) + ".0" : std::to_string(c.range(-8, 7)); }
  string dense(const std::vector<string> &vs) {
    string s;
    for (auto &v : vs) s += (s.empty() ? "" : ", ") + v;
    return line("arith.constant dense<[" + s + "]> : " + t);
  }
  string constant() {
    if (c.chance(25)) return line("arith.constant dense<" + value() + "> : " + t);
    std::vector<string> vs;
    for (int64_t i = 0; i < n; ++i) vs.push_back(value());
    return dense(vs);
  }
  string op() { return string("arith.") + c.pickOf({"add", "sub", "mul"}) + (flt ? "f" : "i"); }
  const string &pick(const std::vector<string> &v) { return v[c.chance(50) ? v.size() - 1 - c.draw(std::min<size_t>(3, v.size())) : c.draw(v.size())]; }
  string module(const std::vector<std::pair<string, string>> &res) {
    string rv, rt;
    for (auto &[v, ty] : res) rv += (rv.empty() ? "" : ", ") + v, rt += (rt.empty() ? "" : ", ") + ty;
    return "func.func @f(" + args + ") -> (" + rt + ") {\n" + body + "  return " + rv + " : " + rt + "\n}\n";
  }
  mi::Val input(const string &ty) {
    if (ty == "index") return mi::Val::I(c.chance(70) ? c.range(0, n - 1) : c.range(-2 * n, 2 * n), 64);
    return pg::input(c, ty);
  }
};

struct Out { OwningOpRef<ModuleOp> before, after; string textAfter; };
Out transform(Case &c, const string &text, const std::function<void(PassManager &)> &add) {
  c.desc << text;
  Out o;
  Quiet q;
  o.before = mi::parse(text, ctx());
  if (!o.before) c.fail("harness: the generated program does not parse: " + q.msgs);
  o.after = mi::parse(text, ctx());
  PassManager pm(ctx());
  pm.enableVerifier(true);
  add(pm);
  if (failed(pm.run(*o.after))) c.fail("the pass failed: " + q.msgs);
  o.textAfter = mi::print(*o.after);
  if (failed(verify(*o.after))) c.fail("the result does not verify: " + q.msgs + o.textAfter);
  return o;
}
void same(Case &c, Text &t, Out &o, double rel = 0) {
  bool any = false;
  for (int k = 0; k < 3; ++k) {
    std::vector<mi::Val> in;
    for (auto &ty : t.argTypes) in.push_back(t.input(ty));
    auto a = pg::run(*o.before, in, "f", rotations());
    if (a.ub) continue;
    any = true;
    auto b = pg::run(*o.after, in, "f", rotations());
    auto d = pg::diff(a, b, rel);
    if (!d.empty()) c.fail(d + " (inputs " + pg::showAll(in) + ")\ntransformed program:\n" + o.textAfter);
  }
  if (!any) c.discard();
}
bool changed(Out &o) { return mi::print(*o.before) != o.textAfter; }
}  // namespace

// ---------------------------------------------------------------------------
// Rotations by constant and dynamic amounts, arithmetic, constants, extracts.
PROP(C30, canonicalize, "the program changed and rotates something other than a constant", 12000 * 4, 120000 * 4) {
  Text t(c);
  int64_t na = c.range(1, 3);
  for (int64_t i = 0; i < na; ++i) t.tensors.push_back(t.arg(t.t));
  int64_t nd = c.chance(35) ? c.range(1, 2) : 0;
  for (int64_t i = 0; i < nd; ++i) t.dyn.push_back(t.arg("index"));
  if (c.chance(30)) t.tensors.push_back(t.constant());
  bool mixed = c.chance(25);
  int64_t ops = c.range(1, c.thorough ? 14 : 9);
  for (int64_t i = 0; i < ops; ++i) {
    int64_t w = c.draw(100);
    if (w < 55) {
      string s, ty = "index";
      if (!t.dyn.empty() && c.chance(30)) s = t.dyn[c.draw(t.dyn.size())];
      else {
        int64_t k = c.chance(15) ? c.pickOf({(int64_t)0, t.n, -t.n, 2 * t.n, t.n - 1}) : c.chance(60) ? c.range(0, t.n - 1) : c.range(-3 * t.n, 3 * t.n);
        if (mixed && c.chance(50)) ty = c.pickOf({"i32", "i64"});
        s = t.cst(std::to_string(k), ty);
      }
      t.tensors.push_back(t.line("tensor_ext.rotate " + t.pick(t.tensors) + ", " + s + " : " + t.t + ", " + ty));
    } else if (w < 95) {
      t.tensors.push_back(t.line(t.op() + " " + t.pick(t.tensors) + ", " + t.pick(t.tensors) + " : " + t.t));
    } else t.tensors.push_back(t.constant());
  }
  std::vector<std::pair<string, string>> res;
  int64_t nr = c.range(1, 2);
  for (int64_t i = 0; i < nr; ++i) {
    auto v = t.tensors[std::max<int64_t>(0, (int64_t)t.tensors.size() - 1 - i * 2)];
    if (c.chance(25)) res.push_back({t.line("tensor.extract " + v + "[" + t.index(c.range(0, t.n - 1)) + "] : " + t.t), t.e});
    else res.push_back({v, t.t});
  }
  auto o = transform(c, t.module(res), [](PassManager &pm) { pm.addPass(createCanonicalizerPass()); });
  if (changed(o) && o.textAfter.find("tensor_ext.rotate") != string::npos) c.nontrivial();
  same(c, t, o, t.flt ? 1e-9 : 0);
}

// Constants of any rank are rotated along their last axis.
PROP(C30, rotate_constant, "rank above one, or a shift outside [0, size)", 4000 * 4, 40000 * 4) {
  Text t(c);
  int64_t rank = c.range(1, 3), cells = 1;
  std::vector<int64_t> dims;
  string ty = "tensor<", lit;
  for (int64_t i = 0; i < rank; ++i) dims.push_back(i == rank - 1 ? t.n : c.range(1, 3)), cells *= dims.back(), ty += std::to_string(dims.back()) + "x";
  ty += t.e + ">";
  for (int64_t i = 0; i < cells; ++i) {
    int64_t m = 1;
    string open, close, v = t.value();
    for (int64_t d = rank - 1; d >= 0; --d) {
      m *= dims[d];
      if (i % m == 0) open += "[";
      if (i % m == m - 1) close += "]";
    }
    lit += (i ? ", " : "") + open + v + close;
  }
  int64_t k = c.range(-4 * t.n, 4 * t.n);
  string sty = c.pickOf({"index", "i32", "i64"});
  auto v = t.line("arith.constant dense<" + lit + "> : " + ty);
  auto r = t.line("tensor_ext.rotate " + v + ", " + t.cst(std::to_string(k), sty) + " : " + ty + ", " + sty);
  auto o = transform(c, t.module({{r, ty}}), [](PassManager &pm) { pm.addPass(createCanonicalizerPass()); });
  if (rank > 1 || k < 0 || k >= t.n) c.nontrivial();
  same(c, t, o);
}

// ---------------------------------------------------------------------------
// Element-wise programs: every element of a tensor is computed and inserted.
PROP(C30, insert_rotate, "the pass inserted a rotation", 8000 * 4, 80000 * 4) {
  Text t(c);
  int64_t na = c.range(1, 3);
  for (int64_t i = 0; i < na; ++i) t.tensors.push_back(t.arg(t.t));
  string dest = c.chance(50) ? t.tensors[0] : t.constant();
  int64_t rounds = c.range(1, 2);
  std::vector<std::pair<string, string>> res;
  for (int64_t r = 0; r < rounds; ++r) {
    // out[i] = f(a[i+k1], b[i+k2], ...)
    int64_t terms = c.range(1, 4);
    std::vector<std::pair<string, int64_t>> src;
    std::vector<string> ops, csts;
    for (int64_t j = 0; j < terms; ++j) {
      src.push_back({t.pick(t.tensors), c.chance(40) ? 0 : c.range(0, t.n - 1)});
      ops.push_back(t.op());
      csts.push_back(c.chance(15) ? t.cst(t.value(), t.e) : "");
    }
    bool all = c.chance(70), right = c.chance(30), scattered = c.chance(20);
    string cur = dest;
    std::vector<int64_t> order(t.n);
    for (int64_t i = 0; i < t.n; ++i) order[i] = i;
    if (c.chance(30)) for (int64_t i = t.n - 1; i > 0; --i) std::swap(order[i], order[c.draw(i + 1)]);
    string scalar;
    for (int64_t i : order) {
      if (!all && c.chance(40)) continue;
      string acc;
      for (int64_t j = 0; j < terms; ++j) {
        int64_t at = scattered ? c.range(0, t.n - 1) : (i + src[j].second) % t.n;
        string x = csts[j].empty() ? t.line("tensor.extract " + src[j].first + "[" + t.index(at) + "] : " + t.t) : csts[j];
        acc = acc.empty() ? x : t.line(ops[j] + " " + (right ? x + ", " + acc : acc + ", " + x) + " : " + t.e);
      }
      scalar = acc;
      cur = t.line("tensor.insert " + acc + " into " + cur + "[" + t.index(i) + "] : " + t.t);
    }
    if (r == rounds - 1 && !scalar.empty() && c.chance(20)) res.push_back({scalar, t.e});
    t.tensors.push_back(cur);
    if (c.chance(60)) dest = cur;
  }
  res.push_back({t.tensors.back(), t.t});
  int64_t mode = c.draw(3);
  auto o = transform(c, t.module(res), [&](PassManager &pm) {
    pm.addPass(tensor_ext::createInsertRotate());
    if (mode == 0) return;
    pm.addPass(createCSEPass());
    pm.addPass(createCanonicalizerPass());
    pm.addPass(tensor_ext::createCollapseInsertionChains());
    if (mode == 1) return;
    pm.addPass(createSCCPPass());
    pm.addPass(createCanonicalizerPass());
    pm.addPass(createCSEPass());
  });
  if (o.textAfter.find("tensor_ext.rotate") != string::npos) c.nontrivial();
  same(c, t, o, t.flt ? 1e-9 : 0);
}

// ---------------------------------------------------------------------------
// Chains of extracts and inserts: complete and incomplete, in any order, with
// one element from somewhere else, with other users of the links.
PROP(C30, insertion_chains, "a chain became a rotation", 8000 * 4, 80000 * 4) {
  Text t(c);
  t.tensors = {t.arg(t.t), t.arg(t.t), t.arg(t.t)};
  string cur = c.chance(70) ? t.tensors[2] : t.tensors[0];
  std::vector<std::pair<string, string>> res;
  std::vector<string> links;
  int64_t chains = c.range(1, 2);
  for (int64_t k = 0; k < chains; ++k) {
    int64_t shift = c.range(0, t.n - 1), odd = c.chance(30) ? c.range(0, t.n - 1) : -1, skip = c.chance(15) ? c.range(0, t.n - 1) : -1;
    string src = t.tensors[c.draw(2)];
    std::vector<int64_t> order;
    for (int64_t i = 0; i < t.n; ++i) if (i != skip) order.push_back(i);
    if (c.chance(30)) order.push_back(c.range(0, t.n - 1));
    if (c.chance(50)) for (int64_t i = (int64_t)order.size() - 1; i > 0; --i) std::swap(order[i], order[c.draw(i + 1)]);
    for (int64_t i : order) {
      int64_t at = (i + shift) % t.n;
      string s = src;
      if (i == odd) { if (c.chance(50)) at = c.range(0, t.n - 1); else s = t.tensors[1]; }
      string x = t.line("tensor.extract " + s + "[" + t.index(at) + "] : " + t.t);
      // now and then a side branch from an earlier link
      if (!links.empty() && c.chance(10)) {
        string b = t.line("tensor.insert " + x + " into " + t.pick(links) + "[" + t.index(i) + "] : " + t.t);
        res.push_back({b, t.t});
        if (c.chance(50)) continue;
      }
      cur = t.line("tensor.insert " + x + " into " + cur + "[" + t.index(i) + "] : " + t.t);
      links.push_back(cur);
    }
    if (c.chance(30)) res.push_back({t.line("tensor.extract " + cur + "[" + t.index(c.range(0, t.n - 1)) + "] : " + t.t), t.e});
    if (c.chance(30)) t.tensors[0] = cur;
  }
  res.push_back({cur, t.t});
  auto o = transform(c, t.module(res), [](PassManager &pm) { pm.addPass(tensor_ext::createCollapseInsertionChains()); });
  if (o.textAfter.find("tensor_ext.rotate") != string::npos) c.nontrivial();
  same(c, t, o);
}

// ---------------------------------------------------------------------------
// Products with constants of ones, zeros and other values.
PROP(C30, plaintext_masks, "two masks were combined", 10000 * 4, 100000 * 4) {
  Text t(c);
  t.tensors = {t.arg(t.t), t.arg(t.t)};
  auto mask = [&]() -> string {
    if (c.chance(12)) return t.constant();
    std::vector<string> vs;
    for (int64_t i = 0; i < t.n; ++i) {
      bool one = c.chance(50);
      vs.push_back(t.flt ? (one ? "1.0" : c.chance(20) ? "-0.0" : "0.0") : one ? "1" : "0");
    }
    if (c.chance(10)) vs[c.draw(t.n)] = t.flt ? c.pickOf({string("-1.0"), string("2.0"), string("0.5")}) : c.pickOf({string("-1"), string("2"), string("3")});
    return t.dense(vs);
  };
  string mul = t.flt ? "arith.mulf " : "arith.muli ";
  int64_t ops = c.range(2, 7);
  int64_t muls = 0;
  for (int64_t i = 0; i < ops; ++i) {
    string a = t.pick(t.tensors), b = c.chance(75) ? mask() : t.pick(t.tensors);
    if (c.chance(50)) std::swap(a, b);
    string op = c.chance(85) ? mul : t.op() + " ";
    muls += op == mul;
    t.tensors.push_back(t.line(op + a + ", " + b + " : " + t.t));
  }
  std::vector<std::pair<string, string>> res = {{t.tensors.back(), t.t}};
  if (c.chance(30)) res.push_back({t.pick(t.tensors), t.t});
  auto o = transform(c, t.module(res), [](PassManager &pm) { pm.addPass(createFoldPlaintextMasks()); });
  int64_t after = 0;
  o.after->walk([&](Operation *op) { after += isa<arith::MulIOp, arith::MulFOp>(op); });
  if (after < muls) c.nontrivial();
  same(c, t, o, t.flt ? 1e-9 : 0);
}

// ---------------------------------------------------------------------------
// The rotation indices an analysis finds are those a run uses.
static void indices(Case &c, Text &t, const string &text, bool loop, bool branches) {
  c.desc << text;
  Quiet q;
  auto m = mi::parse(text, ctx());
  if (!m) c.fail("harness: the generated program does not parse: " + q.msgs);
  Shifts s;
  std::vector<mi::Val> in;
  for (auto &ty : t.argTypes) in.push_back(t.input(ty));
  auto a = pg::run(*m, in, "f", rotations(&s));
  if (a.ub) c.discard();
  RotationAnalysis ra;
  if (failed(ra.run(*m))) c.fail("the analysis failed");
  if (loop) c.nontrivial();
  std::set<int64_t> want, got;
  auto norm = [&](int64_t k) { return ((k % t.n) + t.n) % t.n; };
  for (auto k : s.seen) if (norm(k)) want.insert(norm(k));
  for (auto k : ra.getRotationIndices()) if (norm(k)) got.insert(norm(k));
  auto show = [](const std::set<int64_t> &v) { string s; for (auto k : v) s += " " + std::to_string(k); return s; };
  // Rotations of a branch not taken may be listed as well.
  bool ok = branches ? std::includes(got.begin(), got.end(), want.begin(), want.end()) : want == got;
  if (branches) c.label(want == got ? "branches, exact" : "branches, more listed");
  if (!ok) c.fail("indices found:" + show(got) + "; indices used:" + show(want));
}

PROP(C30, rotation_indices, "a rotation in a loop", 5000 * 4, 50000 * 4) {
  Text t(c);
  string x = t.arg(t.t);
  bool loop = c.chance(75), branches = false;
  auto rot = [&](const string &v, const string &s, const string &ty = "index") { return t.line("tensor_ext.rotate " + v + ", " + s + " : " + t.t + ", " + ty); };
  int64_t pre = c.range(0, 2);
  for (int64_t i = 0; i < pre; ++i) x = rot(x, t.index(c.range(0, t.n - 1)));
  if (loop) {
    int64_t depth = c.chance(30) ? 2 : 1;
    std::vector<string> ivs;
    string lb[2], ub[2], st[2], off[3];
    for (int64_t d = 0; d < depth; ++d) {
      int64_t l = c.range(0, 3), s = c.range(1, 3), u = l + c.range(1, 7);
      lb[d] = t.index(l), ub[d] = t.index(u), st[d] = t.index(s);
    }
    for (auto &f : off) f = t.index(c.range(1, 4));
    string table;
    int64_t tableSize = 12;
    if (c.chance(40)) {
      string vs;
      for (int64_t i = 0; i < tableSize; ++i) vs += (i ? ", " : "") + std::to_string(c.range(0, 6));
      table = t.line("arith.constant dense<[" + vs + "]> : tensor<" + std::to_string(tableSize) + "xindex>");
    }
    string tableTy = "tensor<" + std::to_string(tableSize) + "xindex>";
    // An index carried along with the tensor.
    bool carried = c.chance(35);
    string tys = carried ? "(" + t.t + ", index)" : "(" + t.t + ")";
    string cur = x, cnt = off[0], out[2];
    for (int64_t d = 0; d < depth; ++d) {
      string iv = t.fresh(), it = t.fresh(), ic = t.fresh();
      out[d] = t.fresh();
      t.body += "  " + out[d] + (carried ? ":2" : "") + " = scf.for " + iv + " = " + lb[d] + " to " + ub[d] + " step " + st[d] + " iter_args(" + it + " = " + cur +
                (carried ? ", " + ic + " = " + cnt : "") + ") -> " + tys + " {\n";
      ivs.push_back(iv);
      cur = it, cnt = ic;
    }
    if (carried) ivs.push_back(cnt);
    int64_t k = c.range(1, 3);
    auto shift = [&] {
      string s = ivs[c.draw(ivs.size())];
      int64_t ar = c.range(0, 3);
      for (int64_t j = 0; j < ar; ++j) {
        if (c.chance(15)) { s = t.line("arith.divsi " + s + ", " + off[c.draw(3)] + " : index"); continue; }
        s = t.line(string("arith.") + c.pickOf({"addi", "muli", "addi", "subi"}) + " " + s + ", " + (c.chance(70) ? off[c.draw(3)] : ivs[c.draw(ivs.size())]) + " : index");
      }
      return c.chance(15) ? off[c.draw(3)] : s;
    };
    auto step = [&](const string &cur) {
      auto y = rot(cur, shift());
      return c.chance(50) ? t.line(t.op() + " " + cur + ", " + y + " : " + t.t) : y;
    };
    for (int64_t i = 0; i < k; ++i) {
      if (!table.empty() && c.chance(30)) {
        cur = rot(cur, t.line("tensor.extract " + table + "[" + ivs[0] + "] : " + tableTy));
      } else if (c.chance(25)) {
        branches = true;
        auto cond = t.line(string("arith.cmpi ") + c.pickOf({"slt", "sle", "sgt", "sge", "eq", "ne"}) + ", " + ivs[c.draw(ivs.size())] + ", " + (c.chance(70) ? off[c.draw(3)] : ivs[c.draw(ivs.size())]) + " : index");
        string r = t.fresh();
        t.body += "  " + r + " = scf.if " + cond + " -> (" + t.t + ") {\n";
        for (int b = 0; b < 2; ++b) {
          string z = c.chance(75) ? step(cur) : cur;
          t.body += "  scf.yield " + z + " : " + t.t + "\n} " + (b ? "" : "else {") + "\n";
        }
        cur = r;
      } else cur = step(cur);
    }
    string nc = carried ? t.line(string("arith.") + c.pickOf({"addi", "subi", "addi"}) + " " + cnt + ", " + (c.chance(60) ? off[c.draw(3)] : ivs[0]) + " : index") : "";
    t.body += "  scf.yield " + cur + (carried ? ", " + nc : "") + " : " + t.t + (carried ? ", index" : "") + "\n}\n";
    for (int64_t d = depth - 2; d >= 0; --d)
      t.body += "  scf.yield " + out[d + 1] + (carried ? "#0, " + out[d + 1] + "#1" : "") + " : " + t.t + (carried ? ", index" : "") + "\n}\n";
    if (carried) out[0] += "#0";
    x = out[0];
  }
  string text = "module attributes {" + string(kActualSlotCountAttrName) + " = " + std::to_string(t.n) + " : i64} {\n" + t.module({{x, t.t}}) + "}\n";
  indices(c, t, text, loop, branches);
}
// Fixed programs: listed in known_findings.json.
static void fixedLoop(Case &c, const string &body) {
  Text t(c);
  t.n = 8;
  t.argTypes = {"tensor<8xi32>"};
  indices(c, t, "module attributes {" + string(kActualSlotCountAttrName) + " = 8 : i64} {\nfunc.func @f(%a: tensor<8xi32>) -> tensor<8xi32> {\n  %c0 = arith.constant 0 : index\n  %c1 = arith.constant 1 : index\n  %c2 = arith.constant 2 : index\n  %c6 = arith.constant 6 : index\n  %r = scf.for %i = %c0 to %c6 step %c1 iter_args(%x = %a) -> (tensor<8xi32>) {\n" + body + "    scf.yield %y : tensor<8xi32>\n  }\n  return %r : tensor<8xi32>\n}\n}\n", true, false);
}
PROP(C30, kf_shift_by_other_operation, "always", 1, 1) {
  fixedLoop(c, "    %s = arith.remsi %i, %c2 : index\n    %y = tensor_ext.rotate %x, %s : tensor<8xi32>, index\n");
}
PROP(C30, kf_unsigned_comparison, "always", 1, 1) {
  fixedLoop(c, "    %m = arith.subi %c0, %i : index\n    %p = arith.cmpi ult, %m, %c1 : index\n    %y = scf.if %p -> (tensor<8xi32>) {\n      %u = arith.muli %i, %c0 : index\n      %z = tensor_ext.rotate %x, %u : tensor<8xi32>, index\n      scf.yield %z : tensor<8xi32>\n    } else {\n      %u = arith.addi %i, %c1 : index\n      %z = tensor_ext.rotate %x, %u : tensor<8xi32>, index\n      scf.yield %z : tensor<8xi32>\n    }\n");
}
