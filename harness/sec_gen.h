// Programs over secrets: the context, the generator and running them before
// and after passes.
#pragma once
#include "lib/Dialect/HEIRInterfaces.h"
#include "lib/Dialect/Secret/IR/SecretDialect.h"
#include "lib/Dialect/Secret/IR/SecretOps.h"
#include "lib/Dialect/Secret/IR/SecretTypes.h"
#include "prog_gen.h"

using namespace mlir;
using namespace mlir::heir;
using pbt::Case;
using pg::Gen;
using pg::Idx;
using pg::Opts;

static MLIRContext *ctx() {
  static MLIRContext *c = [] {
    DialectRegistry r;
    r.insert<affine::AffineDialect, arith::ArithDialect, func::FuncDialect, scf::SCFDialect, tensor::TensorDialect, memref::MemRefDialect,
             linalg::LinalgDialect, math::MathDialect, secret::SecretDialect>();
    auto *x = new MLIRContext(r, MLIRContext::Threading::DISABLED);
    x->loadAllAvailableDialects();
    // As heir-opt registers them.
    affine::AffineForOp::attachInterface<OperandAndResultAttrInterface>(*x);
    scf::ForOp::attachInterface<OperandAndResultAttrInterface>(*x);
    func::CallOp::attachInterface<OperandAndResultAttrInterface>(*x);
    return x;
  }();
  return c;
}

// A generated program over arguments some of which are secret.
struct Prog {
  std::vector<std::string> argTypes, resTypes;
  std::vector<bool> secret;
  std::string body, ret;  // ret: "values : types"
  std::string attrText() const {
    std::string a, r;
    for (size_t i = 0; i < argTypes.size(); ++i) a += (i ? ", " : "") + ("%arg" + std::to_string(i)) + ": " + argTypes[i] + (secret[i] ? " {secret.secret}" : "");
    for (size_t i = 0; i < resTypes.size(); ++i) r += (i ? ", " : "") + resTypes[i];
    return "func.func @f(" + a + ") -> (" + r + ") {\n" + body + "  return " + ret + "\n}\n";
  }
  // The same with the body in a secret.generic.
  std::string genericText(bool passPublic) const {
    std::string a, r, ins, bb, res;
    bool any = false;
    for (size_t i = 0; i < argTypes.size(); ++i) {
      std::string n = "%arg" + std::to_string(i), t = secret[i] ? "!secret.secret<" + argTypes[i] + ">" : argTypes[i];
      bool in = secret[i] || passPublic;
      std::string outer = in ? "%in" + std::to_string(i) : n;
      a += (i ? ", " : "") + outer + ": " + t;
      if (!in) continue;
      ins += (any ? ", " : "") + outer + ": " + t;
      bb += (any ? ", " : "") + n + ": " + argTypes[i];
      any = true;
    }
    for (size_t i = 0; i < resTypes.size(); ++i) r += (i ? ", " : "") + ("!secret.secret<" + resTypes[i] + ">");
    for (size_t i = 0; i < resTypes.size(); ++i) res += (i ? ", " : "") + ("%out" + (resTypes.size() > 1 ? "#" + std::to_string(i) : ""));
    return "func.func @f(" + a + ") -> (" + r + ") {\n  %out" + (resTypes.size() > 1 ? ":" + std::to_string(resTypes.size()) : "") + " = secret.generic(" + ins +
           ") {\n  ^body(" + bb + "):\n" + body + "  secret.yield " + ret + "\n  } -> (" + r + ")\n  return " + res + " : " + r + "\n}\n";
  }
};
static void interpSecret(mi::Interp &in) {
  in.handlers["secret.generic"] = [](mi::Interp &i, Operation *op, std::vector<mi::Val> vs) { return i.block(op->getRegion(0).front(), vs); };
}

struct Mode {
  bool extract = false, insert = false, loops = false, whiles = false, ifs = false, odd = false;
  int depth = 2, maxOps = 10;
  int64_t maxRank = 2;
  bool empty = true;
};
struct SecGen {
  Case &c;
  Gen g;
  Mode m;
  int made = 0;
  std::vector<bool> secret;
  static Opts opts(Case &c, const Mode &m) {
    Opts o;
    o.mem = false;
    o.calls = false;
    o.tensor = true;
    o.maxDepth = m.depth;
    o.minOps = 2;
    o.maxOps = m.maxOps;
    o.maxDim = 3;
    o.elem = c.pickOf<const char *>({"i32", "i8", "i16", "i64"});
    o.negLoops = true;
    o.maxRank = m.maxRank;
    o.emptyLoops = m.empty;
    return o;
  }
  SecGen(Case &c, Mode m) : c(c), g(c, opts(c, m)), m(m) {
    g.extraWeight = 8;
    if (m.ifs) g.extra.push_back([this](int d) { secretIf(d); });
    if (m.loops) g.extra.push_back([this](int d) { secretFor(d); });
    if (m.whiles) g.extra.push_back([this](int d) { secretWhile(d); });
    if (m.extract) g.extra.push_back([this](int) { access(false); });
    if (m.insert) g.extra.push_back([this](int) { access(true); });
  }
  // A 1-D access at a non-constant index.
  void access(bool insert) {
    std::vector<std::pair<const pg::Arr *, const Idx *>> ok;
    for (auto &t : g.tens)
      if (t.s.dims.size() == 1)
        for (auto &i : g.idx) if (i.lo >= 0 && i.hi < t.s.dims[0] && i.lo != i.hi) ok.push_back({&t, &i});
    if (ok.empty()) return g.tensorOp();
    ++made;
    auto p = ok[c.draw(ok.size())];
    pg::Arr t = *p.first;
    std::string i = p.second->n;
    if (insert) {
      std::string v = g.scalar(g.o.elem), n = g.fresh("t");
      g.line(n + " = tensor.insert " + v + " into " + t.n + "[" + i + "] : " + g.tenT(t.s));
      g.tens.push_back({n, t.s});
    } else {
      std::string n = g.fresh();
      g.line(n + " = tensor.extract " + t.n + "[" + i + "] : " + g.tenT(t.s));
      g.vars.push_back({n, g.o.elem});
    }
  }
  // Both branches speculatable, any mix of results.
  void secretIf(int depth) {
    ++made;
    std::string q = g.scalar("i1");
    if (c.chance(60)) {
      q = g.fresh("b");
      g.line(q + " = arith.cmpi " + c.pickOf<const char *>({"slt", "eq", "uge", "ne"}) + ", " + g.scalar(g.o.elem) + ", " + g.scalar(g.o.elem) + " : " + g.o.elem);
    }
    Carried cs = carried(1);
    auto sh = shapes(cs);
    std::string n = g.fresh();
    g.line(n + (cs.types.size() > 1 ? ":" + std::to_string(cs.types.size()) : "") + " = scf.if " + q + " -> (" + join(cs.types) + ") {");
    for (int k = 0; k < 2; ++k) {
      if (k) g.line("} else {");
      auto mk = g.mark();
      g.indent += 2;
      int64_t len = c.range(0, 4);
      for (int64_t j = 0; j < len; ++j)
        switch (c.weighted({6, 2, 2, depth > 0 ? 2u : 0u})) {
          case 0: g.arithOp(); break;
          case 1: g.indexOp(); break;
          case 2: g.tensorOp(); break;
          default: secretIf(depth - 1);
        }
      std::vector<std::string> ys;
      for (size_t j = 0; j < cs.inits.size(); ++j) ys.push_back(yieldFor(cs, j, sh, cs.inits[j]));
      g.line("scf.yield " + join(ys) + " : " + join(cs.types));
      g.indent -= 2;
      g.release(mk);
    }
    g.line("}");
    results(cs, sh, n);
  }
  // Loop-carried values: the accumulators and their tensor cousins.
  struct Carried { std::vector<std::string> inits, types; std::vector<int> tens; };
  Carried carried(int lo) {
    Carried r;
    int64_t n = c.range(lo, 3);
    for (int64_t k = 0; k < n; ++k) {
      if (!g.tens.empty() && c.chance(25)) {
        int i = c.draw(g.tens.size());
        r.inits.push_back(g.tens[i].n);
        r.types.push_back(g.tenT(g.tens[i].s));
        r.tens.push_back(i);
      } else {
        r.inits.push_back(g.scalar(g.o.elem));
        r.types.push_back(g.o.elem);
        r.tens.push_back(-1);
      }
    }
    return r;
  }
  void bindCarried(const Carried &cs, const std::vector<std::string> &names, const std::vector<pg::Shape> &sh) {
    for (size_t k = 0; k < names.size(); ++k)
      if (cs.tens[k] >= 0) g.tens.push_back({names[k], sh[k]});
      else g.vars.push_back({names[k], g.o.elem});
  }
  std::string yieldFor(const Carried &cs, size_t k, const std::vector<pg::Shape> &sh, const std::string &fallback) {
    if (cs.tens[k] < 0) return g.scalar(g.o.elem);
    std::vector<std::string> ok;
    for (auto &t : g.tens) if (t.s.dims == sh[k].dims) ok.push_back(t.n);
    return ok.empty() ? fallback : ok[ok.size() - 1 - (c.chance(60) ? 0 : c.draw(ok.size()))];
  }
  static std::string join(const std::vector<std::string> &v) {
    std::string s;
    for (auto &x : v) s += (s.empty() ? "" : ", ") + x;
    return s;
  }
  void results(const Carried &cs, const std::vector<pg::Shape> &sh, const std::string &n) {
    std::vector<std::string> names;
    for (size_t k = 0; k < cs.inits.size(); ++k) names.push_back(cs.inits.size() > 1 ? n + "#" + std::to_string(k) : n);
    bindCarried(cs, names, sh);
  }
  std::vector<pg::Shape> shapes(const Carried &cs) {
    std::vector<pg::Shape> r;
    for (int i : cs.tens) r.push_back(i >= 0 ? g.tens[i].s : pg::Shape{});
    return r;
  }
  void secretFor(int depth) {
    if (g.idx.empty() || depth <= 0) return g.indexOp();
    ++made;
    const Idx L = g.idx[c.draw(g.idx.size())], U = g.idx[c.draw(g.idx.size())];
    int64_t lower = L.lo - (c.chance(30) ? c.range(1, 2) : 0), upper = U.hi + (c.chance(30) ? c.range(1, 2) : 0);
    int64_t step = c.weighted({5, 2, 1}) + 1;
    std::string s = g.cst(step);
    Carried cs = carried(c.chance(90) ? 1 : 0);
    auto sh = shapes(cs);
    std::string n = g.fresh(), iv = g.fresh("j");
    std::vector<std::string> names, args;
    for (size_t k = 0; k < cs.inits.size(); ++k) { names.push_back(g.fresh("acc")); args.push_back(names[k] + " = " + cs.inits[k]); }
    bool res = !names.empty();
    bool asInt = c.chance(20);
    std::string l = L.n, u = U.n, it = "";
    if (asInt) {
      it = c.pickOf<const char *>({"i32", "i16"});
      auto cast = [&](std::string x) { std::string r = g.fresh("q"); g.line(r + " = arith.index_cast " + x + " : index to " + it); return r; };
      l = cast(l); u = cast(u); s = cast(s);
      if (c.chance(70)) { s = g.fresh("q"); g.line(s + " = arith.constant " + std::to_string(step) + " : " + it); }
    }
    g.line((res ? n + (names.size() > 1 ? ":" + std::to_string(names.size()) : "") + " = " : "") + "scf.for " + iv + " = " + l + " to " + u + " step " + s +
           (res ? " iter_args(" + join(args) + ") -> (" + join(cs.types) + ")" : "") + (asInt ? " : " + it : "") + " {");
    auto mk = g.mark();
    g.indent += 2;
    std::string ivx = iv;
    if (asInt) { ivx = g.fresh("j"); g.line(ivx + " = arith.index_cast " + iv + " : " + it + " to index"); }
    g.idx.push_back({ivx, std::min(lower, upper - 1), std::max(lower, upper - 1), false});
    bindCarried(cs, names, sh);
    g.ops(c.range(1, 4), depth - 1);
    std::vector<std::string> ys;
    for (size_t k = 0; k < names.size(); ++k) ys.push_back(yieldFor(cs, k, sh, names[k]));
    if (res) g.line("scf.yield " + join(ys) + " : " + join(cs.types));
    g.indent -= 2;
    g.release(mk);
    g.line("} {lower = " + std::to_string(lower) + " : i64, upper = " + std::to_string(upper) + " : i64}");
    results(cs, sh, n);
  }
  // A counted while loop with a further condition; `odd` also makes the forms
  // the pass does not convert.
  void secretWhile(int depth) {
    std::vector<Idx> ok;
    for (auto &i : g.idx) if (i.hi <= 4) ok.push_back(i);
    if (ok.empty() || depth <= 0) return g.indexOp();
    ++made;
    const Idx B = ok[c.draw(ok.size())];
    int64_t bound = std::max<int64_t>(B.hi, 0), slack = c.chance(30) ? c.range(1, 2) : 0;
    Carried cs = carried(1);
    auto sh = shapes(cs);
    std::string zero = g.cst(0), one = g.cst(1), n = g.fresh(), cnt = g.fresh("w");
    std::vector<std::string> names, args = {cnt + " = " + zero}, types = {"index"};
    for (size_t k = 0; k < cs.inits.size(); ++k) { names.push_back(g.fresh("acc")); args.push_back(names[k] + " = " + cs.inits[k]); types.push_back(cs.types[k]); }
    auto mk = g.mark();
    g.line(n + ":" + std::to_string(types.size()) + " = scf.while (" + join(args) + ") : (" + join(types) + ") -> (" + join(types) + ") {");
    g.indent += 2;
    g.idx.push_back({cnt, 0, bound, false});
    bindCarried(cs, names, sh);
    if (c.chance(50)) g.ops(c.range(0, 2), 0);
    std::string q = g.fresh("b");
    g.line(q + " = arith.cmpi slt, " + cnt + ", " + B.n + " : index");
    if (c.chance(50)) {
      std::string p = g.scalar("i1"), q2 = g.fresh("b");
      g.line(q2 + " = arith.andi " + q + ", " + p + " : i1");
      q = q2;
    }
    std::vector<std::string> cargs = {cnt};
    for (auto &x : names) cargs.push_back(x);
    if (m.odd && c.chance(60)) {
      // permuted, computed or captured condition arguments
      size_t k = 1 + c.draw(names.size());
      if (cs.tens[k - 1] < 0) cargs[k] = c.chance(50) ? g.scalar(g.o.elem) : names[c.draw(names.size())];
      if (std::find(names.begin(), names.end(), cargs[k]) != names.end() && cs.tens[std::find(names.begin(), names.end(), cargs[k]) - names.begin()] >= 0) cargs[k] = names[k - 1];
    }
    g.line("scf.condition(" + q + ") " + join(cargs) + " : " + join(types));
    g.indent -= 2;
    g.release(mk);
    std::string cnt2 = g.fresh("w");
    std::vector<std::string> names2, bb = {cnt2 + ": index"};
    for (size_t k = 0; k < names.size(); ++k) { names2.push_back(g.fresh("acc")); bb.push_back(names2[k] + ": " + cs.types[k]); }
    g.line("} do {");
    g.line("^bb0(" + join(bb) + "):");
    g.indent += 2;
    g.idx.push_back({cnt2, 0, bound, false});
    bindCarried(cs, names2, sh);
    g.ops(c.range(1, 4), depth - 1);
    std::vector<std::string> ys;
    std::string inc = g.fresh("w");
    g.line(inc + " = arith.addi " + cnt2 + ", " + one + " : index");
    ys.push_back(inc);
    for (size_t k = 0; k < names.size(); ++k) ys.push_back(yieldFor(cs, k, sh, names2[k]));
    g.line("scf.yield " + join(ys) + " : " + join(types));
    g.indent -= 2;
    g.release(mk);
    g.line("} attributes {max_iter = " + std::to_string(bound + slack) + " : i64}");
    for (size_t k = 0; k < names.size(); ++k) {
      std::string r = n + "#" + std::to_string(k + 1);
      if (cs.tens[k] >= 0) g.tens.push_back({r, sh[k]});
      else g.vars.push_back({r, g.o.elem});
    }
  }
  Prog make() {
    std::string mod = g.module();
    Prog p;
    p.argTypes = g.argTypes;
    p.resTypes = g.resTypes;
    size_t b = mod.find("{\n") + 2, r = mod.rfind("  return ");
    p.body = mod.substr(b, r - b);
    p.ret = mod.substr(r + 9, mod.find('\n', r) - r - 9);
    for (size_t i = 0; i < p.argTypes.size(); ++i) p.secret.push_back(c.chance(60));
    return p;
  }
};

[[maybe_unused]] static std::vector<mi::Val> inputs(Case &c, const Prog &p, const std::vector<mi::Val> *pub = nullptr) {
  std::vector<mi::Val> r;
  for (size_t i = 0; i < p.argTypes.size(); ++i) r.push_back(pub && !p.secret[i] ? mi::deepCopy(std::vector<mi::Val>{(*pub)[i]})[0] : pg::input(c, p.argTypes[i]));
  return r;
}

[[maybe_unused]] static int64_t count(ModuleOp m, StringRef name) {
  int64_t n = 0;
  m.walk([&](Operation *op) { n += op->getName().getStringRef() == name; });
  return n;
}
struct Quiet {
  ScopedDiagnosticHandler h;
  std::string msgs;
  bool keep = false;
  Quiet() : h(ctx(), [this](Diagnostic &d) {
    if (d.getSeverity() == DiagnosticSeverity::Error) msgs += d.str() + "\n";
    return success();
  }) {}
};
using Add = std::function<void(PassManager &)>;
struct Out { OwningOpRef<ModuleOp> before, after; std::string textAfter, errors; };
static Out convert(Case &c, const std::string &text, const Add &add) {
  c.desc << text;
  Out r;
  {
    Quiet q;
    r.before = mi::parse(text, ctx());
    r.after = mi::parse(text, ctx());
    c.check(bool(r.before), "generator produced a program that does not parse:\n", q.msgs, text);
    PassManager pm(ctx());
    pm.enableVerifier(true);
    add(pm);
    if (failed(pm.run(*r.after))) c.fail("the passes failed or made an invalid program: " + q.msgs + mi::print(*r.after));
    r.errors = q.msgs;
  }
  r.textAfter = mi::print(*r.after);
  return r;
}
[[maybe_unused]] static void same(Case &c, const Prog &p, Out &o) {
  bool any = false;
  for (int k = 0; k < 3; ++k) {
    auto in = inputs(c, p);
    auto a = pg::run(*o.before, in, "f", interpSecret);
    if (a.ub) { c.label("undefined input program"); continue; }
    any = true;
    auto b = pg::run(*o.after, in, "f", interpSecret);
    auto d = pg::diff(a, b);
    if (!d.empty()) c.fail(d + " (inputs " + pg::showAll(in) + ")\ntransformed program:\n" + o.textAfter);
  }
  if (!any) c.discard();
}
// Whatever the secrets are, the program branches, loops and addresses alike.
[[maybe_unused]] static bool oblivious(Case &c, const Prog &p, Out &o) {
  auto in = inputs(c, p);
  std::vector<int64_t> first;
  bool before = false;
  std::vector<int64_t> firstBefore;
  for (int k = 0; k < 4; ++k) {
    auto x = k ? inputs(c, p, &in) : in;
    std::vector<int64_t> d, e;
    auto rb = pg::run(*o.before, x, "f", [&](mi::Interp &i) { interpSecret(i); i.decisions = &e; });
    auto r = pg::run(*o.after, x, "f", [&](mi::Interp &i) { interpSecret(i); i.decisions = &d; });
    if (r.ub || rb.ub) continue;
    if (k == 0) { first = d; firstBefore = e; continue; }
    before |= e != firstBefore;
    if (!first.empty() || !d.empty())
      if (d != first) c.fail("the control flow or addressing depends on a secret (inputs " + pg::showAll(in) + " and " + pg::showAll(x) + ")\ntransformed program:\n" + o.textAfter);
  }
  return before;
}
