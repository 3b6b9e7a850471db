// C28: the passes over secret.generic keep the plaintext meaning of the
// program, and leave it in the form each of them promises.
#include "lib/Dialect/Mgmt/IR/MgmtDialect.h"
#include "lib/Dialect/Secret/Transforms/AddDebugPort.h"
#include "lib/Dialect/Secret/Transforms/CaptureGenericAmbientScope.h"
#include "lib/Dialect/Secret/Transforms/DistributeGeneric.h"
#include "lib/Dialect/Secret/Transforms/ExtractGenericBody.h"
#include "lib/Dialect/Secret/Transforms/ForgetSecrets.h"
#include "lib/Dialect/Secret/Transforms/GenericAbsorbConstants.h"
#include "lib/Dialect/Secret/Transforms/GenericAbsorbDealloc.h"
#include "lib/Dialect/Secret/Transforms/ImportExecutionResult.h"
#include "lib/Dialect/Secret/Transforms/MergeAdjacentGenerics.h"
#include "lib/Transforms/Secretize/Passes.h"
#include "mlir/Transforms/Passes.h"
#include "sec_gen.h"

using std::string;

namespace {
enum Kind { Scalar, Bool, Index, Tensor };
struct Sec {
  string n, t;  // name and cleartext type
  Kind k;
  pg::Shape s;
  int64_t lo = 0, hi = 0;
};
string sec(const string &t) { return "!secret.secret<" + t + ">"; }

// Programs of plain operations, conceals, reveals and secret.generics that
// take secret and public operands and refer to public values around them.
struct GGen {
  Case &c;
  SecGen s;
  Gen &g;
  std::vector<Sec> secrets;
  bool loops = true, attrs = false, plain = false, bitCasts = false;
  // Operands and results say which cleartext type they have.
  string note(const string &t) { return attrs && c.chance(70) ? " {test.t = \"" + t + "\"}" : ""; }
  bool isInt(const Sec &x) const { return (x.k == Scalar && x.t[0] == 'i') && x.t != "i1" && x.t != "index"; }
  // Take an integer apart, work on its bits and put it together again.
  void bits() {
    std::vector<Sec> ok;
    for (auto &x : secrets) if (isInt(x)) ok.push_back(x);
    if (ok.empty()) return;
    Sec x = ok[c.draw(ok.size())];
    string w = x.t.substr(1), bt = "tensor<" + w + "xi1>", a = g.fresh("b"), r = g.fresh("s"), t = g.fresh("in"), o = g.fresh("b");
    int64_t n = std::stoll(w);
    g.line(a + " = secret.cast " + x.n + " : " + sec(x.t) + " to " + sec(bt));
    if (c.chance(80)) {
      g.line(r + " = secret.generic(" + a + ": " + sec(bt) + ") {");
      g.line("^body(" + t + ": " + bt + "):");
      string cur = t;
      int64_t k = c.range(1, 3);
      for (int64_t i = 0; i < k; ++i) {
        string p = g.fresh("c"), q = g.fresh("c"), u = g.fresh("u"), v = g.fresh("u"), y = g.fresh("u"), nx = g.fresh("t");
        g.line(p + " = arith.constant " + std::to_string(c.range(0, n - 1)) + " : index");
        g.line(q + " = arith.constant " + std::to_string(c.range(0, n - 1)) + " : index");
        g.line(u + " = tensor.extract " + cur + "[" + p + "] : " + bt);
        g.line(v + " = tensor.extract " + cur + "[" + q + "] : " + bt);
        g.line(y + " = arith." + c.pickOf({"xori", "andi", "ori"}) + " " + u + ", " + v + " : i1");
        g.line(nx + " = tensor.insert " + y + " into " + cur + "[" + q + "] : " + bt);
        cur = nx;
      }
      g.line("secret.yield " + cur + " : " + bt);
      g.line("} -> (" + sec(bt) + ")");
      a = r;
    }
    g.line(o + " = secret.cast " + a + " : " + sec(bt) + " to " + sec(x.t));
    x.n = o;
    secrets.push_back(x);
    ++casts;
  }
  GGen(Case &c, Mode m) : c(c), s(c, m), g(s.g) {}
  int generics = 0, casts = 0;

  void expose(const Sec &x, const string &n) {
    if (x.k == Tensor) g.tens.push_back({n, x.s});
    else if (x.k == Index) g.idx.push_back({n, x.lo, x.hi, false});
    else g.vars.push_back({n, x.t});
  }
  bool publicValue(Sec &x) {
    switch (c.draw(3)) {
      case 0: if (!g.vars.empty()) { auto &v = g.vars[c.draw(g.vars.size())]; x = {v.n, v.t, v.t == "i1" ? Bool : Scalar, {}}; return true; } break;
      case 1: if (!g.idx.empty()) { auto &v = g.idx[c.draw(g.idx.size())]; x = {v.n, "index", Index, {}, v.lo, v.hi}; return true; } break;
      default: if (!g.tens.empty()) { auto &v = g.tens[c.draw(g.tens.size())]; x = {v.n, g.tenT(v.s), Tensor, v.s}; return true; }
    }
    return false;
  }
  // One generic; returns its results. `want`: yield exactly these types.
  std::vector<Sec> generic(int depth, const std::vector<Sec> *want = nullptr, const std::vector<Sec> &must = {}) {
    ++generics;
    std::vector<Sec> ins = must;
    std::vector<bool> isSec(must.size(), true);
    int64_t k = secrets.empty() ? 0 : c.range(c.chance(90) ? 1 : 0, 3);
    for (int64_t i = 0; i < k; ++i) {
      ins.push_back(c.chance(50) ? secrets[secrets.size() - 1 - c.draw(std::min<size_t>(2, secrets.size()))] : secrets[c.draw(secrets.size())]);
      isSec.push_back(true);
    }
    if (c.chance(35)) {
      int64_t n = c.range(1, 2);
      Sec x;
      for (int64_t i = 0; i < n; ++i)
        if (publicValue(x)) { ins.push_back(x); isSec.push_back(false); }
    }
    // Any order of secret and public operands.
    for (size_t i = ins.size(); i > 1; --i) {
      size_t j = c.chance(50) ? i - 1 : c.draw(i);
      std::swap(ins[i - 1], ins[j]);
      bool t = isSec[i - 1];
      isSec[i - 1] = isSec[j];
      isSec[j] = t;
    }
    string outs, blk;
    std::vector<string> names;
    for (size_t i = 0; i < ins.size(); ++i) {
      names.push_back(g.fresh("in"));
      outs += (i ? ", " : "") + ins[i].n + ": " + (isSec[i] ? sec(ins[i].t) : ins[i].t) + note(ins[i].t);
      blk += (i ? ", " : "") + names[i] + ": " + ins[i].t;
    }
    // The body goes to a buffer first: the results are known only afterwards.
    string saved = std::move(g.out);
    g.out.clear();
    auto mk = g.mark();
    g.indent += 2;
    for (size_t i = 0; i < ins.size(); ++i) expose(ins[i], names[i]);
    g.ops(c.range(c.chance(15) ? 0 : 1, s.m.maxOps), depth);
    std::vector<Sec> res;
    std::vector<string> ys;
    if (want) {
      for (auto &w : *want) {
        res.push_back(w);
        string y;
        if (w.k == Tensor) {
          std::vector<string> ok;
          for (auto &t : g.tens) if (t.s.dims == w.s.dims) ok.push_back(t.n);
          y = ok[ok.size() - 1 - (c.chance(60) ? 0 : c.draw(ok.size()))];
        } else y = g.scalar(w.t);
        ys.push_back(y);
      }
    } else {
      int64_t n = c.range(1, 3);
      for (int64_t i = 0; i < n; ++i) {
        if (!ys.empty() && c.chance(10)) { ys.push_back(ys[0]); res.push_back(res[0]); continue; }
        switch (c.weighted({6, g.tens.empty() ? 0u : 4u, g.idx.empty() ? 0u : 1u, 1})) {
          case 0: ys.push_back(c.chance(60) && g.vars.size() && g.vars.back().t == g.o.elem ? g.vars.back().n : g.scalar(g.o.elem)); res.push_back({"", g.o.elem, Scalar, {}}); break;
          case 1: { auto t = g.tens[c.chance(50) ? g.tens.size() - 1 : c.draw(g.tens.size())]; ys.push_back(t.n); res.push_back({"", g.tenT(t.s), Tensor, t.s}); break; }
          case 2: { auto t = g.idx[c.draw(g.idx.size())]; ys.push_back(t.n); res.push_back({"", "index", Index, {}, t.lo, t.hi}); break; }
          default: ys.push_back(g.scalar("i1")); res.push_back({"", "i1", Bool, {}});
        }
      }
    }
    string yt, rt;
    for (auto &r : res) { yt += (yt.empty() ? "" : ", ") + r.t; rt += (rt.empty() ? "" : ", ") + sec(r.t) + (plain ? note(r.t) : ""); }
    g.line("secret.yield " + SecGen::join(ys) + " : " + yt);
    g.indent -= 2;
    g.release(mk);
    string body = std::move(g.out);
    g.out = std::move(saved);
    string n = g.fresh("s");
    g.line(n + (res.size() > 1 ? ":" + std::to_string(res.size()) : "") + " = secret.generic(" + outs + ") {");
    if (!ins.empty()) g.line("^body(" + blk + "):");
    g.out += body;
    g.line("} -> (" + rt + ")");
    for (size_t i = 0; i < res.size(); ++i) res[i].n = res.size() > 1 ? n + "#" + std::to_string(i) : n;
    return res;
  }
  // A public loop that carries secrets.
  void loop() {
    std::vector<Sec> inits;
    int64_t n = c.range(1, 2);
    for (int64_t i = 0; i < n; ++i) inits.push_back(secrets[c.draw(secrets.size())]);
    for (auto &x : inits) if (x.k == Index) return;
    string lo = g.cst(0), hi = g.cst(c.range(0, 3)), st = g.cst(1), iv = g.fresh("j"), r = g.fresh("l");
    bool aff = c.chance(40);
    string args, types;
    std::vector<Sec> accs;
    for (auto &x : inits) {
      Sec a = x;
      a.n = g.fresh("acc");
      args += (args.empty() ? "" : ", ") + a.n + " = " + x.n;
      types += (types.empty() ? "" : ", ") + sec(x.t);
      accs.push_back(a);
    }
    int64_t trips = c.range(0, 3);
    g.line(r + (n > 1 ? ":" + std::to_string(n) : "") + " = " + (aff ? "affine.for " + iv + " = 0 to " + std::to_string(trips) : "scf.for " + iv + " = " + lo + " to " + hi + " step " + st) + " iter_args(" + args + ") -> (" + types + ") {");
    auto mk = g.mark();
    size_t ns = secrets.size();
    g.indent += 2;
    g.idx.push_back({iv, 0, 2, aff});
    for (auto &a : accs) secrets.push_back(a);
    auto out = generic(0, &accs, accs);
    g.line((aff ? "affine.yield " : "scf.yield ") + [&] { string y; for (auto &o : out) y += (y.empty() ? "" : ", ") + o.n; return y; }() + " : " + types);
    g.indent -= 2;
    g.line("}");
    g.release(mk);
    secrets.resize(ns);
    for (size_t i = 0; i < accs.size(); ++i) {
      Sec x = accs[i];
      x.n = n > 1 ? r + "#" + std::to_string(i) : r;
      secrets.push_back(x);
    }
  }
  struct Built { string text; std::vector<string> argTypes; };
  Built build(int maxSeg, int depth, bool between) {
    Built b;
    string args;
    auto arg = [&](Sec x) {
      bool sc = c.chance(60);
      x.n = "%arg" + std::to_string(b.argTypes.size());
      args += (b.argTypes.empty() ? "" : ", ") + x.n + ": " + (sc ? sec(x.t) : x.t);
      b.argTypes.push_back(x.t);
      if (sc) secrets.push_back(x);
      else {
        expose(x, x.n);
        if (x.k == Index) g.idx.back().affineOk = true;
      }
    };
    int64_t nt = c.range(0, 2), ni = c.range(0, 2);
    for (int64_t i = 0; i < nt; ++i) { pg::Shape s = g.shape(); arg({"", g.tenT(s), Tensor, s}); }
    for (int64_t i = 0; i < ni; ++i) arg({"", "index", Index, {}, 0, 1});
    arg({"", g.o.elem, Scalar, {}});
    arg({"", g.o.elem, Scalar, {}});
    arg({"", "i1", Bool, {}});
    int64_t seg = c.range(1, maxSeg);
    for (int64_t i = 0; i < seg; ++i) {
      if (between) {
        if (c.chance(35)) g.ops(c.range(1, 2), 1);
        Sec x;
        if (c.chance(25) && publicValue(x)) {
          Sec y = x;
          y.n = g.fresh("s");
          g.line(y.n + " = secret.conceal " + x.n + " : " + x.t + " -> " + sec(x.t));
          secrets.push_back(y);
        }
        if (c.chance(10) && !secrets.empty()) {
          Sec x = secrets[c.draw(secrets.size())], y = x;
          y.n = g.fresh("p");
          g.line(y.n + " = secret.reveal " + x.n + " : " + sec(x.t) + " -> " + x.t);
          expose(y, y.n);
        }
        if (bitCasts && c.chance(35)) bits();
        if (loops && c.chance(15) && !secrets.empty()) { loop(); continue; }
      }
      for (auto &r : generic(depth)) secrets.push_back(r);
    }
    // Return some secrets, and perhaps public values.
    string rv, rt;
    auto ret = [&](const string &v, const string &t) { rv += (rv.empty() ? "" : ", ") + v; rt += (rt.empty() ? "" : ", ") + t; };
    int64_t nr = c.range(1, 3);
    for (int64_t i = 0; i < nr && i < (int64_t)secrets.size(); ++i) {
      auto &x = secrets[c.chance(70) ? secrets.size() - 1 - i : c.draw(secrets.size())];
      ret(x.n, sec(x.t));
    }
    Sec x;
    if (rv.empty() || c.chance(20)) ret(g.scalar(g.o.elem), g.o.elem);
    b.text = "func.func @f(" + args + ") -> (" + rt + ") {\n" + g.out + "  return " + rv + " : " + rt + "\n}\n";
    return b;
  }
};

void handlers(mi::Interp &in) {
  interpSecret(in);
  for (const char *n : {"secret.conceal", "secret.reveal"}) in.handlers[n] = [](mi::Interp &, Operation *, std::vector<mi::Val> v) { return v; };
  in.handlers["secret.cast"] = [](mi::Interp &, Operation *op, std::vector<mi::Val> v) {
    auto clear = [](Type t) { return cast<secret::SecretType>(t).getValueType(); };
    Type to = clear(op->getResult(0).getType());
    if (auto t = dyn_cast<RankedTensorType>(to)) {
      std::vector<mi::Val> bits;
      for (int64_t i = 0; i < t.getDimSize(0); ++i) bits.push_back(mi::Val::I(APInt(1, v[0].i[i])));
      return std::vector<mi::Val>{mi::tensorOf({t.getDimSize(0)}, bits)};
    }
    APInt x(to.getIntOrFloatBitWidth(), 0);
    auto bits = mi::elems(v[0]);
    for (size_t i = 0; i < bits.size(); ++i) if (bits[i].i[0]) x.setBit(i);
    return std::vector<mi::Val>{mi::Val::I(x)};
  };
  in.handlers["secret.separator"] = [](mi::Interp &, Operation *, std::vector<mi::Val>) { return std::vector<mi::Val>(); };
}

void sameResults(Case &c, const std::vector<string> &types, Out &o, const std::function<void(mi::Interp &)> &more = nullptr) {
  bool any = false;
  for (int k = 0; k < 3; ++k) {
    std::vector<mi::Val> in;
    for (auto &t : types) in.push_back(pg::input(c, t));
    auto a = pg::run(*o.before, in, "f", handlers);
    if (a.ub) { c.label("undefined input program"); continue; }
    any = true;
    auto b = pg::run(*o.after, in, "f", [&](mi::Interp &i) { handlers(i); if (more) more(i); });
    auto d = pg::diff(a, b);
    if (!d.empty()) c.fail(d + " (inputs " + pg::showAll(in) + ")\ntransformed program:\n" + o.textAfter);
  }
  if (!any) c.discard();
}
template <class F> void eachGeneric(ModuleOp m, F f) {
  m.walk([&](secret::GenericOp g) { f(g); });
}
// The attributes still belong to what they were given to.
void sameAttrs(Case &c, Out &o) {
  o.after->walk([&](secret::GenericOp g) {
    auto check = [&](const char *name, ValueRange vs) {
      auto all = g->getAttrOfType<ArrayAttr>(name);
      if (!all) return;
      c.check(all.size() == vs.size(), string(name) + " has another size than what it describes\n", o.textAfter);
      for (auto [a, v] : llvm::zip(all, vs)) {
        auto d = dyn_cast_or_null<DictionaryAttr>(a);
        auto t = d ? d.getAs<StringAttr>("test.t") : StringAttr();
        if (!t) continue;
        Type ty = v.getType();
        if (auto st = dyn_cast<secret::SecretType>(ty)) ty = st.getValueType();
        string is;
        llvm::raw_string_ostream(is) << ty;
        c.check(t.getValue() == is, string(name) + " of another value\n", o.textAfter);
      }
    };
    check("__argattrs", g->getOperands());
    check("__resattrs", g->getResults());
  });
}
GGen::Built program(Case &c, bool loops = true, bool between = true, int maxSeg = 4, int maxOps = 4, int depth = 1) {
  Mode m;
  m.maxOps = maxOps;
  m.depth = depth = c.chance(70) ? depth : 0;
  m.ifs = c.chance(30);
  GGen g(c, m);
  g.loops = loops;
  g.bitCasts = !loops;
  g.attrs = c.chance(40);
  g.plain = !m.ifs && depth == 0;  // only operations with one result
  return g.build(maxSeg, depth, between);
}
}  // namespace

PROP(C28, canonicalize, "a secret.generic was changed", 16000, 400000) {
  auto p = program(c);
  auto o = convert(c, p.text, [](PassManager &pm) { pm.addPass(createCanonicalizerPass()); });
  sameResults(c, p.argTypes, o);
  sameAttrs(c, o);
  string before = mi::print(*o.before);
  if (before != o.textAfter) c.nontrivial(p.text);
}
PROP(C28, distribute, "a secret.generic was split", 16000, 400000) {
  auto p = program(c, true, true, 4, 6, 0);
  secret::SecretDistributeGenericOptions op;
  std::vector<string> through;
  if (c.chance(30))
    for (const char *n : {"affine.for", "scf.for", "scf.if", "arith.addi", "arith.muli", "tensor.extract"})
      if (c.chance(35)) through.push_back(n);
  string opts;
  for (auto &t : through) opts += (opts.empty() ? "" : ",") + t;
  c.desc << "distribute-through=" << opts << "\n";
  auto o = convert(c, p.text, [&](PassManager &pm) {
    auto pass = secret::createSecretDistributeGeneric();
    if (!opts.empty()) (void)pass->initializeOptions("distribute-through=" + opts, [](const Twine &) { return failure(); });
    pm.addPass(std::move(pass));
  });
  sameResults(c, p.argTypes, o);
  sameAttrs(c, o);
  bool split = false;
  eachGeneric(*o.before, [&](secret::GenericOp g) { split |= g.getBody()->getOperations().size() > 2; });
  eachGeneric(*o.after, [&](secret::GenericOp g) {
    for (Operation &op : *g.getBody()) {
      if (isa<secret::YieldOp>(op)) continue;
      bool listed = std::find(through.begin(), through.end(), op.getName().getStringRef().str()) != through.end();
      c.check(!(listed || opts.empty()) || g.getBody()->getOperations().size() == 2, "not alone in its generic: " + op.getName().getStringRef().str() + "\n", o.textAfter);
    }
  });
  if (split && mi::print(*o.before) != o.textAfter) c.nontrivial(p.text);
}
PROP(C28, capture, "a value of the ambient scope was captured", 10000, 240000) {
  auto p = program(c);
  auto o = convert(c, p.text, [](PassManager &pm) { pm.addPass(secret::createSecretCaptureGenericAmbientScope()); });
  sameResults(c, p.argTypes, o);
  sameAttrs(c, o);
  eachGeneric(*o.after, [&](secret::GenericOp g) {
    g.getBody()->walk([&](Operation *op) {
      for (Value v : op->getOperands())
        if (!g.getRegion().isAncestor(v.getParentRegion())) c.fail("a generic still uses a value defined outside\n" + o.textAfter);
    });
  });
  if (mi::print(*o.before) != o.textAfter) c.nontrivial(p.text);
}
PROP(C28, merge, "adjacent generics were merged", 12000, 320000) {
  auto p = program(c, true, c.chance(60));
  auto o = convert(c, p.text, [](PassManager &pm) { pm.addPass(secret::createSecretMergeAdjacentGenerics()); });
  sameResults(c, p.argTypes, o);
  sameAttrs(c, o);
  eachGeneric(*o.after, [&](secret::GenericOp g) {
    c.check(!isa_and_nonnull<secret::GenericOp>(g->getNextNode()), "adjacent generics are left\n", o.textAfter);
  });
  if (count(*o.after, "secret.generic") < count(*o.before, "secret.generic")) c.nontrivial(p.text);
}
PROP(C28, absorb_constants, "a constant was copied into a generic", 10000, 240000) {
  auto p = program(c);
  auto o = convert(c, p.text, [](PassManager &pm) { pm.addPass(secret::createSecretGenericAbsorbConstants()); });
  sameResults(c, p.argTypes, o);
  sameAttrs(c, o);
  eachGeneric(*o.after, [&](secret::GenericOp g) {
    g.getBody()->walk([&](Operation *op) {
      for (Value v : op->getOperands())
        if (v.getDefiningOp<arith::ConstantOp>() && !g.getRegion().isAncestor(v.getParentRegion())) c.fail("a generic still uses a constant defined outside\n" + o.textAfter);
    });
  });
  if (mi::print(*o.before) != o.textAfter) c.nontrivial(p.text);
}
PROP(C28, extract_body, "a generic's body became a function", 10000, 240000) {
  auto p = program(c);
  // What the body captures has no place in a function: as documented, first
  // make the bodies self-contained.
  bool absorb = c.chance(50);
  auto o = convert(c, p.text, [&](PassManager &pm) {
    if (absorb) pm.addPass(secret::createSecretGenericAbsorbConstants());
    pm.addPass(secret::createSecretCaptureGenericAmbientScope());
    pm.addPass(secret::createSecretExtractGenericBody());
  });
  sameResults(c, p.argTypes, o);
  sameAttrs(c, o);
  eachGeneric(*o.after, [&](secret::GenericOp g) {
    auto &ops = g.getBody()->getOperations();
    c.check(ops.size() == 2 && isa<func::CallOp>(ops.front()), "a generic has more than a call\n", o.textAfter);
  });
  c.nontrivial(p.text);
}
PROP(C28, forget, "secrets were dropped", 12000, 320000) {
  auto p = program(c, false);
  auto o = convert(c, p.text, [](PassManager &pm) { pm.addPass(secret::createSecretForgetSecrets()); });
  c.check(o.textAfter.find("secret.") == string::npos, "secrets are left\n", o.textAfter);
  sameResults(c, p.argTypes, o);
  sameAttrs(c, o);
  c.nontrivial(p.text);
}
PROP(C28, wrap, "a function was wrapped", 10000, 240000) {
  Mode m;
  bool all = c.chance(40), then = c.chance(40);
  m.ifs = !then && c.chance(50);
  if (then) m.depth = 0;
  SecGen s(c, m);
  Prog p = s.make();
  string text = p.attrText();
  auto o = convert(c, text, [&](PassManager &pm) {
    if (all) pm.addPass(createSecretize());
    pm.addPass(createWrapGeneric());
    if (then) {
      pm.addPass(createCanonicalizerPass());
      pm.addPass(secret::createSecretDistributeGeneric());
      pm.addPass(createCanonicalizerPass());
    }
  });
  auto f = o.after->lookupSymbol<func::FuncOp>("f");
  bool any = all;
  for (bool b : p.secret) any |= b;
  for (size_t i = 0; i < p.secret.size(); ++i)
    c.eq(isa<secret::SecretType>(f.getArgumentTypes()[i]), all || p.secret[i], "secret argument " + std::to_string(i));
  for (Type t : f.getResultTypes()) c.eq(isa<secret::SecretType>(t), any, "secret result");
  sameResults(c, p.argTypes, o);
  sameAttrs(c, o);
  if (any) c.nontrivial(text);
}
