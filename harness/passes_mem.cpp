// C13 memory-forwarding passes, C14 loop unrolling and call removal: a program
// and what the pass makes of it behave alike on every input.
#include "lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.h"
#include "lib/Transforms/ForwardInsertSliceToExtractSlice/ForwardInsertSliceToExtractSlice.h"
#include "lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.h"
#include "lib/Transforms/FullLoopUnroll/FullLoopUnroll.h"
#include "lib/Transforms/RemoveUnusedPureCall/RemoveUnusedPureCall.h"
#include "lib/Transforms/UnusedMemRef/UnusedMemRef.h"
#include "prog_gen.h"

using namespace mlir;
using namespace mlir::heir;
using pbt::Case;
using pg::Gen;
using pg::Opts;

using PassFn = std::function<std::unique_ptr<Pass>()>;
static LogicalResult runPass(ModuleOp m, const PassFn &mk, bool onFunc = false) {
  PassManager pm(m.getContext());
  pm.enableVerifier(true);
  if (onFunc) pm.addNestedPass<func::FuncOp>(mk());
  else pm.addPass(mk());
  return pm.run(m);
}
static int64_t count(ModuleOp m, StringRef name) {
  int64_t n = 0;
  m.walk([&](Operation *op) { n += op->getName().getStringRef() == name; });
  return n;
}
struct Checked {
  OwningOpRef<ModuleOp> before, after;
  std::string textAfter;
};
// Parses, transforms, compares on generated inputs.
static Checked checkPass(Case &c, Gen &g, const std::string &text, const PassFn &mk, bool onFunc = false) {
  c.desc << text;
  Checked r;
  r.before = mi::parse(text);
  r.after = mi::parse(text);
  c.check(bool(r.before), "generator produced a program that does not parse");
  if (failed(runPass(*r.after, mk, onFunc))) c.fail("the pass failed or produced invalid IR:\n" + mi::print(*r.after));
  r.textAfter = mi::print(*r.after);
  bool any = false;
  for (int k = 0; k < 3; ++k) {
    std::vector<mi::Val> in;
    for (auto &t : g.argTypes) in.push_back(pg::input(c, t));
    auto a = pg::run(*r.before, in);
    if (a.ub) { c.label("undefined input program"); continue; }
    any = true;
    auto b = pg::run(*r.after, in);
    auto d = pg::diff(a, b);
    if (!d.empty()) c.fail(d + " (inputs " + pg::showAll(in) + ")\ntransformed program:\n" + r.textAfter);
  }
  if (!any) c.discard();
  return r;
}

PROP(C13, store_to_load, "a load or store was removed from a program with at least two stores", 60000, 600000) {
  Opts o;
  o.maxOps = 18;
  o.maxDepth = c.chance(40) ? 1 : c.chance(20) ? 2 : 0;
  o.elem = c.pickOf<const char *>({"i32", "i8", "f32"});
  o.maxDim = 3;
  Gen g(c, o);
  auto text = g.module();
  auto r = checkPass(c, g, text, [] { return createForwardStoreToLoad(); });
  auto mem = [&](ModuleOp m) { return count(m, "memref.load") + count(m, "memref.store") + count(m, "affine.load") + count(m, "affine.store"); };
  c.check(count(*r.after, "affine.load") + count(*r.after, "affine.store") == 0, "an affine access was left behind\n", r.textAfter);
  if (mem(*r.after) < mem(*r.before) && count(*r.before, "memref.store") + count(*r.before, "affine.store") >= 2) c.nontrivial(text);
}

// A load that directly follows the store to the same place always takes the
// stored value, whatever else the program does before and after.
PROP(C13, store_to_load_direct, "always", 9000, 100000) {
  Opts o;
  o.maxOps = 12;
  o.maxDepth = 0;
  o.maxDim = 3;
  o.copies = o.calls = o.affine = false;
  Gen g(c, o);
  bool done = false;
  g.extra.push_back([&](int) {
    if (done || g.mems.empty()) return;
    done = true;
    auto m = g.mems[c.draw(g.mems.size())];
    std::string v = g.scalar("i32"), s = g.subscript(m.s, false);
    g.line("memref.store " + v + ", " + m.n + "[" + s + "] : " + g.memT(m.s));
    int64_t k = c.range(0, 3);
    for (int64_t i = 0; i < k; ++i) g.arithOp();
    std::string n = g.fresh("direct");
    g.line(n + " = memref.load " + m.n + "[" + s + "] {direct} : " + g.memT(m.s));
    g.vars.push_back({n, "i32"});
  });
  auto text = g.module();
  if (!done) c.discard();
  auto r = checkPass(c, g, text, [] { return createForwardStoreToLoad(); });
  r.after->walk([&](memref::LoadOp l) {
    if (l->hasAttr("direct")) c.fail("the load was not replaced by the value just stored\n" + r.textAfter);
  });
  c.nontrivial(text);
}

PROP(C13, insert_to_extract, "an extract was replaced in a program with an insert", 45000, 500000) {
  Opts o;
  o.mem = false;
  o.tensor = true;
  o.maxOps = 18;
  o.maxDepth = c.chance(30) ? 1 : 0;
  o.elem = c.pickOf<const char *>({"i32", "i8", "f32"});
  o.maxDim = 3;
  Gen g(c, o);
  auto text = g.module();
  auto r = checkPass(c, g, text, [] { return createForwardInsertToExtract(); });
  if (count(*r.after, "tensor.extract") < count(*r.before, "tensor.extract") && count(*r.before, "tensor.insert") > 0) c.nontrivial(text);
}

// An extract of the element inserted last, or of an element of a tensor built
// from known elements through constant indices, never remains.
PROP(C13, insert_to_extract_direct, "always", 9000, 100000) {
  Opts o;
  o.mem = false;
  o.tensor = true;
  o.maxOps = 10;
  o.maxDepth = 0;
  o.maxDim = 3;
  Gen g(c, o);
  bool done = false;
  g.extra.push_back([&](int) {
    if (done || g.tens.empty()) return;
    done = true;
    auto t = g.tens[c.draw(g.tens.size())];
    std::string v = g.scalar("i32"), s = g.indices(t.s), n = g.fresh("t");
    g.line(n + " = tensor.insert " + v + " into " + t.n + "[" + s + "] : " + g.tenT(t.s));
    // Inserts at provably different constant positions in between.
    std::string e = g.fresh("direct");
    g.tens.push_back({n, t.s});
    g.line(e + " = tensor.extract " + n + "[" + s + "] {direct} : " + g.tenT(t.s));
    g.vars.push_back({e, "i32"});
  });
  auto text = g.module();
  if (!done) c.discard();
  auto r = checkPass(c, g, text, [] { return createForwardInsertToExtract(); });
  r.after->walk([&](tensor::ExtractOp l) {
    if (l->hasAttr("direct")) c.fail("the extract was not replaced by the value just inserted\n" + r.textAfter);
  });
  c.nontrivial(text);
}

PROP(C13, insert_slice_to_extract_slice, "a slice was forwarded", 25000, 250000) {
  Opts o;
  o.mem = false;
  o.tensor = o.slices = true;
  o.maxOps = 14;
  o.maxDepth = 0;
  o.dynIdx = c.chance(30);
  o.maxDim = 4;
  Gen g(c, o);
  g.extraWeight = 6;
  g.extra.push_back([&](int) { g.sliceOp(); });
  auto text = g.module();
  auto r = checkPass(c, g, text, [] { return createForwardInsertSliceToExtractSlice(); });
  if (count(*r.after, "tensor.extract_slice") < count(*r.before, "tensor.extract_slice")) c.nontrivial(text);
}

PROP(C13, unused_memref, "an allocation was removed", 30000, 300000) {
  Opts o;
  o.maxOps = 16;
  o.maxDepth = c.chance(40) ? 1 : 0;
  o.maxDim = 3;
  Gen g(c, o);
  g.extraWeight = 5;
  g.extra.push_back([&](int) { g.alloc(); g.storeOp(); });
  // An array kept inside another array.
  std::string holder;
  g.extra.push_back([&](int) {
    if (g.mems.empty() || g.c.chance(70)) return;
    auto m = g.mems[g.c.draw(g.mems.size())];
    std::string h = g.fresh("h"), k = g.cst(0), l = g.fresh("m");
    g.line(h + " = memref.alloc() : memref<1x" + g.memT(m.s) + ">");
    g.line("memref.store " + m.n + ", " + h + "[" + k + "] : memref<1x" + g.memT(m.s) + ">");
    g.line(l + " = memref.load " + h + "[" + k + "] : memref<1x" + g.memT(m.s) + ">");
    pg::Arr a = m;
    a.n = l;
    a.local = false;
    g.mems.push_back(a);
  });
  auto text = g.module();
  auto r = checkPass(c, g, text, [] { return createRemoveUnusedMemRef(); }, true);
  r.after->walk([&](memref::AllocOp a) {
    for (Operation *u : a->getUsers())
      if (!(isa<memref::StoreOp>(u) && cast<memref::StoreOp>(u).getMemRef() == a.getResult()) &&
          !(isa<affine::AffineStoreOp>(u) && cast<affine::AffineStoreOp>(u).getMemRef() == a.getResult()) && !isa<memref::DeallocOp>(u))
        return;
    c.fail("an array that is never read was kept\n" + r.textAfter);
  });
  if (count(*r.after, "memref.alloc") < count(*r.before, "memref.alloc")) c.nontrivial(text);
}

PROP(C14, full_unroll, "a loop that runs at least twice was unrolled", 30000, 300000) {
  Opts o;
  o.maxOps = 12;
  o.maxDepth = c.range(1, 3);
  o.maxDim = 4;
  o.calls = c.chance(30);
  o.bigTrips = o.negLoops = true;
  o.computedYields = true;  // see kf_unroll_swap
  Gen g(c, o);
  auto text = g.module();
  auto r = checkPass(c, g, text, [] { return createFullLoopUnroll(); });
  int64_t loops = 0;
  bool twice = false;
  r.before->walk([&](affine::AffineForOp f) {
    int64_t t = f.getConstantUpperBound() - f.getConstantLowerBound();
    twice |= t > f.getStepAsInt();
  });
  r.after->walk([&](affine::AffineForOp f) {
    // A loop that never runs may stay.
    if (f.getConstantUpperBound() > f.getConstantLowerBound()) ++loops;
  });
  c.eq(loops, int64_t(0), "loops that run and were left rolled\n", r.textAfter);
  if (twice) c.nontrivial(text);
}

// Known finding: loopUnrollFull of MLIR 20 does not remap a yielded loop
// argument, so values handed from one carried variable to another are lost.
PROP(C14, kf_unroll_swap, "one fixed input", 1, 1) {
  const char *text = R"(func.func @f(%a: i32, %b: i32) -> i32 {
  %r:2 = affine.for %i = 0 to 3 iter_args(%x = %a, %y = %b) -> (i32, i32) {
    %s = arith.addi %x, %y : i32
    affine.yield %s, %x : i32, i32
  }
  return %r#1 : i32
}
)";
  c.desc << text;
  auto m = mi::parse(text);
  if (failed(runPass(*m, [] { return createFullLoopUnroll(); }))) c.fail("the pass failed");
  auto r = pg::run(*m, {mi::Val::I(1, 32), mi::Val::I(2, 32)});
  auto w = pg::run(*mi::parse(text), {mi::Val::I(1, 32), mi::Val::I(2, 32)});
  auto d = pg::diff(w, r);
  if (!d.empty()) c.fail(d + "\n" + mi::print(*m));
}

// Calls to client helpers whose results nobody uses disappear; everything else
// stays, and the program behaves the same.
PROP(C14, unused_pure_call, "a call was removed and another kept", 20000, 200000) {
  Opts o;
  o.mem = c.chance(40);
  o.calls = false;
  o.maxOps = 10;
  o.maxDepth = c.chance(40) ? 1 : 0;
  Gen g(c, o);
  static const std::vector<std::string> attrs = {"client.enc_func", "client.dec_func", "client.pack_func", "client.preprocessed_func", "client.enc_zero_func"};
  int nf = (int)c.range(1, 4);
  std::vector<bool> pure;
  std::vector<int> nres;
  std::string decls;
  for (int i = 0; i < nf; ++i) {
    pure.push_back(c.chance(60));
    nres.push_back((int)c.weighted({1, 5, 3, 1}));
    std::string a = pure[i] ? " attributes {" + c.pick(attrs) + " = {func_name = \"f\", index = 0 : i64}}" : c.chance(30) ? " attributes {client.something_else}" : "";
    std::string ty, vals, body;
    for (int k = 0; k < nres[i]; ++k) {
      std::string n = std::to_string(k);
      ty += (k ? ", i32" : "i32");
      vals += (k ? ", %r" : " %r") + n;
      body += "  %k" + n + " = arith.constant " + std::to_string(i * 5 + k + 3) + " : i32\n  %r" + n + " = arith.muli %x, %k" + n + " : i32\n";
    }
    decls += "func.func private @h" + std::to_string(i) + "(%x: i32) -> (" + ty + ")" + a + " {\n" + body + "  return" + vals + (nres[i] ? " : " + ty : "") + "\n}\n";
  }
  int calls = 0;
  g.extraWeight = 8;
  g.extra.push_back([&](int) {
    int f = (int)c.draw(nf);
    std::string a = g.scalar("i32"), n = g.fresh("h"), ty;
    for (int k = 0; k < nres[f]; ++k) ty += (k ? ", i32" : "i32");
    g.line((nres[f] ? n + ":" + std::to_string(nres[f]) + " = " : "") + "func.call @h" + std::to_string(f) + "(" + a + ") {site = " + std::to_string(calls++) +
           "} : (i32) -> (" + ty + ")");
    for (int k = 0; k < nres[f]; ++k)
      if (c.chance(40)) g.vars.push_back({n + "#" + std::to_string(k), "i32"});
  });
  auto text = decls + g.module();
  OwningOpRef<ModuleOp> probe = mi::parse(text);
  c.check(bool(probe), "generator\n", text);
  std::map<int64_t, int> want;  // site -> 0 must go, 1 must stay
  bool stay = false, go = false;
  probe->walk([&](func::CallOp call) {
    int f = call.getCallee().back() - '0';
    bool unused = call->use_empty();
    int64_t s = call->getAttrOfType<IntegerAttr>("site").getInt();
    want[s] = !(unused && pure[f]);
    stay |= want[s];
    go |= !want[s];
  });
  auto r = checkPass(c, g, text, [] { return createRemoveUnusedPureCall(); });
  std::map<int64_t, int> seen;
  r.after->walk([&](func::CallOp call) { seen[call->getAttrOfType<IntegerAttr>("site").getInt()] = 1; });
  for (auto &[s, w] : want)
    c.eq(seen.count(s) != 0, w != 0, "call site ", s, w ? " has to stay" : " has to go", "\n", r.textAfter);
  // The functions themselves are not touched.
  for (int i = 0; i < nf; ++i) c.check(bool(r.after->lookupSymbol("h" + std::to_string(i))), "helper function h", i, " disappeared");
  if (stay && go) c.nontrivial(text);
}
