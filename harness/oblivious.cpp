// C27: the data-oblivious passes and pipeline: the program keeps its results,
// and afterwards no branch, loop bound or subscript depends on a secret.
#include <cstdio>

#include "lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.h"
#include "lib/Transforms/AnnotateSecretness/AnnotateSecretness.h"
#include "lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.h"
#include "lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.h"
#include "lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.h"
#include "lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.h"
#include "lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.h"
#include "lib/Pipelines/PipelineRegistration.h"
#include "mlir/Analysis/DataFlow/ConstantPropagationAnalysis.h"
#include "mlir/Analysis/DataFlow/DeadCodeAnalysis.h"
#include "sec_gen.h"

// Which values depend on the secrets: through operands only, or (implicit) also
// through the conditions and bounds that decide whether they are assigned.
struct Taint {
  bool implicit;
  std::set<void *> t;
  bool has(Value v) const { return t.count(v.getAsOpaquePointer()); }
  bool changed = false;
  void set(Value v, bool x) {
    if (x && t.insert(v.getAsOpaquePointer()).second) changed = true;
  }
  Taint(ModuleOp m, const Prog &p, bool implicit) : implicit(implicit) {
    auto f = m.lookupSymbol<func::FuncOp>("f");
    for (size_t i = 0; i < p.secret.size(); ++i) set(f.getArgument(i), p.secret[i]);
    do {
      changed = false;
      f.walk([&](Operation *op) { visit(op); });
    } while (changed);
  }
  void visit(Operation *op) {
    auto term = [](Region &r) { return r.front().getTerminator(); };
    if (auto g = dyn_cast<secret::GenericOp>(op)) {
      for (auto [a, b] : llvm::zip(g->getOperands(), g->getRegion(0).getArguments())) set(b, isa<secret::SecretType>(a.getType()));
      for (auto r : op->getResults()) set(r, has(term(op->getRegion(0))->getOperand(r.getResultNumber())));
    } else if (auto i = dyn_cast<scf::IfOp>(op)) {
      for (auto r : op->getResults()) {
        for (auto &reg : op->getRegions()) if (!reg.empty()) set(r, has(term(reg)->getOperand(r.getResultNumber())));
        if (implicit) set(r, has(i.getCondition()));
      }
    } else if (auto l = dyn_cast<LoopLikeOpInterface>(op); l && !isa<scf::WhileOp>(op)) {
      bool b = false;
      if (auto s = dyn_cast<scf::ForOp>(op)) b = implicit && (has(s.getLowerBound()) || has(s.getUpperBound()) || has(s.getStep()));
      for (auto [init, arg, y, r] : llvm::zip(l.getInits(), l.getRegionIterArgs(), l.getYieldedValues(), op->getResults())) {
        // A static trip count decides which of them count.
        int64_t trips = -1;
        if (auto a = dyn_cast<affine::AffineForOp>(op); a && a.hasConstantBounds())
          trips = std::max<int64_t>(0, (a.getConstantUpperBound() - a.getConstantLowerBound() + a.getStepAsInt() - 1) / a.getStepAsInt());
        set(arg, has(init) || (has(y) && trips != 1) || b);
        set(r, (has(init) && trips <= 0) || (has(y) && trips != 0) || b);
      }
    } else if (auto w = dyn_cast<scf::WhileOp>(op)) {
      auto cond = w.getConditionOp();
      bool b = implicit && has(cond.getCondition());
      for (auto [init, arg, y] : llvm::zip(w.getInits(), w.getBeforeArguments(), w.getYieldOp()->getOperands())) set(arg, has(init) || has(y) || b);
      for (auto [x, arg, r] : llvm::zip(cond.getArgs(), w.getAfterArguments(), w.getResults())) {
        set(arg, has(x) || b);
        set(r, has(x) || b);
      }
    } else if (!op->getNumRegions()) {
      bool x = false;
      for (auto o : op->getOperands()) x |= has(o);
      for (auto r : op->getResults()) set(r, x);
    }
  }
};
// Whether some condition or bound depends on a secret only through
// the control flow.
static bool implicitFlow(ModuleOp m, const Prog &p) {
  Taint e(m, p, false), i(m, p, true);
  bool r = false;
  m.walk([&](Operation *op) {
    auto see = [&](Value v) { r |= e.has(v) != i.has(v); };
    if (auto x = dyn_cast<scf::IfOp>(op)) see(x.getCondition());
    else if (auto x = dyn_cast<scf::ConditionOp>(op)) see(x.getCondition());
    else if (auto x = dyn_cast<scf::ForOp>(op)) { see(x.getLowerBound()); see(x.getUpperBound()); see(x.getStep()); }
  });
  return r;
}
static Prog program(Case &c, Mode m, std::string &text, int &made) {
  SecGen s(c, m);
  Prog p = s.make();
  made = s.made;
  text = c.chance(65) ? p.attrText() : p.genericText(c.chance(40));
  return p;
}
static bool anySecret(const Prog &p) {
  for (bool b : p.secret) if (b) return true;
  return false;
}

PROP(C27, if_to_select, "an scf.if was turned into selects", 20000, 250000) {
  Mode m;
  m.ifs = true;
  std::string text;
  int made;
  Prog p = program(c, m, text, made);
  if (!anySecret(p) && text.find("generic") != std::string::npos) c.discard();
  auto o = convert(c, text, [](PassManager &pm) { pm.addPass(createConvertIfToSelect()); });
  same(c, p, o);
  if (count(*o.after, "scf.if") < count(*o.before, "scf.if") && count(*o.after, "arith.select") > count(*o.before, "arith.select")) c.nontrivial(text);
}
PROP(C27, secret_extract, "a secret-indexed extract was made static", 16000, 200000) {
  Mode m;
  m.extract = true;
  std::string text;
  int made;
  Prog p = program(c, m, text, made);
  auto o = convert(c, text, [](PassManager &pm) { pm.addPass(createConvertSecretExtractToStaticExtract()); });
  same(c, p, o);
  if (count(*o.after, "affine.for") > count(*o.before, "affine.for")) c.nontrivial(text);
}
PROP(C27, secret_insert, "a secret-indexed insert was made static", 16000, 200000) {
  Mode m;
  m.insert = true;
  std::string text;
  int made;
  Prog p = program(c, m, text, made);
  auto o = convert(c, text, [](PassManager &pm) { pm.addPass(createConvertSecretInsertToStaticInsert()); });
  same(c, p, o);
  if (count(*o.after, "affine.for") > count(*o.before, "affine.for")) c.nontrivial(text);
}
PROP(C27, secret_for, "a loop with a generated bound was converted", 20000, 250000) {
  Mode m;
  m.loops = true;
  std::string text;
  int made;
  Prog p = program(c, m, text, made);
  bool all = c.chance(60);
  auto o = convert(c, text, [&](PassManager &pm) {
    ConvertSecretForToStaticForOptions op;
    op.convertAllScfFor = all;
    pm.addPass(createConvertSecretForToStaticFor(op));
  });
  same(c, p, o);
  if (made && count(*o.after, "affine.for") > count(*o.before, "affine.for")) c.nontrivial(text);
}
PROP(C27, secret_while, "a while loop was converted", 20000, 250000) {
  Mode m;
  m.whiles = true;
  m.odd = c.chance(40);
  std::string text;
  int made;
  Prog p = program(c, m, text, made);
  auto o = convert(c, text, [](PassManager &pm) { pm.addPass(createConvertSecretWhileToStaticFor()); });
  same(c, p, o);
  if (count(*o.after, "scf.while") < count(*o.before, "scf.while")) c.nontrivial(text);
}
PROP(C27, pipeline, "before, the control flow or addressing depended on a secret", 20000, 250000) {
  Mode m;
  m.extract = m.insert = m.loops = m.whiles = true;
  m.maxOps = 7;
  m.maxRank = 1;
  m.ifs = c.chance(50);
  std::string text;
  int made;
  Prog p = program(c, m, text, made);
  auto o = convert(c, text, [](PassManager &pm) { convertToDataObliviousPipelineBuilder(pm); });
  same(c, p, o);
  if (!o.errors.empty()) { c.label("refused with an error"); return; }
  if (implicitFlow(*o.before, p)) { c.label("implicit flow"); return; }
  if (oblivious(c, p, o)) c.nontrivial(text);
}

PROP(C27, annotate, "the program has secret and public values", 12000, 150000) {
  Mode m;
  m.extract = m.insert = m.loops = m.whiles = true;
  m.ifs = c.chance(50);
  m.empty = false;
  std::string text;
  int made;
  Prog p = program(c, m, text, made);
  if (!anySecret(p)) c.discard();
  auto o = convert(c, text, [](PassManager &pm) { pm.addPass(createAnnotateSecretness(AnnotateSecretnessOptions{true})); });
  Taint t(*o.before, p, false);
  std::vector<Operation *> a, b;
  o.before->walk([&](Operation *op) { a.push_back(op); });
  o.after->walk([&](Operation *op) { b.push_back(op); });
  c.eq(a.size(), b.size(), "number of operations");
  // What only unreachable code assigns may be public.
  bool dead = false;
  DataFlowSolver solver;
  solver.load<dataflow::DeadCodeAnalysis>();
  solver.load<dataflow::SparseConstantPropagation>();
  c.check(succeeded(solver.initializeAndRun(*o.before)), "upstream analysis");
  o.before->walk([&](Block *b) {
    auto *e = solver.lookupState<dataflow::Executable>(solver.getProgramPointBefore(b));
    if (!isa<ModuleOp>(b->getParentOp()) && !(e && e->isLive())) dead = true;
  });
  int nsec = 0, npub = 0;
  auto judge = [&](Value v, bool sec, bool pub, const std::string &where) {
    if (!sec && !pub) return;  // unreachable code, operations with regions
    if (pub && t.has(v) && dead) { c.label("unreachable code"); return; }
    if (sec != t.has(v)) c.fail(where + (sec ? " is annotated secret but depends on no secret operand" : " is annotated public but depends on a secret operand") + "\n" + o.textAfter);
    (sec ? nsec : npub)++;
  };
  for (size_t i = 0; i < a.size(); ++i) {
    Operation *x = a[i], *y = b[i];
    c.check(x->getName() == y->getName(), "the operations changed");
    if (auto f = dyn_cast<func::FuncOp>(y)) {
      auto f0 = cast<func::FuncOp>(x);
      for (unsigned k = 0; k < f.getNumArguments(); ++k)
        judge(f0.getArgument(k), bool(f.getArgAttr(k, "secret.secret")), bool(f.getArgAttr(k, "secret.public")), "argument " + std::to_string(k));
      auto ret = f0.getBody().front().getTerminator();
      for (unsigned k = 0; k < f.getNumResults(); ++k)
        judge(ret->getOperand(k), bool(f.getResultAttr(k, "secret.secret")), bool(f.getResultAttr(k, "secret.public")), "result " + std::to_string(k));
      continue;
    }
    bool term = x->hasTrait<OpTrait::IsTerminator>();
    unsigned n = term ? x->getNumOperands() : x->getNumResults();
    auto val = [&](unsigned k) { return term ? x->getOperand(k) : Value(x->getResult(k)); };
    std::string w = x->getName().getStringRef().str();
    if (n == 1) judge(val(0), y->hasAttr("secret.secret"), y->hasAttr("secret.public"), w);
    if (n > 1) {
      auto arr = y->getAttrOfType<ArrayAttr>("secretness");
      c.check(bool(arr) && arr.size() == n, w, " has no secretness for every value\n", o.textAfter);
      for (unsigned k = 0; k < n; ++k) {
        auto d = cast<DictionaryAttr>(arr[k]);
        judge(val(k), d.contains("secret.secret"), d.contains("secret.public"), w + " value " + std::to_string(k));
      }
    }
  }
  if (nsec && npub) c.nontrivial(text);
}

// Known finding: see known_findings.json.
PROP(C27, kf_implicit_bound, "always", 6, 6) {
  bool lower = c.chance(50);
  Prog p;
  p.argTypes = {"tensor<3xi32>", "i1", "i32"};
  p.secret = {true, true, true};
  p.resTypes = {"i32"};
  p.body = R"(
  %c0 = arith.constant 0 : index
  %c1 = arith.constant 1 : index
  %c3 = arith.constant 3 : index
  %n = scf.if %arg1 -> (index) {
    scf.yield %c1 : index
  } else {
    scf.yield %c3 : index
  }
  %r = scf.for %j = )" + std::string(lower ? "%n to %c3" : "%c0 to %n") + R"( step %c1 iter_args(%acc = %arg2) -> (i32) {
    %v = arith.addi %acc, %acc : i32
    scf.yield %v : i32
  } {lower = 0 : i64, upper = 3 : i64}
)";
  p.ret = "%r : i32";
  auto o = convert(c, c.chance(50) ? p.attrText() : p.genericText(false), [](PassManager &pm) { convertToDataObliviousPipelineBuilder(pm); });
  same(c, p, o);
  oblivious(c, p, o);
  c.nontrivial(o.textAfter);
}
