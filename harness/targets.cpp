// C25 module annotations and the configuration of a compilation target: a
// sequence of annotations against a model of the module's attributes.
#include <set>

#include "lib/Dialect/ModuleAttributes.h"
#include "lib/Target/CompilationTarget/CompilationTarget.h"
#include "lib/Target/CompilationTarget/RegisterAllBackends.h"
#include "lib/Transforms/AnnotateModule/AnnotateModule.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/Pass/PassManager.h"
#include "mlir_interp.h"
#include "pbt.h"

using namespace mlir;
using namespace mlir::heir;
using pbt::Case;

static const std::vector<std::string> kSchemes = {"bgv", "bfv", "ckks", "cggi"};
static const std::vector<std::string> kBackends = {"lattigo", "openfhe"};
static const std::vector<std::string> kKeys = {"bootstrapLevelsConsumed", "has_kernel_chebyshev", "has_kernel_linear_transform"};
// What HEIR knows about its backends.
static const std::map<std::string, std::vector<int64_t>> kFacts = {{"lattigo", {16, 1, 0}}, {"openfhe", {22, 1, 0}}};

static std::string render(Operation *m) {
  std::string s;
  llvm::raw_string_ostream(s) << m->getAttrDictionary();
  return s;
}

namespace {
struct State {
  MLIRContext ctx{MLIRContext::Threading::DISABLED};
  OwningOpRef<ModuleOp> m;
  std::string diag;
  ScopedDiagnosticHandler handler{&ctx, [this](Diagnostic &d) {
                                    diag += d.str() + "\n";
                                    return success();
                                  }};
  std::set<std::string> scheme, backend;      // unit attributes
  std::map<std::string, int64_t> over;        // recognised overrides
  bool hasOver = false, badOver = false;
  State() {
    ctx.allowUnregisteredDialects();
    m = ModuleOp::create(UnknownLoc::get(&ctx));
    static bool once = (registerAllBackends(), true);
    (void)once;
  }
};

std::vector<int64_t> config(State &s) {
  auto f = kFacts.at(*s.backend.begin());
  for (auto &[k, v] : s.over)
    for (size_t i = 0; i < kKeys.size(); ++i)
      if (kKeys[i] == k) f[i] = v;
  return f;
}

void compare(Case &c, State &s) {
  Operation *m = *s.m;
  for (auto &n : kSchemes) c.eq(m->hasAttr("scheme." + n), s.scheme.count(n) > 0, "scheme." + n + " is set; " + render(m));
  for (auto &n : kBackends) c.eq(m->hasAttr("backend." + n), s.backend.count(n) > 0, "backend." + n + " is set; " + render(m));
  c.eq(moduleIsBGV(m), s.scheme.count("bgv") > 0, "moduleIsBGV");
  c.eq(moduleIsBFV(m), s.scheme.count("bfv") > 0, "moduleIsBFV");
  c.eq(moduleIsBGVOrBFV(m), s.scheme.count("bgv") + s.scheme.count("bfv") > 0, "moduleIsBGVOrBFV");
  c.eq(moduleIsCKKS(m), s.scheme.count("ckks") > 0, "moduleIsCKKS");
  c.eq(moduleIsCGGI(m), s.scheme.count("cggi") > 0, "moduleIsCGGI");
  c.eq(moduleIsOpenfhe(m), s.backend.count("openfhe") > 0, "moduleIsOpenfhe");
  c.eq(moduleIsLattigo(m), s.backend.count("lattigo") > 0, "moduleIsLattigo");
  c.check(m->hasAttr("other.attr") && m->getAttrOfType<IntegerAttr>("scheme.requested_slot_count"), "an unrelated attribute is gone: " + render(m));
  auto dict = m->getAttrOfType<DictionaryAttr>("backend.config_override");
  c.eq(bool(dict), s.hasOver, "there are overrides; " + render(m));
  if (dict && !s.badOver) {
    c.eq(dict.size(), s.over.size(), "the number of overrides; " + render(m));
    for (auto &[k, v] : s.over) {
      auto a = dict.getAs<IntegerAttr>(k);
      c.check(a && a.getInt() == v, "the override of " + k + " is not ", v, ": " + render(m));
    }
  }
  s.diag.clear();
  auto got = getTargetConfig(*s.m);
  if (s.backend.size() > 1) return;
  bool ok = s.backend.size() == 1 && !s.badOver;
  c.eq(succeeded(got), ok, "there is a target configuration for " + render(m) + " " + s.diag);
  if (!ok) {
    c.check(!s.diag.empty(), "no diagnostic for " + render(m));
    return;
  }
  auto w = config(s);
  c.eq(toString(got->backendName).str(), *s.backend.begin(), "the backend of the configuration");
  c.eq(got->bootstrapLevelsConsumed, w[0], "bootstrapLevelsConsumed of " + render(m));
  c.eq(got->has_kernel_chebyshev, w[1], "has_kernel_chebyshev of " + render(m));
  c.eq(got->has_kernel_linear_transform, w[2], "has_kernel_linear_transform of " + render(m));
}

LogicalResult runPass(State &s, std::unique_ptr<Pass> p) {
  s.diag.clear();
  PassManager pm(&s.ctx);
  pm.addPass(std::move(p));
  return pm.run(*s.m);
}

// One "key=value" and what it stands for; false when it is to be refused.
bool item(Case &c, State &s, std::string &text, std::string &key, int64_t &value) {
  auto pad = [&] { return std::string(c.weighted({6, 1, 1}), ' '); };
  bool good = true;
  std::string val;
  key = kKeys[c.draw(kKeys.size())];
  value = c.weighted({3, 1}) ? int64_t(c.bits(63)) * (c.chance(50) ? -1 : 1) : c.range(0, 40);
  val = std::to_string(value);
  if (c.chance(8)) val = (value < 0 ? "-00" : "00") + (value < 0 ? val.substr(1) : val);
  text = pad() + key + pad() + "=" + pad() + val + pad();
  if (c.chance(7)) {
    good = false;
    switch (c.draw(6)) {
      case 0: text = key; break;
      case 1: text = key + "=" + c.pickOf<const char *>({"", "abc", "1.5", "0x10", "3 4", "12a", "--3", "99999999999999999999"}); break;
      case 2: text = std::string(c.pickOf<const char *>({"bootstrap_levels_consumed", "backendName", "", "HAS_KERNEL_CHEBYSHEV", "has_kernel"})) + "=" + val; break;
      case 3: text = key + "=" + val + "=" + val; break;
      case 4: text = key + ":" + val; break;
      default: text = "";
    }
  }
  return good;
}
}  // namespace

PROP(C25, annotations, "at least two overrides and a change of backend or scheme", 30000, 600000) {
  State s;
  Operation *m = *s.m;
  Builder b(&s.ctx);
  m->setAttr("other.attr", b.getStringAttr("kept"));
  m->setAttr("scheme.requested_slot_count", b.getI64IntegerAttr(1024));
  if (c.chance(20)) {
    auto n = c.pick(kSchemes);
    m->setAttr("scheme." + n, b.getUnitAttr());
    s.scheme.insert(n);
    auto k = c.pick(kSchemes);
    if (c.chance(30)) m->setAttr("scheme." + k, b.getUnitAttr()), s.scheme.insert(k);
  }
  if (c.chance(30)) {
    auto n = c.pick(kBackends);
    m->setAttr("backend." + n, b.getUnitAttr());
    s.backend.insert(n);
    if (c.chance(20)) for (auto &k : kBackends) m->setAttr("backend." + k, b.getUnitAttr()), s.backend.insert(k);
  }
  c.desc << render(m) << "\n";
  compare(c, s);
  int changes = 0, overrides = 0;
  for (int n = c.range(1, 8); n > 0; --n) {
    switch (c.weighted({5, 6, 2, 1, 1, 1})) {
      case 0: {
        AnnotateModuleOptions o;
        int bad = c.weighted({20, 1, 1});
        if (c.chance(60)) o.scheme = c.pick(kSchemes);
        if (c.chance(60)) o.backend = c.pick(kBackends);
        if (bad == 1) o.backend = c.pickOf<const char *>({"none", "OpenFHE", "None", "open", "jaxite", "openfhe "});
        c.desc << "annotate-module scheme=" << o.scheme << " backend=" << o.backend << "\n";
        bool ok = succeeded(runPass(s, createAnnotateModule(o)));
        c.eq(ok, bad != 1, "the pass succeeds; " + s.diag);
        c.check(ok || !s.diag.empty(), "no diagnostic");
        if (!o.scheme.empty()) s.scheme = {o.scheme};
        if (!o.backend.empty() && ok) s.backend = {o.backend}, ++changes;
        if (!ok) goto end;
        break;
      }
      case 1: {
        if (s.backend.size() > 1) break;
        ApplyConfigOverrideOptions o;
        bool ok = true;
        std::vector<std::string> items;
        for (int k = c.range(0, 4); k > 0; --k) {
          std::string t, key;
          int64_t v;
          bool good = item(c, s, t, key, v);
          items.push_back(t);
          c.desc << "config '" << t << "'\n";
          if (ok && good && s.backend.size() == 1 && !s.badOver) {
            s.over[key] = v, s.hasOver = true, ++overrides;
          } else {
            ok = false;
          }
        }
        o.config.assign(items.begin(), items.end());
        bool got = succeeded(runPass(s, createApplyConfigOverride(o)));
        c.eq(got, ok, "apply-config-override succeeds; " + s.diag);
        c.check(got || !s.diag.empty(), "no diagnostic");
        if (!ok) goto end;
        break;
      }
      case 2: {
        int k = c.draw(6);
        c.desc << "setter " << k << "\n";
        if (k == 0) moduleSetBGV(m), s.scheme = {"bgv"};
        if (k == 1) moduleSetBFV(m), s.scheme = {"bfv"};
        if (k == 2) moduleSetCKKS(m), s.scheme = {"ckks"};
        if (k == 3) moduleSetCGGI(m), s.scheme = {"cggi"};
        if (k == 4) moduleSetOpenfhe(m), s.backend = {"openfhe"};
        if (k == 5) moduleSetLattigo(m), s.backend = {"lattigo"};
        ++changes;
        break;
      }
      case 3: {
        bool k = c.chance(50);
        c.desc << "clear " << (k ? "scheme\n" : "backend\n");
        if (k) moduleClearScheme(m), s.scheme.clear();
        else moduleClearBackend(m), s.backend.clear();
        break;
      }
      case 4: {
        if (s.badOver) break;
        auto key = c.pick(kKeys);
        int64_t v = c.range(-5, 50);
        c.desc << "persist " << key << " " << v << "\n";
        persistCompilationTargetOverride(*s.m, key, b.getI64IntegerAttr(v));
        s.over[key] = v, s.hasOver = true, ++overrides;
        break;
      }
      default: {
        // validation changes nothing
        if (s.backend.size() > 1) break;
        std::string t, key;
        int64_t v;
        int k = c.draw(3);
        key = k == 1 ? "unknown_key" : c.pick(kKeys);
        v = c.range(-5, 50);
        Attribute a = k == 2 ? Attribute(b.getStringAttr("7")) : b.getI64IntegerAttr(v);
        c.desc << "validate " << key << "\n";
        bool ok = succeeded(validateCompilationTargetOverride(*s.m, key, a));
        c.eq(ok, k == 0 && s.backend.size() == 1 && !s.badOver, "the override " + key + " is valid");
        if (c.chance(25) && !ok && k) {
          persistCompilationTargetOverride(*s.m, key, a);
          c.desc << "persist it\n";
          s.hasOver = s.badOver = true;
        }
      }
    }
    compare(c, s);
  }
end:
  compare(c, s);
  if (overrides >= 2 && changes) c.nontrivial();
}

PROP(C25, unknown_backends, "always", 1000, 10000) {
  State s;
  Operation *m = *s.m;
  Builder b(&s.ctx);
  std::string n = c.pickOf<const char *>({"foo", "Openfhe", "openfhe2", "lattig", "none", "None", ""});
  std::string full = (c.chance(80) ? "backend." : "backend") + n;
  bool unit = c.chance(70);
  m->setAttr(full, unit ? Attribute(b.getUnitAttr()) : b.getBoolAttr(true));
  if (c.chance(50)) m->setAttr("a.b", b.getUnitAttr());
  if (c.chance(50)) m->setAttr("scheme.ckks", b.getUnitAttr());
  c.desc << render(m);
  c.check(failed(getTargetConfig(*s.m)), "a target configuration is found");
  c.check(!s.diag.empty(), "there is no diagnostic");
  c.check(failed(validateCompilationTargetOverride(*s.m, kKeys[0], b.getI64IntegerAttr(1))), "an override is valid");
  c.nontrivial(full + (unit ? "u" : "b"));
}

PROP(C25, client_helpers, "it is a helper", 500, 5000) {
  State s;
  Builder b(&s.ctx);
  std::vector<std::string> helper = {"client.enc_func", "client.dec_func", "client.pack_func", "client.enc_zero_func", "client.preprocessed_func"};
  std::vector<std::string> other = {"client.enc", "enc_func", "client.func", "debug.x", "client.enc_func2"};
  auto op = OperationState(UnknownLoc::get(&s.ctx), "func.func");
  bool want = false;
  for (auto &h : helper)
    if (c.chance(15)) op.addAttribute(h, b.getUnitAttr()), want = true, c.desc << h << " ";
  for (auto &h : other)
    if (c.chance(30)) op.addAttribute(h, b.getUnitAttr()), c.desc << h << " ";
  Operation *o = Operation::create(op);
  bool got = isClientHelper(o);
  o->destroy();
  c.eq(got, want, "it is a client helper");
  if (want) c.nontrivial(c.desc.str());
}
