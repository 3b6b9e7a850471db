"""C25: the code heir-tblgen generates for compilation targets means what the tablegen records say."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbtlib
from pbtlib import prop, REPO

LLVM = "/usr/lib/llvm-20"
TBLGEN = os.path.join(pbtlib.VERIF, ".build", "heir-tblgen")
CLANG = LLVM + "/bin/clang++"
FLAGS = ["-std=c++20", "-O0", "-w", "-g0"]
FIXED = ["bootstrapLevelsConsumed", "has_kernel_chebyshev", "has_kernel_linear_transform"]
PRELUDE = '''
#include <cstdio>
#include <string>
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/Support/LLVM.h"
'''
_pch = {}


def includes(d):
    return ["-I" + d, "-I" + REPO, "-isystem", os.path.join(pbtlib.VERIF, "compat", "shim"), "-isystem", LLVM + "/include"]


def pch():
    """One precompiled prelude for each run of this script."""
    return os.environ["VERIF_TARGETS_PCH"]


def i64(c):
    k = c.weighted([4, 3, 1])
    if k == 0:
        return c.range(0, 40)
    if k == 1:
        return c.sint(30)
    return c.pick([2**63 - 1, -2**63 + 1, 2**31, -2**31 - 1, 10**12])


def text_value(c):
    return "".join(c.pick("abz09 _-.=,;:{}/") for _ in range(c.range(0, 6)))


class Td:
    def __init__(self, c):
        self.fields = [(f, "int", i64(c) if c.chance(50) else 0) for f in FIXED]
        for k in range(c.weighted([4, 3, 2, 1])):
            t = c.pick(["int", "string"])
            self.fields.append((c.pick([f"extra{k}", f"levels_{k}", f"key{k}Size", f"has_{k}", f"k{k}"]), t, i64(c) if t == "int" else text_value(c)))
        names = c.shuffle(["Lattigo", "OpenFHE", "A", "TestTarget", "Zed_2", "Jaxite", "poulpy", "T9"])[:c.sized(1, 7)]
        keys = c.shuffle(["lattigo", "openfhe", "a", "test_target", "zed-2", "jax.ite", "T", "open", "openfhe2", "None", "lattigo_"])
        self.targets = []
        for i, n in enumerate(names):
            v = {f: d for f, _, d in self.fields}
            set_ = {}
            for f in FIXED:
                if c.chance(60):
                    set_[f] = v[f] = i64(c)
            self.targets.append((n, keys[i], v, set_))
        self.registered = [t for t in self.targets if c.chance(85)]
        self.rename = c.chance(20)

    def lit(self, v):
        return str(v) if isinstance(v, int) else '"' + v + '"'

    def text(self, c):
        arg = "n" if self.rename else "name"
        out = [f"class CompilationTarget<string {arg}> {{", f"  string backendName = {arg};"]
        out += [f"  {t} {f} = {self.lit(d)};" for f, t, d in self.fields] + ["}", "class Other { int x = 3; }", "def NotATarget : Other;"]
        sub = c.chance(25)
        if sub:
            out.append("class Sub<string s> : CompilationTarget<s>;")
        for n, k, _, s in self.targets:
            out.append(f'def {n} : {"Sub" if sub and c.chance(50) else "CompilationTarget"}<"{k}"> {{')
            out += [f"  let {f} = {self.lit(v)};" for f, v in s.items()] + ["}"]
        return "\n".join(out) + "\n"


def cstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def cint(v):
    return f"int64_t({v}LL)"


def generate(c, d, td):
    os.makedirs(os.path.join(d, "lib/Target/CompilationTarget"))
    with open(os.path.join(d, "t.td"), "w") as f:
        f.write(td.text(c))
    c.desc(open(os.path.join(d, "t.td")).read())
    for a, to in [("struct", "lib/Target/CompilationTarget/CompilationTargetStruct.h.inc"), ("overrides", "lib/Target/CompilationTarget/CompilationTargetOverrides.cpp.inc"), ("registration", "reg.inc")]:
        r = subprocess.run([TBLGEN, "-gen-compilation-target-" + a, "t.td"], cwd=d, capture_output=True, text=True)
        c.check(r.returncode == 0, f"heir-tblgen -gen-compilation-target-{a} fails: {r.stderr}")
        with open(os.path.join(d, to), "w") as f:
            f.write(r.stdout)


@prop("tablegen", "at least two targets and an override", 56, 1600, hang=200)
def tablegen(c):
    d = tempfile.mkdtemp(prefix="verif-targets-")
    try:
        case(c, d)
    finally:
        shutil.rmtree(d)


def case(c, d):
    td = Td(c)
    generate(c, d, td)
    src = ['#include "lib/Target/CompilationTarget/CompilationTarget.cpp"', "namespace mlir { namespace heir {", '#include "reg.inc"', "} }", "using namespace mlir; using namespace mlir::heir;",
           "static std::string diags;", "static void show(const CompilationTarget &t) {", '  std::printf("%s", toString(t.backendName).str().c_str());']
    for f, t, _ in td.fields:
        src.append(f'  static_assert(std::is_same_v<decltype(CompilationTarget::{f}), {"int64_t" if t == "int" else "std::string"}>);')
        src.append(f'  std::printf("|%lld", (long long)t.{f});' if t == "int" else f'  std::printf("|%s", t.{f}.c_str());')
    src += ['  std::printf("\\n");', "}", "int main() {", "  MLIRContext ctx; OpBuilder b(&ctx); ctx.allowUnregisteredDialects();",
            "  ScopedDiagnosticHandler h(&ctx, [&](Diagnostic &d) { diags += d.str(); return success(); });",
            "  auto report = [&](bool ok) { std::printf(ok ? \"ok\\n\" : diags.empty() ? \"SILENT\\n\" : \"refused\\n\"); diags.clear(); };"]
    want = []
    line = lambda name, v: "|".join([name] + [str(v[f]) for f, _, _ in td.fields])
    # the struct by itself
    src.append("  show(CompilationTarget{});")
    want.append(line("none", {f: x for f, _, x in td.fields}))
    src += [f"  registerTarget{n}();" for n, *_ in td.registered]
    reg = {n for n, *_ in td.registered}
    for n, k, v, _ in td.targets:
        src.append(f'  std::printf("%d %s\\n", parseBackendName({cstr(k)}) == BackendName::{n}, toString(BackendName::{n}).str().c_str());')
        want.append(f"1 {k}")
        src.append(f'  if (auto *t = CompilationTargetRegistry::get(BackendName::{n})) show(*t); else std::puts("missing");')
        want.append(line(k, v) if n in reg else "missing")
    for bad in c.shuffle(["", "nobody", "Lattigo!", td.targets[0][1] + "x", td.targets[-1][1][:-1]])[:2]:
        if bad not in [k for _, k, *_ in td.targets]:
            src.append(f"  std::printf(\"%d\\n\", parseBackendName({cstr(bad)}) == BackendName::None);")
            want.append("1")
    # parsing the values of a command line
    def out_of(key, val, good):
        src.append(f"  {{ auto r = parseCompilationTargetOverrideValue(&ctx, {cstr(key)}, {cstr(val)}, UnknownLoc::get(&ctx)); report(succeeded(r));")
        want.append("ok" if good is not None else "refused")
        if good is not None:
            if isinstance(good, int):
                src.append(f'    auto a = dyn_cast<IntegerAttr>(*r); std::printf("%d\\n", a && a.getType().isInteger(64) && a.getInt() == {cint(good)}); }}')
            else:
                src.append(f'    auto a = dyn_cast<StringAttr>(*r); std::printf("%d\\n", a && a.getValue() == {cstr(good)}); }}')
            want.append("1")
        else:
            src.append("  }")
    for _ in range(c.range(1, 5)):
        f, t, _d = c.pick(td.fields)
        k = c.weighted([5, 2, 1])
        if k == 2:
            out_of(c.pick(["backendName", f + "x", f[:-1], "", "name"]), c.pick(["1", "x"]), None)
        elif t == "string":
            v = text_value(c)
            out_of(f, v, v)
        elif k == 0:
            v = i64(c)
            out_of(f, str(v), v)
        else:
            out_of(f, c.pick(["", "x", "1x", "0x1", "1.0", " 1", str(2**64)]), None)
    # modules
    n_over = 0
    for _ in range(c.range(1, 4)):
        n, k, v, _s = c.pick(td.targets)
        v = dict(v)
        src.append("  { OwningOpRef<ModuleOp> m = ModuleOp::create(UnknownLoc::get(&ctx));")
        src.append(f'    (*m)->setAttr({cstr("backend." + k)}, b.getUnitAttr());')
        ok = n in reg
        direct, wrong = [], False
        for _ in range(c.weighted([2, 3, 2, 1])):
            f, t, _d = c.pick(td.fields)
            x = i64(c) if t == "int" else text_value(c)
            bad = c.weighted([8, 1, 1])
            attr = f"b.getI64IntegerAttr({cint(x)})" if t == "int" else f"b.getStringAttr({cstr(x)})"
            if bad == 1:
                attr = 'b.getStringAttr("5")' if t == "int" else "b.getI64IntegerAttr(5)"
            elif bad == 2:
                f = c.pick(["backendName", "unknown", f + "_"])
            src.append(f"    report(succeeded(validateCompilationTargetOverride(*m, {cstr(f)}, {attr})));")
            want.append("ok" if ok and not bad and not wrong else "refused")
            if bad and c.chance(50):
                continue
            src.append(f"    persistCompilationTargetOverride(*m, {cstr(f)}, {attr});")
            n_over += 1
            # a later override of the key replaces the earlier
            direct = [o for o in direct if o[0] != f] + [(f, x, bad)]
            wrong = any(o[2] for o in direct)
        for f, x, bad in direct:
            if not bad:
                v[f] = x
        src.append("    auto t = getTargetConfig(*m); report(succeeded(t)); if (succeeded(t)) show(*t);")
        if ok and not wrong:
            want += ["ok", line(k, v)]
        else:
            want.append("refused")
        src.append("  }")
    src.append("}")
    with open(os.path.join(d, "t.cpp"), "w") as f:
        f.write("\n".join(src) + "\n")
    r = subprocess.run([CLANG, *FLAGS, "-include-pch", pch(), *includes(d), "t.cpp", "-o", "t", "-fuse-ld=lld", f"-L{LLVM}/lib", f"-Wl,-rpath,{LLVM}/lib", "-lMLIR", "-lLLVM-20"], cwd=d, capture_output=True, text=True)
    c.check(r.returncode == 0, f"the generated code does not compile: {r.stderr[:1500]}")
    r = subprocess.run(["./t"], cwd=d, capture_output=True, text=True)
    c.check(r.returncode == 0, f"exit code {r.returncode}: {r.stderr[:800]}")
    got = r.stdout.split("\n")[:-1]
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        c.fail(f"line {i} printed: {got[i:i + 1]}, expected {want[i:i + 1]}\n" + "\n".join(src[-60:]))
    if len(td.targets) > 1 and n_over:
        c.nontrivial("".join(src))


if __name__ == "__main__":
    d = tempfile.mkdtemp(prefix="verif-targets-pch-")
    try:
        with open(os.path.join(d, "p.h"), "w") as f:
            f.write(PRELUDE)
        subprocess.run([CLANG, *FLAGS, *includes(d), "-x", "c++-header", "p.h", "-o", "p.pch"], cwd=d, check=True)
        os.environ["VERIF_TARGETS_PCH"] = os.path.join(d, "p.pch")
        pbtlib.main()
    finally:
        shutil.rmtree(d)
