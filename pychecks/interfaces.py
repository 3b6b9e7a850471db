"""C24: the headers, bindings, metadata and entry points emitted for a compiled module declare exactly its functions."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbtlib
from pbtlib import prop
from mlirserver import request

HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = "/usr/lib/llvm-20/bin/clang++"

CC, SK, CT = "!openfhe.crypto_context", "!openfhe.private_key", "!openfhe.ciphertext"
SCALARS = {
    CC: "CryptoContext<DCRTPoly>", SK: "PrivateKey<DCRTPoly>", CT: "Ciphertext<DCRTPoly>", "!openfhe.plaintext": "Plaintext",
    "!openfhe.public_key": "PublicKey<DCRTPoly>", "!openfhe.eval_key": "EvalKey<DCRTPoly>", "!openfhe.cc_params": "CCParams<CryptoContext@RNS>",
    "index": "size_t", "i1": "bool", "i8": "int8_t", "i16": "int16_t", "i32": "int32_t", "i64": "int64_t", "f32": "float", "f64": "double", "f16": "float",
    "ui8": "int8_t", "si32": "int32_t",
}
BAD = ["i4", "i128", "complex<f32>", "tensor<*xf32>", "tensor<2xi7>", "memref<3xi2>", "f128", "none", "vector<2xf32>"]


def scratch(f):
    def g(c):
        d = tempfile.mkdtemp(prefix="verif-iface-")
        try:
            return f(c, d)
        finally:
            shutil.rmtree(d)
    g.__name__ = f.__name__
    return g


def shape(c, lo=0):
    return "".join(f"{c.range(1, 4)}x" for _ in range(c.range(lo, 3)))


def any_type(c, kind=None):
    e = c.pick(list(SCALARS)) if c.chance(60) else c.pick([CC, SK, CT, "i32", "f32"])
    k = c.weighted([5, 2, 2]) if kind is None else kind
    if k == 0:
        return e
    if e in ("f16", "ui8", "si32") and k == 2:
        e = "f32"
    return f"{'tensor' if k == 1 else 'memref'}<{shape(c)}{e}>"


def elt(t):
    return t[t.index("<") + 1:-1].split("x", 99)[-1] if False else re.sub(r"^(\d+x)*", "", t[t.index("<") + 1:-1])


def cpp(t, scheme):
    if t.startswith(("tensor", "memref")):
        return f"std::vector<{cpp(elt(t), scheme)}>"
    return SCALARS[t].replace("@", scheme)


NAMES = ["f", "main", "foo__encrypt__arg0", "foo__decrypt__result0", "f_1", "Camel", "_x", "fStruct", "h"]


class Module:
    def __init__(self, c, bad=False):
        self.c = c
        self.scheme = c.pick(["BGV", "BFV", "CKKS"])
        self.fns = []
        self.lines = []
        names = []
        for _ in range(c.sized(0, 5)):
            n = c.pick(NAMES) if c.chance(50) else f"fn{c.draw(9)}"
            if n not in names and not any(m + "Struct" == n or n + "Struct" == m for m in names):
                names.append(n)
        if names in (["main"],) or "main" in names:
            names = [n if n != "main" else "main_" for n in names]
        self.badness = None
        for n in names:
            self.function(n, c.chance(25))
        for k in range(c.weighted([5, 3, 2])):
            self.debug(k)
        if bad and self.fns:
            self.spoil()
        self.fns = c.shuffle(self.fns)
        self.text = "module attributes {scheme." + self.scheme.lower() + "} {\n" + "\n".join(f["text"] for f in self.fns) + "\n}\n"

    def debug(self, k):
        c = self.c
        t = CT if c.chance(60) else f"tensor<{c.range(1, 3)}x!openfhe.ciphertext>"
        name = c.pick(["__heir_debug", "__heir_debug_0", "__heir_debug_tensor_2", "__heir_debug_x"])
        if any(f["name"] == name for f in self.fns):
            return
        self.fns.append(dict(name=name, debug=True, args=[CC, SK, t], results=[], text=f"func.func private @{name}({CC}, {SK}, {t})", mutated=set(), decl=True))

    def function(self, name, decl):
        c = self.c
        args = [any_type(c) for _ in range(c.range(0, 5))]
        results = []
        for _ in range(c.weighted([2, 4, 2, 1, 1])):
            results.append(c.pick(args) if args and c.chance(70) and not decl else any_type(c))
        mutated = set()
        if decl:
            text = f"func.func private @{name}({', '.join(args)})" + (f" -> ({', '.join(results)})" if results else "")
        else:
            for r in results:
                if r not in args:
                    args.append(r)
            body, k = [], 0
            for j, t in enumerate(args):
                if not t.startswith("memref"):
                    continue
                s = re.findall(r"(\d+)x", t)
                for _ in range(c.weighted([3, 4, 2])):
                    k += 1
                    idx = ", ".join(["%z"] * len(s))
                    what = c.weighted([4, 3, 2, 1, 1])
                    nest = c.draw(3)
                    ln = []
                    if what == 0:
                        ln.append(f"%l{k} = memref.load %a{j}[{idx}] : {t}")
                    elif what == 1:
                        ln.append(f"%l{k} = memref.load %a{j}[{idx}] : {t}")
                        ln.append(f"memref.store %l{k}, %a{j}[{idx}] : {t}")
                        mutated.add(j)
                    elif what == 2:
                        ln.append(f"%m{k} = memref.alloc() : {t}")
                        ln.append(f"memref.copy %a{j}, %m{k} : {t} to {t}" if c.chance(50) else f"memref.copy %m{k}, %a{j} : {t} to {t}")
                        if ln[-1].startswith(f"memref.copy %m"):
                            mutated.add(j)
                    elif what == 3:
                        ln.append(f"%l{k} = affine.load %a{j}[{', '.join(['0'] * len(s))}] : {t}")
                        if c.chance(50):
                            ln.append(f"affine.store %l{k}, %a{j}[{', '.join(['0'] * len(s))}] : {t}")
                            mutated.add(j)
                    else:
                        ln.append(f"func.call @{name}_callee{k}(%a{j}) : ({t}) -> ()")
                        mutated.add(j)
                        self.fns.append(dict(name=f"{name}_callee{k}", debug=False, args=[t], results=[], text=f"func.func private @{name}_callee{k}({t})", mutated=set(), decl=True))
                    if nest == 1:
                        ln = [f"affine.for %i{k} = 0 to 3 {{"] + ln + ["}"]
                    elif nest == 2:
                        ln = [f"scf.if %t {{"] + ln + ["}"]
                    body += ln
            sig = ", ".join(f"%a{j}: {t}" for j, t in enumerate(args))
            ret = "return " + ", ".join(f"%a{args.index(r)}" for r in results) + " : " + ", ".join(results) if results else "return"
            text = f"func.func @{name}({sig})" + (f" -> ({', '.join(results)})" if results else "") + " {\n  %z = arith.constant 0 : index\n  %t = arith.constant true\n  " + "\n  ".join(body + [ret]) + "\n}"
        self.fns.append(dict(name=name, debug=False, args=args, results=results, text=text, mutated=mutated, decl=decl))

    def spoil(self):
        """One type the C++ interface cannot express."""
        f = self.c.pick([f for f in self.fns if not f["debug"] and "_callee" not in f["name"]] or [None])
        if f is None:
            return
        b = self.c.pick(BAD)
        self.badness = b
        name = f["name"]
        args, results = list(f["args"]), list(f["results"])
        if self.c.chance(50):
            args.insert(self.c.range(0, len(args)), b)
        else:
            results.insert(self.c.range(0, len(results)), b)
        f.update(args=args, results=results, decl=True, text=f"func.func private @{name}({', '.join(args)})" + (f" -> ({', '.join(results)})" if results else ""))

    def params(self, f):
        out = []
        for j, t in enumerate(f["args"]):
            p = cpp(t, self.scheme)
            if t.startswith("memref"):
                p = ("" if f["decl"] or j in f["mutated"] else "const ") + p + "&"
            out.append(p)
        if f["debug"]:
            out.append("const std::map<std::string, std::string>&")
        return out

    def result(self, f):
        if not f["results"]:
            return "void"
        return cpp(f["results"][0], self.scheme) if len(f["results"]) == 1 else f["name"] + "Struct"

    def checks(self, f):
        """Static checks of one declaration."""
        n = "__heir_debug" if f["debug"] else f["name"]
        out = [f"static_assert(std::is_same_v<decltype(static_cast<{self.result(f)} (*)({', '.join(self.params(f))})>(&{n})), {self.result(f)} (*)({', '.join(self.params(f))})>);"]
        if not f["debug"]:
            out.append(f"static_assert(std::is_same_v<decltype(&{n}), {self.result(f)} (*)({', '.join(self.params(f))})>);")
        if len(f["results"]) > 1:
            s = f["name"] + "Struct"
            for i, r in enumerate(f["results"]):
                out.append(f"static_assert(std::is_same_v<decltype({s}::arg{i}), {cpp(r, self.scheme)}>);")
            out.append("static auto probe_%s() { auto [%s] = %s(); return 0; }" % (s, ", ".join(f"x{i}" for i in range(len(f["results"]))), s))
        return out

    def prelude_checks(self):
        s = self.scheme
        pairs = [("CiphertextT", "Ciphertext<DCRTPoly>"), ("ConstCiphertextT", "ConstCiphertext<DCRTPoly>"), ("CCParamsT", f"CCParams<CryptoContext{s}RNS>"), ("CryptoContextT", "CryptoContext<DCRTPoly>"),
                 ("EvalKeyT", "EvalKey<DCRTPoly>"), ("PlaintextT", "Plaintext"), ("PrivateKeyT", "PrivateKey<DCRTPoly>"), ("PublicKeyT", "PublicKey<DCRTPoly>")]
        return [f"static_assert(std::is_same_v<{a}, lbcrypto::{b}>);" for a, b in pairs]


def lay_out(d, imp):
    """openfhe.h at the one place the import type names."""
    at = os.path.join(d, "inc", ["src/pke/include", "openfhe/pke", "."][imp])
    os.makedirs(at)
    shutil.copy(os.path.join(HERE, "cppmock", "openfhe.h"), at)
    shutil.copytree(os.path.join(HERE, "cppmock", "pybind11"), os.path.join(d, "inc", "pybind11"))


def compile_(c, d, name, what):
    r = subprocess.run([CLANG, "-std=c++17", "-O0", "-w", "-I" + os.path.join(d, "inc"), "-I" + d, os.path.join(d, name + ".cpp"), "-o", os.path.join(d, name)], capture_output=True, text=True)
    c.check(r.returncode == 0, f"{what} does not compile: {r.stderr[:1500]}")


def emitted(c, kind, m, **kw):
    a = request("iface", dict(kind=kind, mlir=m.text, **kw))
    if a.get("died"):
        c.fail(f"the {kind} emitter crashed")
    c.check(a.get("parsed"), f"generator: {a.get('diag')}")
    return a


def write(d, name, text):
    with open(os.path.join(d, name), "w") as f:
        f.write(text)


@prop("headers", "at least two functions", 170, 4000, hang=120)
@scratch
def headers(c, d):
    """The header declares each function and result struct with its types, the bindings bind each of them once, and both compile together."""
    m = Module(c)
    imp = c.draw(3)
    debug_include = c.pick(["", "dbg.h", "debug/my_helper.h"])
    modname = c.pick(["_heir_f", "mod1", "x"])
    header = c.pick(["f.h", "sub/out.heir.h"])
    c.desc(f"import type {imp}, debug header {debug_include!r}, header {header}, module {modname}\n{m.text}")
    h = emitted(c, "header", m, **{"import": imp}, include=debug_include)
    c.check(h["ok"], f"the header is refused: {h['diag']}")
    p = emitted(c, "pybind", m, include=header, module=modname)
    c.check(p["ok"], f"the bindings are refused: {p['diag']}")
    lay_out(d, imp)
    for sub in ("sub", "debug"):
        os.makedirs(os.path.join(d, sub))
    if debug_include:
        write(d, debug_include, "#define SAW_DEBUG_HEADER\n")
    write(d, header, "#pragma once\n#include <map>\n#include <string>\n" + h["text"])
    write(d, "bind.inc", p["text"])
    # some data for load_resource
    ty, n = c.pick([("int8_t", 1), ("int16_t", 2), ("int32_t", 4), ("int64_t", 8), ("bool", 1)]), c.range(0, 6)
    vals = [c.draw(2) if ty[0] == "bool" else c.sint(8 * ty[1]) for _ in range(n)]
    with open(os.path.join(d, "data"), "wb") as f:
        for v in vals:
            f.write(v.to_bytes(ty[1], "little", signed=v < 0))
    out = ['#include "bind.inc"', f'#include "{header}"', "#include <cstddef>", "#include <type_traits>", "using namespace lbcrypto;"]
    if debug_include:
        out.append("#ifndef SAW_DEBUG_HEADER\n#error no debug header\n#endif")
    out += m.prelude_checks()
    sigs = set()
    for f in m.fns:
        out += m.checks(f)
        n_ = "__heir_debug" if f["debug"] else f["name"]
        sig = f"{m.result(f)} {n_}({', '.join(m.params(f))})"
        if sig not in sigs:
            sigs.add(sig)
            out.append(sig + " { " + ("" if m.result(f) == "void" else "return {};") + " }")
    out.append("int main() {\n  bind_module();")
    want, structs = set(), {}
    for f in m.fns:
        n_ = "__heir_debug" if f["debug"] else f["name"]
        if f["debug"]:
            tag = "single" if f["args"][2] == CT else "vector"
            f_ = f"static_cast<{m.result(f)} (*)({', '.join(m.params(f))})>(&{n_})"
            key = f"{n_} {tag}"
        else:
            f_, key = "&" + n_, n_
        if key not in want:
            want.add(key)
            out.append(f'  std::printf("want %s %p\\n", "{n_}", (void *)({f_}));')
        if len(f["results"]) > 1:
            s = f["name"] + "Struct"
            structs[s] = len(f["results"])
            for i in range(structs[s]):
                out.append(f'  std::printf("offset {s}.arg{i} %d\\n", int(offsetof({s}, arg{i})));')
    out.append(f'  std::printf("name %s\\n", bound_name);\n  for (auto x : load_resource<{ty[0]}>("{d}/data", {n})) std::printf("data %lld\\n", (long long)x);\n}}')
    write(d, "t.cpp", "\n".join(out) + "\n")
    compile_(c, d, "t", "the header with the bindings")
    r = subprocess.run([os.path.join(d, "t")], capture_output=True, text=True)
    c.check(r.returncode == 0, f"exit code {r.returncode}: {r.stderr}")
    lines = [l.split() for l in r.stdout.splitlines()]
    pick = lambda k: sorted(tuple(l[1:]) for l in lines if l[0] == k)
    c.eq(pick("def"), pick("want"), "the functions bound")
    common = {"PublicKey", "PrivateKey", "KeyPair", "Ciphertext", "Plaintext", "CryptoContext"}
    c.eq(sorted(x[0] for x in pick("class")), sorted(common | set(structs)), "the classes bound")
    c.eq([x for x in pick("field") if not x[0].startswith("KeyPair.")], pick("offset"), "the fields bound")
    c.eq(sorted(x[0] for x in pick("init") if x[0] not in common), sorted(structs), "the structs with a constructor")
    c.eq([l[1] for l in lines if l[0] == "name"], [modname], "the module's name")
    c.eq([int(l[1]) for l in lines if l[0] == "data"], vals, f"load_resource<{ty[0]}>")
    if len(m.fns) > 1:
        c.nontrivial(m.text)


@prop("debug_headers", "a debug port is there", 60, 1500, hang=120)
@scratch
def debug_headers(c, d):
    m = Module(c)
    imp = c.draw(3)
    c.desc(f"import type {imp}\n{m.text}")
    h = emitted(c, "debugheader", m, **{"import": imp})
    c.check(h["ok"], f"the debug header is refused: {h['diag']}")
    lay_out(d, imp)
    dbg = [f for f in m.fns if f["debug"]]
    out = [h["text"], "#include <type_traits>"] + m.prelude_checks()
    if dbg:
        f = dbg[0]
        out.append("using namespace lbcrypto;")
        out.append(f"static_assert(std::is_same_v<decltype(&__heir_debug), void (*)({', '.join(m.params(f))})>);")
    for f in m.fns:
        if not f["debug"]:
            out.append(f"int {f['name']} = 0;" if f["name"] != "h" else "")
            if len(f["results"]) > 1:
                out.append(f"int {f['name']}Struct = 0;")
    write(d, "t.cpp", "\n".join(out) + "\nint main() {}\n")
    r = subprocess.run([CLANG, "-std=c++17", "-fsyntax-only", "-w", "-I" + os.path.join(d, "inc"), os.path.join(d, "t.cpp")], capture_output=True, text=True)
    c.check(r.returncode == 0, f"the debug header does not compile, or declares other things: {r.stderr[:1500]}")
    c.eq(len(re.findall(r"\b__heir_debug\b", h["text"])), 1 if dbg else 0, "declarations of the debug port")
    if dbg:
        c.nontrivial(m.text)


@prop("refusals", "always", 400, 8000)
def refusals(c):
    """What an interface cannot express is refused with a diagnostic."""
    k = c.draw(4)
    if k == 0:
        m = Module(c, bad=True)
        if not m.badness:
            c.discard()
        a = emitted(c, "header", m, **{"import": 0})
        c.desc(f"a type without C++ counterpart\n{m.text}")
    elif k == 1:
        m = Module(c)
        m.text = m.text.replace("scheme." + m.scheme.lower(), c.pick(["scheme.cggi", "backend.openfhe"]), 1)
        a = emitted(c, c.pick(["header", "debugheader"]), m, **{"import": 0})
        c.desc(f"no scheme\n{m.text}")
    elif k == 2:
        m = Module(c)
        extra = c.pick([f"func.func private @__heir_debug_z({CC}, {SK})", f"func.func private @__heir_debug_z({CC}, {SK}, {CT}, i32)", f"func.func private @__heir_debug_z({CC}, i7, {CT})", f"func.func private @__heir_debug_z({CC}, {SK}, i7)"])
        m.text = m.text.replace(" {\n", " {\n" + extra + "\n", 1)
        a = emitted(c, "debugheader", m, **{"import": 0})
        c.desc(f"an odd debug port\n{m.text}")
    else:
        m = Module(c)
        m.text = m.text[:m.text.rindex("}")] + "memref.global @g : memref<2xi32>\n}\n"
        a = emitted(c, c.pick(["header", "pybind", "debugheader"]), m, **{"import": 0})
        c.desc(f"an operation that is no function\n{m.text}")
    c.check(not a["ok"], f"it is accepted:\n{a['text']}")
    c.check(a["diag"].strip(), "there is no diagnostic")
    c.nontrivial(m.text)


# ---- metadata ----------------------------------------------------------------------------

def meta_type(c, depth=0):
    """(MLIR text, expected JSON or None)."""
    k = c.weighted([6, 4, 1])
    if k == 0 or depth > 1:
        w, s = c.pick([1, 3, 8, 16, 32, 64, 128]), c.pick(["", "", "s", "u"])
        return f"{s}i{w}", {"integer": {"width": w, "is_signed": s == "s"}}
    if k == 1:
        e, j = meta_type(c, depth + 1)
        dims = [c.range(1, 5) for _ in range(c.range(0, 3))]
        t = "memref<" + "".join(f"{n}x" for n in dims) + e + ">"
        return t, j and {"memref": {"shape": dims, "element_type": j}}
    if c.chance(70):
        return meta_type(c, depth)
    return c.pick([x for x in ("f32", "index", "tensor<2xi8>", "complex<f32>") if not depth or x in ("f32", "index", "complex<f32>")]), None


@prop("metadata", "some function has a memref", 2500, 60000)
def metadata(c):
    fns, want, ok = [], [], True
    names = []
    for _ in range(c.sized(0, 5)):
        n = c.pick(["f", "g", "main", 'odd "name"', "a\\b", "tab\tx", "with.dot", "ünï"]) if c.chance(50) else f"fn{c.draw(20)}"
        if n in names:
            continue
        names.append(n)
        args = [meta_type(c) for _ in range(c.range(0, 4))]
        res = [meta_type(c) for _ in range(c.weighted([2, 6, 1]))]
        if any(j is None for _, j in args + res) or len(res) > 1:
            ok = False
        sym = '@"' + n.replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\09") + '"'
        rs = f" -> ({', '.join(t for t, _ in res)})" if res else ""
        if c.chance(30) or any(r not in [t for t, _ in args] for r, _ in res):
            text = f"func.func private {sym}({', '.join(t for t, _ in args)}){rs}"
        else:
            body = "return" + (" " + ", ".join(f"%a{[t for t, _ in args].index(r)}" for r, _ in res) + " : " + ", ".join(r for r, _ in res) if res else "")
            text = f"func.func {sym}({', '.join(f'%a{i}: {t}' for i, (t, _) in enumerate(args))}){rs} {{ {body} }}"
        fns.append(text)
        want.append({"name": n, "params": [{"index": i, "type": j} for i, (_, j) in enumerate(args)], "return_types": [j for _, j in res]})
    if c.chance(30):
        fns.insert(c.draw(len(fns) + 1), "memref.global @glob : memref<2xi32> = dense<1>")
    text = "module {\n" + "\n".join(fns) + "\n}\n"
    c.desc(text)
    a = request("iface", dict(kind="metadata", mlir=text))
    if a.get("died"):
        c.fail("the emitter crashed")
    c.check(a.get("parsed"), f"generator: {a.get('diag')}")
    c.eq(a["ok"], ok, f"the module is accepted ({a['diag']})")
    if ok:
        c.eq(json.loads(a["text"]), {"functions": want}, "the metadata")
    else:
        c.check(a["diag"].strip(), "there is no diagnostic")
    if "memref<" in text and want:
        c.nontrivial(text)


@prop("c_interface", "both kinds of functions are there", 400, 8000)
def c_interface(c):
    fns = {}
    text = "module {\n"
    for k in range(c.range(1, 6)):
        vis = c.pick(["public", "private", "nested", ""])
        decl = vis == "private" and c.chance(50)
        attr = c.chance(15)
        fns[f"f{k}"] = vis in ("public", "") or attr
        text += f"func.func {vis} @f{k}(" + ("i32" if decl else "%x: i32") + ") -> i32" + (" attributes {llvm.emit_c_interface}" if attr else "") + ("\n" if decl else " { return %x : i32 }\n")
    if c.chance(30):
        text += "module @inner { func.func @f9(%x: i32) -> i32 { return %x : i32 } }\n"
        fns["f9"] = True
    text += "}\n"
    c.desc(text)
    a = request("iface", dict(kind="cinterface", mlir=text))
    c.check(a.get("ok"), f"the pass failed: {a.get('diag')} {a.get('died')}")
    got = {}
    for l in a["text"].splitlines():
        m = re.search(r'"func.func"\(\) <\{(.*)\}>', l)
        if m:
            n = re.search(r'sym_name = "(\w+)"', l)[1]
            got[n] = None
            order = n
        m = re.match(r'\s*\}\)\s*(\{.*\})?\s*:\s*\(\) -> \(\)', l)
        if m and got and got.get(order) is None:
            got[order] = "llvm.emit_c_interface" in (m[1] or "")
    c.eq(got, fns, "functions with a C interface")
    if len(set(fns.values())) > 1:
        c.nontrivial(text)


@prop("identifiers", "a character was replaced", 1500, 40000)
def identifiers(c):
    """sanitizeIdentifier: an identifier made of word characters; unchanged when it is one already; different characters stay apart."""
    s = "".join(c.pick("abzAZ09__!<> .-,x?*") for _ in range(c.range(1, 30)))
    c.desc(repr(s))
    a = request("iface", dict(kind="sanitize", mlir=s))
    want = "".join(ch if re.match(r"\w", ch) else "_" if ch in " <>" else f"{ord(ch):X}" for ch in s)
    c.check(re.fullmatch(r"\w+", a.get("text", "")), f"{a} is no identifier")
    c.eq(a["text"], want, "the identifier")
    if want != s:
        c.nontrivial(s)


if __name__ == "__main__":
    pbtlib.main()
