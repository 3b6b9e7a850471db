"""C22: the Rust that the tfhe-rs emitters write computes what the program says.

Programs in the tfhe_rust and tfhe_rust_bool dialects are generated together
with what they compute, emitted by the real emitters, compiled by rustc against
stand-ins for the tfhe and rayon crates (rustmock/), and run.

A program that uses nothing but the constructions HEIR's own pipelines produce
has to compile.  One that strays from them may be refused, by the emitter with a
diagnostic or by rustc; but if it compiles, it has to compute the right thing."""
import fcntl
import os
import re
import shutil
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbtlib  # noqa: E402
from pbtlib import prop  # noqa: E402
from mlirserver import request  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
RLIB = os.path.join(pbtlib.VERIF, ".build", "rustmock")
FLAGS = ["--edition", "2021", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "overflow-checks=on", "-C", "codegen-units=1"]


def mock():
    os.makedirs(RLIB, exist_ok=True)
    with open(os.path.join(RLIB, "lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        for crate in ("tfhe", "rayon"):
            src, out = os.path.join(HERE, "rustmock", crate + ".rs"), os.path.join(RLIB, f"lib{crate}.rlib")
            if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
                subprocess.run(["rustc", *FLAGS, "--crate-type", "rlib", "--crate-name", crate, "-o", out, src], check=True)


mock()


class Memref:
    """Contents by index tuple; unset elements are absent."""

    def __init__(self, shape, data=None):
        self.shape = shape
        self.data = {} if data is None else data


def nest(flat, shape):
    if not shape:
        return flat[0]
    step = len(flat) // shape[0]
    return [nest(flat[i * step:(i + 1) * step], shape[1:]) for i in range(shape[0])]


def flatten(v):
    return [y for x in v for y in flatten(x)] if isinstance(v, list) else [v]


def indices(shape):
    if not shape:
        return [()]
    return [(i,) + r for i in range(shape[0]) for r in indices(shape[1:])]


def show(v, boolvec=False):
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x, boolvec) for x in v) + ")"
    if isinstance(v, Memref):
        flat = [v.data[i] for i in indices(v.shape)]
        v = flat if boolvec else nest(flat, v.shape)
    if isinstance(v, list):
        return "[" + ", ".join(show(x, boolvec) for x in v) + "]"
    return str(int(v))


def size(shape):
    n = 1
    for d in shape:
        n *= d
    return n


def at(v, idx):
    for i in idx:
        v = v[i]
    return v


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


class Skip(Exception):
    """The generator has run into a dead end; drop the statement."""


class V:
    def __init__(self, name, ty, **kw):
        self.name, self.ty = name, ty
        self.kind = kw.pop("kind", "op")   # arg, op, ref
        self.__dict__.update(kw)


class Fn:
    """One function: its text, and its meaning as a list of steps over an environment."""

    def __init__(self, c, mod, name):
        self.c, self.mod, self.name = c, mod, name
        self.n = 0
        self.args = []           # (V, mlir type)
        self.blocks = [([], [])]
        self.scopes = [{}]
        self.wild = []
        self.consts = [{}]
        self.depth = 0

    def fresh(self):
        self.n += 1
        return f"%{self.name}_{self.n}"

    def emit(self, line, step=None):
        self.blocks[-1][0].append("  " * (len(self.blocks)) + line)
        if step:
            self.blocks[-1][1].append(step)

    def pool(self, what):
        return [v for s in self.scopes for v in s.get(what, [])]

    def add(self, what, v):
        self.scopes[-1].setdefault(what, []).append(v)
        return v

    def drop(self, what, v):
        for s in self.scopes:
            if v in s.get(what, []):
                s[what].remove(v)

    def arg(self, what, ty, **kw):
        v = V(f"%{self.name}_a{len(self.args)}", ty, kind="arg", **kw)
        self.args.append(v)
        if what:
            self.add(what, v)
        return v

    def val(self, what, ty, line, fn, *use, **kw):
        """A new value defined by `line`; fn gets the values of `use`."""
        r = self.fresh()
        names = [u.name for u in use]

        def step(env, fn=fn, names=names, r=r):
            env[r] = fn(*[env[n] for n in names])
        self.emit(f"{r} = {line}", step)
        v = V(r, ty, **kw)
        return self.add(what, v) if what else v

    def const(self, k, ty="index"):
        for s in self.consts:
            if (k, ty) in s and self.c.chance(70):
                return s[(k, ty)]
        text = k if ty != "i1" else ("true" if k else "false")
        v = self.val(None, ty, f"arith.constant {text}" + (f" : {ty}" if ty != "i1" else ""), lambda: k)
        self.consts[-1][(k, ty)] = v
        v.const = k
        return v

    def loop(self, lo, hi, body, step=1):
        iv = V(self.fresh(), "index", kind="iv", lo=lo, hi=hi)
        head = f"affine.for {iv.name} = {lo} to {hi}" + (f" step {step}" if step != 1 else "") + " {"
        self.emit(head)
        self.blocks.append(([], []))
        self.scopes.append({"iv": [iv]})
        self.consts.append({})
        body(iv)
        self.consts.pop()
        self.scopes.pop()
        lines, steps = self.blocks.pop()
        self.blocks[-1][0].extend(lines)

        def run(env):
            for i in range(lo, hi, step):
                env[iv.name] = i
                for s in steps:
                    s(env)
        self.emit("}", run)

    def index(self, d):
        """An index value known to lie in [0, d)."""
        ivs = [v for v in self.pool("iv") if 0 <= v.lo and v.hi <= d]
        if ivs and self.c.chance(70):
            return self.c.pick(ivs)
        return self.const(self.c.draw(d))

    def idx(self, shape):
        return [self.index(d) for d in shape]

    def ret(self, vals, types):
        self.rets = vals
        self.rettys = types
        names = ", ".join(v.name for v in vals)
        self.emit(f"return {names} : {', '.join(types)}" if vals else "return")

    def text(self):
        args = ", ".join(f"{a.name}: {self.mod.mlir(a.ty)}" for a in self.args)
        res = f" -> {self.rettys[0]}" if len(self.rettys) == 1 else f" -> ({', '.join(self.rettys)})" if self.rettys else ""
        return "\n".join([f"func.func @{self.name}({args}){res} {{"] + self.blocks[0][0] + ["}"])

    def run(self, inputs):
        env = {a.name: v for a, v in zip(self.args, inputs)}
        for s in self.blocks[0][1]:
            s(env)
        out = tuple(env[v.name] for v in self.rets)
        return out[0] if len(out) == 1 else out


class Module:
    def __init__(self, c, kind, ct, key):
        self.c, self.kind, self.ct, self.key = c, kind, ct, key
        self.globals = []
        self.fns = []
        self.files = []

    def mlir(self, ty):
        """Types are strings, or ('tensor'|'memref', shape, element)."""
        if isinstance(ty, tuple):
            return f"{ty[0]}<{'x'.join(map(str, ty[1]))}x{self.mlir(ty[2])}>"
        return ty

    def text(self):
        return "module {\n" + "\n".join(self.globals + [f.text() for f in self.fns]) + "\n}"


# ---- running ------------------------------------------------------------------

MAIN = """#![allow(warnings)]
extern crate tfhe;
extern crate rayon;
use tfhe::Show;
mod server_key_enum { pub use tfhe::boolean::ske::*; }
mod generated {
%s
}
fn main() {
%s
}
"""


def rustc(d, text):
    src, exe = os.path.join(d, "m.rs"), os.path.join(d, "m")
    with open(src, "w") as f:
        f.write(text)
    p = subprocess.run(["rustc", *FLAGS, "-L", RLIB, "--extern", f"tfhe={RLIB}/libtfhe.rlib", "--extern", f"rayon={RLIB}/librayon.rlib", "-o", exe, src],
                       capture_output=True, text=True)
    return exe if p.returncode == 0 else None, p.stderr


def literal(m, ty, v, top=True):
    """Rust text of an argument, as the emitted functions take them."""
    ref = "&" if top else ""
    if isinstance(ty, tuple):
        flat = [v.data[i] for i in indices(v.shape)] if isinstance(v, Memref) else flatten(v)
        vec = m.kind in ("bool", "packed")

        def lit(x):
            if isinstance(x, list):
                return ("vec!" if vec else "") + "[" + ", ".join(map(lit, x)) + "]"
            return literal(m, ty[2], x, False)
        return ref + lit(flat if vec else nest(flat, ty[1]))
    if ty.startswith("i"):
        if ty == "i1":
            t = "true" if v else "false"
        elif m.kind == "hl":
            t = f"{v}u{ty[1:]}"
        else:
            t = f"({v}i{ty[1:]})"
        return ("" if m.kind.startswith("tfhe") else ref) + t
    if m.kind.startswith("tfhe"):
        return f"{ref}tfhe::shortint::Ciphertext({v})"
    if m.kind == "hl":
        return f"{ref}tfhe::FheUint{ty.split('eui')[1]}::new({v})"
    return f"{ref}tfhe::boolean::prelude::Ciphertext({'true' if v else 'false'})"


def random_input(c, m, a):
    def one(ty):
        if ty.startswith("i"):
            w = int(ty[1:])
            if m.kind == "hl":
                return c.draw(1 << min(w - 1, 20)) if w > 1 else c.draw(2)
            return c.draw(2) if w == 1 else signed(c.draw(1 << min(w, 16)), min(w, 16))
        if m.kind.startswith("tfhe"):
            return c.draw(16)
        if m.kind == "hl":
            w = int(ty.split("eui")[1])
            return c.draw(1 << w) if w < 60 else c.draw(1 << 30) << (w - 30) | c.draw(1 << 30)
        return c.draw(2)
    if isinstance(a.ty, tuple):
        flat = [one(a.ty[2]) for _ in range(size(a.ty[1]))]
        return nest(flat, a.ty[1]) if a.ty[0] == "tensor" else Memref(a.ty[1], dict(zip(indices(a.ty[1]), flat)))
    return one(a.ty)


KEY = {"tfhe": "&tfhe::shortint::ServerKey", "tfhe-levels": "&tfhe::shortint::ServerKey", "bool": "&tfhe::boolean::prelude::ServerKey",
       "packed": "&tfhe::boolean::ske::ServerKeyEnum::TypeSW(tfhe::boolean::prelude::ServerKey)"}


def check(c, m, d):
    text = m.text()
    wild = sorted({w for f in m.fns for w in f.wild})
    c.desc(f"{m.kind}{' with ' + ', '.join(wild) if wild else ''}\n{text}")
    r = request("emit", dict(kind=m.kind, mlir=text))
    if r.get("died"):
        c.fail("the emitter crashes")
    if not r["parsed"]:
        c.fail("BAD PROGRAM: " + r["diag"])
    if not r["ok"]:
        c.check(bool(r["diag"]), "the emitter fails without a diagnostic")
        c.check(bool(wild), "the emitter refuses an ordinary program: " + r["diag"])
        c.label("refused")
        return
    calls, want = [], []
    boolvec = m.kind in ("bool", "packed")
    for f in m.fns:
        if not getattr(f, "callable", True):
            continue
        for _ in range(3):
            ins = [None if a.ty == m.key else random_input(c, m, a) for a in f.args]
            try:
                out = f.run([x if not isinstance(x, Memref) else Memref(x.shape, dict(x.data)) for x in ins])
            except KeyError:
                raise pbtlib.Discarded()
            want.append(show(out, boolvec))
            args = [KEY[m.kind] if a.ty == m.key else literal(m, a.ty, x) for a, x in zip(f.args, ins) if not (a.ty == m.key and m.kind == "hl")]
            calls.append(f'    println!("{{}}", generated::{f.name}({", ".join(args)}).show());')
            if len(f.args) == 1:
                break
    exe, err = rustc(d, MAIN % (r["text"], "\n".join(calls)))
    if exe is None:
        c.check(bool(wild), "an ordinary program becomes Rust that does not compile: " + "\n".join(err.splitlines()[:12]) + "\n" + "\n".join(r["text"].split("\n")[-60:]))
        c.label("rustc refuses " + ", ".join(wild))
        return
    p = subprocess.run([exe], capture_output=True, text=True, timeout=60)
    got = p.stdout.split("\n")[:-1]
    for k, (g, w) in enumerate(zip(got, want)):
        if g != w:
            c.fail(f"{calls[k].strip()}\nprints {g}, but the program computes {w}\n" + "\n".join(r["text"].split("\n")[-70:]))
    if p.returncode or len(got) != len(want):
        c.fail("the Rust program fails: " + p.stderr[-500:] + "\n" + "\n".join(r["text"].split("\n")[-70:]))
    c.label("wild" if wild else "ordinary")
    if len(text) > 400:
        c.nontrivial(text)


def scratch(fn):
    def wrapped(c):
        d = tempfile.mkdtemp(prefix="verif-tfhe-")
        try:
            fn(c, d)
        finally:
            shutil.rmtree(d)
    wrapped.__name__ = fn.__name__
    return wrapped


# ---- what all three kinds of program share ----------------------------------------

def clear(f, c, ty=None):
    """A clear integer of a standard width, from an argument, a global or a file, shifted and masked."""
    m = f.mod
    vs = [v for v in f.pool("int") if ty is None or v.ty == ty]
    if not vs:
        ty = ty or c.pick(["i8", "i32", "i16", "i64"])
        return f.const(c.draw(100), ty)
    v = c.pick(vs)
    for _ in range(c.weighted([5, 3, 1])):
        w = int(v.ty[1:])
        k = c.weighted([3, 2, 2])
        if w == 1:
            break
        if k == 0:
            s = f.const(c.draw(min(w, 12)), v.ty)
            v = f.val(None, v.ty, f"arith.shrsi {v.name}, {s.name} : {v.ty}", lambda a, b: a >> b, v, s)
        elif k == 1:
            s = f.const(c.draw(100), v.ty)
            x, y = (v, s) if c.chance(70) else (s, v)
            v = f.val(None, v.ty, f"arith.andi {x.name}, {y.name} : {v.ty}", lambda a, b: a & b, x, y)
        elif m.kind != "hl":
            s = f.const(c.draw(min(w, 6)), v.ty)
            v = f.val(None, v.ty, f"arith.shli {v.name}, {s.name} : {v.ty}", lambda a, b, w=w: signed(a << b, w), v, s)
    w = int(v.ty[1:])
    if w > 8 and c.chance(25):
        to = c.pick([x for x in (8, 16, 32) if x < w])
        v = f.val(None, f"i{to}", f"arith.trunci {v.name} : {v.ty} to i{to}", lambda a, to=to: signed(a, to) if m.kind != "hl" else a & ((1 << to) - 1), v)
    return v


def bit(f, c):
    """A clear i1."""
    vs = [v for v in f.pool("int") if v.ty == "i1"]
    if vs and c.chance(40):
        return c.pick(vs)
    v = clear(f, c)
    if v.ty == "i1":
        return v
    if hasattr(v, "const"):
        return f.const(c.draw(2), "i1")
    one = f.const(1, v.ty)
    v = f.val(None, v.ty, f"arith.andi {v.name}, {one.name} : {v.ty}", lambda a, b: a & b, v, one)
    return f.val(None, "i1", f"arith.trunci {v.name} : {v.ty} to i1", lambda a: a & 1, v)


def global_data(f, c, d):
    """Loads from a constant global (or a resource file), by linear index."""
    m = f.mod
    ty = c.pick(["i8", "i16", "i32", "i64"])
    w = int(ty[1:])
    shape = [c.range(1, 4) for _ in range(c.weighted([4, 3, 1]) + 1)]
    n = size(shape)
    vals = [c.draw(120) if m.kind == "hl" else signed(c.draw(1 << min(w, 16)), w) for _ in range(n)]
    mt = ("memref", shape, ty)
    store = Memref(shape, dict(zip(indices(shape), vals)))
    if m.kind.startswith("tfhe") and c.chance(30):
        path = os.path.join(d, f"data{len(m.files)}.bin")
        m.files.append(path)
        with open(path, "wb") as g:
            g.write(b"".join(v.to_bytes(w // 8, "little", signed=True) for v in vals))
        c.desc(f"{path} holds {vals}")
        return f.val("global", mt, f'preprocessing.load_resource "{path}" : {m.mlir(mt)}', lambda: store)
    g = f"g{len(m.globals)}"
    m.globals.append(f"  memref.global constant @{g} : {m.mlir(mt)} = dense<{nest(vals, shape)}>")
    return f.val("global", mt, f"memref.get_global @{g} : {m.mlir(mt)}", lambda: store)


def loaded(f, mem):
    """A loaded element borrows the memref as long as it is in scope."""
    mem.depths = getattr(mem, "depths", set()) | {len(f.blocks)}


def stored(f, mem):
    if any(d < len(f.blocks) for d in getattr(mem, "depths", ())):
        f.wild.append("a store to a memref with loaded elements")


def load(f, c, mem, what):
    loaded(f, mem)
    ix = f.idx(mem.ty[1])
    names = ", ".join(i.name for i in ix)
    return f.val(what, mem.ty[2], f"memref.load {mem.name}[{names}] : {f.mod.mlir(mem.ty)}", lambda M, *i: M.data[i], mem, *ix, kind="ref", local=mem.kind == "op")


def store(f, v, mem, ix):
    if getattr(v, "local", False):
        f.wild.append("a reference from a local memref stored")
    stored(f, mem)
    names = [v.name, mem.name] + [i.name for i in ix]

    def step(env):
        x, M, *i = [env[n] for n in names]
        M.data[tuple(i)] = x
    f.emit(f"memref.store {v.name}, {mem.name}[{', '.join(i.name for i in ix)}] : {f.mod.mlir(mem.ty)}", step)


def filled(f, c, shape, elt, fill):
    """A memref all of whose elements are stored, by a loop nest."""
    ty = ("memref", shape, elt)
    mem = f.val(None, ty, f"memref.alloc() : {f.mod.mlir(ty)}", lambda: Memref(shape))
    ivs = []

    def go(k):
        if k == len(shape):
            v = fill()
            store(f, v, mem, ivs)
            return
        def body(iv):
            ivs.append(iv)
            go(k + 1)
        f.loop(0, shape[k], body)
    if size(shape) <= 4 and c.chance(40):
        for i in indices(shape):
            store(f, fill(), mem, [f.const(x) for x in i])
    else:
        go(0)
    return mem


def extract(f, c, t, what):
    ix = f.idx(t.ty[1])
    return f.val(what, t.ty[2], f"tensor.extract {t.name}[{', '.join(i.name for i in ix)}] : {f.mod.mlir(t.ty)}", lambda T, *i: at(T, i), t, *ix, kind="ref")


def from_elements(f, vals, shape, elt):
    if any(getattr(v, "local", False) for v in vals):
        f.wild.append("a tensor of references from a local memref")
    ty = ("tensor", shape, elt)
    return f.val("tensor", ty, f"tensor.from_elements {', '.join(v.name for v in vals)} : {f.mod.mlir(ty)}", lambda *x: nest(list(x), shape), *vals)


# ---- shortint -------------------------------------------------------------------

CT = "!tfhe_rust.eui3"
SK = "!tfhe_rust.server_key"


def shortint(c, d, kind):
    m = Module(c, kind, CT, SK)
    levels = kind == "tfhe-levels"
    for k in range(1 + c.weighted([5, 2, 1])):
        f = Fn(c, m, f"f{k}")
        m.fns.append(f)
        sk = f.arg(None, SK)
        for _ in range(1 + c.draw(3)):
            f.arg("ct", CT)
        for _ in range(c.weighted([3, 2, 1])):
            f.arg("tensor", ("tensor", [c.range(1, 3) for _ in range(c.range(1, 2))], CT))
        for _ in range(c.weighted([3, 2])):
            f.arg("mem", ("memref", [c.range(1, 3) for _ in range(c.range(1, 2))], CT))
        for _ in range(c.weighted([3, 3, 1])):
            f.arg("int", c.pick(["i8", "i32", "i1", "i16", "i64"]))

        def lut():
            w = c.pick([8, 16, 64])
            tt = c.draw(1 << w)
            return f.val("lut", "!tfhe_rust.lookup_table", f"tfhe_rust.generate_lookup_table {sk.name} {{truthTable = {tt} : ui{w}}} : ({SK}) -> !tfhe_rust.lookup_table", lambda: tt)

        def ct():
            return c.pick(f.pool("ct"))

        def value(what="ct"):
            """A freshly computed ciphertext."""
            k = c.weighted([4, 4, 2, 2, 2])
            if k == 0:
                luts = f.pool("lut")
                t = c.pick(luts) if luts and c.chance(75) else lut()
                x = ct()
                return f.val(what, CT, f"tfhe_rust.apply_lookup_table {sk.name}, {x.name}, {t.name} : ({SK}, {CT}, !tfhe_rust.lookup_table) -> {CT}", lambda x, t: (t >> x) & 1, x, t, level=True)
            if k == 1:
                x, y = ct(), ct()
                return f.val(what, CT, f"tfhe_rust.add {sk.name}, {x.name}, {y.name} : ({SK}, {CT}, {CT}) -> {CT}", lambda x, y: (x + y) % 16, x, y, level=True)
            if k == 2:
                x, s = ct(), c.draw(4)
                return f.val(what, CT, f"tfhe_rust.scalar_left_shift {sk.name}, {x.name} {{shiftAmount = {s} : index}} : ({SK}, {CT}) -> {CT}", lambda x: (x << s) % 16, x, level=True)
            if k == 3:
                flat = [v for v in f.pool("ct") if not getattr(v, "level", 0)]
                x, y = (c.pick(flat), c.pick(flat)) if levels and c.chance(85) else (ct(), ct())
                if levels and (getattr(x, "level", 0) or getattr(y, "level", 0)):
                    f.wild.append("bitand of a levelled value")
                return f.val(what, CT, f"tfhe_rust.bitand {sk.name}, {x.name}, {y.name} : ({SK}, {CT}, {CT}) -> {CT}", lambda x, y: x & y, x, y)
            v = clear(f, c) if c.chance(60) else bit(f, c)
            return f.val(what, CT, f"tfhe_rust.create_trivial {sk.name}, {v.name} : ({SK}, {v.ty}) -> {CT}", lambda x: x % 16, v)

        def statement(depth):
            k = c.weighted([8, 2, 3, 2, 2, 2, 3])
            if k == 0:
                value()
            elif k == 1:
                lut()
            elif k == 2:
                ts = f.pool("tensor")
                if ts:
                    extract(f, c, c.pick(ts), "ct")
            elif k == 3:
                gs = f.pool("global")
                g = c.pick(gs) if gs and c.chance(60) else global_data(f, c, d)
                load(f, c, g, "int")
            elif k == 4:
                ms = f.pool("mem")
                if ms:
                    load(f, c, c.pick(ms), "ct")
            elif k == 5:
                xs = [v for v in f.pool("ct") if v.kind != "arg"]
                if c.chance(20):
                    xs = f.pool("ct")
                if xs:
                    shape = [c.range(1, 3) for _ in range(1 + c.draw(2))]
                    from_elements(f, [c.pick(xs) for _ in range(size(shape))], shape, CT)
            elif depth < 2:
                if c.chance(50):
                    mem = filled(f, c, [c.range(1, 3) for _ in range(c.range(1, 3))], CT, lambda: value(None))
                    f.add("mem", mem)
                else:
                    lo, step = c.draw(2), 1
                    hi = lo + c.range(1, 3)
                    if c.chance(35):
                        step = c.range(2, 3)
                    fit = [max(v.ty[1]) for v in f.pool("mem") if v.kind != "arg"]
                    if fit and c.chance(60):
                        hi = max(lo + 1, c.pick(fit))
                    acc = [v for v in f.pool("mem") if v.kind != "arg"]

                    def body(iv):
                        for _ in range(c.range(1, 3)):
                            statement(depth + 1)
                        if acc:
                            mem = c.pick(acc)
                            if c.chance(15):
                                v = ct()
                                if v.kind == "op":
                                    f.wild.append("a second use of a stored value")
                            else:
                                v = value(None)
                            store(f, v, mem, f.idx(mem.ty[1]))
                            if mem in f.scopes[0].get("mem", []):
                                touched.append(mem)
                    f.loop(lo, hi, body, step)

        touched = []
        for _ in range(c.sized(2, 12)):
            statement(0)
        # results
        cands = []
        for v in f.scopes[0].get("ct", []):
            if v.kind == "ref":
                continue
            cands.append(v)
        cands += [v for v in f.scopes[0].get("tensor", [])]
        cands += [v for v in f.scopes[0].get("mem", [])]
        value()
        cands.append(f.scopes[0]["ct"][-1])
        n = 1 + c.weighted([5, 3, 1])
        rets = []
        if touched and c.chance(70):
            cands.append(touched[0])
            rets.append(touched[0])
            n = max(1, n - 1)
        for _ in range(n):
            v = c.pick(cands[-6:] if c.chance(70) else cands)
            if v not in rets:
                rets.append(v)
        f.ret(rets, [m.mlir(v.ty) for v in rets])
    check(c, m, d)


@prop("shortint", "the emitted Rust compiles, runs, and the program's text is longer than 400 characters", 260, 6000, hang=120)
@scratch
def shortint_programs(c, d):
    shortint(c, d, "tfhe")


@prop("levels", "the emitted Rust compiles, runs, and the program's text is longer than 400 characters", 260, 6000, hang=120)
@scratch
def level_programs(c, d):
    shortint(c, d, "tfhe-levels")


# ---- boolean --------------------------------------------------------------------

EB = "!tfhe_rust_bool.eb"
GATES = {"and": lambda a, b: a & b, "nand": lambda a, b: 1 - (a & b), "or": lambda a, b: a | b, "nor": lambda a, b: 1 - (a | b),
         "xor": lambda a, b: a ^ b, "xnor": lambda a, b: 1 - (a ^ b)}
ORDER = ["and", "nand", "or", "nor", "xor", "xnor"]


@prop("boolean", "the emitted Rust compiles, runs, and the program's text is longer than 400 characters", 240, 6000, hang=120)
@scratch
def boolean(c, d):
    SKB = "!tfhe_rust_bool.server_key"
    m = Module(c, "bool", EB, SKB)
    for k in range(1 + c.weighted([5, 2, 1])):
        f = Fn(c, m, f"f{k}")
        m.fns.append(f)
        sk = f.arg(None, SKB)
        for _ in range(1 + c.draw(3)):
            f.arg("ct", EB)
        for _ in range(c.weighted([3, 2, 1])):
            f.arg("tensor", ("tensor", [c.range(1, 5)], EB))
        for _ in range(c.weighted([3, 2])):
            f.arg("mem", ("memref", [c.range(1, 3) for _ in range(c.range(1, 3))], EB))

        def value(what="ct"):
            k = c.weighted([8, 2, 1])
            xs = f.pool("ct")
            if k == 0:
                g, x, y = c.pick(ORDER), c.pick(xs), c.pick(xs)
                return f.val(what, EB, f"tfhe_rust_bool.{g} {sk.name}, {x.name}, {y.name} : ({SKB}, {EB}, {EB}) -> {EB}", GATES[g], x, y)
            if k == 1:
                x = c.pick(xs)
                return f.val(what, EB, f"tfhe_rust_bool.not {sk.name}, {x.name} : ({SKB}, {EB}) -> {EB}", lambda x: 1 - x, x)
            v = f.const(c.draw(2), "i1")
            return f.val(what, EB, f"tfhe_rust_bool.create_trivial {sk.name}, {v.name} : ({SKB}, i1) -> {EB}", lambda x: x, v)

        def statement(depth):
            k = c.weighted([8, 3, 2, 2, 3])
            if k == 0:
                value()
            elif k == 1:
                ts = f.pool("tensor")
                t = c.pick(ts) if ts else None
                if t and (t.kind == "arg" or c.chance(10)):
                    if t.kind != "arg":
                        f.wild.append("an element of a local tensor")
                    extract(f, c, t, "ct")
            elif k == 2:
                ms = f.pool("mem")
                mem = c.pick(ms) if ms else None
                if mem and (mem.kind == "arg" or c.chance(10)):
                    if mem.kind != "arg":
                        f.wild.append("an element of a local memref")
                    load(f, c, mem, "ct")
            elif k == 3:
                xs = [v for v in f.pool("ct") if v.kind == "op"]
                ok = xs
                if c.chance(15):
                    xs = f.pool("ct")
                if xs:
                    pick = [c.pick(xs) for _ in range(c.range(1, 4))]
                    if any(v not in ok for v in pick):
                        f.wild.append("a tensor of values from elsewhere")
                    t = from_elements(f, pick, [len(pick)], EB)
                    t.elems = pick
                    f.add("result", t)
            elif depth < 2:
                if c.chance(50):
                    f.add("mem", filled(f, c, [c.range(1, 3) for _ in range(c.range(1, 3))], EB, lambda: value(None)))
                else:
                    lo, step = c.draw(2), 1
                    hi = lo + c.range(1, 3)
                    if c.chance(4):
                        step = c.range(2, 3)
                        f.wild.append("a step")
                    acc = [v for v in f.pool("mem") if v.kind != "arg"]

                    def body(iv):
                        for _ in range(c.range(1, 3)):
                            statement(depth + 1)
                        if acc:
                            mem = c.pick(acc)
                            store(f, value(None) if c.chance(70) else c.pick(f.pool("ct")), mem, f.idx(mem.ty[1]))
                    f.loop(lo, hi, body, step)

        for _ in range(c.sized(2, 12)):
            statement(0)
        value()
        cands = [v for v in f.scopes[0].get("ct", []) if v.kind != "ref"] + f.scopes[0].get("result", []) + [v for v in f.scopes[0].get("mem", []) if v.kind != "arg"]
        cands += [v for v in f.scopes[0].get("tensor", []) if v.kind == "arg"]
        rets = []
        for _ in range(1 + c.weighted([5, 3, 1])):
            v = c.pick(cands[-6:] if c.chance(50) else cands)
            if v not in rets:
                rets.append(v)
        if any(v in getattr(t, "elems", ()) for t in rets for v in rets):
            f.wild.append("a result that another result borrows")
        f.ret(rets, [m.mlir(v.ty) for v in rets])
    check(c, m, d)


@prop("packed", "the emitted Rust compiles, runs, and the program's text is longer than 400 characters", 120, 3000, hang=120)
@scratch
def packed(c, d):
    SKP = "!tfhe_rust_bool.server_key_enum"
    m = Module(c, "packed", EB, SKP)
    f = Fn(c, m, "f0")
    m.fns.append(f)
    sk = f.arg(None, SKP)
    n = c.range(2, 4)
    TY = ("tensor", [n], EB)
    T = m.mlir(TY)
    for _ in range(1 + c.draw(3)):
        f.arg("tensor", TY)
    args = f.pool("tensor")
    used = set()
    vecs = []           # results of gates: Vec<Ciphertext>, not usable as a packed operand
    for _ in range(c.sized(1, 5)):
        k = c.weighted([4, 2, 3, 4, 1])
        ops = args + [v for v in f.pool("made")]
        x = c.pick(ops)
        y = c.pick([v for v in ops if v.kind == x.kind] if c.chance(90) else ops)
        if k == 2 and x.kind == "arg" and c.chance(80):
            made = f.pool("made")
            if not made:
                k = 3
            else:
                x, y = c.pick(made), c.pick(made)
        if k in (0, 2) and x.kind != y.kind or k == 2 and x.kind == "arg":
            f.wild.append("a function argument in a packed gate")
        if k == 0:
            g = c.pick(ORDER)
            vecs.append(f.val("out", TY, f"tfhe_rust_bool.{g} {sk.name}, {x.name}, {y.name} : ({SKP}, {T}, {T}) -> {T}", lambda a, b, g=g: [GATES[g](p, q) for p, q in zip(a, b)], x, y))
        elif k == 1:
            vecs.append(f.val("out", TY, f"tfhe_rust_bool.not {sk.name}, {x.name} : ({SKP}, {T}) -> {T}", lambda a: [1 - p for p in a], x))
        elif k == 2:
            gs = [c.draw(6) for _ in range(n)]
            attr = ", ".join(f"{g} : i32" for g in gs)
            vecs.append(f.val("out", TY, f"tfhe_rust_bool.gates_packed {sk.name}, {x.name}, {y.name} {{gates = #tfhe_rust_bool.tfhe_rust_bool_gates<{attr}>}} : ({SKP}, {T}, {T}) -> {T}",
                              lambda a, b, gs=gs: [GATES[ORDER[g]](p, q) for g, p, q in zip(gs, a, b)], x, y))
        elif k == 3:
            el = [extract(f, c, c.pick(args + vecs), "ct") for _ in range(n)]
            ty = m.mlir(TY)
            f.val("made", TY, f"tensor.from_elements {', '.join(v.name for v in el)} : {ty}", lambda *x: list(x), *el)
        else:
            f.wild.append("a single gate")
            a = c.pick(args + vecs)
            p, q = extract(f, c, a, None), extract(f, c, c.pick(args + vecs), None)
            g = c.pick(ORDER)
            f.val("bit", EB, f"tfhe_rust_bool.{g} {sk.name}, {p.name}, {q.name} : ({SKP}, {EB}, {EB}) -> {EB}", GATES[g], p, q)
    cands = f.pool("out") + f.pool("bit") + f.pool("made")
    if not cands:
        raise pbtlib.Discarded()
    rets = [c.pick(cands)]
    other = c.pick(cands)
    if other is not rets[0] and c.chance(30):
        rets.append(other)
        f.wild.append("two results")
    f.ret(rets, [m.mlir(v.ty) for v in rets])
    check(c, m, d)


# ---- high level -------------------------------------------------------------------

def eui(w):
    return f"!tfhe_rust.eui{w}"


@prop("high_level", "the emitted Rust compiles, runs, and the program's text is longer than 400 characters", 300, 7000, hang=120)
@scratch
def high_level(c, d):
    m = Module(c, "hl", None, SK)
    main = c.pick([8, 16, 32, 64, 4])
    widths = [main] if c.chance(60) else [main, c.pick([w for w in (4, 8, 16, 32, 64) if w != main])]
    for k in range(1 + c.weighted([5, 3, 2])):
        f = Fn(c, m, f"f{k}")
        sk = f.arg(None, SK)
        for w in widths:
            for _ in range(1 + c.draw(3)):
                f.arg("ct", eui(w))
        for _ in range(c.weighted([3, 2, 1])):
            f.arg("tensor", ("tensor", [c.range(1, 3) for _ in range(c.range(1, 2))], eui(c.pick(widths))))
        for _ in range(c.weighted([3, 2])):
            f.arg("mem", ("memref", [c.range(1, 3) for _ in range(c.range(1, 2))], eui(c.pick(widths))))

        def value(ty=None, what="ct"):
            ty = ty or eui(c.pick(widths))
            w = int(ty.split("eui")[1])
            M = (1 << w) - 1
            xs = [v for v in f.pool("ct") if v.ty == ty]
            k = c.weighted([8, 2, 2, 2, 2, 2])
            if not xs:
                k = 4
            if k == 0:
                op = c.pick(["add", "sub", "mul", "bitand", "bitor", "bitxor"])
                fn = dict(add=lambda a, b: (a + b) & M, sub=lambda a, b: (a - b) & M, mul=lambda a, b: (a * b) & M, bitand=lambda a, b: a & b, bitor=lambda a, b: a | b, bitxor=lambda a, b: a ^ b)[op]
                x, y = c.pick(xs), c.pick(xs)
                return f.val(what, ty, f"tfhe_rust.{op} {sk.name}, {x.name}, {y.name} : ({SK}, {ty}, {ty}) -> {ty}", fn, x, y)
            if k == 1:
                op = c.pick(["add", "sub", "mul"])
                fn = dict(add=lambda a, b: (a + b) & M, sub=lambda a, b: (a - b) & M, mul=lambda a, b: (a * b) & M)[op]
                if w == 4 and not c.chance(3):
                    return value(ty, what)
                x, y = c.pick(xs), f.const(c.draw(min(M, 1 << 20)) if c.chance(80) else -c.range(1, 1 << min(w - 1, 20)), f"i{w}")
                if w == 4:
                    f.wild.append("a 4-bit constant")
                return f.val(what, ty, f"tfhe_rust.{op} {sk.name}, {x.name}, {y.name} : ({SK}, {ty}, i{w}) -> {ty}", lambda a, b: fn(a, b & M), x, y)
            if k == 2:
                x, s = c.pick(xs), c.draw(w)
                return f.val(what, ty, f"tfhe_rust.scalar_right_shift {sk.name}, {x.name} {{shiftAmount = {s} : index}} : ({SK}, {ty}) -> {ty}", lambda a: a >> s, x)
            if k == 3:
                x = c.pick(f.pool("ct"))
                return f.val(what, ty, f"tfhe_rust.cast {sk.name}, {x.name} : ({SK}, {x.ty}) -> {ty}", lambda a: a & M, x)
            if k == 4:
                cw = c.pick([8, 16, 32, 64])
                if c.chance(50):
                    y = f.const(c.draw(1 << min(cw - 1, 30)) if c.chance(70) else -c.range(1, 1 << min(cw - 1, 30)), f"i{cw}")
                else:
                    y = clear(f, c)
                yw = int(y.ty[1:])
                return f.val(what, ty, f"tfhe_rust.create_trivial {sk.name}, {y.name} : ({SK}, {y.ty}) -> {ty}", lambda a: a & ((1 << yw) - 1) & M, y)
            v = c.draw(1 << min(w, 30))
            aw = c.pick([32, 64])
            return f.val(what, ty, f"tfhe_rust.create_trivial {sk.name} {{valueAttr = {v} : i{aw}}} : ({SK}) -> {ty}", lambda: v & M)

        def callit():
            callees = [g for g in m.fns if len(g.rets) == 1 and isinstance(g.rets[0].ty, str) and not any(a.ty != SK and isinstance(a.ty, tuple) and a.ty[0] == "memref" for a in g.args)]
            if not callees:
                return
            g = c.pick(callees)
            args = []
            for a in g.args:
                if a.ty == SK:
                    args.append(sk)
                    continue
                xs = [v for v in f.pool("ct") + f.pool("tensor") if v.ty == a.ty]
                if not xs and isinstance(a.ty, tuple):
                    n = size(a.ty[1])
                    from_elements(f, [value(a.ty[2]) for _ in range(n)], a.ty[1], a.ty[2])
                    xs = [f.pool("tensor")[-1]]
                args.append(c.pick(xs) if xs else value(a.ty))
            tys = ", ".join(m.mlir(a.ty) for a in g.args)
            rt = g.rets[0].ty
            f.val("ct", rt, f"func.call @{g.name}({', '.join(a.name for a in args)}) : ({tys}) -> {rt}", lambda *x, g=g: g.run(list(x)), *args)
            c.label("call")

        def statement(depth):
            k = c.weighted([9, 3, 2, 2, 2, 2, 2, 2])
            if k == 0:
                value()
            elif k == 1:
                ts = f.pool("tensor")
                if ts:
                    extract(f, c, c.pick(ts), "ct")
            elif k == 2:
                ms = f.pool("mem")
                if ms:
                    mem = c.pick(ms)
                    if c.chance(30):
                        # affine.load with constant indices
                        ix = [c.draw(n) for n in mem.ty[1]]
                        if mem.kind != "arg":
                            f.wild.append("affine.load of a local memref")
                        loaded(f, mem)
                        f.val("ct", mem.ty[2], f"affine.load {mem.name}[{', '.join(map(str, ix))}] : {m.mlir(mem.ty)}", lambda M, i=tuple(ix): M.data[i], mem, kind="ref")
                    else:
                        load(f, c, mem, "ct")
            elif k == 3:
                ty = eui(c.pick(widths))
                xs = [v for v in f.pool("ct") if v.ty == ty]
                shape = [c.range(1, 3)]
                if c.chance(15):
                    shape.append(c.range(1, 3))
                if xs:
                    from_elements(f, [c.pick(xs) for _ in range(size(shape))], shape, ty)
            elif k == 4:
                gs = f.pool("global")
                load(f, c, c.pick(gs) if gs and c.chance(60) else global_data(f, c, d), "int")
            elif k == 5:
                callit()
            elif k == 6:
                # insertions into an empty tensor
                n = c.range(1, 3)
                w = widths[0]
                if c.chance(10):
                    w = c.pick(widths)
                    if w != widths[0]:
                        f.wild.append("an empty tensor of another width")
                ty = ("tensor", [n], eui(w))
                vals = [value(eui(w)) for _ in range(n)]
                t = f.val(None, ty, f"tensor.empty() : {m.mlir(ty)}", lambda: [0] * n)
                order = list(range(n))
                c.shuffle(order)
                for i in order:
                    ix = f.const(i)
                    t = f.val(None, ty, f"tensor.insert {vals[i].name} into {t.name}[{ix.name}] : {m.mlir(ty)}", lambda x, T, i: T[:i] + [x] + T[i + 1:], vals[i], t, ix)
                f.add("tensor", t)
            elif depth < 2:
                j = c.weighted([4, 3, 3])
                if j == 0:
                    ty = eui(c.pick(widths))
                    f.add("mem", filled(f, c, [c.range(1, 3) for _ in range(c.range(1, 3))], ty, lambda: value(ty, None)))
                elif j == 1:
                    lo, step = c.draw(2), 1
                    hi = lo + c.range(1, 3)
                    if c.chance(4):
                        step = c.range(2, 3)
                        f.wild.append("a step")
                    acc = [v for v in f.pool("mem") if v.kind != "arg"]

                    def body(iv):
                        for _ in range(c.range(1, 3)):
                            statement(depth + 1)
                        if acc:
                            mem = c.pick(acc)
                            v = value(mem.ty[2], None)
                            if c.chance(30):
                                ix = [c.draw(n) for n in mem.ty[1]]
                                names = (v.name, mem.name, tuple(ix))
                                stored(f, mem)

                                def step_(env, names=names):
                                    env[names[1]].data[names[2]] = env[names[0]]
                                f.emit(f"affine.store {v.name}, {mem.name}[{', '.join(map(str, ix))}] : {m.mlir(mem.ty)}", step_)
                            else:
                                store(f, v, mem, f.idx(mem.ty[1]))
                    f.loop(lo, hi, body, step)
                else:
                    folding(depth)

        def folding(depth):
            """A loop that carries one ciphertext, or a tensor whose elements it replaces."""
            lo = c.draw(2)
            hi = lo + c.range(1, 3)
            tensor = c.chance(40)
            w = widths[0]
            elt = eui(w)
            ty = ("tensor", [hi], elt) if tensor else elt
            if tensor:
                init = f.val(None, ty, f"tensor.empty() : {m.mlir(ty)}", lambda n=hi: [0] * n)
            else:
                init = value(elt, None)
            iv, acc, r = V(f.fresh(), "index", kind="iv", lo=lo, hi=hi), V(f.fresh(), ty, kind="acc"), f.fresh()
            f.emit(f"{r} = affine.for {iv.name} = {lo} to {hi} iter_args({acc.name} = {init.name}) -> ({m.mlir(ty)}) {{")
            f.blocks.append(([], []))
            f.scopes.append({"iv": [iv]})
            f.consts.append({})
            for _ in range(c.draw(3)):
                value()
            if tensor:
                x = value(elt, None)
                y = f.val(None, ty, f"tensor.insert {x.name} into {acc.name}[{iv.name}] : {m.mlir(ty)}", lambda x, T, i: T[:i] + [x] + T[i + 1:], x, acc, iv)
            else:
                x = c.pick([v for v in f.pool("ct") if v.ty == elt] or [value(elt, None)])
                op = c.pick(["add", "mul", "bitxor", "sub"])
                M = (1 << w) - 1
                fn = dict(add=lambda a, b: (a + b) & M, sub=lambda a, b: (a - b) & M, mul=lambda a, b: (a * b) & M, bitxor=lambda a, b: a ^ b)[op]
                p, q = (acc, x) if c.chance(60) else (x, acc)
                y = f.val(None, elt, f"tfhe_rust.{op} {sk.name}, {p.name}, {q.name} : ({SK}, {elt}, {elt}) -> {elt}", fn, p, q)
            f.emit(f"affine.yield {y.name} : {m.mlir(ty)}")
            f.consts.pop()
            f.scopes.pop()
            lines, steps = f.blocks.pop()
            f.blocks[-1][0].extend(lines)

            def run(env):
                a = env[init.name]
                for i in range(lo, hi):
                    env[iv.name], env[acc.name] = i, a
                    for s in steps:
                        s(env)
                    a = env[y.name]
                env[r] = a
            f.emit("}", run)
            f.add("tensor" if tensor else "ct", V(r, ty))
            c.label("fold")

        value(eui(main))
        for _ in range(c.sized(2, 10)):
            statement(0)
        value()
        cands = [v for v in f.scopes[0].get("ct", []) if v.kind != "ref"] + f.scopes[0].get("tensor", []) + f.scopes[0].get("mem", [])
        if k == 0 and c.chance(50):
            cands = [v for v in f.scopes[0].get("ct", []) if v.kind != "ref"]
        rets = []
        for _ in range(1 + c.weighted([5, 3, 1])):
            v = c.pick(cands[-6:] if c.chance(50) else cands)
            if v not in rets:
                rets.append(v)
        f.ret(rets, [m.mlir(v.ty) for v in rets])
        m.fns.append(f)
    check(c, m, d)


# ---- known findings -----------------------------------------------------------------

@prop("kf_trunc_to_bit", "always", 4, 4, hang=120)
@scratch
def kf_trunc_to_bit(c, d):
    # arith.trunci to i1 keeps the lowest bit.
    m = Module(c, "tfhe", CT, SK)
    f = Fn(c, m, "f0")
    m.fns.append(f)
    sk = f.arg(None, SK)
    x = f.arg("int", "i8")
    one = f.val(None, "i1", f"arith.trunci {x.name} : i8 to i1", lambda a: a & 1, x)
    y = f.val("ct", CT, f"tfhe_rust.create_trivial {sk.name}, {one.name} : ({SK}, i1) -> {CT}", lambda a: a, one)
    f.ret([y], [CT])
    c.nontrivial()
    check(c, m, d)


@prop("kf_untyped_constant", "always", 4, 4, hang=120)
@scratch
def kf_untyped_constant(c, d):
    # 100 << 3 is 32 in eight bits.
    m = Module(c, "tfhe", CT, SK)
    f = Fn(c, m, "f0")
    m.fns.append(f)
    sk = f.arg(None, SK)
    a, b = f.const(100, "i8"), f.const(3, "i8")
    v = f.val(None, "i8", f"arith.shli {a.name}, {b.name} : i8", lambda a, b: signed(a << b, 8), a, b)
    s = f.const(5, "i8")
    v = f.val(None, "i8", f"arith.shrsi {v.name}, {s.name} : i8", lambda a, b: a >> b, v, s)
    y = f.val("ct", CT, f"tfhe_rust.create_trivial {sk.name}, {v.name} : ({SK}, i8) -> {CT}", lambda a: a, v)
    f.ret([y], [CT])
    c.nontrivial()
    check(c, m, d)


if __name__ == "__main__":
    pbtlib.main()
