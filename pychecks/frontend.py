"""C19: the MLIR the Python frontend emits for a function computes what the function computes."""
import json
import math
import os
import re
import struct
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbtlib  # noqa: E402
from pbtlib import prop  # noqa: E402

sys.path.insert(0, os.path.join(pbtlib.REPO, "frontend"))
import heir  # noqa: E402,F401  (installs the import hook)
from heir.mlir import types as ht  # noqa: E402
from heir.mlir_emitter import TextualMlirEmitter  # noqa: E402
from numba.core import compiler  # noqa: E402
from numba.core.registry import cpu_target  # noqa: E402
from numba.core.typed_passes import type_inference_stage  # noqa: E402
from mlirserver import ask, num  # noqa: E402

NS = {k: getattr(ht, k) for k in ("Secret", "Tensor", "F32", "F64", "I1", "I8", "I16", "I32", "I64")}


def emit(src, name):
    ns = dict(NS)
    exec(compile(src, "gen.py", "exec"), ns)
    f = ns[name]
    nir = compiler.run_frontend(f)
    args, secret, _ = ht.parse_annotations(f.__annotations__)
    t, g = cpu_target.typing_context, cpu_target.target_context
    t.refresh()
    g.refresh()
    tm, rt, _, _ = type_inference_stage(t, g, nir, args, None)
    return TextualMlirEmitter(nir, secret, tm, rt, name).emit()


class Skip(Exception):
    """The reference run leaves the domain the property speaks about."""


def wrap(v, w):
    v = int(v) & ((1 << w) - 1)
    return v - (1 << w) if w > 1 and v >> (w - 1) else v


def litw(v):
    """The width the frontend gives an integer literal."""
    n = max(abs(int(v)).bit_length(), (-int(v)).bit_length())
    return next(w for w in (8, 16, 32, 64) if n < w)


def width(v):
    # A bool takes part in arithmetic as 0 or 1.
    return v.w if isinstance(v, T) else 1 if isinstance(v, bool) else litw(v)


NOWRAP = [False]


def binary(a, b, f):
    w = max(width(a), width(b))
    r = f(int(a), int(b))
    if NOWRAP[0] and not -(1 << (w - 1)) <= r < 1 << (w - 1):
        raise Skip
    return T(r, w)


def shift(a, b, f):
    w = max(width(a), width(b))
    if not 0 <= int(b) < w:
        raise Skip
    r = f(int(a), int(b))
    if NOWRAP[0] and not -(1 << (w - 1)) <= r < 1 << (w - 1):
        raise Skip
    return T(r, w)


def div(a, b, f):
    # negative operands of // and % are a sub-property of their own (kf_floor_division)
    if int(b) == 0 or int(a) < 0 or int(b) < 0:
        raise Skip
    return binary(a, b, f)


class T:
    """An integer of a fixed width: the documented typing of the frontend, where
    an operation is carried out at the width of its wider operand."""
    def __init__(self, v, w): self.w, self.v = w, wrap(v, w)
    def __int__(self): return self.v
    def __index__(self): return self.v
    def __bool__(self): return self.v != 0
    def __hash__(self): return hash(self.v)


for _n, _f in dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b, xor=lambda a, b: a ^ b).items():
    setattr(T, f"__{_n}__", lambda a, b, f=_f: binary(a, b, f))
    setattr(T, f"__r{_n}__", lambda a, b, f=_f: binary(b, a, f))
T.__and__ = lambda a, b: binary(a, b, lambda x, y: x & y)
T.__rand__ = lambda a, b: binary(b, a, lambda x, y: x & y)
for _n, _f in dict(lshift=lambda a, b: a << b, rshift=lambda a, b: a >> b).items():
    setattr(T, f"__{_n}__", lambda a, b, f=_f: shift(a, b, f))
    setattr(T, f"__r{_n}__", lambda a, b, f=_f: shift(b, a, f))
for _n, _f in dict(floordiv=lambda a, b: a // b, mod=lambda a, b: a % b).items():
    setattr(T, f"__{_n}__", lambda a, b, f=_f: div(a, b, f))
    setattr(T, f"__r{_n}__", lambda a, b, f=_f: div(b, a, f))
for _n, _f in dict(lt=lambda a, b: a < b, ge=lambda a, b: a >= b, eq=lambda a, b: a == b, ne=lambda a, b: a != b, gt=lambda a, b: a > b,
                   le=lambda a, b: a <= b).items():
    setattr(T, f"__{_n}__", lambda a, b, f=_f: f(int(a), int(b)))


class V:
    """Elementwise arithmetic on (nested) lists of T."""
    def __init__(self, x): self.x = x
    def _op(a, b, f): return V([f(p, q) if not isinstance(p, list) else V(p)._op(V(q), f).x for p, q in zip(a.x, b.x)])
    def __add__(a, b): return a._op(b, lambda p, q: p + q)
    def __sub__(a, b): return a._op(b, lambda p, q: p - q)
    def __mul__(a, b): return a._op(b, lambda p, q: p * q)


class F:
    """A float of a fixed width; every operation rounds to it."""
    def __init__(self, v, w):
        self.w = w
        try:
            self.v = struct.unpack("f", struct.pack("f", v))[0] if w == 32 else float(v)
        except OverflowError:
            self.v = math.copysign(math.inf, v)
    def __float__(self): return self.v


for _n, _f in dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b).items():
    setattr(F, f"__{_n}__", lambda a, b, f=_f: F(f(a.v, float(b)), a.w))
    setattr(F, f"__r{_n}__", lambda a, b, f=_f: F(f(float(b), a.v), a.w))
for _n, _f in dict(lt=lambda a, b: a < b, ge=lambda a, b: a >= b, eq=lambda a, b: a == b, ne=lambda a, b: a != b).items():
    setattr(F, f"__{_n}__", lambda a, b, f=_f: f(a.v, float(b)))


def ref_ns():
    ns = dict(NS)
    for w in (8, 16, 32, 64):
        ns[f"I{w}"] = lambda v, w=w: float_to_int(v.v, w) if isinstance(v, F) else T(int(v), w)
    ns["F32"] = lambda v: F(int(v), 32)
    ns["F64"] = lambda v: F(int(v), 64)
    ns["range"] = lambda *a: [T(i, 32) for i in range(*a)]
    return ns


def float_to_int(v, w):
    if not math.isfinite(v) or not -(1 << (w - 1)) <= int(v) < 1 << (w - 1):
        raise Skip
    return T(int(v), w)


def plain(v):
    if isinstance(v, V):
        return plain(v.x)
    if isinstance(v, list):
        return [x for e in v for x in (plain(e) if isinstance(e, list) else [plain(e)])]
    if isinstance(v, F):
        return v.v
    return v if isinstance(v, (bool, float)) else int(v)


def jarg(v):
    if isinstance(v, float) and not math.isfinite(v):
        return str(v)
    return int(v) if isinstance(v, bool) else [jarg(e) for e in v] if isinstance(v, list) else v


def reference(src, name, args):
    body = src.split(":\n", 1)[1]
    head = f"def {name}({', '.join(a[0] for a in args)}):\n"
    ns = ref_ns()
    exec(head + body, ns)
    try:
        return plain(ns[name](*[a[1] for a in args]))
    except ZeroDivisionError:  # of two literals
        raise Skip


# -- generation --------------------------------------------------------------
class Gen:
    def __init__(self, c, types, ops, consts, casts=()):
        self.c, self.ops, self.consts, self.casts = c, ops, consts, casts
        self.args = [(n, t, c.chance(60)) for n, t in zip("abcdeg", types)]
        self.lines = []
        self.vars = {n: t for n, t, _ in self.args}  # assigned on every path so far
        self.bools = [n for n, t in self.vars.items() if t == "I1"]
        self.fresh = 0
        self.feats = set()
        self.noreassign = set(self.vars)
        self.lits = []
        self.noindex = any(t[0] in "FT" for t in types)

    def head(self, name):
        return f"def {name}(" + ", ".join(f"{n}: Secret[{t}]" if s else f"{n}: {t}" for n, t, s in self.args) + "):\n"

    def nums(self):
        return [v for v in self.vars if v not in self.bools]

    def expr(self, depth, extra=()):
        c = self.c
        vs = self.nums() + list(extra)
        if depth == 0 or c.chance(25):
            if self.consts and c.chance(30):
                return str(c.pick(list(self.consts) + self.lits))
            return c.pick(vs)
        if self.casts and c.chance(12):
            self.feats.add("cast")
            e = self.var_expr(depth - 1, extra)
            return f"{c.pick(self.casts)}({e})"
        op = c.pick(self.ops)
        l = self.expr(depth - 1, extra)
        if op in ("<<", ">>"):
            r = c.pick([1, 2, 3, 0, 5])
        elif op in ("//", "%"):
            r = c.pick([2, 3, 5, 7, 1]) if c.chance(60) else self.expr(depth - 1, extra)
        else:
            r = self.expr(depth - 1, extra)
        live = lambda e: set(re.findall("[a-z]+[0-9]*", str(e))) & (set(self.nums()) | set(extra))
        if not live(l) and (op in ("<<", ">>") or not live(r)):
            l = c.pick(self.nums())
        self.feats.add(op)
        return f"({l} {op} {r})"

    def var_expr(self, depth, extra=()):
        # An expression that mentions a variable (numba folds constants away).
        e = self.expr(depth, extra)
        return e if set(re.findall("[a-z]+[0-9]*", e)) & set(self.nums()) else f"({self.c.pick(self.nums())} {self.c.pick(self.ops[:1])} {e})"

    def cond(self):
        c = self.c
        if self.bools and c.chance(40):
            return c.pick(self.bools)
        self.feats.add("compare")
        return f"{self.var_expr(1)} {c.pick(['<', '>=', '==', '!='])} {self.expr(1)}"

    def new(self):
        self.fresh += 1
        return f"v{self.fresh}"

    def locals_(self):
        return [v for v in self.nums() if v not in self.noreassign]

    def assign(self, ind, depth=2, extra=(), target=None):
        c = self.c
        v = target
        if v is None:
            v = c.pick(self.locals_()) if self.locals_() and c.chance(35) else self.new()
        e = self.var_expr(c.range(1, depth), extra)
        if e in self.vars and e not in self.locals_():
            # A copy of an argument takes the argument's type along when it is widened.
            e = f"({e} {self.ops[0]} {c.pick(self.nums())})"
        self.lines.append(f"{ind}{v} = {e}")
        return v

    def if_(self, ind):
        c = self.c
        self.feats.add("if")
        targets = sorted({c.pick(self.locals_()) if self.locals_() and c.chance(60) else self.new() for _ in range(1 if c.chance(75) else 2)})
        self.lines.append(f"{ind}if {self.cond()}:")
        saved = dict(self.vars)
        for _ in range(2):
            self.vars = dict(saved)
            if c.chance(25):
                t = self.new()
                self.assign(ind + "  ", 2, (), t)
                self.vars[t] = None
            for t in targets:
                self.assign(ind + "  ", 2, (), t)
            if _ == 0:
                self.lines.append(f"{ind}else:")
        self.vars = dict(saved)
        for t in targets:
            self.vars[t] = None

    def loop(self, ind, var_bounds=False):
        c = self.c
        self.feats.add("for")
        it = self.new().replace("v", "i")
        lo, n, step = c.pick([0, 0, 1, 2]), c.pick([2, 3, 1, 4, 0, 5]), c.pick([1, 1, 1, 2, 3])
        form = c.draw(3)
        if form == 0:
            r = f"range({n})"
        elif form == 1 or step == 1:
            r = f"range({lo}, {lo + n})"
            self.feats.add("range2")
        else:
            r = f"range({lo}, {lo + n}, {step})"
            self.feats.add("range3")
        self.lines.append(f"{ind}for {it} in {r}:")
        carried = self.locals_()
        # Locals of the body come first and do not live after it.
        saved = dict(self.vars)
        extra = [it] if c.chance(70) and not self.noindex else []
        if extra:
            self.feats.add("loop index")
        for _ in range(c.weighted([60, 30, 10])):
            self.vars[self.assign(ind + "  ", 2, extra, self.new())] = None
        done, promoted = 0, []
        for _ in range(c.range(1, 2)):
            if carried or self.lits:
                t = c.pick(carried + self.lits)
                if t in self.lits:
                    self.lits.remove(t)
                    promoted.append(t)
                    self.feats.add("literal carried")
                # reads itself so that it is carried
                self.lines.append(f"{ind}  {t} = {t} {c.pick(self.ops[:3])} {self.var_expr(1, extra)}")
                done = 1
        if not done:
            self.assign(ind + "  ", 2, extra, self.new())
        self.vars = saved
        for t in promoted:
            self.vars[t] = None

    def program(self, name, n, allow):
        c = self.c
        for _ in range(n):
            k = c.weighted([50, 25 * ("if" in allow), 30 * ("for" in allow)])
            if k == 0 and self.consts and "for" in allow and c.chance(15):
                v = self.new()
                self.lines.append(f"  {v} = {c.pick(self.consts)}")
                self.lits.append(v)
            elif k == 0:
                self.vars[self.assign("  ")] = None
            elif k == 1:
                self.if_("  ")
            else:
                if not self.locals_():
                    self.vars[self.assign("  ", target=self.new())] = None
                self.loop("  ")
        if "tail" in allow and c.chance(25):
            self.feats.add("terminal if")
            self.lines += [f"  if {self.cond()}:", f"    return {self.var_expr(2)}", "  else:", f"    return {self.var_expr(2)}"]
        else:
            self.lines.append(f"  return {self.var_expr(1)}")
        return self.head(name) + "\n".join(self.lines) + "\n"


def fcheck(got, want):
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(fcheck(g, w) for g, w in zip(got, want))
    if isinstance(want, bool):
        return (got & 1) == int(want)
    got = num(got)
    if isinstance(want, float):
        return got == want or (math.isnan(got) and math.isnan(want))
    return got == want


def mlir_type(t):
    return {"F": "f"}.get(t[0], "i") + t[1:]


def judge(c, src, name, g, argvals, must):
    """Runs the emitted MLIR and the Python function on each argument tuple."""
    c.desc(src)
    err = None
    try:
        text = emit(src, name)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, pbtlib.Hang)):
            raise
        err = f"{type(e).__name__}: {e}"
    if err is None:
        c.desc(text)
        r = ask(text, name, [[jarg(v) for v in vs] for vs in argvals])
        if "error" in r:
            err = "invalid MLIR: " + r["error"]
    if err is not None:
        if must:
            c.fail(f"a supported program was rejected: {err}")
        c.label("rejected" + (err[:150] if os.environ.get("WHY") else ""))
        return False
    # the signature
    for (n, t, s), at, names in zip(g.args, r["args"], r["attrs"]):
        c.eq("secret.secret" in names, s, f"secrecy of argument {n}")
        if t.startswith("Tensor"):
            dims, elem = re.fullmatch(r"Tensor\[(\[.*\]), (\w+)\]", t).groups()
            dims = json.loads(dims)
            c.eq(at, "tensor<" + "?x" * len(dims) + mlir_type(elem) + ">", f"type of argument {n}")
            c.eq(names.get("shape.shape"), "[" + ", ".join(map(str, dims)) + "]", f"shape of argument {n}")
        else:
            c.eq(at, mlir_type(t), f"type of argument {n}")
            c.check("shape.shape" not in names, f"argument {n} has a shape")
    c.eq(len(r["args"]), len(g.args), "number of arguments")
    ok = 0
    for vs, out in zip(argvals, r["runs"]):
        try:
            want = reference(src, name, [(n, W(v, t)) for (n, t, _), v in zip(g.args, vs)])
        except Skip:
            continue
        if "unsupported" in out:
            c.label("unsupported: " + out["unsupported"])
            continue
        c.check("ub" not in out, f"f{tuple(map(plain, vs))} is undefined: {out.get('ub')}; Python gives {want}")
        c.check(fcheck(out["r"][0], want), f"f{tuple(map(plain, vs))}: the MLIR gives {out['r'][0]}, Python gives {want}")
        ok += 1
    for f in sorted(g.feats):
        c.label(f)
    if ok:
        c.nontrivial(src)
    return True


def W(v, t):
    if t.startswith("Tensor"):
        w = int(t.split(", I")[1][:-1])
        def tens(v): return [tens(e) if isinstance(e, list) else T(e, w) for e in v]
        return V(tens(v))
    return v if isinstance(v, bool) else F(v, int(t[1:])) if t[0] == "F" else T(v, int(t[1:]))


def values(c, types, runs):
    r = []
    for _ in range(runs):
        vs = []
        for t in types:
            if t == "I1":
                vs.append(bool(c.draw(2)))
            else:
                w = int(t[1:])
                v = c.pick([2, 1, 3, 0, -1, -2, 5, 7, -4]) if c.chance(50) else c.sint(1000) if c.chance(60) else c.range(-(1 << (w - 1)), (1 << (w - 1)) - 1)
                vs.append(wrap(v, w))
        r.append(vs)
    return r


INT_OPS = ["+", "-", "*", "&", "^", "<<", ">>", "//", "%"]


@prop("int_programs", "the program compiled and at least one argument tuple has a defined result", 1200, 30000)
def int_programs(c):
    types = ["I64"] * c.range(1, 3) + ["I1"] * c.weighted([55, 35, 10])
    g = Gen(c, types, INT_OPS[:c.pick([3, 9])], [1, 2, 3, 0, 5, 10, 100, 1000])
    src = g.program("f", c.range(1, 5), ("if", "for", "tail"))
    judge(c, src, "f", g, values(c, types, 6), must=True)


@prop("narrow_programs", "as int_programs", 800, 20000)
def narrow_programs(c):
    t = c.pick(["I8", "I16", "I32"])
    types = [t] * c.range(1, 3) + ["I1"] * c.weighted([75, 25])
    g = Gen(c, types, INT_OPS[:c.pick([3, 9])], [1, 2, 3, 0, 5, 100])
    src = g.program("f", c.range(1, 5), ("if", "tail"))
    judge(c, src, "f", g, values(c, types, 6), must=True)


@prop("mixed_programs", "as int_programs; a program whose widths do not fit together may be rejected", 1200, 30000)
def mixed_programs(c):
    types = [c.pick(["I8", "I16", "I32", "I64"]) for _ in range(c.range(2, 4))]
    g = Gen(c, types, INT_OPS[:c.pick([3, 9])], [1, 2, 100, 200, 1000, 40000, 3000000000, 127, 128, 32767, 32768], casts=["I8", "I16", "I32", "I64"])
    flow = c.chance(40)
    src = g.program("f", c.range(1, 5), ("if", "for", "tail") if flow else ())
    # A variable merged from several widths has the widest: only values that fit
    # everywhere are compared then.
    NOWRAP[0] = flow
    judge(c, src, "f", g, values(c, types, 6), must=False)


@prop("bool_programs", "as int_programs", 600, 10000)
def bool_programs(c):
    # logic on bools, comparisons, and bools that count as 0 and 1
    names = ["a", "b", "d", "e"]
    types = ["I1", "I1", "I1", c.pick(["I64", "I16", "I8"])]
    w = int(types[3][1:])

    def bexpr(d):
        k = c.weighted([30, 25, 25, 10, 10]) if d else 0
        if k == 0:
            return c.pick(names[:3])
        if k == 1:
            return f"({bexpr(d - 1)} {c.pick(['&', '^'])} {bexpr(d - 1)})"
        if k == 2:
            return f"({nexpr(d - 1)} {c.pick(['<', '>=', '==', '!='])} {nexpr(d - 1)})"
        if k == 3:
            return f"({bexpr(d - 1)} {c.pick(['<', '>=', '==', '!='])} {bexpr(d - 1)})"
        return c.pick(["True", "False"])

    def nexpr(d):
        if d == 0 or c.chance(20):
            return "e"
        k = c.draw(3)
        x = nexpr(d - 1)
        y = nexpr(d - 1) if k == 0 else str(c.pick([1, 2, 5])) if k == 1 else bexpr(d - 1)
        if y in ("True", "False"):
            y = "a"
        return f"({x} {c.pick(['+', '-', '*'])} {y})" if c.chance(50) else f"({y} {c.pick(['+', '-', '*'])} {x})"
    g = Gen(c, types, [], [])
    g.args = [(n, t, s) for n, (_, t, s) in zip(names, g.args)]
    lines = []
    for i in range(c.range(0, 2)):
        lines.append(f"  v{i} = {bexpr(2)}")
    if c.chance(50):
        lines += [f"  if {c.pick(names[:3])}:", f"    x = {bexpr(2)}", "  else:", f"    x = {bexpr(2)}", f"  y = {c.pick(['x & a', 'x ^ b', 'x == d', 'e + x'])}", "  return y"]
    else:
        lines.append(f"  return {bexpr(3) if c.chance(50) else nexpr(3)}")
    src = g.head("f") + "\n".join(lines) + "\n"
    vals = [[bool(c.draw(2)) for _ in range(3)] + [c.range(-(1 << (w - 1)), (1 << (w - 1)) - 1) if c.chance(30) else c.sint(3)] for _ in range(6)]
    judge(c, src, "f", g, vals, must=False)


@prop("float_programs", "as int_programs", 500, 10000)
def float_programs(c):
    t = c.pick(["F64", "F32"])
    types = [t] * c.range(1, 3) + ["I1"] * c.weighted([60, 40])
    g = Gen(c, types, ["+", "-", "*"], [] if t == "F32" else ["0.5", "2.0", "1e-07", "1.25e+20", "0.1", "3.0", "1e22"])
    src = g.program("f", c.range(1, 4), ("if", "tail") if c.chance(60) else ("for",))

    def real():
        return c.sint(24) / c.pick([1, 2, 4]) if c.chance(85) else float(c.pick(["inf", "-inf", "nan", "-0.0"]))
    vals = [[bool(c.draw(2)) if t == "I1" else real() for t in types] for _ in range(6)]
    judge(c, src, "f", g, vals, must="loop index" not in g.feats)


@prop("casts", "as int_programs", 300, 5000)
def casts(c):
    src_t, dst_t = c.pick(["I8", "I16", "I32", "I64", "F32", "F64", "I1"]), c.pick(["I8", "I16", "I32", "I64", "F32", "F64"])
    if src_t == dst_t or src_t[0] == dst_t[0] == "F":
        c.discard()
    g = Gen(c, [src_t, dst_t], [], [])
    body = c.pick([f"{dst_t}(a)", f"{dst_t}(a) + b", f"b * {dst_t}(a)", f"{dst_t}(a) - b" if src_t == "I1" else f"{dst_t}(a + a)"])
    src = g.head("f") + f"  return {body}\n"

    def val(t):
        if t == "I1":
            return bool(c.draw(2))
        if t[0] == "F":
            return c.sint(400) / c.pick([1, 2, 4])
        w = int(t[1:])
        return c.sint(200) if c.chance(50) and w > 8 else c.range(-(1 << (w - 1)), (1 << (w - 1)) - 1)
    NOWRAP[0] = src_t[0] == "F"
    judge(c, src, "f", g, [[val(src_t), val(dst_t)] for _ in range(6)], must=True)


@prop("tensor_programs", "as int_programs", 400, 8000)
def tensor_programs(c):
    dims = [c.range(1, 4) for _ in range(c.range(1, 2))]
    t = c.pick(["I16", "I32", "I64", "I8"])
    types = [f"Tensor[{dims}, {t}]"] * c.range(2, 3)
    g = Gen(c, types, ["+", "-", "*"], [])
    src = g.program("f", c.range(1, 4), ("for",) if c.chance(50) else ())
    if c.chance(50):
        # an argument that takes no part, often of the same rank and element type
        other = [c.range(1, 5) for _ in dims] if c.chance(60) else [c.range(1, 5) for _ in range(c.range(1, 3))]
        g.args.insert(c.range(0, len(g.args)), ("z", f"Tensor[{other}, {t if c.chance(80) else 'I32'}]", c.chance(50)))
        types = [a[1] for a in g.args]
        src = g.head("f") + src.split("\n", 1)[1]
        g.feats.add("other shape")
    w = int(t[1:])

    def val(d):
        return [val(d[1:]) for _ in range(d[0])] if d else c.sint(9) if c.chance(70) else c.range(-(1 << (w - 1)), (1 << (w - 1)) - 1)
    judge(c, src, "f", g, [[val(json.loads(t[7:t.index("]") + 1])) for t in types] for _ in range(4)], must="loop index" not in g.feats)


@prop("cast_values", "always", 400, 5000)
def cast_values(c):
    """A cast is a value that plain Python computes with, so that the original function still runs."""
    ctor = c.pick([ht.I8, ht.I16, ht.I32, ht.I64, ht.F32, ht.F64])
    fl = ctor in (ht.F32, ht.F64)
    val = lambda: c.sint(60) / 4 if fl and c.chance(60) else c.sint(100)
    a, b = val(), val()
    op = c.pick(["+", "-", "*", "==", "!="] + ([] if fl else ["<<", ">>"]))
    if op in ("<<", ">>"):
        b = abs(b) % 9
    x, y = c.pick([(ctor(a), b), (a, ctor(b)), (ctor(a), ctor(b))])
    env = dict(x=x, y=y, a=a, b=b)
    c.desc(f"{ctor.__name__} {a} {op} {b}, wrapped: {isinstance(x, ht.MLIRType)}, {isinstance(y, ht.MLIRType)}")
    c.eq(eval(f"x {op} y", env), eval(f"a {op} b", env), "value")
    if not fl:
        w = ctor(a)
        c.eq((int(w), str(w), repr(w), list(range(200))[w]), (a, str(a), str(a), list(range(200))[a]), "conversions")
    c.check(isinstance(raises_(lambda: ctor() + 1), RuntimeError), "a type without a value takes part in arithmetic")
    c.nontrivial((ctor.__name__, a, op, b))


def raises_(f):
    try:
        return f()
    except Exception as e:
        return e


@prop("kf_floor_division", "the program compiled", 20, 20)
def kf_floor_division(c):
    # Python rounds // towards minus infinity and gives % the sign of the divisor.
    op = c.pick(["//", "%"])
    g = Gen(c, ["I64", "I64"], [], [])
    src = g.head("f") + f"  return a {op} b\n"
    c.desc(src)
    a, b = c.pick([-7, 7, -1, -9]), c.pick([-2, 2, 3, -4])
    r = ask(emit(src, "f"), "f", [[a, b]])
    want = a // b if op == "//" else a % b
    c.nontrivial((op, a, b))
    c.eq(r["runs"][0]["r"][0], want, f"{a} {op} {b}")


if __name__ == "__main__":
    pbtlib.main()
