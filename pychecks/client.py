"""C20: the Python client runs the program it was compiled from, with the right keys and arguments.

heir-opt and heir-translate are stand-ins that log what they are asked and pass
the text on; the module they produce is a real extension module whose functions
return a record of what they were called with."""
import contextlib
import io
import json
import os
import re
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbtlib  # noqa: E402
from pbtlib import prop  # noqa: E402

sys.path.insert(0, os.path.join(pbtlib.REPO, "frontend"))
import heir  # noqa: E402
from heir.backends.cleartext import CleartextBackend  # noqa: E402
from heir.backends.openfhe import OpenFHEBackend  # noqa: E402
from heir.backends.openfhe.config import OpenFHEConfig  # noqa: E402
from heir.heir_cli.heir_cli_config import HEIRConfig  # noqa: E402
from heir.interfaces import BackendInterface, EncValue  # noqa: E402
from heir.mlir import types as ht  # noqa: E402

TOOL = r'''#!/usr/bin/python3 -SE
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
tool, args, text = os.path.basename(__file__), sys.argv[1:], sys.stdin.read()
with open(here + "/log", "a") as f:
    f.write(json.dumps([tool, args, text, {k: os.environ.get(k) for k in ("HEIR_ABC_BINARY", "HEIR_YOSYS_SCRIPTS_DIR")}]) + "\n")
if os.path.exists(here + "/fail") and open(here + "/fail").read() in args:
    sys.stderr.write("THE TOOL SAYS NO")
    sys.stdout.write("half a result")
    sys.exit(3)
dup = [a for a in args if a.startswith("--") and args.count(a) > 1]
if dup:
    sys.stderr.write("for the %s option: may only occur zero or one times!" % dup[0])
    sys.exit(1)
if tool == "heir-opt":
    sys.stderr.write("digraph G {}")
    sys.stdout.write(text + "\n// opt " + " ".join(args))
    sys.exit(0)
if "--emit-function-info" in args:
    name, names, secret = re.search(r"// INFO (.*)\|(.*)\|(.*)\n", text).groups()
    sys.stdout.write(name + "\n" + names + "\n" + secret + "\n")
    sys.exit(0)
out = open(args[args.index("-o") + 1], "w")
if "--emit-openfhe-pke-pybind" in args:
    mod = [a for a in args if a.startswith("--pybind-module-name=")][0].split("=")[1]
    inc = [a for a in args if a.startswith("--pybind-header-include=")][0].split("=")[1]
    m = re.search(r"// INFO (.*)\|(.*)\|(.*)\n", text)
    if m:
        name, secret, tag = m.group(1), [int(i) for i in m.group(3).split(", ") if i], re.search(r"// TAG (\d+)", text).group(1)
    else:
        name, sig = re.search(r"func\.func @([^ (]+)\((.*?)\) -> ", text).groups()
        secret = [i for i, a in enumerate(re.findall(r"%\w+: [^%]*", sig)) if "secret.secret" in a]
        tag = re.search(r"arith\.constant (\d+)", text).group(1)
    py = """
class Key:
  def __init__(self, kind, ctx): self.kind, self.ctx = kind, ctx
class Pair:
  def __init__(self, ctx): self.publicKey, self.secretKey = Key('pk', ctx), Key('sk', ctx)
class Ctx:
  made = []
  def __init__(self): self.configured, self.pairs = [], []; Ctx.made.append(self)
  def KeyGen(self): self.pairs.append(Pair(self)); return self.pairs[-1]
def F__generate_crypto_context(): return Ctx()
def F__configure_crypto_context(ctx, sk): ctx.configured.append(sk)
def F(ctx, *args): return ('res', TAG, ctx, args)
def F__decrypt__result0(ctx, r, sk): return ('dec', TAG, ctx, r, sk)
""".replace("F__", name + "__").replace("F(", name + "(").replace("TAG", tag)
    for i in secret:
        py += "def %s__encrypt__arg%d(ctx, v, pk): return ('ct', %s, %d, ctx, v, pk)\n" % (name, i, tag, i)
    py += "answer = ('member', %s)\n" % tag
    out.write('#include "%s"\n#include <Python.h>\n' % inc)
    out.write("static struct PyModuleDef def = {PyModuleDef_HEAD_INIT, \"%s\", 0, -1, 0};\n" % mod)
    out.write("static const char *src = %s;\n" % json.dumps(py))
    out.write("PyMODINIT_FUNC PyInit_%s(void) { PyObject *m = PyModule_Create(&def), *d = PyModule_GetDict(m);\n"
              "PyDict_SetItemString(d, \"__builtins__\", PyEval_GetBuiltins());\n"
              "if (!PyRun_String(src, Py_file_input, d, d)) return 0; (void)tag_of_library(); return m; }\n" % mod)
elif "--emit-openfhe-pke-header" in args:
    out.write("int tag_of_library(void);\n")
else:
    out.write("int tag_of_library(void) { return 1; }\n")
'''
CXX = r'''#!/bin/sh
out= ; src= ; rest= ; libs= ; o=
for a in "$@"; do
  if [ -n "$o" ]; then out="$a"; o=; continue; fi
  case "$a" in
    -o) o=1;;
    *.cpp) src="$a";;
    -I*) rest="$rest $a";;
    /*.so) libs="$libs $a";;
  esac
done
exec /usr/bin/clang -w -O0 -fPIC -shared -x c "$src" -x none $rest $libs -o "$out"
'''


class World:
    """A scratch directory with the stand-in tools."""
    def __init__(self, c):
        self.dir = tempfile.mkdtemp(prefix="verif-client-", dir=BASETMP)
        os.mkdir(self.dir + "/tmp")
        for t, s in (("heir-opt", TOOL), ("heir-translate", TOOL), ("cxx", CXX)):
            with open(f"{self.dir}/{t}", "w") as f:
                f.write(s)
            os.chmod(f"{self.dir}/{t}", 0o755)
        os.environ["CXX"] = self.dir + "/cxx"
        tempfile.tempdir = self.dir + "/tmp"
        for m in [m for m in sys.modules if m.startswith("_heir_")]:
            del sys.modules[m]
        self.config = HEIRConfig(heir_opt_path=self.dir + "/heir-opt", heir_translate_path=self.dir + "/heir-translate",
                                 techmap_dir_path=self.dir + "/maps", abc_path=self.dir + "/abc")

    def log(self):
        try:
            with open(self.dir + "/log") as f:
                r = [json.loads(x) for x in f]
            os.unlink(self.dir + "/log")
            return r
        except FileNotFoundError:
            return []

    def leftovers(self):
        return sorted(os.listdir(self.dir + "/tmp"))

    def close(self):
        tempfile.tempdir = None
        shutil.rmtree(self.dir)


BASETMP = tempfile.gettempdir()


@contextlib.contextmanager
def world(c):
    w = World(c)
    cwd = os.getcwd()
    try:
        yield w
    finally:
        os.chdir(cwd)
        w.close()


@contextlib.contextmanager
def quietly():
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        yield out


class Prog:
    """A generated program: a Python function or an MLIR string."""
    def __init__(self, c, tag, force_str=None):
        self.tag = tag
        n = c.range(1, 4)
        self.secret = [i for i in range(n) if c.chance(60)]
        self.is_str = c.chance(40) if force_str is None else force_str
        if self.is_str:
            self.fname = c.pick(["foo", "main", "foo"])
            if c.chance(10):
                n, self.secret = 0, []
            self.names = [f"arg_{i}" for i in range(n)]
            self.text = f"// INFO {self.fname}|{', '.join(self.names)}|{', '.join(map(str, self.secret))}\n// TAG {tag}\n"
        else:
            self.fname = c.pick(["foo", "foo", "bar", "f_1", "größe"])
            pool = c.shuffle(["a", "b", "x", "yy", "a1", "setup_", "arg_1", "arg_0", "result"])
            self.names = pool[:n]
            args = ", ".join(f"{x}: Secret[I16]" if i in self.secret else f"{x}: I16" for i, x in enumerate(self.names))
            nested = c.chance(40)
            ret = " -> I16" if c.chance(20) else ""
            body = f"def {self.fname}({args}){ret}:\n  return {' + '.join(self.names)} + {tag}\n"
            if nested:
                body = "def outer():\n" + "".join("  " + l + "\n" for l in body.splitlines()) + f"  return {self.fname}\nf = outer()\n"
            else:
                body += f"f = {self.fname}\n"
            ns = dict(Secret=ht.Secret, I16=ht.I16, __name__=c.pick(["__main__", "some.module-x", "m"]))
            exec(compile(body, "gen.py", "exec"), ns)
            self.text, self.f = body, ns["f"]


def do_compile(p, w, backend, **kw):
    if p.is_str:
        return heir.compile(mlir_str=p.text, backend=backend, config=w.config, **kw)
    return heir.compile(backend=backend, config=w.config, **kw)(p.f)


def check_stages(c, p, log, opts, w):
    """The stages run on each other's results, with the options asked for; returns the function's name in the output."""
    log = list(log)
    name = p.fname
    if p.is_str:
        tool, args, text, _ = log.pop(0)
        c.check(tool == "heir-opt" and "--mlir-print-op-generic" in args, "the function info is not asked of the generic form")
        c.eq(text, p.text, "input of the generic printing")
        tool, args, text, _ = log.pop(0)
        c.check(tool == "heir-translate" and "--emit-function-info" in args, "no function info asked for")
        c.check(text.startswith(p.text), "function info of another program")
    tool, args, raw, env = log.pop(0)
    c.check(tool == "heir-opt" and "--shape-inference" in args, "no shape inference first")
    if p.is_str:
        c.eq(raw, p.text, "input of shape inference")
    else:
        c.check(re.search(rf"arith\.constant {p.tag} ", raw), "the emitted program is not the function's")
        name = re.search(r"func\.func @([^ (]+)\(", raw).group(1)
        c.check(re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", name), f"function name {name} is not an identifier")
    c.eq(env["HEIR_ABC_BINARY"], w.dir + "/abc", "HEIR_ABC_BINARY")
    c.eq(env["HEIR_YOSYS_SCRIPTS_DIR"], w.dir + "/maps", "HEIR_YOSYS_SCRIPTS_DIR")
    prev = raw + "\n// opt " + " ".join(args)
    if log and "--annotate-secretness" in log[0][1]:  # only shown to the user
        c.eq(log.pop(0)[2], prev, "input of the secretness annotation")
    tool, args, text, _ = log.pop(0)
    c.eq(tool, "heir-opt", "tool of the lowering")
    c.eq(args[:len(opts)], opts, "lowering options")
    c.check(all(a in ("--mlir-print-debuginfo", "--view-op-graph") for a in args[len(opts):]), f"extra lowering options {args}")
    c.eq(text, prev, "input of the lowering")
    return name, text + "\n// opt " + " ".join(args), log


def check_backend_stages(c, name, prev, log):
    tool, args, text, _ = log.pop(0)
    c.check(tool == "heir-opt" and f"--scheme-to-openfhe=entry-function={name}" in args, f"no lowering of {name} to OpenFHE: {args}")
    c.eq(text, prev, "input of the backend lowering")
    prev = text + "\n// opt " + " ".join(args)
    for tool, args, text, _ in log:
        c.eq(tool, "heir-translate", "tool of the emission")
        c.eq(text, prev, "input of the emission")
    kinds = [next(a for a in args if a.startswith("--emit")) for _, args, _, _ in log]
    c.eq(sorted(kinds), ["--emit-openfhe-pke", "--emit-openfhe-pke-header", "--emit-openfhe-pke-pybind"], "emissions")
    for kind, (_, args, _, _) in zip(kinds, log):
        if kind != "--emit-openfhe-pke-pybind":
            c.check("--openfhe-include-type=source-relative" in args, "include type not passed on")


class Raw:
    """A value that is not encrypted; compared by identity."""
    def __init__(self, n): self.n = n
    def __repr__(self): return f"v{self.n}"


def raises(fn, *kinds):
    try:
        with quietly():
            fn()
    except kinds or Exception as e:
        return e
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    return "nothing raised"


class Client:
    def __init__(self, p, obj):
        self.p, self.obj, self.ctx, self.made = p, obj, None, 0


@prop("sessions", "at least one evaluation of correctly encrypted arguments", 90, 1500, hang=120)
def sessions(c):
    with world(c) as w:
        backend = OpenFHEBackend(OpenFHEConfig(include_dirs=[w.dir], include_type="source-relative", lib_dir=w.dir, link_libs=[]))
        clients, names = [], []
        shared = c.pick([None, ["--canonicalize", "--mlir-to-ckks"], ["--mlir-to-bgv=x=1 y=2"]])
        for k in range(c.range(1, 3)):
            p = Prog(c, 1000 + k)
            c.desc(f"program {k}:\n{p.text}")
            opts, scheme = shared, c.pick(["bgv", "ckks"])
            keep = list(opts) if opts else None
            debug = c.chance(15)
            with quietly():
                try:
                    obj = do_compile(p, w, backend, scheme=scheme, heir_opt_options=opts, debug=debug)
                except SystemExit as e:
                    obj = e
            c.check(not isinstance(obj, SystemExit), "a program does not compile")
            c.eq(opts, keep, "the caller's options after compiling")
            name, out, rest = check_stages(c, p, w.log(), keep or ["--canonicalize", f"--mlir-to-{scheme}"], w)
            check_backend_stages(c, name, out, rest)
            if not p.is_str:
                c.check(name not in names, f"two functions are both called {name}")
                names.append(name)
            if not debug:
                c.eq([d for d in w.leftovers() if d not in names_left(clients)], [], "files left behind")
            cl = Client(p, obj)
            cl.name = name
            cl.left = w.leftovers()
            clients.append(cl)
        evals = 0
        store = []  # (client, arg index, EncValue, raw, ctx) and results
        results = []
        for step in range(c.range(4, 18)):
            cl = clients[c.draw(len(clients))]
            p, o = cl.p, cl.obj
            n = len(p.names)
            op = c.weighted([20, 30, 25, 12, 12, 5, 5])
            if op == 0:
                c.desc(f"{p.tag}.setup()")
                before = cl.ctx
                o.setup()
                cl.ctx = o.crypto_context
                c.check(cl.ctx is not before, "setup kept the old context")
                for other in clients:
                    c.check(other is cl or other.ctx is not cl.ctx, "two programs share a context")
                c.eq(len(cl.ctx.pairs), 1, "key pairs generated")
                c.check(cl.ctx.configured == [cl.ctx.pairs[0].secretKey], "the context is not configured with its secret key")
            elif op == 1 and n:
                i = c.draw(n)
                v = Raw(step)
                custom = c.chance(20)
                enc = lambda: getattr(o, "encrypt_" + p.names[i])(v, **kw)
                kw = {}
                ctx = cl.ctx
                if custom:
                    ctx = Raw(100 + step)
                    kw["crypto_context"] = ctx
                pk = cl.ctx.pairs[0].publicKey if cl.ctx else None
                if c.chance(20):
                    pk = kw["public_key"] = Raw(200 + step)
                c.desc(f"{p.tag}.encrypt_{p.names[i]}({v}, {sorted(kw)})")
                if i not in p.secret or ctx is None or pk is None:
                    if i in p.secret and "crypto_context" not in kw:
                        e = raises(enc, RuntimeError)
                        c.check(isinstance(e, RuntimeError) and "setup" in str(e), f"encrypting before setup: {e}")
                    else:
                        e = raises(enc)
                        c.check(isinstance(e, Exception), "encrypting this has to be refused")
                    continue
                with quietly():
                    r = enc()
                c.check(isinstance(r, EncValue), "not an EncValue")
                c.eq(r.identifier, p.names[i], "identifier")
                ct = r.value
                c.check(ct[0] == "ct" and ct[1] == p.tag and ct[2] == i and ct[3] is ctx and ct[4] is v and ct[5] is pk,
                        f"encrypt_{p.names[i]} made {ct}")
                store.append((cl, i, r))
            elif op == 2:
                if cl.ctx is None:
                    args = [EncValue(p.names[i], Raw(i)) if i in p.secret else Raw(i) for i in range(n)]
                    e = raises(lambda: o.eval(*args), RuntimeError)
                    c.check(isinstance(e, RuntimeError), f"evaluating before setup: {e}")
                    continue
                args, good = [], True
                for i in range(n):
                    if i in p.secret:
                        mine = [s for s in store if s[0] is cl and s[1] == i]
                        bad = c.chance(12)
                        if bad:
                            kind = c.draw(3)
                            others = [s[2] for s in store if s[2].identifier != p.names[i]]
                            if kind == 0 and others:
                                args.append(c.pick(others))
                            elif kind <= 1:
                                args.append(EncValue(c.pick([x for x in p.names if x != p.names[i]] + [p.names[i] + "_"]), Raw(7)))
                            else:
                                args.append(Raw(8))
                            good = False
                        elif mine and c.chance(80):
                            args.append(c.pick(mine)[2])
                        else:
                            args.append(EncValue(p.names[i], Raw(300 + i)))
                    elif c.chance(10):
                        args.append(EncValue(p.names[i], Raw(9)))
                        good = False
                    else:
                        args.append(c.pick([Raw(i), 5, 0, [1, 2]]))
                kw = {}
                if n and c.chance(6):
                    # keyword arguments are not supported, and never ignored
                    kw = {p.names[-1]: args[-1]}
                    e = raises(lambda: o.eval(*args[:-1], **kw))
                    c.check(isinstance(e, Exception), f"keyword arguments: {e}")
                    continue
                c.desc(f"{p.tag}.eval({args})")
                if not good:
                    e = raises(lambda: o.eval(*args), ValueError)
                    c.check(isinstance(e, ValueError), f"a wrong argument is not rejected: {e}")
                    continue
                with quietly():
                    r = o.eval(*args)
                plain = [a.value if isinstance(a, EncValue) else a for a in args]
                c.check(r[0] == "res" and r[1] == p.tag and r[2] is cl.ctx and len(r[3]) == n and all(x is y for x, y in zip(r[3], plain)),
                        f"eval called {r}, expected the arguments {plain} of program {p.tag}")
                results.append((cl, r))
                evals += 1
            elif op == 3:
                r = c.pick([x[1] for x in results]) if results else Raw(50)
                kw = {}
                ctx = cl.ctx
                if c.chance(25):
                    ctx = kw["crypto_context"] = Raw(400)
                sk = cl.ctx.pairs[0].secretKey if cl.ctx else None
                if c.chance(25):
                    sk = kw["secret_key"] = Raw(401)
                c.desc(f"{p.tag}.decrypt_result({sorted(kw)})")
                if ctx is None or sk is None:
                    e = raises(lambda: o.decrypt_result(r, **kw))
                    c.check(isinstance(e, Exception), "decrypting before setup")
                    continue
                with quietly():
                    d = o.decrypt_result(r, **kw)
                c.check(d[0] == "dec" and d[1] == p.tag and d[2] is ctx and d[3] is r and d[4] is sk, f"decrypt_result called {d}")
            elif op == 4:
                args = [c.pick([Raw(i), i, 0]) for i in range(n)]
                if c.chance(15):
                    args = args[1:] if n and c.chance(50) else args + [1]
                    e = raises(lambda: o(*args))
                    c.check(isinstance(e, Exception), "a wrong number of arguments is accepted")
                    cl.ctx = o.crypto_context if "crypto_context" in vars(o) else None
                    continue
                c.desc(f"{p.tag}({args})")
                before = cl.ctx
                with quietly():
                    d = o(*args)
                cl.ctx = o.crypto_context
                c.check(cl.ctx is not before, "a call keeps the old context")
                c.check(cl.ctx.configured == [cl.ctx.pairs[0].secretKey], "the context of a call is not configured")
                c.check(d[0] == "dec" and d[1] == p.tag and d[2] is cl.ctx and d[4] is cl.ctx.pairs[0].secretKey, f"calling gave {d}")
                r = d[3]
                c.check(r[0] == "res" and r[1] == p.tag and r[2] is cl.ctx and len(r[3]) == n, f"calling evaluated {r}")
                for i, (x, a) in enumerate(zip(r[3], args)):
                    if i in p.secret:
                        c.check(isinstance(x, tuple) and x[:3] == ("ct", p.tag, i) and x[3] is cl.ctx and x[4] is a and x[5] is cl.ctx.pairs[0].publicKey,
                                f"argument {i} of the call became {x}")
                    else:
                        c.check(x is a, f"public argument {i} of the call became {x}")
                evals += 1
            elif op == 5:
                if p.is_str:
                    e = raises(lambda: o.original(*range(n)), NotImplementedError)
                    c.check(isinstance(e, NotImplementedError), "the original of an MLIR string")
                else:
                    c.eq(o.original(*range(10, 10 + n)), sum(range(10, 10 + n)) + p.tag, "original")
            else:
                c.eq(o.answer, ("member", p.tag), "member of the module")
                e = raises(lambda: o.no_such_thing, AttributeError)
                c.check(isinstance(e, AttributeError), "an unknown attribute")
        if evals:
            c.nontrivial()


def names_left(clients):
    return {d for cl in clients for d in cl.left}


class Sink(BackendInterface):
    """Records what the pipeline hands to a backend."""
    def run_backend(self, workspace_dir, heir_opt, heir_translate, func_name, arg_names, secret_args, heir_opt_output, debug):
        self.got = (func_name, list(arg_names), list(secret_args), heir_opt_output)
        assert os.path.isdir(workspace_dir)
        if self.boom:
            raise OSError("the backend fails")
        return type("Result", (), {})()


@prop("pipeline", "the program reached the backend or was rejected", 250, 4000)
def pipeline(c):
    """Any backend gets the function's name, arguments and lowered program; failures are reported and leave nothing behind."""
    with world(c) as w:
        sink = Sink()
        sink.boom = c.chance(8)
        opts = [c.pick([None, None, ["--canonicalize", "--mlir-to-ckks"], ["--p"], ["--a", "--mlir-to-cggi", "--b"]])][0]
        scheme = c.pick(["bgv", "ckks", "cggi", "bgv"])
        for k in range(c.range(1, 3)):
            p = Prog(c, 2000 + k)
            c.desc(p.text)
            fail = c.pick([None] * 6 + ["--shape-inference", "--mlir-print-debuginfo", "--emit-function-info", "--annotate-secretness", "--mlir-print-op-generic", (opts or ["--canonicalize"])[0]])
            if fail:
                with open(w.dir + "/fail", "w") as f:
                    f.write(fail)
                c.desc(f"fails at {fail}")
            elif os.path.exists(w.dir + "/fail"):
                os.unlink(w.dir + "/fail")
            debug = c.chance(25)
            want = list(opts) if opts else ["--canonicalize", f"--mlir-to-{scheme}"]
            keep = list(opts) if opts else None
            sink.got = None
            had = w.leftovers()
            res = exc = None
            with quietly() as out:
                try:
                    res = do_compile(p, w, sink, scheme=scheme, heir_opt_options=opts, debug=debug)
                except (Exception, SystemExit) as e:
                    exc = e
            log = w.log()
            c.eq(opts, keep, "the caller's options after compiling")
            if not debug:
                c.eq(w.leftovers(), had, "files left behind")
            ran = [l for l in log if fail in l[1]] if fail else []
            if ran:
                c.label("failing tool")
                c.check(exc is not None, "a failing tool is ignored")
                c.check(sink.got is None, "the backend ran after a failing tool")
                c.check(not isinstance(exc, (UnboundLocalError, NameError, AttributeError, TypeError)), f"a failing tool ends in {exc!r}")
                c.check("THE TOOL SAYS NO" in out.getvalue() + str(exc), f"the errors of the tool are not shown, only {exc!r} {out.getvalue()}")
                c.nontrivial((p.text, fail, debug))
                continue
            if any(o.startswith("--mlir-to-cggi") for o in want):
                c.label("cggi")
                c.check(isinstance(exc, NotImplementedError), f"compiling for CGGI gave {exc!r}")
                c.check(sink.got is None, "the backend ran for CGGI")
                c.nontrivial((p.text, "cggi"))
                continue
            name, lowered, rest = check_stages(c, p, log, want, w)
            c.eq(rest, [], "further tools")
            c.check(sink.got is not None, f"the backend was not run: {exc!r} {out.getvalue()}")
            c.eq(sink.got, (name, p.names, p.secret, lowered), "the backend's inputs")
            if sink.boom:
                c.label("failing backend")
                c.check(isinstance(exc, OSError), f"the backend's failure became {exc!r}")
            else:
                c.check(exc is None, f"compiling failed with {exc!r}")
                if p.is_str:
                    e = raises(lambda: res.func(1), NotImplementedError)
                    c.check(isinstance(e, NotImplementedError), "the function of an MLIR string")
                else:
                    c.check(res.func is p.f, "the original function is lost")
            c.nontrivial((p.text, debug))


@prop("rejections", "the signature is one the frontend has to reject", 80, 600)
def rejections(c):
    """Signatures that mean nothing are reported as compiler errors, before any tool runs."""
    with world(c) as w:
        kind = c.draw(7)
        n = c.range(1, 3)
        names = ["a", "b", "x"][:n]
        i = c.draw(n)
        ann = ["Secret[I16]" if c.chance(50) else "I16" for _ in names]
        ret = ""
        body = " + ".join(names)
        if kind == 0:
            ann[i] = None
        elif kind == 1:
            ann[i] = "Secret[Secret[I16]]"
        elif kind == 2:
            ann[i] = c.pick(["int", "str", "float"])
        elif kind == 3:
            ann[i] = "Tensor[[2], Tensor[[2], I16]]"
        elif kind == 4:
            ann[i] = c.pick(["Tensor[I16]", "Tensor[[2], I16, I16]"])
        elif kind == 5:
            ret = " -> Secret[I16]"
        else:
            body = None
        src = f"def f({', '.join(x + (': ' + t if t else '') for x, t in zip(names, ann))}){ret}:\n  " + (f"return {body}\n" if body else "x = a\n")
        c.desc(src)
        ns = dict(Secret=ht.Secret, Tensor=ht.Tensor, I16=ht.I16)
        exec(compile(src, "gen.py", "exec"), ns)
        exc = None
        with quietly() as out:
            try:
                heir.compile(backend=CleartextBackend(), config=w.config)(ns["f"])
            except (Exception, SystemExit) as e:
                exc = e
        c.check(isinstance(exc, SystemExit) and exc.code == 1, f"accepted or ended in {exc!r}")
        c.check("HEIR Error" in out.getvalue(), f"no error shown: {out.getvalue()}")
        c.eq(w.log(), [], "tools run for a rejected function")
        c.eq(w.leftovers(), [], "files left behind")
        c.nontrivial(src)


@prop("cleartext", "an evaluation was compared", 150, 2500)
def cleartext(c):
    """The cleartext backend computes the Python function, and checks arguments as the others do."""
    with world(c) as w:
        p = Prog(c, c.range(1, 50), force_str=False)
        c.desc(p.text)
        with quietly():
            o = do_compile(p, w, CleartextBackend(), scheme=c.pick(["bgv", "ckks", "cggi"]), debug=c.chance(20))
        n = len(p.names)
        for _ in range(c.range(1, 5)):
            vals = [c.range(-50, 50) for _ in range(n)]
            want = sum(vals) + p.tag
            with quietly():
                if c.chance(50):
                    o.setup()
                encs = [getattr(o, "encrypt_" + x)(v) if i in p.secret else v for i, (x, v) in enumerate(zip(p.names, vals))]
                c.eq(o.decrypt_result(o.eval(*encs)), want, "eval")
                c.eq(o(*vals), want, "call")
                c.eq(o.original(*vals), want, "original")
            for i in range(n):
                bad = list(encs)
                if i in p.secret:
                    with quietly():
                        bad[i] = vals[i] if c.chance(40) else getattr(o, "encrypt_" + c.pick([x for x in p.names if x != p.names[i]] + ["other"]))(vals[i])
                else:
                    with quietly():
                        bad[i] = getattr(o, "encrypt_" + p.names[i])(vals[i])
                e = raises(lambda: o.eval(*bad), ValueError)
                c.check(isinstance(e, ValueError), f"argument {i} = {bad[i]!r}: {e}")
            e = raises(lambda: o.eval(**dict(zip(p.names, encs))))
            c.check(isinstance(e, Exception), f"keyword arguments: {e}")
        c.nontrivial()


if __name__ == "__main__":
    pbtlib.main()
