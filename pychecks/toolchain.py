"""C21: the Python package finds the tools and libraries it is told to use, and calls them with exactly the given arguments."""
import contextlib
import importlib.util
import io
import json
import os
import shutil
import stat
import subprocess
import sys
import tempfile
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbtlib  # noqa: E402
from pbtlib import prop  # noqa: E402

sys.path.insert(0, os.path.join(pbtlib.REPO, "frontend"))
import heir  # noqa: E402,F401
from heir.backends.openfhe import config as openfhe_config  # noqa: E402
from heir.backends.util import cpp_compiler, pybind_helpers  # noqa: E402
from heir.heir_cli import heir_cli, heir_cli_config  # noqa: E402
from heir import _extras  # noqa: E402

FRONTEND = os.path.join(pbtlib.REPO, "frontend", "heir")
BASETMP = tempfile.gettempdir()
REC = r'''#!/usr/bin/python3 -SE
import json, os, sys
d = os.path.dirname(os.path.abspath(__file__))
json.dump([os.path.basename(__file__), sys.argv[1:], sys.stdin.read() if os.path.exists(d + "/stdin") else ""], open(d + "/called", "w"))
r = json.load(open(d + "/reply"))
sys.stdout.write(r[0]); sys.stderr.write(r[1]); sys.exit(r[2])
'''


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="verif-tools-", dir=BASETMP)
    env = dict(os.environ)
    try:
        yield d
    finally:
        os.environ.clear()
        os.environ.update(env)
        shutil.rmtree(d)


@contextlib.contextmanager
def quietly():
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        yield out


def put(path, text="", mode=0o644):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    os.chmod(path, mode)
    return path


def recorder(d, name, reply=("", "", 0), stdin=False):
    put(f"{d}/{name}", REC, 0o755)
    put(d + "/reply", json.dumps(reply))
    if stdin:
        put(d + "/stdin")
    return f"{d}/{name}"


def called(d):
    try:
        with open(d + "/called") as f:
            r = json.load(f)
        os.unlink(d + "/called")
        return r
    except FileNotFoundError:
        return None


@prop("heir_config", "some tool is found in two or more places", 2000, 40000)
def heir_config(c):
    """Environment variable, then development build, then PATH, then (optional tools) the development path."""
    with scratch() as d:
        root = d + "/root"
        bb = root + "/bazel-bin/tools"
        run = bb + "/heir-opt.runfiles"
        has_root = c.chance(70)
        for k in ("HEIR_OPT_PATH", "HEIR_TRANSLATE_PATH", "HEIR_ABC_BINARY", "HEIR_YOSYS_SCRIPTS_DIR", "HEIR_REPO_ROOT_MARKER"):
            os.environ.pop(k, None)
        os.makedirs(root)
        if has_root:
            os.environ["HEIR_REPO_ROOT_MARKER"] = root
        dev = {}
        for name, rel in (("heir-opt", bb + "/heir-opt"), ("heir-translate", bb + "/heir-translate")):
            if c.chance(50):
                put(rel, "", 0o755)
                if has_root:
                    dev[name] = rel
        for rel in (run + "/abc/abc_bin", run + "/abc+/abc_bin"):
            if c.chance(40):
                put(rel, "", 0o755)
                if has_root:
                    dev.setdefault("abc", rel)
        maps = run + "/_main/lib/Transforms/YosysOptimizer/yosys"
        if c.chance(50):
            os.makedirs(maps)
            if has_root:
                dev["maps"] = maps
        path, onpath = [], {}
        for k in range(c.range(1, 3)):
            p = f"{d}/p{k}"
            os.makedirs(p)
            path.append(p)
            for name in ("heir-opt", "heir-translate", "abc"):
                if c.chance(30):
                    x = c.chance(75)
                    put(f"{p}/{name}", "", 0o755 if x else 0o644)
                    if x:
                        onpath.setdefault(name, f"{p}/{name}")
        os.environ["PATH"] = ":".join(path)
        env = {}
        for name, key in (("heir-opt", "HEIR_OPT_PATH"), ("heir-translate", "HEIR_TRANSLATE_PATH"), ("abc", "HEIR_ABC_BINARY"), ("maps", "HEIR_YOSYS_SCRIPTS_DIR")):
            k = c.draw(4)
            if k == 1:
                os.environ[key] = env[name] = f"{d}/env/{name}"  # need not exist
            elif k == 2:
                os.environ[key] = ""
        c.desc(f"root {has_root} dev {dev} path {onpath} env {env}")
        want = {n: env.get(n) or dev.get(n) or onpath.get(n) for n in ("heir-opt", "heir-translate", "abc", "maps")}
        want["maps"] = env.get("maps") or dev.get("maps") or ""
        want["abc"] = want["abc"] or ""
        # which() looks at real permissions; root may execute only files with an x bit
        missing = not want["heir-opt"] or not want["heir-translate"]
        try:
            got = heir_cli_config.from_os_env()
        except RuntimeError as e:
            c.check(missing, f"refused: {e}")
            first = "heir-opt" if not want["heir-opt"] else "heir-translate"
            c.check(first in str(e), f"the message does not name {first}: {e}")
            c.nontrivial(str(want))
            return
        c.check(not missing, f"no tool to be found, yet got {got}")
        c.eq((str(got.heir_opt_path), str(got.heir_translate_path), str(got.abc_path), str(got.techmap_dir_path)),
             (want["heir-opt"], want["heir-translate"], want["abc"], want["maps"]), "configuration (heir-opt, heir-translate, abc, techmaps)")
        if any((n in env) + (n in dev) + (n in onpath) > 1 for n in want):
            c.nontrivial((sorted(env), sorted(dev), sorted(onpath)))


@prop("repo_root", "some ancestor holds a build", 200, 3000)
def repo_root(c):
    """The repository's root is the marker's, else the topmost directory above the package that holds a build."""
    with scratch() as d:
        parts = [c.pick(["a", "frontend", "heir", "bazel-bin"]) for _ in range(c.range(0, 4))]
        at = "/".join([d, *parts])
        pkg = at + "/heir/backends/util"
        os.makedirs(pkg)
        shutil.copy(FRONTEND + "/backends/util/common.py", pkg + "/common.py")
        ups = [Path(d), *(Path("/".join([d, *parts[:i + 1]])) for i in range(len(parts))), Path(at + "/heir"), Path(at + "/heir/backends")]
        for u in ups:
            if c.chance(25) and not (u / "bazel-bin").exists():
                (u / "bazel-bin").mkdir()
        spec = importlib.util.spec_from_file_location("common_copy", pkg + "/common.py")
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        os.environ.pop("HEIR_REPO_ROOT_MARKER", None)
        have = [u.resolve() for u in [*ups, Path(pkg)] if (u / "bazel-bin").exists()]
        want = min(have, key=lambda u: len(u.parts)) if have else None
        c.desc(f"{pkg} builds in {have}")
        above = [p for p in Path(d).resolve().parents if (p / "bazel-bin").exists()]
        if above:
            c.discard()
        c.eq(m.get_repo_root(), want, "repository root")
        os.environ["HEIR_REPO_ROOT_MARKER"] = d + "/mark"
        c.eq(m.get_repo_root(), Path(d + "/mark"), "repository root with a marker")
        if have:
            c.nontrivial((parts, have))


def lib_model(d, files):
    """What may be linked, given the files of a directory: (exact list, None) or (None, set)."""
    libs = [f for f in files if "openfhe" in f.lower() and (".so" in f.lower() or ".dylib" in f.lower())]
    kinds = {k: {str((Path(d) / f).resolve()) for f in libs if k in f.lower()} for k in ("core", "pke", "binfhe")}
    if all(kinds.values()):
        return kinds, None
    mono = {str((Path(d) / f).resolve()) for f in libs if not any(k in f.lower() for k in kinds)}
    return None, mono or {"openfhe"}


@prop("openfhe_env", "a configuration came from the environment", 2500, 50000)
def openfhe_env(c):
    with scratch() as d:
        for k in list(os.environ):
            if "OPENFHE" in k or k in ("RUNFILES_DIR", "TEST_SRCDIR", "HEIR_REPO_ROOT_MARKER"):
                del os.environ[k]
        base = None
        if c.chance(30):
            base = d + "/run"
            os.environ["RUNFILES_DIR"] = base
            if c.chance(30):
                os.environ["TEST_SRCDIR"] = d + "/other"
        elif c.chance(10):
            base = d + "/src"
            os.environ["TEST_SRCDIR"] = base
        incs = [c.pick([f"{d}/i{k}", f"{d}/i{k}/openfhe", f"{d}/openfhe", d, f"rel{k}", "rel/openfhe", f"{d}/openfhe/core"] + ([""] if not base else [])) for k in range(c.range(1, 4))]
        libdir = c.pick([d + "/lib", "lib"])
        os.makedirs(os.path.join(base or d, "lib"), exist_ok=True)
        os.makedirs(d + "/lib", exist_ok=True)
        where = os.path.join(base, libdir) if base else libdir
        real = where if os.path.isabs(where) else os.path.join(os.getcwd(), where)
        files = []
        if os.path.isabs(where) and os.path.isdir(where):
            up = c.chance(50)
            for f in ("libopenfhecore", "libopenfhepke", "libopenfhebinfhe", "libopenfhe", "libother", "libssl"):
                for ext in c.subset([".so", ".so.1.2.3", ".a", ".dylib"], 35 if f[3:] != "ssl" else 60):
                    name = ((f.replace("openfhe", "OPENFHE") if c.chance(80) else f.upper()) if up else f) + ext
                    if c.chance(10):
                        os.makedirs(f"{where}/{name}")  # a directory is no library
                        continue
                    if c.chance(15):
                        put(f"{d}/real/{name}")
                        os.symlink(f"{d}/real/{name}", f"{where}/{name}")
                    else:
                        put(f"{where}/{name}")
                    files.append(name)
        env = {}
        if c.chance(85):
            env["OPENFHE_INCLUDE_DIR"] = ":".join(incs)
        if c.chance(85):
            env["OPENFHE_LIB_DIR"] = libdir
        link = None
        if c.chance(40):
            link = [c.pick(["a", "b", "openfhe", "", "/x/libz.so"]) for _ in range(c.range(1, 3))]
            env["OPENFHE_LINK_LIBS"] = ":".join(link)
        if c.chance(30):
            env["OPENFHE_INCLUDE_TYPE"] = c.pick(["install-relative", "source-relative"])
        if c.chance(20):
            env["OPENFHE_DEBUG"] = "1"
        os.environ.update(env)
        c.desc(f"{env} base {base} files {files}")
        triggers = [env.get(k) for k in ("OPENFHE_INCLUDE_DIR", "OPENFHE_LIB_DIR", "OPENFHE_LINK_LIBS")]
        exc = got = None
        with quietly():
            try:
                got = openfhe_config.from_os_env()
            except ValueError as e:
                exc = e
        if not any(triggers):
            c.check(got is None and exc is None, f"nothing is set, yet got {got} {exc}")
            return
        joined = [os.path.join(base, i) if base else i for i in incs]
        want_inc = [i for i in joined if i]
        extra = []
        for i in want_inc:
            if Path(i).name == "openfhe" and str(Path(i).parent) not in want_inc + extra:
                extra.append(str(Path(i).parent))
        want_inc += extra
        links = [x for x in link if x] if link and any(link) else None
        bad = not env.get("OPENFHE_INCLUDE_DIR") or not env.get("OPENFHE_LIB_DIR") or not want_inc or (link and ":".join(link) and not any(link))
        if bad:
            c.check(exc is not None, f"an incomplete setting gave {got}")
            c.nontrivial(str(env))
            return
        c.check(exc is None, f"refused: {exc}")
        c.eq(list(got.include_dirs), want_inc, "include directories")
        c.eq(got.lib_dir, where, "library directory")
        c.eq(got.include_type, env.get("OPENFHE_INCLUDE_TYPE", "install-relative"), "include type")
        if links:
            c.eq(list(got.link_libs), links, "libraries")
        else:
            kinds, names = lib_model(real, files)
            if kinds:
                c.check(len(got.link_libs) == 3 and all(l in kinds[k] for l, k in zip(got.link_libs, ("core", "pke", "binfhe"))), f"libraries {got.link_libs}, candidates {kinds}")
            else:
                c.eq(set(got.link_libs), names, "libraries")
        with quietly():
            c.eq(openfhe_config.resolve_config(), got, "resolve_config")
        c.nontrivial(str(env) + str(files))


@prop("openfhe_development", "a development configuration was resolved", 60, 300)
def openfhe_development(c):
    """Without settings and without an installed OpenFHE, the one bazel built is used."""
    if any(os.path.isdir(p + "/include/openfhe") for p in ("/usr/local", "/usr")):
        c.discard()
    with scratch() as d:
        for k in list(os.environ):
            if "OPENFHE" in k or k in ("RUNFILES_DIR", "TEST_SRCDIR"):
                del os.environ[k]
        root = d + "/" + c.pick(["r", "a/b", "x y"])
        os.environ["HEIR_REPO_ROOT_MARKER"] = root
        if c.chance(30):
            os.environ["OPENFHE_DEBUG"] = c.pick(["0", "1"])
        with quietly():
            got = openfhe_config.resolve_config(debug=c.chance(30))
        ext = root + "/bazel-heir/external/openfhe+"
        c.eq(sorted(got.include_dirs), sorted([ext, *(f"{ext}/src/{x}/include" for x in ("binfhe", "core", "pke")), root + "/bazel-heir/external/cereal+/include"]), "include directories")
        c.eq((got.include_type, got.lib_dir, list(got.link_libs)), ("source-relative", root + "/bazel-bin/external/openfhe+", ["openfhe"]), "configuration")
        c.nontrivial(root)


WORDS = ["a", "/x/y", "with space", "-q", "", "é", "x=1,2", "$HOME", "'", "*", "a b  c"]


@prop("compile_command", "the compiler was run", 350, 6000)
def compile_command(c):
    """The compiler gets the source, the output and every path, library and flag, in the given order."""
    with scratch() as d:
        fail = c.chance(15)
        exe = recorder(d, "cc rec" if c.chance(20) else "ccrec", ("out", "the compiler says no", 1 if fail else 0))
        how = c.draw(3)
        for k in ("CXX", "CC"):
            os.environ.pop(k, None)
        if how == 0:
            b = cpp_compiler.CppCompilerBackend(exe)
        else:
            os.environ["CXX" if how == 1 else "CC"] = exe
            if how == 1 and c.chance(50):
                os.environ["CC"] = d + "/wrong"
            b = cpp_compiler.CppCompilerBackend()
        words = lambda n: [c.pick(WORDS[:4] + WORDS[5:]) for _ in range(c.range(0, n))]
        inc, lsp = c.pick([None, words(3)]), c.pick([None, words(3)])
        libs = c.pick([None, [c.pick(["m", "/abs/libz.so", "openfhe", "rel/lib"]) for _ in range(c.range(0, 3))]])
        largs = c.pick([None, ["-rpath", "/a:/b"], ["-x"], []])
        absl = c.pick([None, [Path(d) / f"l{k}.so" for k in range(c.range(0, 2))]])
        src = Path(d) / c.pick(["f.cpp", "a b.cpp"])
        ext = c.weighted([85, 15])
        out = Path(d) / ["o.so", c.pick(["o.o", "o", "o.so.1"])][ext]
        kw = {}
        if c.chance(40):
            kw["compiler_flags"] = words(3)
        shown = []
        c.desc(f"{inc} {lsp} {libs} {largs} {absl} {kw} {out.name} fail {fail}")
        exc = None
        try:
            b.compile_to_shared_object(cpp_source_filepath=src, shared_object_output_filepath=out, include_paths=inc, linker_search_paths=lsp,
                                       link_libs=libs, linker_args=largs, abs_link_lib_paths=absl, arg_printer=shown.append if c.chance(50) else None, **kw)
        except ValueError as e:
            exc = e
        got = called(d)
        if ext:
            c.check(exc is not None and got is None, f"output {out.name}: {exc} {got}")
            return
        c.check(got is not None, f"the compiler was not run: {exc}")
        if fail:
            c.check(exc is not None and "the compiler says no" in str(exc), f"a failing compiler: {exc}")
        else:
            c.check(exc is None, f"{exc}")
        args = got[1]
        flags = kw.get("compiler_flags", ["-O3", "-fPIC", "-shared", "-std=c++17"])
        groups = [flags, ["-I" + x for x in inc or []], ["-L" + x for x in lsp or []], [x if x.startswith("/") else "-l" + x for x in libs or []],
                  ["-Wl," + ",".join(largs)] if largs else [], [str(x) for x in absl or []], [str(src)], ["-o", str(out)]]
        c.eq(sorted(args), sorted(sum(groups, [])), "arguments, in any order")
        for g in groups:  # each group in its order
            pos = 0
            for x in args:
                if pos < len(g) and x == g[pos]:
                    pos += 1
            c.eq(pos, len(g), f"{g} in order in {args}")
        c.eq(args[args.index("-o") + 1], str(out), "output")
        at = args.index(str(src))
        for x in groups[5]:
            c.check(args.index(x) > at, "a library comes before the source that needs it")
        if shown:
            c.eq([str(x) for x in shown[0]][-len(args):], args, "shown arguments")
        c.nontrivial(args)


@prop("find_compiler", "two or more compilers to choose from", 250, 3000)
def find_compiler(c):
    with scratch() as d:
        order = ["clang++", "clang", "g++", "gcc"]
        have = {}
        path = []
        for k in range(c.range(1, 2)):
            os.makedirs(f"{d}/p{k}")
            path.append(f"{d}/p{k}")
            for n in c.subset(order, 40):
                put(f"{d}/p{k}/{n}", "", 0o755)
                have.setdefault(n, f"{d}/p{k}/{n}")
        os.environ["PATH"] = ":".join(path)
        env = {}
        for k in ("CXX", "CC"):
            os.environ.pop(k, None)
            if c.chance(30):
                os.environ[k] = env[k] = f"{d}/{k}"
        want = env.get("CXX") or env.get("CC") or next((have[n] for n in order if n in have), None)
        c.desc(f"{env} {have}")
        try:
            got = cpp_compiler.CppCompilerBackend().compiler_binary_path
        except ValueError as e:
            c.check(want is None, f"{e}, but there is {want}")
            return
        c.eq(str(got), want, "compiler")
        c.eq(cpp_compiler.CppCompilerBackend("mine").compiler_binary_path, "mine", "the given compiler")
        if len(have) + len(env) > 1:
            c.nontrivial((sorted(have.items()), sorted(env)))


@prop("cli", "the tool was run", 300, 5000)
def cli(c):
    """A tool gets exactly the options and the input; its output comes back, and a failure is never taken for a result."""
    with scratch() as d:
        code = c.pick([0, 0, 0, 1, 2, 255])
        text = lambda: "".join(c.pick(["a", "\n", "é", "func.func @f()", " ", "%0", "\t", "\"", "→"]) for _ in range(c.range(0, 6)))
        so, se, si = text(), text(), text() * c.pick([1, 1, 1, 20000])
        args = [c.pick(WORDS) for _ in range(c.range(0, 4))]
        if c.chance(20):
            args.append(Path(d) / "out.txt")
        cls = c.pick([heir_cli.CLIBackend, heir_cli.HeirOptBackend, heir_cli.HeirTranslateBackend])
        exe = recorder(d, c.pick(["heir-opt", "tool x"]), (so, se, code), stdin=True)
        if c.chance(30):
            exe = os.path.relpath(exe)
        b = cls(binary_path=exe if c.chance(70) else Path(exe))
        both = c.chance(50)
        c.desc(f"{cls.__name__} {args} exit {code}")
        keep = list(args)
        exc = got = None
        try:
            got = (b.run_binary_stderr if both else b.run_binary)(input=si, options=args)
        except heir_cli.CLIError as e:
            exc = e
        name, seen, inp = called(d)
        c.eq(seen, [str(a) for a in args], "arguments")
        c.eq(args, keep, "the caller's list")
        c.eq(inp, si, "input")
        if code:
            c.check(exc is not None, f"exit {code} gave {got!r}")
            c.eq((exc.stdout, exc.stderr, exc.input, list(exc.options)), (so, se, si, keep), "the error's record")
            c.check(se in str(exc), "the message lacks the tool's errors")
        else:
            c.check(exc is None, f"{exc}")
            c.eq(got, (so, se) if both else so, "result")
        c.nontrivial((args, so, se, code))


@prop("entrypoints", "the bundled tool ran", 120, 1500)
def entrypoints(c):
    """The installed heir-opt and heir-translate commands hand their arguments and exit code through."""
    with scratch() as d:
        pkg = d + "/site/heir"
        os.makedirs(pkg)
        shutil.copy(FRONTEND + "/entrypoints.py", pkg + "/entrypoints.py")
        code = c.pick([0, 1, 42])
        inside, outside = c.chance(60), c.chance(50)
        for ok, where in ((inside, pkg), (outside, d + "/site")):
            if ok:
                for n in ("heir-opt", "heir-translate"):
                    recorder(where, n, ("from " + where, "", code))
        n = c.pick(["heir-opt", "heir-translate"])
        args = [c.pick(WORDS) for _ in range(c.range(0, 4))]
        c.desc(f"{n} {args} exit {code} inside {inside} outside {outside}")
        prog = f"import sys; sys.argv = ['cmd', *sys.argv[2:]]; sys.path.insert(0, {pkg!r}); import entrypoints as e; e.run_{n.replace('-', '_')}()"
        r = subprocess.run(["/usr/bin/python3", "-SEB", "-c", prog, "x", *args], capture_output=True, text=True)
        if not inside and not outside:
            c.eq(r.returncode, 1, "exit code without a tool")
            c.check(n in r.stderr, f"no message: {r.stderr}")
            return
        where = pkg if inside else d + "/site"
        got = called(where)
        c.check(got is not None, f"the tool in {where} was not run: {r.stderr}")
        c.eq(got[:2], [n, args], "tool and arguments")
        c.eq(r.returncode, code, "exit code")
        c.eq(r.stdout, "from " + where, "output")
        c.nontrivial((n, args, code, inside))


@prop("extras", "always", 60, 400)
def extras(c):
    """An optional dependency is required by its own name, and the message names the extra to install."""
    have = c.pick(["json", "numba", "numpy", "xml.dom", "heir"])
    _extras.require(have, extra="x")
    missing = c.pick(["no_such_module_", "qqq"]) + str(c.draw(1000))
    extra = c.pick(["python", "openfhe", "all"])
    try:
        _extras.require(missing, extra=extra)
    except ImportError as e:
        c.check(missing in str(e) and f"[{extra}]" in str(e), f"message {e}")
    else:
        c.fail(f"{missing} is not missing")
    c.nontrivial((missing, extra))


@prop("pybind_paths", "always", 40, 200)
def pybind_paths(c):
    import sysconfig
    inc = pybind_helpers.pybind11_includes()
    c.eq(len(inc), len(set(inc)), "distinct directories")
    c.check(sysconfig.get_path("include") in inc, f"Python's headers are not in {inc}")
    try:
        import pybind11
        c.check(pybind11.get_include() in inc, "pybind11's headers")
    except ImportError:
        pass
    c.check(sysconfig.get_config_var("LIBDIR") in pybind_helpers.pybind11_libs(), "Python's library directory")
    c.eq(pybind_helpers.pyconfig_ext_suffix(), sysconfig.get_config_var("EXT_SUFFIX"), "suffix")
    c.nontrivial()


if __name__ == "__main__":
    pbtlib.main()
