"""Builds the harnesses in /verif/harness against /repo's current working tree.

Everything goes to /verif/.build.  Up-to-date checks compare content hashes of
every dependency (never mtimes), so a file that was patched and restored, or
checked out with an old date, is handled correctly.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LLVM = "/usr/lib/llvm-20"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import buildfiles  # noqa: E402

buildfiles.REPO = REPO

CXXFLAGS = [
    "-std=c++20", "-O1", "-w", "-g0",
    f"-I{VERIF}/compat/overlay", f"-I{REPO}", "-Igen",
    f"-I{VERIF}/pbt",
    "-isystem", f"{VERIF}/compat/shim",
    "-isystem", f"{LLVM}/include", "-isystem", "/usr/include/eigen3",
]
LDFLAGS = ["-fuse-ld=lld", "-Wl,--gc-sections", f"-L{LLVM}/lib", f"-Wl,-rpath,{LLVM}/lib"]
LIBS = ["-lisl", "-lMLIR", "-lLLVM-20", "-labsl_int128", "-lpthread"]

_hash = {}
_locks, _olock = {}, threading.Lock()


class BuildError(Exception):
    pass


def fhash(path):
    h = _hash.get(path)
    if h is None:
        if not path.startswith((REPO + "/", VERIF + "/")) and os.path.isabs(path):
            h = "sys"  # toolchain and system headers do not change
        else:
            p = path if os.path.isabs(path) else os.path.join(BUILD, path)
            try:
                with open(p, "rb") as f:
                    h = hashlib.sha1(f.read()).hexdigest()
            except OSError:
                h = "missing"
        _hash[path] = h
    return h


def fresh(rec_path, cmd, outs):
    try:
        with open(rec_path) as f:
            rec = json.load(f)
    except (OSError, ValueError):
        return False
    if rec["cmd"] != cmd:
        return False
    for o in outs:
        if not os.path.exists(os.path.join(BUILD, o)):
            return False
    return all(fhash(d) == h for d, h in rec["deps"].items())


def read_depfile(path):
    with open(path) as f:
        txt = f.read().replace("\\\n", " ")
    deps = []
    for line in txt.splitlines():
        if ":" in line:
            deps += line.split(":", 1)[1].split()
    return sorted(set(deps))


def run(cmd, what):
    r = subprocess.run(cmd, cwd=BUILD, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(f"{what} failed:\n{' '.join(cmd)}\n{(r.stdout + r.stderr)[-6000:]}")


def save(rec_path, cmd, deps):
    tmp = f"{rec_path}.{os.getpid()}.tmp"
    with open(tmp, "w") as f:
        json.dump({"cmd": cmd, "deps": {d: fhash(d) for d in deps}}, f)
    os.replace(tmp, rec_path)


def pmap(fn, items):
    items = list(items)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(fn, x) for x in items]:
            f.result()


# -- tablegen ---------------------------------------------------------------
def norm(pkg, dep):
    dep = dep.removeprefix("@heir")
    if dep.startswith("@"):
        return dep
    if dep.startswith(":"):
        return pkg + dep
    if not dep.startswith("//"):
        return pkg + ":" + dep
    dep = dep[2:]
    return dep if ":" in dep else dep + ":" + dep.split("/")[-1]


def gen_list():
    with open(os.path.join(VERIF, "compat", "unbuildable.txt")) as f:
        bad = {x.strip() for x in f if x.strip() and not x.startswith("#")}
    out = set()
    for pkg, kind, kw in buildfiles.load_all("lib"):
        if kind != "gentbl_cc_library":
            continue
        outs = kw["tbl_outs"]
        td = norm(pkg, kw["td_file"]).replace(":", "/")
        for opts, o in [(v, k) for k, v in outs.items()] if isinstance(outs, dict) else outs:
            if o.endswith(".inc") and f"{pkg}/{o}" not in bad:
                out.add((f"gen/{pkg}/{o}", td, " ".join(opts), "heir-tblgen" in kw["tblgen"]))
    return sorted(out)


def write_arith_td():
    """MLIR 20's arith operations with the attributes HEIR's patterns name: a rounding mode on
    addf/subf/mulf/divf and a non-negative flag on extui/uitofp."""
    with open(f"{LLVM}/include/mlir/Dialect/Arith/IR/ArithOps.td") as f:
        s = f.read()
    i = s.index("class Arith_FloatBinaryOp<")
    j = s.index("\n}\n", i) + 3
    body = s[i:j].replace("Arith_FloatBinaryOp", "Arith_RoundedFloatBinaryOp").replace(
        ":$fastmath)>", ":$fastmath, OptionalAttr<Arith_RoundingModeAttr>:$roundingmode)>")
    s = s[:j] + "\n" + body + s[j:]
    for op in ("addf", "subf", "mulf", "divf"):
        s = s.replace(f'Arith_FloatBinaryOp<"{op}"', f'Arith_RoundedFloatBinaryOp<"{op}"')
    for op, t in (("extui", "Arith_IToICastOp"), ("uitofp", "Arith_IToFCastOp")):
        s = s.replace(f'{t}<"{op}"> {{', f'{t}<"{op}"> {{\n  let arguments = '
                      "(ins SignlessFixedWidthIntegerLike:$in, UnitAttr:$nonNeg);")
    out = os.path.join(BUILD, "overlay_td/mlir/Dialect/Arith/IR/ArithOps.td")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out) or open(out).read() != s:
        with open(out, "w") as f:
            f.write(s)


def gen_one(item, heir_tblgen_hash):
    out, td, opts, heir = item
    full = os.path.join(BUILD, out)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    tool = "./heir-tblgen" if heir else f"{LLVM}/bin/mlir-tblgen"
    cmd = [tool, *opts.split(), f"-I{BUILD}/overlay_td", f"-I{VERIF}/compat/overlay_td", f"-I{REPO}", f"-I{REPO}/{os.path.dirname(td)}",
           f"-I{LLVM}/include", f"{REPO}/{td}", "-d", out + ".d", "-o", out]
    key = cmd + ([heir_tblgen_hash] if heir else [])
    rec = full + ".rec"
    if fresh(rec, key, [out]):
        return
    run(cmd, f"tablegen {out}")
    deps = [d for d in read_depfile(full + ".d")] + [f"{REPO}/{td}"]
    save(rec, key, deps)
    _hash.pop(out, None)


def compile_one(src):
    """src is absolute, or relative to /repo. Returns the object path."""
    a = src if os.path.isabs(src) else os.path.join(REPO, src)
    obj = "obj/" + a.strip("/").replace("/", "__") + ".o"
    full = os.path.join(BUILD, obj)
    flags = list(CXXFLAGS)
    cc = f"{LLVM}/bin/clang++"
    if a.endswith(".c"):
        cc = f"{LLVM}/bin/clang"
        flags = ["-w", "-O1", f"-I{REPO}"]
    extra = EXTRA_FLAGS.get(src.replace(f"{VERIF}/harness/", "@H/").removeprefix(f"{REPO}/"), [])
    with _olock:
        lock = _locks.setdefault(obj, threading.Lock())
    with lock:
        return compile_obj(src, obj, full, cc, flags, extra, a)


def compile_obj(src, obj, full, cc, flags, extra, a):
    cmd = [cc, *flags, *extra, "-MMD", "-MF", obj + ".d", "-c", a, "-o", obj]
    rec = full + ".rec"
    if fresh(rec, cmd, [obj]):
        return obj
    run(cmd, f"compiling {src}")
    save(rec, cmd, read_depfile(full + ".d"))
    _hash.pop(obj, None)
    return obj


def link(exe, objs, libs=LIBS):
    cmd = [f"{LLVM}/bin/clang++", *objs, *LDFLAGS, *libs, "-o", exe]
    objs = [o for o in objs if not o.startswith("-")]
    rec = os.path.join(BUILD, exe + ".rec")
    if fresh(rec, cmd, [exe]):
        return
    run(cmd, f"linking {exe}")
    save(rec, cmd, objs)


from harnesses import HARNESSES, EXTRA_FLAGS  # noqa: E402

TBLGEN_SRCS = None


def prepare():
    for d in ("gen", "obj", "bin"):
        os.makedirs(os.path.join(BUILD, d), exist_ok=True)
    for d in ("overlay", "overlay_td"):
        os.makedirs(os.path.join(VERIF, "compat", d), exist_ok=True)
    rules = buildfiles.load_all("lib/Tablegen")
    targets = {f"{p}:{kw.get('name')}": (p, kw) for p, k, kw in rules}
    srcs, stack, seen = set(), ["lib/Tablegen:heir-tblgen"], set()
    while stack:
        x = stack.pop()
        if x in seen or x not in targets:
            continue
        seen.add(x)
        p, kw = targets[x]
        srcs |= {f"{p}/{s}" for s in kw.get("srcs") or [] if s.endswith(".cpp")}
        stack += [norm(p, d) for d in kw.get("deps") or []]
    pmap(compile_one, sorted(srcs))
    link("heir-tblgen", [compile_one(s) for s in sorted(srcs)], ["-lLLVMTableGen", "-lLLVM-20"])
    write_arith_td()
    h = fhash("heir-tblgen")
    items = gen_list()
    pmap(lambda it: gen_one(it, h), items)


def grow(objs):
    """Adds the objects of X.cpp for every repository header X.h the objects depend on, as a library:
    the linker takes those that define a missing symbol."""
    have, cands = set(objs), set()
    for o in [o for o in objs if not o.startswith("-")]:
        with open(os.path.join(BUILD, o + ".rec")) as f:
            for d in json.load(f)["deps"]:
                src = d[:-2] + ".cpp"
                if d.startswith(REPO + "/lib/") and d.endswith(".h") and os.path.exists(src):
                    cands.add(src)
    added = []

    def one(s):
        o = "obj/" + s.strip("/").replace("/", "__") + ".o"
        if o in have:
            return
        try:
            added.append(compile_one(s))
        except BuildError:
            pass

    pmap(one, sorted(cands))
    if added:
        objs += ["-Wl,--start-lib", *sorted(added), "-Wl,--end-lib"]
    return bool(added)


def sources(n):
    """Harnesses link the engine unless their list starts with @main (a program of their own)."""
    src = HARNESSES[n]
    return src[1:] if src[0] == "@main" else [f"{VERIF}/pbt/pbt.cpp", *src]


def build(names):
    """Builds the named harnesses; returns {name: path of the binary}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _hash.clear()
        prepare()
        srcs = []
        for n in names:
            for s in sources(n):
                s = s.replace("@H/", f"{VERIF}/harness/")
                if s not in srcs:
                    srcs.append(s)
        # longest first: the harness sources
        srcs.sort(key=lambda s: not s.startswith(f"{VERIF}/harness"))
        pmap(compile_one, srcs)
        res = {}

        def lk1(n):
            objs = [compile_one(s.replace("@H/", f"{VERIF}/harness/")) for s in sources(n)]
            for attempt in range(6):
                try:
                    link(f"bin/{n}", objs)
                    break
                except BuildError as e:
                    # A helper may have moved to a file that is not on the
                    # harness's list: add the sources behind the headers in use.
                    print(f"note: {n} grows") if os.environ.get("VB_NOTE") else None
                    if attempt == 5 or "undefined symbol" not in str(e) or not grow(objs):
                        raise
            res[n] = os.path.join(BUILD, "bin", n)

        pmap(lk1, names)
        return res


if __name__ == "__main__":
    t = time.time()
    names = sys.argv[1:] or list(HARNESSES)
    try:
        build(names)
    except BuildError as e:
        print(e)
        sys.exit(1)
    print(f"built {len(names)} harnesses in {time.time() - t:.1f} s")
