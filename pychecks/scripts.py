"""C23: the repository's scripts (test runners, documentation, versions, templates).

Every script works on a generated tree in a scratch directory; bazel, heir-opt,
FileCheck and the network are stand-ins."""
import contextlib
import io
import json
import os
import re
import runpy
import shlex
import shutil
import subprocess
import sys
import tempfile
import types

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbtlib  # noqa: E402
from pbtlib import prop  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)


def yaml_stand_in():
    """yaml is not installed here; the documents hold flat mappings only."""
    m = types.ModuleType("yaml")
    m.safe_load = lambda s: {k.strip(): int(v) if v.strip().isdigit() else v.strip() for k, v in (l.split(":", 1) for l in s.splitlines() if l.strip())}
    m.dump = lambda d: "".join(f"{k}: {d[k]}\n" for k in sorted(d))
    return m


try:
    import yaml  # noqa: F401
except ImportError:
    sys.modules["yaml"] = yaml_stand_in()


@contextlib.contextmanager
def scratch(env=None, cwd=None):
    d = os.path.realpath(tempfile.mkdtemp(prefix="verif-scripts-"))
    old, oldenv = os.getcwd(), dict(os.environ)
    out = io.StringIO()
    try:
        os.chdir(d)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            yield d, out
    finally:
        os.chdir(old)
        os.environ.clear()
        os.environ.update(oldenv)
        shutil.rmtree(d)


def write(path, text, mode=None):
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    if mode:
        os.chmod(path, mode)


def read(path):
    with open(path) as f:
        return f.read()


def tree(d):
    return {os.path.relpath(os.path.join(r, f), d): read(os.path.join(r, f)) for r, _, fs in os.walk(d) for f in fs}


def word(c, alphabet="abcdexyz", lo=1, hi=6):
    return "".join(c.pick(alphabet) for _ in range(c.range(lo, hi)))


# ---- lit_to_bazel --------------------------------------------------------------------

FLAGS = ["--canonicalize", "--cse", "--split-input-file", "'--mlir-to-ckks=min-slot-count=8 foo=1'", '"--annotate-module=backend=openfhe scheme=ckks"',
         "--secretize", "-o -", "--shape-inference", "--entry-function=foo", "--yosys-optimizer=\"abc-fast=true\"", "--emit-openfhe-pke", "--pass='a{b=\"c\"}'", "--dump=%s.out"]


def stage(c, tool, source):
    words = [tool] + [c.pick(FLAGS) for _ in range(c.draw(4))]
    if source:
        words.insert(c.range(1, len(words)), "%s")
    return words


def lay_out(c, words):
    """Spreads words (| and redirections included) over RUN lines with continuations."""
    lines, cur = [], []
    cont = 0
    for i, w in enumerate(words):
        cur.append(w)
        if i + 1 < len(words) and c.chance(25):
            lines.append(cur)
            cur = []
            cont += 1
    lines.append(cur)
    out = []
    lead = c.pick(["", "", "", "  ", "//"])
    for i, l in enumerate(lines):
        t = lead + "// RUN: " + " " * c.weighted([4, 1, 1]) + " ".join(l)
        if i + 1 < len(lines):
            t += " \\"
        out.append(t)
    return out, cont


def noise(c):
    return c.pick(["// wat", "module {", "}", "", "// CHECK: func.func", "// CHECK-NEXT: return", "func.func @f(%x: i32) -> i32 {", "  return %x : i32", "// a | b > c"])


def lit_test(c):
    """A test file with one pipeline: (text, expected stages, expected redirections)."""
    stages = [stage(c, c.weighted([5, 1]) and "heir-translate" or "heir-opt", True)]
    for _ in range(c.weighted([4, 3, 1])):
        stages.append(stage(c, c.pick(["heir-opt", "heir-translate"]), False))
    kind = c.weighted([6, 2, 1])
    words = []
    for s in stages:
        words += (["|"] if words else []) + s
    head = [noise(c) for _ in range(c.draw(2))]
    if kind == 0:
        fc = ["|"] + c.pick([["FileCheck"], ["FileCheck"], ["not", "FileCheck"]]) + ["%s"] + (["--check-prefix=A"] if c.chance(30) else [])
        words += fc
        lines, cont = lay_out(c, words)
    elif kind == 1:
        last = ["2>&1", ">", "%t"] if c.chance(30) else [">", "%t"]
        lines, cont = lay_out(c, words + last)
        stages[-1] = stages[-1] + last
        if c.chance(80):
            lines += ["// RUN: FileCheck %s < %t"]
    else:
        lines, cont = lay_out(c, words)
    text = []
    for i, l in enumerate(lines):
        text.append(l)
        if not l.endswith("\\") and c.chance(30):
            text.append(noise(c))
    body = [noise(c) for _ in range(c.draw(5))]
    c.label({0: "FileCheck", 1: "redirected", 2: "plain"}[kind])
    if cont:
        c.label("continued")
    return "\n".join(head + text + body) + "\n", stages, head + [t for t in text if "RUN" not in t] + body, lines


def split(cmd):
    return shlex.split(cmd)


@prop("lit_to_bazel", "the test has several stages or continued lines", 2500, 60000)
def lit_to_bazel(c):
    from scripts import lit_to_bazel_lib as lib
    text, stages, _, lines = lit_test(c)
    c.desc(text)
    with scratch() as (d, out):
        rel = "tests/Transforms/" + c.pick(["foo", "heir-opt-x", "a b"]).replace(" ", "") + "/t.mlir"
        ws = c.chance(40)
        base = c.pick(["", "third_party/heir"]) if c.chance(40) else ""
        place = d if not ws else os.path.join(d, "ws")
        at = os.path.join(place, base if c.chance(60) else "", rel)
        write(at, text)
        if ws:
            os.environ["BUILD_WORKSPACE_DIRECTORY"] = place
        else:
            os.environ.pop("BUILD_WORKSPACE_DIRECTORY", None)
        under = os.path.relpath(at, place)
        spell = c.pick([rel, under])
        if c.chance(30) and not under.startswith("third_party"):
            spell = os.path.join("third_party/heir", rel) if base else spell
        how = c.draw(4)
        if how == 1:
            spell = "//" + os.path.dirname(spell) + ":" + os.path.basename(spell) + ".test"
        elif how == 2:
            spell = os.path.dirname(spell) + ":" + os.path.basename(spell) + ".test"
        elif how == 3:
            spell = "//" + os.path.dirname(spell) + ":" + os.path.basename(spell)
        c.desc(f"{spell} (file at {under}{', workspace' if ws else ''}, base path {base!r})")
        prefix = c.pick(["bazel run //tools", lib.DEFAULT_TOOL_PREFIX])
        kw = dict(tool_prefix=prefix, base_path=base)
        if c.chance(50):
            kw["git_root"] = "/git/root"
        if c.chance(20):
            kw["heir_translate_prefix"] = "{git_root}/x/translate"
        try:
            lib.lit_to_bazel(spell, **kw)
        except ValueError as e:
            c.fail(f"lit_to_bazel raises {e}")
        printed = [l for l in out.getvalue().splitlines() if not l.startswith("Converting")]
        c.eq(len(printed), 1, "number of commands printed")
        trans = kw.get("heir_translate_prefix", "{git_root}/bazel-bin/tools/heir-translate").format(git_root=kw.get("git_root", ""))
        want = []
        for s in stages:
            if want:
                want.append("|")
            for w in s:
                if w == "heir-opt":
                    want += split(f"{prefix}:heir-opt --")
                else:
                    want += split(w.replace("heir-translate", trans).replace("%s", at))
        c.eq(split(printed[0]), want, "the command")
    if len(stages) > 1 or any(l.endswith("\\") for l in lines):
        c.nontrivial(text)


@prop("lit_run", "always", 250, 4000, hang=60)
def lit_run(c):
    """run=True executes the pipeline, with the IR printed into a fresh debug directory."""
    from scripts import lit_to_bazel_lib as lib
    with scratch() as (d, out):
        os.environ.pop("BUILD_WORKSPACE_DIRECTORY", None)
        log = os.path.join(d, "log")
        for t in ("opt:heir-opt", "translate"):
            write(f"{d}/bin/{t}", f'#!/bin/sh\nprintf "%s\\n" "$(basename $0)" "$@" "" >> {log}\ncat >/dev/null 2>&1 </dev/null\nexit ${{FAIL:-0}}\n', 0o755)
        text = "\n".join(["// RUN: heir-opt --a %s" + (" | FileCheck %s" if c.chance(70) else "")]) + "\nmodule {}\n"
        write("t.mlir", text)
        dbg = os.path.join(d, "dbg")
        if c.chance(60):
            write(f"{dbg}/old/x.mlir", "old")
        write("keep/y", "y")
        fail = c.chance(25)
        if fail:
            os.environ["FAIL"] = "3"
        c.desc(f"{text!r} debug directory {'exists' if os.path.isdir(dbg) else 'is absent'}{', the tool fails' if fail else ''}")
        try:
            lib.lit_to_bazel("t.mlir", run=True, debug_dir=dbg, tool_prefix=f"{d}/bin/opt")
            raised = False
        except subprocess.CalledProcessError:
            raised = True
        c.eq(raised, fail, "an error is raised")
        got = read(log).split("\n")[:-2]
        c.eq(got, ["opt:heir-opt", "--", "--a", f"{d}/t.mlir", "--mlir-print-ir-after-all", f"--mlir-print-ir-tree-dir={dbg}"], "the invocation")
        c.check(not os.path.exists(f"{dbg}/old"), "the old debug directory is still there")
        c.eq((read("keep/y"), read("t.mlir")), ("y", text), "other files")
        c.nontrivial()


@prop("lit_to_doc", "as lit_to_bazel", 300, 6000, hang=60)
def lit_doc(c):
    from scripts.docs import lit_to_doc as lib
    text, stages, _, lines = lit_test(c)
    c.desc(text)
    if any(">" in s for s in stages) or any("-o -" in s for s in stages):
        c.discard()
    with scratch() as (d, out):
        os.environ.pop("BUILD_WORKSPACE_DIRECTORY", None)
        on_path = c.chance(60)
        where = f"{d}/bin" if on_path else f"{d}/bazel-bin/tools"
        write(f"{where}/heir-opt", '#!/bin/sh\necho "opt[$#]"\nfor a; do echo "<$a>"; done\n', 0o755)
        if not on_path and c.chance(30):
            write(f"{d}/bin/heir-opt", "not a program")
        write(f"{d}/bin/heir-translate", '#!/bin/sh\necho "translate[$#]"\ncat\n', 0o755)
        os.environ["PATH"] = f"{d}/bin:/usr/bin:/bin"
        if any("heir-translate" == s[0] for s in stages) and not on_path:
            c.discard()
        write("t.mlir", text)
        spelt = c.pick(["t.mlir", "./t.mlir"])
        doc = lib.lit_to_doc(spelt)
        m = re.fullmatch(r"#### Example\n\nCommand: `(.*)`\n\nInput:\n\n```mlir\n(.*)\n```\n\nOutput:\n\n```mlir\n(.*)\n```\n", doc, re.S)
        c.check(m, f"unexpected document: {doc}")
        want = []
        for s in stages:
            want += (["|"] if want else []) + [x for w in s for x in split(w.replace("%s", spelt))]
        c.eq(split(m[1]), want, "the command")
        c.eq(m[2], "\n".join(l for l in text.split("\n") if "// RUN" not in l and "// CHECK" not in l).strip(), "the input")
        cmd = m[1] if on_path else m[1].replace("heir-opt", "bazel-bin/tools/heir-opt")
        c.eq(m[3], subprocess.run(cmd, shell=True, capture_output=True, text=True).stdout.strip(), "the output")
    if len(stages) > 1 or any(l.endswith("\\") for l in lines):
        c.nontrivial(text)


# ---- e2e_to_bazel ----------------------------------------------------------------------

BAZEL = """#!/usr/bin/env python3
import json, sys, os
d = json.load(open(os.environ["BAZEL_ANSWERS"]))
a = sys.argv[1:]
with open(os.environ["BAZEL_ANSWERS"] + ".log", "a") as f: f.write(json.dumps(a + [os.getcwd()]) + chr(10))
if a[:2] == ["info", "workspace"]:
    print(d["root"]); sys.exit(0)
q = next(x for x in a[1:] if not x.startswith("--"))
sys.stdout.write(d["xml"].get(q, "") if "--output=xml" in a else d["query"].get(q, ""))
sys.exit(d["rc"])
"""


@prop("e2e_to_bazel", "the command was found", 150, 3000, hang=60)
def e2e(c):
    from scripts import e2e_to_bazel_lib as lib
    with scratch() as (d, out):
        write(f"{d}/bin/bazel", BAZEL, 0o755)
        ws = f"{d}/ws"
        os.makedirs(ws)
        os.environ["PATH"] = f"{d}/bin:" + os.environ["PATH"]
        explicit = c.chance(60)
        if explicit:
            os.environ["BUILD_WORKSPACE_DIRECTORY"] = ws
        else:
            os.environ.pop("BUILD_WORKSPACE_DIRECTORY", None)
        os.chdir(ws)
        pkg = "tests/Examples/" + "/".join(word(c) for _ in range(c.range(1, 2)))
        src_pkg = c.pick([pkg, "tests/Examples/common"])
        src = word(c) + ".mlir"
        write(f"{ws}/{src_pkg}/{src}", "")
        write(f"{ws}/{src_pkg}/BUILD", "")
        write(f"{ws}/nobuild/{src}", "")
        write(f"{ws}/{pkg}/BUILD", "")
        name = f"//{pkg}:{word(c)}_heir_opt"
        decoy = f"//{pkg}:zz_other_heir_opt"
        flags = []
        for _ in range(c.draw(5)):
            flags.append(c.pick(["--annotate-module=backend=openfhe scheme=ckks", "--mlir-to-ckks=min-slot-count=1024", "--scheme-to-openfhe", "--x=a'b", "--y=$HOME", "--z=a;b", "--secretize", '--q="r"']))
        how = c.draw(3)
        esc = lambda s: s.replace("&", "&amp;").replace('"', "&quot;").replace("<", "&lt;")
        kindok = c.chance(88)
        xml = ('<?xml version="1.1" encoding="UTF-8" standalone="no"?>\n<query version="2">\n'
               f'<rule class="{"heir_opt" if kindok else "cc_test"}" name="{name}">\n<string name="name" value="n"/>\n'
               + ('<list name="tags"><string value="--no"/></list>\n' if c.chance(50) else "")
               + '<list name="pass_flags">\n' + "".join(f'<string value="{esc(f)}"/>\n' for f in flags) + '</list>\n'
               + ('<label name="tool" value="//other:tool.mlir"/>\n' if c.chance(50) else "")
               + f'<label name="src" value="//{src_pkg}:{src}"/>\n</rule>\n</query>\n')
        q = {}
        found = c.chance(90)
        lines = [name] + ([decoy] if c.chance(40) else [])
        junk = c.pick(["", "Loading: 0 packages\n", "warning: x\n"])
        ans = junk + "".join(l + "\n" for l in lines) if found else junk
        if how == 0:      # the source file, as a path or a label
            label = f"//{src_pkg}:{src}"
            arg = c.pick([f"{src_pkg}/{src}", label])
            q[f"kind(heir_opt, rdeps(//tests/Examples/..., {label}))"] = ans
        elif how == 1:    # a directory
            arg = pkg
            q[f"kind(heir_opt, //{pkg}:*)"] = ans
        else:             # a test target
            arg = f"//{pkg}:{word(c)}_test"
            if c.chance(50):
                q[f"kind(heir_opt, //{pkg}:*)"] = ans
            else:
                q[f"kind(heir_opt, deps({arg}))"] = ans
        answers = f"{d}/answers"
        write(answers, json.dumps(dict(root=ws, query=q, xml={name: xml}, rc=c.pick([0, 3]))))
        os.environ["BAZEL_ANSWERS"] = answers
        c.desc(f"{arg} with {flags}; {q}")
        prefix = c.pick(["bazel run //tools", lib.DEFAULT_TOOL_PREFIX])
        lib.e2e_to_bazel(arg, tool_prefix=prefix)
        printed = out.getvalue().strip().splitlines()
        if how == 0 and c.chance(25):
            arg = f"nobuild/{src}"
            q.clear()
            q[f"kind(heir_opt, rdeps(//tests/Examples/..., {arg}))"] = ans
            write(answers, json.dumps(dict(root=ws, query=q, xml={name: xml}, rc=0)))
            out.truncate(0)
            out.seek(0)
            lib.e2e_to_bazel(arg, tool_prefix=prefix)
            printed = out.getvalue().strip().splitlines()
        if not found or not kindok:
            c.check(not any(":heir-opt --" in l for l in printed), f"a command was made up: {printed}")
            return
        c.eq(len(printed), 1, f"lines printed {printed}")
        c.eq(shlex.split(printed[0]), shlex.split(prefix + ":heir-opt --") + flags + [f"{ws}/{src_pkg}/{src}"], "the command")
        c.nontrivial(str(q))


# ---- versions -----------------------------------------------------------------------------

@prop("version", "always", 2500, 60000)
def version(c):
    from scripts import get_version as lib
    import datetime
    import requests
    today = datetime.datetime.now(datetime.timezone.utc)

    def spell(t):
        return t.strftime("%Y.%m.%d")
    releases = []
    for _ in range(c.draw(8)):
        day = today - datetime.timedelta(days=c.weighted([5, 2, 1, 1]) * c.pick([1, 10, 365]))
        t = spell(day)
        releases.append(c.pick([t, f"{t}.dev{c.draw(30)}", f"{t}.dev{c.draw(12)}", f"{t}.dev{c.draw(3)}", f"1{t}.dev50", f"{t}.dev40.post1", f"{t}.devx", t.replace(".", "-") + ".dev60", f"{t}1.dev70"]))
    mode = c.weighted([8, 1, 1])
    asked = []

    class Response:
        status_code = 404 if mode == 1 else 200

        def json(self):
            return {"releases": {r: [] for r in releases}} if c.chance(95) or releases else {}

    def get(url, *a, **kw):
        asked.append(url)
        if mode == 2:
            raise requests.exceptions.ConnectionError("down")
        return Response()
    event = c.pick(["workflow_dispatch", "schedule", "pull_request", "push"])
    ref = c.pick(["refs/heads/main", "refs/heads/dev", "refs/pull/3/merge", "refs/heads/domain", "refs/tags/refs/heads/main"])
    tag = c.pick([None, "", "v2025.10.01", "2025.10.01", "v1.2.3", "v2025.10.01.dev2", "2026.01.02.dev11"])
    package = c.pick(["heir_py", "other"])
    c.desc(f"{event} {ref} tag={tag!r} releases={releases} {['', 'not found', 'no network'][mode]}")
    with scratch() as (d, out):
        gha = c.chance(50)
        argv = ["get_version.py", f"--event={event}", f"--ref={ref}", f"--package={package}"] + ([f"--tag={tag}"] if tag is not None else []) + (["--gha"] if gha else [])
        os.environ.pop("GITHUB_OUTPUT", None)
        if c.chance(70):
            write("gha", "old=1\n")
            os.environ["GITHUB_OUTPUT"] = os.path.join(d, "gha")
        old, oldargv = requests.get, sys.argv
        requests.get, sys.argv = get, argv
        try:
            lib.main()
        finally:
            requests.get, sys.argv = old, oldargv
        got = dict(l.split("=", 1) for l in out.getvalue().splitlines() if re.match(r"(version|should_publish)=", l))
        if os.path.exists("gha"):
            c.eq(read("gha"), "old=1\n" + (f"version={got['version']}\nshould_publish={got['should_publish']}\n" if gha else ""), "GITHUB_OUTPUT")
    if spell(datetime.datetime.now(datetime.timezone.utc)) != spell(today):
        c.discard()
    t = spell(today)
    if event in ("workflow_dispatch", "schedule") and tag:
        want = (tag[1:] if tag[0] == "v" else tag, "true")
    elif event == "workflow_dispatch" and ref == "refs/heads/main":
        n = [int(m[1]) for r in (releases if mode == 0 else []) for m in [re.fullmatch(re.escape(t) + r"\.dev(\d+)", r)] if m]
        want = (f"{t}.dev{max(n) + 1 if n else 0}", "true")
        c.check(asked == [f"https://pypi.org/pypi/{package}/json"], f"asked {asked}")
    elif event == "schedule":
        want = (t, "true")
    else:
        want = ("0.0.0", "false")
    c.eq((got["version"], got["should_publish"]), want, "version and publication")
    c.nontrivial()


# ---- documentation ---------------------------------------------------------------------------

def para(c):
    return "\n".join(" ".join(word(c) for _ in range(c.range(1, 5))) for _ in range(c.range(1, 3)))


@prop("docs", "always", 400, 8000, hang=60)
def docs(c):
    with scratch() as (d, out):
        for k in ("BUILD_WORKSPACE_DIRECTORY",):
            os.environ.pop(k, None)
        write(f"{d}/bin/heir-opt", "#!/bin/sh\necho processed\n", 0o755)
        os.environ["PATH"] = f"{d}/bin:/usr/bin:/bin"
        dest = "docs/content/en/docs"
        os.makedirs(dest)
        auto = "<!-- Autogenerated by mlir-tblgen; don't manually edit -->"
        sections, used = {}, set()
        paths = [c.pick(["Transforms/%s/%sPasses.md", "Dialect/%s/Transforms/%sPasses.md", "Dialect/%s/Conversions/X/%s.md", "Dialect/%s/Conversions/X/%sPasses.md", "Pipelines/%s%sPasses.md"]) % (n.capitalize(), n.capitalize()) for n in {word(c) for _ in range(c.range(1, 4))}]
        example = False
        for p in sorted(set(paths)):
            text = auto + "\n"
            for _ in range(c.range(1, 3)):
                name = "-" + word(c, "abcdexyzA-", lo=2, hi=7)
                if name in sections:
                    continue
                body = "\n_" + para(c) + "_\n\n" + para(c) + "\n"
                if c.chance(15):
                    body += "\n---\n\nmore\n"
                if c.chance(40):
                    body += "\n#### Options\n\n```\n-a : b\n```\n"
                if c.chance(25):
                    write("tests/ex.mlir", "// RUN: heir-opt --x %s | FileCheck %s\nfunc.func @f() {\n// CHECK: f\n}\n")
                    body += c.pick(["", "  "]) + "(* example filepath=tests/ex.mlir *)\nafter\n"
                    example = True
                sections[name] = body
                text += f"### `{name}`\n{body}"
            write("bazel-bin/lib/" + p, text)
        write("bazel-bin/lib/Dialect/Foo/IR/notes.txt", "no")
        write("bazel-bin/lib/Dialect/file.md", "no")
        dialects = {}
        for n in {word(c).capitalize() for _ in range(c.range(1, 3))}:
            files = {}
            for g in ("Dialect", "Attributes", "Types", "Ops", "Enums", "Interfaces"):
                if c.chance(60) or g == "Dialect" and c.chance(60):
                    files[n + g] = ("# Dialect\n" if g == "Dialect" else "") + f"{n} {g.lower()} {para(c)}\n" + ("[TOC]\n" if g == "Dialect" else "")
                    write(f"bazel-bin/lib/Dialect/{n}/IR/{n}{g}.md", files[n + g])
            dialects[n] = files
        c.desc(f"{sections} {dialects}")
        runpy.run_path(os.path.join(REPO, "scripts/docs/copy_tblgen_files.py"), run_name="__main__")
        text = read(f"{dest}/passes.md")
        m = re.match(r"---\n(.*?)---\n\n", text, re.S)
        c.check(m, "passes.md has no front matter")
        c.eq(sys.modules["yaml"].safe_load(m[1]), {"title": "Passes", "weight": 70}, "front matter")
        c.check("Autogenerated" not in text, "the autogenerated note is left")
        parts = re.split(r"^### `(.*)`$", text[m.end():], flags=re.M)
        c.eq(parts[1::2], sorted(sections, key=lambda n: f"{n}`"), "passes, sorted by heading")
        for name, body in zip(parts[1::2], parts[2::2]):
            want = sections[name].strip()
            if "(* example" in want:
                c.check("Command: `heir-opt --x tests/ex.mlir`" in body and "processed" in body and "func.func @f() {\n}" in body and "(* example" not in body, f"the example of {name}: {body}")
                want = want[:want.index("(* example")].strip()
                c.check(body.strip().startswith(want) and body.strip().endswith("after"), f"the text around the example of {name}")
            else:
                c.eq(body.strip(), want, f"the text of {name}")
        for n, files in dialects.items():
            p = f"{dest}/Dialects/{n}.md"
            if not files:
                c.check(not os.path.exists(p), f"{p} without contents")
                continue
            got = read(p)
            c.check(got.startswith(f"---\ntitle: {n}\n"), "front matter of the dialect")
            pos = -1
            for g in ("Dialect", "Attributes", "Types", "Ops"):
                if n + g in files:
                    body = files[n + g].replace("# Dialect", "").replace("[TOC]", "").strip()
                    c.eq(got.count(body), 1, f"occurrences of {n}{g}.md")
                    c.check(got.index(body) > pos, f"{n}{g}.md is out of order")
                    pos = got.index(body)
                    if g != "Dialect":
                        c.check(f"## {n} {g.lower()}\n" in got, f"heading of {g}")
            for g in ("Enums", "Interfaces"):
                if n + g in files:
                    c.eq(got.count(files[n + g].strip()), 1, f"occurrences of {n}{g}.md")
                    c.check(got.index(files[n + g].strip()) > pos, f"{n}{g}.md is out of order")
        c.nontrivial()


@prop("footers", "some file got the footer", 200, 3000, hang=60)
def footers(c):
    from scripts import disable_mdformat as lib
    with scratch() as (d, out):
        root = os.path.join(d, "repo")
        os.makedirs(root)
        subprocess.run(["git", "init", "-q", root], check=True, env=dict(os.environ, HOME=d))
        write(f"{root}/.gitignore", "ignored/\n*.skip.md\n")
        line = "<!-- mdformat global-off -->"
        files = {}
        for k in range(c.range(1, 6)):
            where = c.pick(["", "docs/", "ignored/", "a/b/"]) + f"f{k}" + c.pick([".md", ".md", ".md", ".txt", ".skip.md", ".MD"])
            text = c.pick(["", "# t\n", "# t", f"{line}\n# t\n", f"# t\n{line}\nmore", f"x {line} y", "ünï\n", "\n\n"])
            files[where] = text
            write(f"{root}/{where}", text)
            if c.chance(40):
                subprocess.run(["git", "add", "-A", "--", where], cwd=root, capture_output=True, env=dict(os.environ, HOME=d))
        c.desc(str(files))
        os.chdir(os.path.join(root, "docs") if os.path.isdir(f"{root}/docs") and c.chance(50) else root)
        todo = {p for p, t in files.items() if p.endswith(".md") and not p.startswith("ignored/") and not p.endswith(".skip.md") and line not in t}
        rc = 0
        try:
            runpy.run_path(os.path.join(REPO, "scripts/disable_mdformat.py"), run_name="__main__")
        except SystemExit as e:
            rc = e.code
        for p, t in files.items():
            want = t if p not in todo else t + ("\n" if t and not t.endswith("\n") else "") + line + "\n"
            c.eq(read(f"{root}/{p}"), want, p)
        c.eq(bool(rc), bool(todo), "the exit code reports changes")
        if todo:
            c.nontrivial()


# ---- templates ------------------------------------------------------------------------------

def camel(c):
    return "".join(word(c, lo=2, hi=5).capitalize() for _ in range(c.range(1, 3)))


@prop("templates", "always", 150, 2500, hang=60)
def templates(c):
    with scratch() as (d, out):
        root = os.path.join(d, "heir")
        shutil.copytree(os.path.join(REPO, "scripts", "templates"), f"{root}/scripts/templates")
        os.makedirs(f"{root}/.git")
        write(f"{root}/lib/Dialect/Existing/IR/keep.h", "keep")
        mod = runpy.run_path(f"{root}/scripts/templates/templates.py", run_name="templates")
        cli = mod["CLI"]()
        before = tree(root)
        kind = c.pick(["new_conversion_pass", "new_dialect_transform", "new_transform", "new_dialect"])
        force = c.chance(30)
        kw = dict(force=force) if force else {}
        flag = None
        mn, nss = {}, {}
        if kind == "new_conversion_pass":
            s, t = camel(c), camel(c)
            kw.update(source_dialect_name=s, target_dialect_name=t)
            name = f"{s}To{t}"
            if c.chance(50):
                name = kw["pass_name"] = camel(c)
            for w, dn in (("source", s), ("target", t)):
                mn[w] = dn.lower()
                if c.chance(40):
                    mn[w] = kw[f"{w}_dialect_mnemonic"] = word(c) + c.pick(["", "_" + word(c)])
                nss[w] = mn[w], dn
                if c.chance(40):
                    nss[w] = kw.setdefault(f"{w}_dialect_namespace", word(c)), dn
            flag = f"{mn['source'].replace('_', '-')}-to-{mn['target'].replace('_', '-')}"
            at = f"lib/Dialect/{s}/Conversions/{name}"
            files = [f"{name}.h", f"{name}.td", f"{name}.cpp", "BUILD"]
        elif kind == "new_dialect_transform":
            dn, name = camel(c), camel(c)
            kw.update(pass_name=name, dialect_name=dn)
            flag = f"{dn.lower()}-{name.lower()}"
            if c.chance(50):
                flag = kw["pass_flag"] = word(c) + "-" + word(c)
            if c.chance(40):
                kw["dialect_namespace"] = word(c)
            at = f"lib/Dialect/{dn}/Transforms"
            files = ["BUILD", f"{name}.cpp", f"{name}.h", "Passes.h", "Passes.td"]
        elif kind == "new_transform":
            name = camel(c)
            kw.update(pass_name=name)
            flag = name.lower()
            if c.chance(50):
                flag = kw["pass_flag"] = word(c) + "-" + word(c)
            at = f"lib/Transforms/{name}"
            files = ["BUILD", f"{name}.cpp", f"{name}.h", f"{name}.td"]
        else:
            name = camel(c)
            kw.update(dialect_name=name)
            ns = name.lower()
            if c.chance(50):
                ns = kw["dialect_namespace"] = word(c)
            at = f"lib/Dialect/{name}/IR"
            files = ["BUILD"] + [f"{name}Dialect.{e}" for e in ("cpp", "h", "td")]
            for part in ("attributes", "types", "ops"):
                on = True
                if c.chance(50):
                    on = kw[f"enable_{part}"] = c.chance(50)
                if on:
                    files += [f"{name}{part.capitalize()}.{e}" for e in ("h", "td", "cpp")]
        exists = c.chance(30)
        if exists:
            write(f"{root}/{at}/old.txt", "old")
        c.desc(f"{kind}({kw}){' where the directory exists' if exists else ''}")
        missing = None
        if c.chance(10):
            missing = c.pick([k for k in kw if k in ("source_dialect_name", "target_dialect_name", "dialect_name", "pass_name") and not (kind == "new_conversion_pass" and k == "pass_name")])
            kw.pop(missing)
        full = tree(root)
        try:
            getattr(cli, kind)(**kw)
            err = None
        except ValueError as e:
            err = e
        after = tree(root)
        if missing or exists and not force:
            c.check(err is not None, "no error")
            c.eq(after, full, "the tree after an error")
            return
        c.check(err is None, f"raises {err}")
        made = {p: t for p, t in after.items() if p.startswith(at + "/")}
        c.eq(sorted(made), sorted(f"{at}/{f}" for f in files), "the files made")
        c.eq({p: t for p, t in after.items() if p not in made}, before, "the other files")
        for p, t in made.items():
            c.check("{{" not in t.replace("{{{", "") or "jinja" in t, f"{p} is not rendered: {t}")
            c.check("{%" not in t and "None" not in t, f"{p} is not rendered: {t}")
        alltext = "\n".join(made.values())
        for p, t in made.items():
            for inc in re.findall(r'include "(lib/[^"]*)"', t):
                dep = re.sub(r"\.(h|cpp)\.inc$", ".td", inc)
                c.check(not dep.startswith(at) or dep in made, f"{p} includes {inc}, which is not there")
            if p.endswith((".h", ".td")):
                g = re.match(r"#ifndef (\w+)\n#define (\w+)\n", t)
                c.check(g and g[1] == g[2], f"{p} has no include guard")
        c.eq(len({t.split("\n")[0] for p, t in made.items() if p.endswith((".h", ".td"))}), sum(p.endswith((".h", ".td")) for p in made), "distinct include guards")
        if kind == "new_dialect":
            dcpp = made[f"{at}/{name}Dialect.cpp"]
            for part, reg in (("Attributes", "addAttributes"), ("Types", "addTypes"), ("Ops", "addOperations")):
                on = kw.get(f"enable_{part.lower()}", True)
                c.eq((f'#include "{at}/{name}{part}.h"' in dcpp, reg in dcpp), (on, on), f"{part} in the dialect")
        if kind != "new_dialect":
            defs = re.findall(r"^def (\w+)\s*:\s*Pass<\"([^\"]*)\"", alltext, re.M)
            c.eq(len(defs), 1, f"passes declared: {defs}")
            c.eq(defs[0][0], name, "the name of the pass")
            if flag:
                c.eq(defs[0][1], flag, "the flag of the pass")
            if nss:
                for w, (n, dn) in nss.items():
                    c.eq(set(re.findall(r"\b(?:mlir::heir::)?(\w+)::%sDialect\b" % dn, alltext)), {n} if nss["source"][1] != nss["target"][1] else {nss["source"][0], nss["target"][0]}, f"the namespace of {dn}")
            c.check(f"GEN_PASS_DEF_{name.upper()}" in made[f"{at}/{name}.cpp"], "the definition's macro")
            c.check(f'#include "{at}/{name}.h"' in made[f"{at}/{name}.cpp"], "the include of the header")
        td = f"{at}/{'Passes' if kind == 'new_dialect_transform' else name + ('Dialect' if kind == 'new_dialect' else '')}.td"
        what = ["--gen-dialect-decls", f"--dialect={ns}"] if kind == "new_dialect" else ["--gen-pass-decls", "--name=X"]
        r = subprocess.run(["/usr/lib/llvm-20/bin/mlir-tblgen", *what, f"-I{root}", "-I/usr/lib/llvm-20/include", f"{root}/{td}"], capture_output=True, text=True)
        c.check(r.returncode == 0, f"{td} is not valid: {r.stderr}")
        c.check(f"class {name}Dialect" in r.stdout if kind == "new_dialect" else f"{name}Base" in r.stdout, f"{td} does not declare {name}")
        c.nontrivial()


# ---- roots, authors, coverage ---------------------------------------------------------------

@prop("roots_of_unity", "a root exists", 300, 6000)
def roots_of_unity(c):
    import sympy
    mod = runpy.run_path(os.path.join(REPO, "scripts/generate_static_roots.py"), run_name="roots")
    n = 1 << c.range(1, 6)
    if c.chance(70):
        q = 2 * n * c.range(1, 40) + 1
        while not sympy.isprime(q):
            q += 2 * n
    else:
        q = sympy.nextprime(c.range(3, 3000))
    c.desc(f"degree {n}, modulus {q}")
    r = mod["primitive_2nth_root"](n, q)
    if (q - 1) % (2 * n) == 0:
        c.check(r is not None, "no root")
        c.eq(sympy.n_order(r, q), 2 * n, f"order of {r}")
        c.nontrivial()
    else:
        c.check(r is None, f"{r} is no root of order {2 * n}")


@prop("root_tables", "some root exists", 60, 1200, hang=60)
def root_tables(c):
    """The generated header lists a root for exactly the pairs that have one, in the table of the modulus' size."""
    import argparse
    import sympy
    with scratch() as (d, out):
        write(f"{d}/scripts/generate_static_roots.py", read(os.path.join(REPO, "scripts/generate_static_roots.py")))
        os.makedirs(f"{d}/include/Dialect/Polynomial/IR")
        mod = runpy.run_path(f"{d}/scripts/generate_static_roots.py", run_name="roots")
        degrees = c.shuffle([1 << k for k in range(1, 5) if c.chance(70)]) or [4]
        cmods = []
        for _ in range(c.range(1, 4)):
            lo = c.pick([0, 2**16, 2**31, 2**32 - 2000, 2**32, 2**40, 2**62]) + c.range(1, 1000)
            step = 2 * c.pick(degrees)
            q = lo - lo % step + 1
            while q < 3 or not sympy.isprime(q):
                q += step
            cmods.append(q)
        cmods = list(dict.fromkeys(cmods))
        c.desc(f"moduli {cmods}, degrees {degrees}")
        mod["main"](argparse.Namespace(cmods=cmods, degrees=degrees))
        text = read(f"{d}/include/Dialect/Polynomial/IR/StaticRoots.h")
        got = {}
        for size, body in re.findall(r"STATIC_(\d+)BIT_ROOTS\(\{\n(.*?)\}\);", text, re.S):
            for e in re.findall(r"\{\{(\d+), (\d+)\}, (\d+)\}", body):
                q, n, root = map(int, e)
                c.check((q, n) not in got, f"{(q, n)} twice")
                got[q, n] = size
                c.check(pow(root, n, q) == q - 1, f"{root} is no primitive {2 * n}-th root of unity modulo {q}")
        c.eq(got, {(q, n): "32" if q < 2**32 else "64" for q in cmods for n in degrees if (q - 1) % (2 * n) == 0}, "the pairs listed")
        if got:
            c.nontrivial()


@prop("author_stats", "some commit counts", 1000, 20000)
def author_stats(c):
    import requests
    mod = runpy.run_path(os.path.join(REPO, "scripts/author_stats.py"), run_name="authors")
    import time
    pages, kept = [], []
    for _ in range(c.range(1, 4)):
        page = []
        for _ in range(c.draw(5)):
            name = c.pick(["ann", "bob", "eve", "zoë"])
            email = c.pick([f"{name}@x.org", f"{name}@google.com", "dependabot@github.com", "no-reply@google.com", None])
            msg = c.pick(["fix\n\nlong text", "add", "Integrate LLVM at llvm/llvm-project@123", "Bump x (dependabot)", "merge"])
            ym = (c.range(2023, 2024), c.pick([1, 2, 11]))
            page.append({"commit": {"author": {"name": name, "email": email, "date": f"{ym[0]}-{ym[1]:02}-{c.range(1, 28):02}T01:02:03Z"}, "message": msg}})
            if not (email and ("dependabot" in email or email == "no-reply@google.com") or "Integrate LLVM" in msg or "dependabot" in msg):
                kept.append((name, email, msg.split("\n")[0], f"{ym[0]}-{ym[1]:02}"))
        pages.append(page)

    def get(url, params=None, **kw):
        k = int(url.split("page=")[1]) if "page=" in url else 0
        r = types.SimpleNamespace(links={"next": {"url": f"https://api.github.com/x?page={k + 1}"}} if k + 1 < len(pages) else {})
        r.json = lambda: pages[k]
        r.raise_for_status = lambda: None
        return r
    c.desc(str(pages))
    old, oldsleep = requests.get, time.sleep
    requests.get, time.sleep = get, lambda s: None
    try:
        with scratch():
            commits = mod["extract_commits"](mod["fetch_commits"]("google/heir"))
            stats = mod["compute_stats"](commits)
    finally:
        requests.get, time.sleep = old, oldsleep
    c.eq([(x["author"], x["email"], x["message"], x["date"].strftime("%Y-%m")) for x in commits], kept, "the commits that count")
    want = {}
    for n, _, _, m in kept:
        want.setdefault(m, []).append(n)
    c.eq(sorted((s["date"], s["distinct authors"], s["commits"]) for s in stats), sorted((m, len(set(v)), len(v)) for m, v in want.items()), "monthly numbers")
    if kept:
        c.nontrivial()


@prop("torch_coverage", "always", 1000, 20000)
def torch_coverage(c):
    from scripts.torch_ci import entrypoint as lib
    import pathlib
    with scratch() as (d, out):
        models = pathlib.Path(d) / "repo/scripts/torch_ci/models"
        models.mkdir(parents=True)
        plan = {}
        for n in {word(c) for _ in range(c.range(1, 5))}:
            plan[n] = (c.weighted([4, 1]), c.weighted([5, 1]), c.weighted([3, 2]), c.pick(["", "out\n"]), c.pick(["boom", f"{models}/{n}.mlir:3:4: error: bad op\nsee it", "<unknown>:0: error: x", f"{models}/{n}.mlir: error: y\n", "PLEASE submit a bug report to z",
                                                                                                                 f"stack\nPLEASE submit a bug report to z\n{models}/{n}.mlir:3:4: error: q", "long " * 40, "", "<unknown>:12: error: z", f"/a b/{n}.mlir:1:22: error: p\n/c/{n}.mlir:3:4: error: q",
                                                                                                                 f"/a b/{n}.mlir: error: p", "wat <unknown>:0: error: x", "x" * 99 + "yz"]))
            (models / f"{n}.py").write_text("")
        (models / "notes.txt").write_text("")
        (models / "sub.py").mkdir()
        calls = []

        class Executor:
            def run(self, cmd, cwd=None):
                n = re.search(r"/(\w+)\.(py|mlir)$", cmd)[1]
                calls.append((n, "export" if cmd.endswith(".py") else "opt"))
                p = plan[n]
                if cmd.endswith(".py"):
                    if not p[1] and not p[0]:
                        (models / f"{n}.mlir").write_text("x")
                    return types.SimpleNamespace(returncode=p[0], stdout=p[3], stderr=p[4])
                return types.SimpleNamespace(returncode=p[2], stdout=p[3], stderr=p[4])
        r = lib.CoverageRunner(executor=Executor(), models_dir=models, heir_opt_path="heir-opt")
        results = r.run_all()
        c.desc(str(plan))
        want, logs, seq = {}, {}, []
        for n in sorted(plan):
            e, nofile, o, so, se = plan[n]
            seq.append((n, "export"))
            text = (f"=== STDOUT ===\n{so}\n=== STDERR ===\n" if so else "") + se
            if e:
                want[n], logs[f"{n}_export.log"] = "FAIL (Export)", text
            elif nofile:
                want[n], logs[f"{n}_heir-opt.log"] = "FAIL (No MLIR)", None
            else:
                seq.append((n, "opt"))
                want[n] = "FAIL (heir-opt)" if o else "PASS"
                if o:
                    logs[f"{n}_heir-opt.log"] = text
        c.eq({n: s for n, (s, _) in results.items()}, want, "the results")
        c.eq(calls, seq, "the commands run")
        ld = models.parent / "failure_logs"
        got = {p.name: p.read_text() for p in ld.iterdir()} if ld.exists() else {}
        c.eq(sorted(got), sorted(logs), "the logs")
        for k, v in logs.items():
            if v is not None:
                c.eq(got[k], v, k)
        rows = r.format_results_table(results).split("| --- | --- | --- |\n")[1].splitlines()
        c.eq([tuple(x.strip() for x in row.strip("|").split("|")[:2]) for row in rows], [(n, want[n]) for n in sorted(plan)], "the table")
        for row, n in zip(rows, sorted(plan)):
            detail = row.split("|")[3].strip()
            if want[n] == "FAIL (No MLIR)":
                c.check(detail, f"no details of {n}")
                continue
            text = plan[n][4] if want[n] != "PASS" else ""
            if "PLEASE submit a bug report to" in text:
                text = "(stack trace)"
            text = text.replace("\n", " ")
            for loc in (r".*?\.mlir:\d+:\d+: error:", r"<unknown>:\d+: error:", r".*?\.mlir: error:"):
                m = re.match(loc, text)
                if m:
                    text = "error:" + text[m.end():]
                    break
            c.eq(detail, text[:100].strip(), f"details of {n}")
        c.nontrivial()


@prop("torch_ci_run", "always", 40, 600, hang=60)
def torch_ci_run(c):
    """The whole script, with model scripts that write the MLIR and a stand-in heir-opt."""
    with scratch() as (d, out):
        root = f"{d}/repo"
        write(f"{root}/scripts/torch_ci/entrypoint.py", read(os.path.join(REPO, "scripts/torch_ci/entrypoint.py")))
        os.makedirs(f"{root}/scripts/torch_ci/models")
        write(f"{root}/mod.py", "x = 1\n")
        write(f"{root}/bazel-bin/tools/heir-opt", '#!/bin/sh\nfor a; do last=$a; done\nif grep -q bad "$last"; then echo "$last:1:2: error: bad op" >&2; exit 1; fi\n', 0o755)
        want = {}
        for n in {word(c) for _ in range(c.range(1, 3))}:
            k = c.draw(4)
            body = ["import mod\nopen('%s.mlir', 'w').write('good')\n" % n, "import mod\nopen('%s.mlir', 'w').write('bad')\n" % n, "import mod\n", "raise SystemExit('no export')\n"][k]
            write(f"{root}/scripts/torch_ci/models/{n}.py", body)
            want[n] = [("PASS", ""), ("FAIL (heir-opt)", "error: bad op"), ("FAIL (No MLIR)", None), ("FAIL (Export)", "no export")][k]
        summary = c.chance(60)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        env.pop("GITHUB_STEP_SUMMARY", None)
        if summary:
            write(f"{d}/summary", "before\n")
            env["GITHUB_STEP_SUMMARY"] = f"{d}/summary"
        c.desc(f"{want}{', with a step summary' if summary else ''}")
        r = subprocess.run([sys.executable, "scripts/torch_ci/entrypoint.py"], cwd=root, env=env, capture_output=True, text=True)
        c.eq(r.returncode, 0, f"exit code; {r.stderr}")
        texts = [r.stdout] + ([read(f"{d}/summary")] if summary else [])
        if summary:
            c.check(texts[1].startswith("before\n"), "the summary was overwritten")
        for t in texts:
            rows = [[x.strip() for x in l.strip("|").split("|")] for l in t.split("| --- | --- | --- |\n")[1].splitlines() if l.startswith("|")]
            c.eq([row[0] for row in rows], sorted(want), "the rows")
            for row in rows:
                c.eq(row[1], want[row[0]][0], f"status of {row[0]}")
                if want[row[0]][1] is not None:
                    c.eq(row[2], want[row[0]][1], f"details of {row[0]}")
        c.nontrivial()


if __name__ == "__main__":
    pbtlib.main()
