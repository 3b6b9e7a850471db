"""The Python twin of pbt.h: recorded bounded choices, one seed per case, forked
workers, generic shrinking, and the same command line and result format."""
import argparse
import hashlib
import json
import os
import pickle
import random
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BIN = os.path.join(VERIF, ".build", "bin")


class Failure(Exception):
    pass


class Discarded(Exception):
    pass


class Hang(BaseException):
    pass


class Case:
    def __init__(self, seed=None, replay=None, thorough=False):
        self._r = random.Random(seed) if replay is None else None
        self._replay = replay
        self._pos = 0
        self.rec = []
        self.labels = []
        self.text = []
        self.key = None
        self.thorough = thorough

    def draw(self, n):
        """Uniform in [0, n); 0 is the simplest."""
        if n <= 1:
            v = 0
        elif self._replay is not None:
            v = self._replay[self._pos] % n if self._pos < len(self._replay) else 0
        else:
            v = self._r.randrange(n)
        self._pos += 1
        self.rec.append(v)
        return v

    def range(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def chance(self, pct):
        return self.draw(100) >= 100 - pct

    def weighted(self, w):
        x = self.draw(sum(w))
        for i, k in enumerate(w):
            if x < k:
                return i
            x -= k

    def sized(self, lo, hi):
        return lo + min(self.draw(hi - lo + 1), self.draw(hi - lo + 1))

    def sint(self, m):
        v = self.draw(2 * m + 1)
        return (v + 1) // 2 if v % 2 else -(v // 2)

    def pick(self, xs):
        xs = list(xs)
        return xs[self.draw(len(xs))]

    def shuffle(self, xs):
        for i in range(len(xs) - 1, 0, -1):
            j = i - self.draw(i + 1)
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    def subset(self, xs, pct=50):
        return [x for x in xs if self.chance(pct)]

    def desc(self, *a):
        self.text.append(" ".join(str(x) for x in a))

    def label(self, s):
        self.labels.append(s)

    def nontrivial(self, key=None):
        self.key = repr(key) if key is not None else repr(self.rec)

    def fail(self, msg):
        raise Failure(msg)

    def discard(self):
        raise Discarded()

    def check(self, ok, *msg):
        if not ok:
            raise Failure(" ".join(str(m) for m in msg))

    def eq(self, got, want, *what):
        if got != want:
            raise Failure(f"{' '.join(str(m) for m in what)}: got {got!r}, expected {want!r}")


PROPS = []


def prop(name, rule, quick, thorough, hang=60):
    def deco(fn):
        PROPS.append(dict(name=name, rule=rule, quick=quick, thorough=thorough, fn=fn, hang=hang))
        return fn
    return deco


def _alarm(*_):
    raise Hang()


def run_one(p, c):
    """-> None if it passed, 'discard', or (kind, msg)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(p["hang"])
    try:
        p["fn"](c)
        return None
    except Discarded:
        return "discard"
    except Failure as e:
        return ("failure", str(e))
    except Hang:
        return ("hang", f"no result within {p['hang']} s")
    except SystemExit as e:
        return ("exit", f"SystemExit({e.code})")
    except (Exception, RecursionError) as e:
        return ("exception", f"{type(e).__name__}: {e}\n" + "".join(traceback.format_exc().splitlines(True)[-12:]))
    finally:
        signal.alarm(0)


def case_seed(seed, name, i):
    return int.from_bytes(hashlib.sha1(f"{seed}/{name}/{i}".encode()).digest()[:8], "little")


def quiet(fd_null):
    os.dup2(fd_null, 1)


def worker(items, thorough, deadline, out):
    """items: [(prop index, seed, case index)]"""
    st = {}
    fails = []
    timed_out = False
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    if not os.environ.get("PBT_STDERR"):
        os.dup2(nul, 2)
    for k, (pi, seed, i) in enumerate(items):
        if time.time() > deadline:
            timed_out = True
            break
        p = PROPS[pi]
        s = st.setdefault(pi, dict(cases=0, discarded=0, nontrivial=0, keys=set(), cpu_s=0.0, labels={}, samples=[]))
        if sum(1 for f in fails if f[0] == pi) >= 3:
            continue
        c = Case(case_seed(seed, p["name"], i), thorough=thorough)
        t = time.process_time()
        r = run_one(p, c)
        s["cpu_s"] += time.process_time() - t
        s["cases"] += 1
        if r == "discard":
            s["discarded"] += 1
            continue
        for lab in c.labels:
            s["labels"][lab] = s["labels"].get(lab, 0) + 1
        if c.key is not None:
            s["nontrivial"] += 1
            s["keys"].add(hashlib.sha1(c.key.encode()).digest()[:8])
            if len(s["samples"]) < 2:
                s["samples"].append("\n".join(c.text)[:1500])
        if r is not None:
            fails.append((pi, i, c.rec, r))
    with open(out, "wb") as f:
        pickle.dump((st, fails, timed_out), f)


def isolated(p, choices, thorough):
    """Runs one case in a child; -> (result, rec, text)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        nul = os.open(os.devnull, os.O_WRONLY)
        os.dup2(nul, 1)
        if not os.environ.get("PBT_STDERR"):
            os.dup2(nul, 2)
        c = Case(replay=choices, thorough=thorough)
        res = run_one(p, c)
        with os.fdopen(w, "wb") as f:
            pickle.dump((res, c.rec, "\n".join(c.text)), f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        return (("crash", f"the process ended with status {status}"), list(choices), "")
    return pickle.loads(data)


def shrink(p, rec, kind, thorough, secs):
    best = list(rec)
    end = time.time() + secs

    def bad(x):
        if time.time() > end:
            return None
        res, used, _ = isolated(p, x, thorough)
        if isinstance(res, tuple) and res[0] == kind:
            return used[:len(x)]
        return None

    improved = True
    while improved and time.time() < end:
        improved = False
        for size in (32, 16, 8, 4, 2, 1):
            i = len(best) - size
            while i >= 0 and time.time() < end:
                y = bad(best[:i] + best[i + size:])
                if y is not None and (len(y), y) < (len(best), best):
                    best = y
                    improved = True
                i -= size
        for i in range(len(best)):
            if i >= len(best) or time.time() > end:
                break
            if best[i] == 0:
                continue
            lo, hi = 0, best[i]
            y = bad(best[:i] + [0] + best[i + 1:])
            if y is not None:
                best = y
                improved = True
                continue
            while lo + 1 < hi and i < len(best):
                m = (lo + hi) // 2
                y = bad(best[:i] + [m] + best[i + 1:])
                if y is not None:
                    best, hi, improved = y, m, True
                else:
                    lo = m
            if i >= len(best):
                break
    return best


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--pid", default="")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--budget", type=float, default=300)
    ap.add_argument("--out", default="")
    ap.add_argument("--only", default="")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay", default="")
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        with open(a.replay) as f:
            name, choices = f.readline().strip(), [int(x) for x in f.readline().split()]
        p = next(p for p in PROPS if p["name"] == name)
        res, _, text = isolated(p, choices, a.thorough)
        print(text)
        if isinstance(res, tuple):
            print(f"{name}: {res[0]}: {res[1]}")
            sys.exit(1)
        print(f"{name}: {res or 'ok'}")
        sys.exit(0)
    sel = [i for i, p in enumerate(PROPS) if not a.only or p["name"] == a.only]
    if not sel:
        print("no property")
        sys.exit(3)
    planned = {i: max(1, int(PROPS[i]["thorough" if a.thorough else "quick"] * a.scale)) for i in sel}
    items = []
    for i in sel:
        items += [(i, a.seed, k) for k in range(planned[i])]
    # spread each property over the run and the workers
    random.Random(7).shuffle(items)
    deadline = t0 + a.budget
    nw = max(1, min(a.workers, len(items)))
    tmp = [f"{a.out or '/tmp/pbt'}.w{k}.{os.getpid()}" for k in range(nw)]
    pids = []
    sys.stdout.flush()
    for k in range(nw):
        pid = os.fork()
        if pid == 0:
            try:
                worker(items[k::nw], a.thorough, deadline, tmp[k])
            except BaseException:
                traceback.print_exc()
                os._exit(1)
            os._exit(0)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)
    stats, fails, timed_out, lost = {}, [], False, 0
    for f in tmp:
        try:
            with open(f, "rb") as h:
                st, fl, to = pickle.load(h)
            os.unlink(f)
        except (OSError, EOFError, pickle.UnpicklingError):
            lost += 1
            continue
        timed_out |= to
        fails += fl
        for pi, s in st.items():
            d = stats.setdefault(pi, dict(cases=0, discarded=0, nontrivial=0, keys=set(), cpu_s=0.0, labels={}, samples=[]))
            for k in ("cases", "discarded", "nontrivial", "cpu_s"):
                d[k] += s[k]
            d["keys"] |= s["keys"]
            d["samples"] = (d["samples"] + s["samples"])[:3]
            for lab, n in s["labels"].items():
                d["labels"][lab] = d["labels"].get(lab, 0) + n
    if lost:
        print(f"{lost} workers died")
        sys.exit(3)
    failures, unconfirmed = [], []
    fails.sort(key=lambda f: (f[0], f[1]))
    done = set()
    for pi, i, rec, (kind, msg) in fails:
        if pi in done:
            continue
        p = PROPS[pi]
        ok = all(isinstance(isolated(p, rec, a.thorough)[0], tuple) for _ in range(2))
        if not ok:
            unconfirmed.append(f"{p['name']} case {i}: {kind}: {msg[:300]}")
            continue
        done.add(pi)
        kind = isolated(p, rec, a.thorough)[0][0]
        best = shrink(p, rec, kind, a.thorough, 20)
        res, used, text = isolated(p, best, a.thorough)
        if not isinstance(res, tuple):
            best = rec
            res, used, text = isolated(p, rec, a.thorough)
        if not isinstance(res, tuple):
            res = (kind, msg)
        failures.append(dict(name=p["name"], case=i, kind=res[0], msg=res[1], desc=text, choices=best))
    out = dict(pid=a.pid, seed=a.seed, timed_out=timed_out, wall_s=time.time() - t0, failures=failures, unconfirmed=unconfirmed, props=[])
    for i in sel:
        s = stats.get(i, dict(cases=0, discarded=0, nontrivial=0, keys=set(), cpu_s=0.0, labels={}, samples=[]))
        out["props"].append(dict(name=PROPS[i]["name"], rule=PROPS[i]["rule"], planned=planned[i], cases=s["cases"], discarded=s["discarded"],
                                 nontrivial=s["nontrivial"], distinct_nontrivial=len(s["keys"]), cpu_s=round(s["cpu_s"], 2),
                                 labels=dict(sorted(s["labels"].items())), samples=s["samples"]))
    if a.out:
        with open(a.out, "w") as f:
            json.dump(out, f)
    else:
        for q in out["props"]:
            print({k: v for k, v in q.items() if k not in ("rule", "samples")})
        for f in failures:
            print(f"--- {f['name']} case {f['case']}: {f['kind']}: {f['msg']}\n{f['desc']}\nchoices {f['choices']}")
        for u in unconfirmed:
            print("UNCONFIRMED", u)
        print(f"{out['wall_s']:.1f} s")
    sys.exit(1 if failures else 0)
