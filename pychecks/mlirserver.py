"""Client of the servers in harness/ (mlirrun, emit): one server process per worker process."""
import json
import os
import subprocess
from pbtlib import BIN

_srv = {}


def ask(mlir, fn, runs):
    return request("mlirrun", dict(mlir=mlir, fn=fn, runs=runs))


def request(binary, what):
    if _srv.get("pid") != os.getpid():
        _srv.clear()
        _srv["pid"] = os.getpid()
    p = _srv.get(binary)
    if p is None:
        p = subprocess.Popen([os.path.join(BIN, binary)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        _srv[binary] = p
    try:
        p.stdin.write(json.dumps(what) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
    except BrokenPipeError:
        line = ""
    if not line:
        _srv.pop(binary, None)
        p.kill()
        p.wait()
        return {"error": f"{binary} died", "died": True}
    return json.loads(line)


def num(x):
    return float.fromhex(x) if isinstance(x, str) else x
