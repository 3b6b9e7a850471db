#!/usr/bin/env python3
"""Dev tool: write seeded/<id>/ from the edits in a scratch clone (default /tmp/seed/wt), then reset that clone."""
import json, os, subprocess, sys
WT = os.environ.get("WT", "/tmp/seed/wt")
DEMO = '''#!/bin/bash
# Run in /repo after the build. Exit 0: behaves as it should; non-zero: broken.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'find "$T" -depth -delete' EXIT
L=/usr/lib/llvm-20
$L/bin/clang++ -std=c++20 -O0 -w -I. -I_build/gen -isystem /opt/vp/heir/shim -isystem $L/include -isystem /usr/include/eigen3 \\
  "$D/demo.cpp" @SRCS@ -o "$T/demo" -fuse-ld=lld -L$L/lib -Wl,-rpath,$L/lib @LIBS@ || exit 2
timeout 120 "$T/demo"
'''
def main():
    sid, pid, needs, breaks, srcs = sys.argv[1:6]
    d = f"/verif/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", WT, "diff"], text=True)
    assert diff.strip()
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": pid, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if srcs != "-":
        libs = "-lisl -lMLIR -lLLVM-20 -labsl_int128 -lpthread"
        open(d + "/demo.sh", "w").write(DEMO.replace("@SRCS@", srcs).replace("@LIBS@", libs))
    if srcs != "-": os.chmod(d + "/demo.sh", 0o755)
    subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
main()
