"""Property id -> the generated-input checks that decide it."""


def cpp(h):
    return {"kind": "cpp", "harness": h}


def py(script, needs=(), python="/opt/vp/venv/bin/python"):
    return {"kind": "py", "script": script, "python": python, "needs": list(needs)}


CHECKS = {
    "C01": {"parts": [cpp("kernels")]},
    "C02": {"parts": [cpp("kernels")]},
    "C03": {"parts": [cpp("polyeval")]},
    "C04": {"parts": [cpp("math")]},
    "C05": {"parts": [cpp("math")]},
    "C06": {"parts": [cpp("math")]},
    "C07": {"parts": [cpp("math")]},
    "C08": {"parts": [cpp("graph")]},
    "C09": {"parts": [cpp("conv")]},
    "C10": {"parts": [cpp("layout")]},
    "C11": {"parts": [cpp("layout")]},
    "C12": {"parts": [cpp("index")]},
    "C13": {"parts": [cpp("passes_mem")]},
    "C14": {"parts": [cpp("passes_mem")]},
    "C15": {"parts": [cpp("shift")]},
    "C16": {"parts": [cpp("noise")]},
    "C17": {"parts": [cpp("noise")]},
    "C18": {"parts": [cpp("linalg")]},
    "C19": {"parts": [py("frontend.py", needs=["mlirrun"])]},
    "C20": {"parts": [py("client.py")]},
    "C21": {"parts": [py("toolchain.py")]},
    "C22": {"parts": [py("tfhe.py", needs=["emit"])]},
    "C23": {"parts": [py("scripts.py")]},
    "C24": {"parts": [py("interfaces.py", needs=["iface"])]},
    "C25": {"parts": [cpp("targets"), py("targets.py")]},
    "C26": {"parts": [cpp("modarith")]},
    "C27": {"parts": [cpp("oblivious")]},
    "C28": {"parts": [cpp("generic")]},
    "C29": {"parts": [cpp("approx")]},
    "C30": {"parts": [cpp("rotate")]},
}
