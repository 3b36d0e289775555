"""Dictionary of numeric literals of the code under test (as fuzzers use one): sizes, parameters and
sample values near them are tried.  Literals that the committed baseline does not have come first."""
import ast
import collections
import glob
import json
import os
import sys

REPO = os.environ.get("PROADV_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "base_lits.json")


OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b,
       ast.FloorDiv: lambda a, b: a // b, ast.LShift: lambda a, b: a << min(b, 40), ast.Pow: lambda a, b: float(a) ** min(b, 40)}


def fold(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        return n.value
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        return -fold(n.operand)
    if isinstance(n, ast.BinOp) and type(n.op) in OPS:
        return OPS[type(n.op)](fold(n.left), fold(n.right))
    raise ValueError


def scan(root=REPO):
    res = {}
    for p in sorted(glob.glob(os.path.join(root, "proadv", "**", "*.py"), recursive=True)):
        rel = os.path.relpath(p, root)
        if "/tests/" in rel:
            continue
        c = collections.Counter()
        try:
            tree = ast.parse(open(p).read())
        except (SyntaxError, OSError, ValueError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.BinOp):
                # constant expressions such as 2 ** 12 or 60 * 60
                try:
                    v = fold(n)
                    if v == v and abs(v) < 1e12:
                        c[repr(v)] += 1
                except (ValueError, ArithmeticError, TypeError):
                    pass
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                v = n.value
                if v == v and abs(v) < 1e12:
                    c[repr(v)] += 1
        res[rel] = dict(c)
    return res


_mem = {}


def pools():
    """(new literals, all literals) as lists of numbers"""
    if not _mem:
        now = scan()
        try:
            base = json.load(open(BASE))
        except (OSError, ValueError):
            base = {}
        new, allv = set(), set()
        for f, c in now.items():
            for v, k in c.items():
                allv.add(float(v))
                if k > base.get(f, {}).get(v, 0):
                    new.add(float(v))
        _mem["new"], _mem["all"] = sorted(new), sorted(allv)
    return _mem["new"], _mem["all"]


def pick(rng):
    new, allv = pools()
    if new and rng.random() < .6:
        return new[int(rng.integers(len(new)))]
    return allv[int(rng.integers(len(allv)))] if allv else 1.0


if __name__ == "__main__":
    json.dump(scan(), open(BASE, "w"), indent=0, sort_keys=True)
    print(sum(len(v) for v in scan().values()))
