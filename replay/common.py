"""Concrete search and replay on the real code (run by the repository's own Python).

A property module defines
  cases(S)    generator of JSON-able inputs, simple ones first; S is a Source of values
  check(inp)  None when the property holds on this input, else a text saying what failed
The oracles are independent of the code under test."""
import ast
import glob
import itertools
import json
import math
import os
import random
import sys

ROOT = os.environ.get("VROOT", "/repo")
sys.path.insert(0, ROOT)


def mined():
    """Numbers and strings that occur in the source text: values the code may treat specially."""
    nums, strs = set(), set()
    for p in sorted(glob.glob(os.path.join(ROOT, "solver", "**", "*.py"), recursive=True)):
        if os.path.basename(p).startswith("test_"):
            continue
        try:
            with open(p) as f:
                tree = ast.parse(f.read())
        except (SyntaxError, OSError):
            continue
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                docs.add(id(n.value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                v = n.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, (int, float)) and abs(v) < 1e9 and v == v:
                    nums.add(v)
                elif isinstance(v, str) and 0 < len(v) < 16 and v.isidentifier():
                    strs.add(v)
    return sorted(nums), sorted(strs)


class Source(object):
    def __init__(self, seed, hints=()):
        self.rng = random.Random(seed)
        self.hints = [h for h in hints if isinstance(h, (int, float)) and abs(h) < 1e12 and h == h]
        self.nums, self.strs = mined()
        self.ints = [n for n in self.nums if isinstance(n, int) and 0 <= n <= 40]

    def number(self):
        r = self.rng
        k = r.random()
        if k < 0.25:
            return float(r.randint(-5, 5))
        if k < 0.45:
            return round(r.uniform(-10, 10), 2)
        if k < 0.6:
            return r.uniform(-100, 100)
        if k < 0.68:
            return r.choice([0.0, 1e-9, -1e-9, 5e-9, 2e-8, -2e-8, 1e-7, 1e-6, 1e-4, 1e-3, 1000.0, 12345.5, -1e4])
        if k < 0.8 and self.nums:
            n = r.choice(self.nums)
            return float(n * r.choice([1, 1, 1, -1]) + r.choice([0, 0, 0, 1, -1, 0.5, 1e-3, -1e-3]))
        if k < 0.92 and self.hints:
            return r.choice(self.hints) * 1.0
        return r.uniform(-2, 2)

    def tiny(self):
        return self.rng.choice([0.0, 1e-10, -3e-10, 2e-9, -5e-9, 3e-8, -1e-7, 1e-6])

    def positive(self):
        return abs(self.number()) or 1.0

    def point(self):
        return [self.number(), self.number()]

    def angle(self):
        r = self.rng
        return r.choice([r.choice([0.0, 30.0, 45.0, 60.0, 90.0, 180.0, 270.0, 360.0, -90.0, 720.0]), r.uniform(-400, 400)])


def close(a, b, tol=1e-7, scale=1.0):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b), scale)


def grid(vals, n):
    return itertools.product(vals, repeat=n)


def exact(x):
    return float(x)


class Bad(Exception):
    """The property fails on this input."""


def need(cond, text, *args):
    if not cond:
        raise Bad(text % args if args else text)


def hv(x):
    """JSON value -> hashable name: lists are tuples, {"f": [...]} a frozenset, {"b": s} bytes.
    Every call makes a new object where Python allows it: names are compared by value, never by identity."""
    if isinstance(x, str):
        return "".join(list(x))
    if isinstance(x, float):
        return x * 1.0
    if isinstance(x, int) and not isinstance(x, bool) and abs(x) > 256:
        return int(str(x))
    if isinstance(x, list):
        return tuple(hv(y) for y in x)
    if isinstance(x, dict):
        if "f" in x:
            return frozenset(hv(y) for y in x["f"])
        if "b" in x:
            return x["b"].encode()
    return x


def name_pool(S, n):
    """n distinct (encoded) names; sometimes with colliding hashes, sometimes falsy, sometimes not strings."""
    r = S.rng
    k = r.random()
    if k < 0.35:
        pool = list("abcdefghijklmnop")
    elif k < 0.55:
        pool = list(range(0, 12)) + [-1, -2]
    elif k < 0.65:
        pool = [0, 2 ** 61 - 1, 2 ** 62 - 2, 1, 2 ** 61, -1, -2, 5, 5 + 2 ** 61 - 1, 5 + 2 * (2 ** 61 - 1), 7, 9]
    else:
        pool = ["", 0, None, -1, -2, "a", "b", "vertex", ["t", 1], [], {"f": [1, 2]}, {"b": "x"}, 2.5, 3, "None", "0",
                "name", "start"] + S.strs[:20]
    r.shuffle(pool)
    out = []
    for p in pool:
        if p not in out and hv(p) not in [hv(q) for q in out]:
            out.append(p)
        if len(out) == n:
            break
    return out


def twin(S, x):
    """An equal name of another type where there is one (1 and 1.0)."""
    if isinstance(x, list):
        return [twin(S, y) for y in x]
    if isinstance(x, int) and not isinstance(x, bool) and abs(x) < 2 ** 53 and S.rng.random() < .7:
        return True if x == 1 and S.rng.random() < .3 else float(x)
    return x


VALUES = [1, 0, None, "", False, "x", 2.5, -1, [], ["v", 2], 7, True]


def attempt(f, *a, **k):
    """('ok', value) or ('err', exception)."""
    try:
        return "ok", f(*a, **k)
    except (AssertionError, KeyboardInterrupt):
        raise
    except Exception as e:
        if type(e).__name__ == "Hang":
            raise
        return "err", e
