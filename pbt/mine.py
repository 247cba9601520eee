"""Numbers that appear in the library's source: a fuzzing dictionary for sizes and magnitudes.

A change that only acts beyond some threshold has to name the threshold. Sizes, counts and magnitudes near
every constant of the current source are therefore among the values the generators draw from. Constants that
the source did not have when this was written (or has more often than then; constants.json counts them) are drawn
more often than the others. All this only steers generation: nothing is judged by it.
"""
import ast
import collections
import functools
import json
import os

from .lib import REPO


def _fold(node):
    if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
        return node.value
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        v = _fold(node.operand)
        return None if v is None else -v
    if isinstance(node, ast.BinOp):
        a, b = _fold(node.left), _fold(node.right)
        if a is None or b is None:
            return None
        try:
            if isinstance(node.op, ast.Add):
                return a + b
            if isinstance(node.op, ast.Sub):
                return a - b
            if isinstance(node.op, ast.Mult):
                return a * b
            if isinstance(node.op, ast.Div):
                return a / b
            if isinstance(node.op, ast.FloorDiv):
                return a // b
            if isinstance(node.op, ast.Pow) and abs(a) < 1e4 and abs(b) < 64:
                return a ** b
            if isinstance(node.op, ast.LShift) and 0 <= b < 40:
                return a << b
        except Exception:
            return None
    return None


def census():
    """How often each numeric constant occurs in each source file."""
    found = {}
    root = os.path.join(REPO, "padasip")
    for base, dirs, files in os.walk(root):
        dirs.sort()
        for name in sorted(files):
            path = os.path.join(base, name)
            if not name.endswith(".py"):
                continue
            count = found.setdefault(os.path.relpath(path, root), collections.Counter())
            try:
                tree = ast.parse(open(path, encoding="utf-8").read())
            except (SyntaxError, UnicodeDecodeError):
                continue
            for node in ast.walk(tree):
                v = _fold(node)
                if v is not None and not isinstance(v, complex):
                    count[repr(float(abs(v)) if abs(v) < 1e300 else 1e300)] += 1
                elif isinstance(node, ast.Attribute) and node.attr == "eps":
                    count[repr(2.220446049250313e-16)] += 1
    return found


BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "constants.json")


@functools.lru_cache(None)
def mine(part="", new=False):
    """All numeric constants (or the new ones) of the source files whose path contains `part`."""
    now = _now()
    old = json.load(open(BASE)) if new and os.path.exists(BASE) else {}
    out = set()
    for path, count in now.items():
        if part in path:
            out |= {float(v) for v, k in count.items() if k > old.get(path, {}).get(v, 0)}
    return sorted(out)


@functools.lru_cache(None)
def _now():
    return census()


def _near(values, lo, hi):
    out = set()
    for v in values:
        if v < 1e15 and v == int(v):
            v = int(v)
            out |= {s for s in (v - 1, v, v + 1, 2 * v, 2 * v + 1) if lo <= s <= hi}
    return sorted(out)


@functools.lru_cache(None)
def fresh(part="", lo=1, hi=10000):
    """Integers near the new constants."""
    return _near(mine(part, True), lo, hi)


def heavier(values, new):
    """The values, the new ones so often that they are about half of the list."""
    values = sorted(set(values) | set(new))
    return values + list(new) * (len(values) // len(new)) if new else values


@functools.lru_cache(None)
def _sizes(part, lo, hi, fresh_hi, also):
    return tuple(heavier(_near(mine(part), lo, hi) + list(also), fresh(part, lo, max(hi, fresh_hi))))


def sizes(part="", lo=1, hi=6000, fresh_hi=0, also=()):
    """Integers near the mined constants (and twice them), and others."""
    return list(_sizes(part, lo, hi, fresh_hi, tuple(also)))


def magnitudes(part="", lo=1e-30, hi=1e12):
    """Positive floats: mined constants."""
    return heavier([v for v in mine(part) if lo <= v <= hi], fresh_magnitudes(part, lo, hi))


@functools.lru_cache(None)
def fresh_magnitudes(part="", lo=1e-30, hi=1e12):
    return tuple(v for v in mine(part, True) if lo <= v <= hi)


if __name__ == "__main__":      # python -m pbt.mine: the constants of the current tree become the known ones
    json.dump({k: dict(sorted(v.items())) for k, v in sorted(census().items())}, open(BASE, "w"), indent=1)
