"""What the working tree says that the tree this machinery was written against did not.

Every literal of the package (folded by the compiler) is compared with `baseline.json`, made by tools/make_baseline.py.
Literals that are new - a size, a count, a name, an environment variable - become a dictionary for the generators:
values, lengths, counts and sizes at and around new numbers, strings made of new ones, new environment variables.
On the unchanged tree the dictionary is empty. Like the places of shared state, it only aims the search; no verdict
uses it."""

import hashlib
import json
import os
import re

from . import world

HERE = os.path.dirname(os.path.abspath(__file__))
BASELINE = os.path.join(HERE, "baseline.json")


def literals(sources):
    """(file, inside a function?, literal) for every literal, as strings that identify it, with its value."""
    out = {}

    def note(where, fn, x):
        if isinstance(x, (tuple, frozenset)):
            for y in x:
                note(where, fn, y)
        elif isinstance(x, (int, float, str, bytes)) and not isinstance(x, bool):
            key = hashlib.sha256(f"{where}|{fn}|{x!r}".encode()).hexdigest()[:12]
            out[key] = x

    def walk(where, c, fn):
        for x in c.co_consts:
            if isinstance(x, type(c)):
                # the body of a class runs once, like that of a module
                walk(where, x, fn or bool(x.co_flags & 2))
            else:
                note(where, fn, x)

    for name, (p, src, pk) in sorted(sources.items()):
        try:
            walk(name, compile(src, name, "exec", dont_inherit=True), False)
        except SyntaxError:
            pass
    return out


class Novel:
    def __init__(self, consts, env):
        ints = {abs(int(x)) for x in consts if isinstance(x, (int, float)) and abs(x) < 1 << 64 and x == x}
        self.ints = sorted(x for x in ints if x > 1)
        self.floats = sorted({float(x) for x in consts if isinstance(x, float)} | {x / 2 for x in self.ints if x < 1 << 40}) if self.ints or consts else []
        strs = {x for x in consts if isinstance(x, str)} | {x.decode("latin-1") for x in consts if isinstance(x, bytes)}
        self.strs = sorted(x for x in strs if 0 < len(x) <= 40)
        self.env = sorted(x for x in strs if env and re.fullmatch(r"[A-Za-z][A-Za-z0-9_]{2,40}", x) and x.upper() == x)
        self.names = [x for x in self.strs if re.fullmatch(r"[^/\0\n]{1,20}", x) and x.strip(".")]

    def lengths(self, hi, lo=2):
        return [n for n in self.ints if lo <= n <= hi]

    def environment(self, r):
        """Some of the new variables, with plausible values."""
        out = {}
        for k in self.env:
            if r.random() < 0.6:
                out[k] = r.choice(["1", "1", "true", "0", "", "yes", "/sim/other", "x"] + [s for s in self.strs if s not in self.env] + [str(n) for n in self.ints])
        return out


_novel = None


def novel():
    global _novel
    if _novel is None:
        try:
            with open(BASELINE) as f:
                base = set(json.load(f))
        except FileNotFoundError:
            base = None
        src = world.codes().src
        lits = literals(src) if base is not None else {}
        env = any(b"environ" in s or b"getenv" in s for _, s, _ in src.values())
        _novel = Novel([x for k, x in sorted(lits.items()) if k not in base], env)
    return _novel
