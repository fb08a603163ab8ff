"""Shared by the counterexample search: inputs, comparisons, literals of the source."""
import ast
import math
import os
import random
import numpy as np


class Bad(Exception):
    """the property does not hold for this case"""


class Skip(Exception):
    """the case is ambiguous (a tie within rounding, say)"""


def bad(msg, *a):
    raise Bad(msg % a if a else msg)


def need(c, msg, *a):
    if not c:
        raise Bad(msg % a if a else msg)


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= atol + rtol * np.abs(b))))


def same_array(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape, '%s: shape %s instead of %s', what, a.shape, b.shape)
    need(np.array_equal(a, b), '%s: %s instead of %s', what, short(a), short(b))


def near(a, b, what, rtol=1e-9, atol=1e-9):
    need(np.shape(a) == np.shape(b), '%s: shape %s instead of %s', what, np.shape(a), np.shape(b))
    need(close(a, b, rtol, atol), '%s: %s instead of %s', what, short(a), short(b))


def short(v):
    s = repr(v if not isinstance(v, np.ndarray) else v.tolist())
    return s if len(s) < 300 else s[:300] + '...'


def unchanged(name, before, after):
    for k, (b, a) in enumerate(zip(before, after)):
        need(np.array_equal(np.asarray(b), np.asarray(a)), 'input %d of %s was modified: %s became %s', k, name,
             short(b), short(a))


def harvest(tree):
    """numeric and string literals of the sources"""
    nums, strs = set(), set()
    for top in ('mtoolkit', 'nrml'):
        for path, dirs, files in os.walk(os.path.join(tree, top)):
            for f in files:
                if f.endswith('.py'):
                    try:
                        t = ast.parse(open(os.path.join(path, f), encoding='utf-8').read())
                    except SyntaxError:
                        continue
                    docs = set()
                    for n in ast.walk(t):
                        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                            docs.add(id(n.value))
                    for n in ast.walk(t):
                        if isinstance(n, ast.Constant) and id(n) not in docs:
                            if isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                                nums.add(float(n.value))
                            elif isinstance(n.value, str) and 0 < len(n.value) < 40:
                                strs.add(n.value)
    return sorted(x for x in nums if abs(x) < 1e9), sorted(strs)


class Gen(object):
    def __init__(self, seed, nums, strs):
        self.r = random.Random(seed)
        self.nums, self.strs = nums, strs
        self.n = 0

    def int(self, a, b):
        return self.r.randint(a, b)

    def chance(self, p):
        return self.r.random() < p

    def pick(self, *xs):
        return self.r.choice(xs)

    def lit(self, lo, hi, default=None):
        """a literal of the source (or a neighbour) within the range"""
        c = [x for x in self.nums if lo <= x <= hi]
        if not c:
            return self.r.uniform(lo, hi) if default is None else default
        x = self.r.choice(c)
        q = self.r.random()
        if q < 0.25:
            x = x + self.r.choice([-1, 1]) * self.r.choice([1e-6, 1e-3, 0.01, 0.1, 1])
        return min(max(x, lo), hi)

    def real(self, lo, hi, digits=None, plit=0.12):
        q = self.r.random()
        if q < plit:
            x = self.lit(lo, hi)
        elif q < plit + 0.04:
            x = self.r.choice([lo, hi])
        else:
            x = self.r.uniform(lo, hi)
        if digits is not None:
            x = round(x, digits)
            x = min(max(x, lo), hi)
        return x

    def size(self, lo=1, hi=12):
        q = self.r.random()
        if q < 0.15:
            return lo
        if q < 0.3:
            return min(lo + 1, hi)
        return self.r.randint(lo, hi)

    def reals(self, n, lo, hi, digits=None, ties=0.15):
        out = []
        for i in range(n):
            if out and self.r.random() < ties:
                out.append(self.r.choice(out))
            else:
                out.append(self.real(lo, hi, digits))
        return out

    def word(self, n=8):
        al = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
        return self.r.choice(al[:52]) + ''.join(self.r.choice(al) for _ in range(self.r.randint(0, n)))


def arr(x):
    return np.array(x, dtype=float)
