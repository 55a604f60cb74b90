"""Canonical fingerprints of everything FInAT hands out: what a kernel
generator would see, independent of object identity, index counters and the
sharing of equal nodes, but sensitive to structure, order and every number."""
import hashlib
import numbers

import gem
import numpy as np


class Fingerprint:
    def __init__(self):
        self.index = {}
        self.memo = {}
        self.keep = []

    def idx(self, i):
        if isinstance(i, gem.VariableIndex):
            return ("vidx", self.node(i.expression))
        if isinstance(i, gem.Index):
            if i not in self.index:
                self.index[i] = len(self.index)
            return ("idx", self.index[i], i.extent)
        return ("int", int(i))

    def data(self, x):
        if isinstance(x, gem.node.Node):
            return self.node(x)
        if isinstance(x, (gem.Index, gem.VariableIndex)):
            return self.idx(x)
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return ("objarr", x.shape, tuple(self.data(y) for y in x.flat))
            # round-off in the order of a sum is not a difference of expressions
            return ("arr", x.shape, tuple(self.data(float(y)) for y in np.asarray(x, float).flat)) if x.size < 20000 else ("arr", x.shape)
        if isinstance(x, bool) or x is None or isinstance(x, str):
            return x
        if isinstance(x, numbers.Integral):
            return int(x)
        if isinstance(x, numbers.Real):
            x = float(x)
            return "%.9e" % x if abs(x) > 1e-11 else "0"
        if isinstance(x, dict):
            return ("dict", tuple((self.data(k), self.data(v)) for k, v in x.items()))
        if isinstance(x, (tuple, list, range)):
            return ("seq", tuple(self.data(y) for y in x))
        if isinstance(x, (set, frozenset)):
            return ("set", tuple(sorted(repr(self.data(y)) for y in x)))
        if isinstance(x, BaseException):
            return type(x).__name__
        return type(x).__name__

    def node(self, n):
        if id(n) in self.memo:
            return self.memo[id(n)]
        self.keep.append(n)
        attrs = [self.data(getattr(n, a)) for a in n.__front__]
        kids = [self.node(c) for c in n.children]
        attrs += [self.data(getattr(n, a)) for a in n.__back__ if a != "dtype"]
        out = hashlib.sha1(repr((type(n).__name__, attrs, kids, n.shape)).encode()).hexdigest()
        self.memo[id(n)] = out
        return out


def fingerprint(x):
    return hashlib.sha1(repr(Fingerprint().data(x)).encode()).hexdigest()[:16]
