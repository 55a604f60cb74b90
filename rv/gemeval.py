"""Evaluate GEM expressions to numpy arrays with a known axis order.

This is an independent vectorised evaluator (one array operation per node,
memoised per call), so that what is observed of the code under test does not
depend on the interpreter that ships with GEM."""
import numpy as np
import gem
from gem import gem as G


class FreeIndexError(Exception):
    pass


class UndefinedValue(Exception):
    """The expression contains an explicit failure node."""


def _align(args, fids=None):
    """Broadcast evaluated (array, fids, ndim of value shape) to common fids."""
    if fids is None:
        fids = []
        for _, f in args:
            for i in f:
                if i not in fids:
                    fids.append(i)
    out = []
    for a, f in args:
        nv = a.ndim - len(f)
        order = [f.index(i) for i in fids if i in f]
        a = a.transpose(order + list(range(len(f), a.ndim)))
        a = a[tuple(slice(None) if i in f else None for i in fids) + (slice(None),) * nv]
        out.append(a)
    return out, tuple(fids)


def _full(args):
    """As _align, but broadcast the free axes to their extents."""
    al, fids = _align(args)
    ext = tuple(i.extent for i in fids)
    return [np.broadcast_to(a, ext + a.shape[len(fids):]) for a in al], fids


_BIN = {G.Sum: np.add, G.Product: np.multiply, G.Division: np.divide, G.Power: np.power,
        G.FloorDiv: np.floor_divide, G.Remainder: np.remainder,
        G.MinValue: np.minimum, G.MaxValue: np.maximum}
_CMP = {">": np.greater, ">=": np.greater_equal, "==": np.equal, "!=": np.not_equal,
        "<": np.less, "<=": np.less_equal}
_FUN = {"abs": np.abs, "log": np.log, "exp": np.exp, "sqrt": np.sqrt, "sin": np.sin, "cos": np.cos,
        "real": np.real, "imag": np.imag, "conj": np.conj, "power": np.power}


class Evaluator:
    def __init__(self, bindings=None):
        self.bindings = bindings or {}
        self.memo = {}

    def __call__(self, root):
        memo = self.memo
        stack = [root]
        while stack:
            e = stack[-1]
            if e in memo:
                stack.pop()
                continue
            todo = [c for c in self.deps(e) if c not in memo]
            if todo:
                stack.extend(todo)
            else:
                memo[e] = self.step(e)
                stack.pop()
        return memo[root]

    @staticmethod
    def deps(e):
        d = list(e.children)
        if isinstance(e, G.Indexed):
            d += [i.expression for i in e.multiindex if isinstance(i, G.VariableIndex)]
        if isinstance(e, G.FlexiblyIndexed):
            for off, idxs in e.dim2idxs:
                if isinstance(off, G.Node):
                    d.append(off)
                for i, s in idxs:
                    if isinstance(i, G.VariableIndex):
                        d.append(i.expression)
                    if isinstance(s, G.Node):
                        d.append(s)
        return d

    def step(self, e):
        t = type(e)
        ch = [self.memo[c] for c in e.children]
        if t is G.Zero:
            return np.zeros(e.shape), ()
        if t is G.Failure:
            raise UndefinedValue(repr(e.exception[1] if isinstance(e.exception, tuple) else e.exception))
        if t is G.Identity:
            return np.eye(e.dim), ()
        if t is G.Literal:
            return np.asarray(e.array), ()
        if t is G.Delta:
            ii = [i for i in (e.i, e.j) if isinstance(i, G.Index)]
            if len(ii) == 2 and ii[0] is not ii[1]:
                return np.fromfunction(lambda a, b: (a == b) * 1.0, (e.i.extent, e.j.extent)), (e.i, e.j)
            if len(ii) == 2:
                return np.ones(e.i.extent), (e.i,)
            if len(ii) == 1:
                k = int(e.j if ii[0] is e.i else e.i)
                a = np.zeros(ii[0].extent)
                a[k] = 1
                return a, (ii[0],)
            return np.array(float(int(e.i) == int(e.j))), ()
        if t is G.Variable:
            if e not in self.bindings:
                raise UndefinedValue("no binding for %s" % e.name)
            v = np.asarray(self.bindings[e])
            if v.shape != tuple(e.shape):
                raise UndefinedValue("binding shape %s for %s" % (v.shape, e.shape))
            return v, ()
        if t in _BIN:
            (a, b), fids = _align(ch)
            if a.dtype == bool:
                a = a.astype(float)
            if b.dtype == bool:
                b = b.astype(float)
            if t is G.Power:
                a = a.astype(float) if a.dtype.kind in "iu" else a
            return _BIN[t](a, b), fids
        if t is G.MathFunction and e.name in _FUN:
            al, fids = _align(ch)
            return np.asarray(_FUN[e.name](*al)), fids
        if t is G.Comparison:
            (a, b), fids = _align(ch)
            return _CMP[e.operator](a, b), fids
        if t is G.LogicalNot:
            return np.asarray(ch[0][0]) == 0, ch[0][1]
        if t in (G.LogicalAnd, G.LogicalOr):
            (a, b), fids = _align(ch)
            return (np.logical_and if t is G.LogicalAnd else np.logical_or)(a, b), fids
        if t is G.Conditional:
            (c, a, b), fids = _align(ch)
            c = c != 0
            c = c.reshape(c.shape + (1,) * (a.ndim - c.ndim))
            return np.where(c, a, b), fids
        if t is G.Indexed:
            return self.indexed(ch[0], e.multiindex)
        if t is G.FlexiblyIndexed:
            return self.flexible(ch[0], e.dim2idxs)
        if t is G.ComponentTensor:
            a, f = ch[0]
            keep = [i for i in f if i not in e.multiindex]
            miss = [i for i in e.multiindex if i not in f]
            if miss:
                a = np.broadcast_to(a, tuple(i.extent for i in miss) + a.shape)
                f = tuple(miss) + f
            order = [f.index(i) for i in keep] + [f.index(i) for i in e.multiindex]
            return a.transpose(order + list(range(len(f), a.ndim))), tuple(keep)
        if t is G.IndexSum:
            a, f = ch[0]
            for i in e.multiindex:
                if i in f:
                    k = f.index(i)
                    a = a.sum(axis=k)
                    f = f[:k] + f[k + 1:]
                else:
                    a = a * i.extent
            return a, f
        if t is G.ListTensor:
            al, fids = _full(ch)
            by = dict(zip(map(id, e.children), al))
            flat = np.stack([by[id(c)] for c in e.array.flat], axis=-1) if e.array.size else np.zeros((0,))
            return flat.reshape(flat.shape[:-1] + tuple(e.shape)), fids
        if t is G.Concatenate:
            al, fids = _full(ch)
            n = len(fids)
            return np.concatenate([a.reshape(a.shape[:n] + (-1,)) for a in al], axis=-1), fids
        if t is G.Inverse:
            return np.linalg.inv(ch[0][0]), ch[0][1]
        if t is G.Solve:
            (a, b), fids = _align(ch)
            if b.ndim - len(fids) == 1:
                return np.linalg.solve(a, b[..., None])[..., 0], fids
            return np.linalg.solve(a, b), fids
        raise NotImplementedError("GEM node %s" % t.__name__)

    def indexed(self, val, multiindex):
        a, f = val
        f = list(f)
        nf = len(f)
        a = np.asarray(a)
        # fix integers and runtime integers first
        axis = nf
        free = []
        for i in multiindex:
            if isinstance(i, G.Index):
                free.append(i)
                axis += 1
            elif isinstance(i, G.VariableIndex):
                k, kf = self.memo[i.expression]
                if kf:
                    raise NotImplementedError("variable index with free indices")
                a = np.take(a, int(k), axis=axis)
            else:
                a = np.take(a, int(i), axis=axis)
        # repeated or already-free indices select diagonals
        names = f + free
        uniq = []
        for i in names:
            if i not in uniq:
                uniq.append(i)
        if len(uniq) != len(names):
            lab = {i: k for k, i in enumerate(uniq)}
            for i, n in zip(names, a.shape):
                if i.extent != n:
                    raise NotImplementedError("repeated index over unequal extents")
            a = np.einsum(a, [lab[i] for i in names], list(range(len(uniq))))
        for i, n in zip(uniq, a.shape):
            if i.extent is not None and i.extent != n:
                # legal in GEM: a shorter index reads a prefix
                a = np.take(a, np.arange(i.extent), axis=uniq.index(i))
        return a, tuple(uniq)

    def flexible(self, val, dim2idxs):
        a, f = val
        if f:
            raise NotImplementedError("FlexiblyIndexed of an open expression")
        fids = []
        for off, idxs in dim2idxs:
            for i, _ in idxs:
                if isinstance(i, G.Index) and i not in fids:
                    fids.append(i)
        ext = tuple(i.extent for i in fids)
        pos = []
        for off, idxs in dim2idxs:
            if isinstance(off, G.Node):
                off = int(self.memo[off][0])
            p = np.full(ext, int(off))
            for i, s in idxs:
                s = int(self.memo[s][0]) if isinstance(s, G.Node) else int(s)
                if isinstance(i, G.Index):
                    sh = [1] * len(fids)
                    sh[fids.index(i)] = i.extent
                    p = p + s * np.arange(i.extent).reshape(sh)
                elif isinstance(i, G.VariableIndex):
                    p = p + s * int(self.memo[i.expression][0])
                else:
                    p = p + s * int(i)
            pos.append(p)
        return a[tuple(pos)], tuple(fids)


def evaluate(expr, bindings=None):
    return Evaluator(bindings)(expr)


def arr(expr, indices=(), bindings=None):
    """Evaluate ``expr``; result axes are ``indices`` (in that order, broadcast
    when the expression does not depend on them) followed by ``expr.shape``."""
    indices = tuple(indices)
    a, fids = evaluate(expr, bindings)
    extra = [i for i in fids if i not in indices]
    if extra:
        raise FreeIndexError(f"unexpected free indices of extent {[i.extent for i in extra]}")
    shape = tuple(expr.shape)
    a = np.broadcast_to(a, tuple(i.extent for i in fids) + shape)
    order = [fids.index(i) for i in indices if i in fids]
    a = a.transpose(order + list(range(len(fids), len(fids) + len(shape))))
    full = tuple(slice(None) if i in fids else None for i in indices)
    a = a[full + (Ellipsis,)]
    return np.broadcast_to(a, tuple(i.extent for i in indices) + shape)


def flatpts(expr, ps, bindings=None):
    """Values at the points of ``ps`` with one leading (flat) point axis."""
    a = arr(expr, ps.indices, bindings)
    n = int(np.prod([i.extent for i in ps.indices], dtype=int))
    return a.reshape((n,) + tuple(expr.shape))


def tab(elem, order, ps, entity=None, **kw):
    """``basis_evaluation`` as a dict of arrays [npts, *index_shape, *value_shape]."""
    res = elem.basis_evaluation(order, ps, entity, **kw)
    return {k: flatpts(v, ps) for k, v in res.items()}


def ptab(elem, order, pts, entity=None):
    """``point_evaluation`` at an array of run-time points, vectorised through a
    free index on the coordinates."""
    pts = np.asarray(pts, dtype=float)
    q = gem.Index(extent=len(pts))
    X = gem.Variable("X", pts.shape)
    ref = gem.ComponentTensor(gem.Indexed(X, (q, d := gem.Index(extent=pts.shape[1]))), (d,)) \
        if pts.shape[1] else gem.Literal(np.zeros(0))
    res = elem.point_evaluation(order, ref, entity)
    return {k: arr(v, (q,), {X: pts}) for k, v in res.items()}, res
