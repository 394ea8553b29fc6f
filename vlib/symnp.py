"""numpy arrays of symbolic values, and a proxy for the `np` a module uses.

`SymArr` is an object-dtype ndarray subclass: numpy's own dispatch hooks
(`__array_ufunc__`, `__array_function__`) route every numpy call the real code
makes on it to a symbolic reading (or, where there is none, to numpy's generic
object-array implementation, which forks through the proxies' `__bool__`).
`NpProxy` stands in for the global `np` of the module under execution so that
arrays the code creates can hold symbolic values.
"""
import functools
import numpy as np

from .engine import (SymInt, SymBool, SymReal, And, Or, Not, ite, is_sym, eng,
                     z3, z3b, z3i, z3r, active)

_CMP = {np.equal, np.not_equal, np.less, np.less_equal, np.greater,
        np.greater_equal}


def arr(x):
    """Build a SymArr (object array) from nested lists / arrays."""
    if isinstance(x, SymArr):
        return x
    a = np.asarray(x, dtype=object)
    if a.dtype != object:
        a = a.astype(object)
    return _pyfy(a).view(SymArr)


def _pyfy(a):
    """numpy scalars inside -> Python scalars."""
    if a.size and any(isinstance(v, np.generic) for v in a.flat):
        b = np.empty(a.shape, dtype=object)
        for idx in np.ndindex(a.shape):
            v = a[idx]
            b[idx] = v.item() if isinstance(v, np.generic) else v
        return b
    return a


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, SymArr):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(is_sym(v) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def deep_sym(a):
    return any(is_sym(v) for v in np.asarray(a, dtype=object).flat)


def _plain(a):
    return a.view(np.ndarray) if isinstance(a, SymArr) else a


def _el(f, *args):
    args = [np.asarray(_plain(a), dtype=object) if not is_sym(a)
            else _box(a) for a in args]
    b = np.broadcast_arrays(*args)
    out = np.empty(b[0].shape, dtype=object)
    for idx in np.ndindex(out.shape):
        out[idx] = f(*[x[idx] for x in b])
    if out.shape == ():
        return out[()]
    return out.view(SymArr)


def _box(v):
    o = np.empty((), dtype=object)
    o[()] = v
    return o


def truth(v):
    """v != 0 without forking."""
    if isinstance(v, SymBool):
        return v
    if isinstance(v, (SymInt, SymReal)):
        return v != 0
    return bool(v)


def concrete_bool_mask(m):
    return np.array([bool(v) for v in np.asarray(m, dtype=object).flat],
                    dtype=bool).reshape(np.shape(m))


def concrete_int(m):
    return np.array([int(v) for v in np.asarray(m, dtype=object).flat],
                    dtype=np.intp).reshape(np.shape(m))


def _is_boolish(v):
    return isinstance(v, (bool, np.bool_, SymBool))


def realize(a):
    """A plain numpy array with every element concretised (forking)."""
    a = np.asarray(_plain(a), dtype=object)
    vals = []
    for v in a.flat:
        if isinstance(v, SymInt):
            v = int(v)
        elif isinstance(v, SymBool):
            v = bool(v)
        vals.append(v)
    if all(isinstance(v, (bool, np.bool_)) for v in vals) and vals:
        return np.array(vals, dtype=bool).reshape(a.shape)
    if all(isinstance(v, (int, np.integer)) for v in vals):
        return np.array(vals, dtype=int).reshape(a.shape)
    if all(isinstance(v, (int, float, np.number)) for v in vals):
        return np.array(vals, dtype=float).reshape(a.shape)
    out = np.empty(a.shape, dtype=object)
    for i, v in zip(np.ndindex(a.shape), vals):
        out[i] = v
    return out


def _select(rows, idx):
    """rows[idx] for a symbolic idx known to be in range."""
    res = rows[-1]
    for k in range(len(rows) - 2, -1, -1):
        c = idx == k
        if isinstance(rows[k], np.ndarray):
            res = _el(lambda a, b, c=c: ite(c, a, b), rows[k], res)
        else:
            res = ite(c, rows[k], res)
    return res


def _inrange(idx, n):
    """Normalise a symbolic index; fork on wrap-around / IndexError."""
    if isinstance(idx, SymInt) and idx.lo is not None and idx.lo >= 0 \
            and idx.hi < n:
        return idx
    if eng().branch(z3.And(z3i(idx) >= 0, z3i(idx) < n)):
        return idx
    if eng().branch(z3.And(z3i(idx) < 0, z3i(idx) >= -n)):
        return idx + n
    raise IndexError("symbolic index out of bounds")


class SymArr(np.ndarray):
    __array_priority__ = 2000

    def __array_finalize__(self, obj):
        pass

    # ------------------------------------------------------------- indexing
    def __getitem__(self, key):
        base = self.view(np.ndarray)
        try:
            r = self._getitem(base, key)
        except _Fallback:
            r = base[_concrete_key(key)]
        if isinstance(r, np.ndarray) and not isinstance(r, SymArr):
            if r.dtype != object:
                r = r.astype(object)
            r = r.view(SymArr)
        return r

    def _getitem(self, base, key):
        if isinstance(key, SymBool):
            raise _Fallback()
        if isinstance(key, SymInt):
            return _select([base[k] for k in range(base.shape[0])],
                           _inrange(key, base.shape[0]))
        if isinstance(key, tuple):
            if not any(has_sym(k) or _objarr(k) for k in key):
                return base[key]
            if len(key) == 2 and base.ndim == 2 or len(key) == base.ndim:
                # resolve axes one at a time when at most one array-like key
                # per axis and the rest are slices / scalars
                arrs = [k for k in key if isinstance(k, (np.ndarray, list))]
                if len(arrs) <= 1:
                    res = base
                    ax = 0
                    for k in key:
                        res = _take_axis(res, k, ax)
                        if not isinstance(res, np.ndarray):
                            return res
                        if isinstance(k, slice) or isinstance(
                                k, (np.ndarray, list)):
                            ax += 1
                    return res
                if all(isinstance(k, (np.ndarray, list)) for k in key):
                    ks = [np.asarray(_plain(k), dtype=object) for k in key]
                    if any(_is_boolish(v) for k in ks for v in k.flat):
                        raise _Fallback()
                    ks = np.broadcast_arrays(*ks)
                    out = np.empty(ks[0].shape, dtype=object)
                    for i in np.ndindex(out.shape):
                        cur = base
                        for k in ks:
                            cur = _take_axis(cur, k[i], 0)
                        out[i] = cur
                    return out
            raise _Fallback()
        if isinstance(key, np.ndarray) and (key.dtype == object):
            return _take_axis(base, key, 0)
        if isinstance(key, list) and any(is_sym(k) for k in key):
            return _take_axis(base, np.asarray(key, dtype=object), 0)
        return base[key]

    def __setitem__(self, key, val):
        base = self.view(np.ndarray)
        if isinstance(val, SymArr):
            val = val.view(np.ndarray)
        base[_concrete_key(key)] = val

    # ----------------------------------------------------------- reductions
    def any(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(self, lambda vs: Or([truth(v) for v in vs]), axis)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(self, lambda vs: And([truth(v) for v in vs]), axis)

    def sum(self, axis=None, dtype=None, out=None, **k):
        return _reduce(self, _sum, axis)

    def prod(self, axis=None, **k):
        return _reduce(self, _prod, axis)

    def max(self, axis=None, initial=None, **k):
        ini = [] if initial is None else [initial]
        return _reduce(self, lambda vs: _max(ini + vs), axis)

    def min(self, axis=None, initial=None, **k):
        ini = [] if initial is None else [initial]
        return _reduce(self, lambda vs: _min(ini + vs), axis)

    def argmax(self, axis=None, **k):
        return np.argmax(realize(self), axis=axis)

    def argmin(self, axis=None, **k):
        return np.argmin(realize(self), axis=axis)

    def astype(self, dtype, *a, **k):
        dt = np.dtype(dtype) if not isinstance(dtype, np.dtype) else dtype
        base = self.view(np.ndarray)
        if dt.kind == "b":
            return _el(truth, base) if self.shape else truth(base[()])
        if dt.kind in "iu":
            return _el(_toint, base) if self.shape else self
        return self.copy()

    def tobytes(self, *a, **k):
        return realize(self).tobytes(*a, **k)

    def sort(self, axis=-1, **k):
        base = self.view(np.ndarray)
        base[...] = _plain(_sort(self, axis))

    def argsort(self, axis=-1, **k):
        return _argsort(self)

    def nonzero(self):
        return np.nonzero(concrete_bool_mask(_el(truth, self.view(np.ndarray))))

    def __contains__(self, v):
        return bool(Or([truth(x == v) for x in self.flat]))

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).flat[0])
        raise ValueError("The truth value of an array with more than one "
                         "element is ambiguous.")

    def __index__(self):
        if self.size == 1:
            return int(self.view(np.ndarray).flat[0])
        raise TypeError("only integer scalar arrays can be converted")

    def __int__(self):
        return self.__index__()

    def dot(self, other, *a, **k):
        return _dot(self, other)

    def __matmul__(self, other):
        return _dot(self, other)

    def __rmatmul__(self, other):
        return _dot(other, self)

    # ------------------------------------------------------------- dispatch
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        kwargs.pop("where", None) if kwargs.get("where") is True else None
        out = kwargs.pop("out", None)
        kwargs.pop("dtype", None)
        kwargs.pop("casting", None)
        ins = [_plain(i) for i in inputs]
        if method == "__call__":
            f = _UF.get(ufunc)
            if f is not None:
                r = _el(f, *ins)
            else:
                ins = [realize(i) if isinstance(i, np.ndarray) else i
                       for i in ins]
                r = getattr(ufunc, method)(*ins, **kwargs)
        elif method == "reduce":
            f = {np.add: _sum, np.multiply: _prod, np.maximum: _max,
                 np.minimum: _min,
                 np.logical_and: lambda vs: And([truth(v) for v in vs]),
                 np.logical_or: lambda vs: Or([truth(v) for v in vs]),
                 np.bitwise_or: lambda vs: functools.reduce(_bor, vs),
                 np.bitwise_and: lambda vs: functools.reduce(_band, vs),
                 }.get(ufunc)
            if f is None:
                r = ufunc.reduce(realize(ins[0]), *ins[1:], **kwargs)
            else:
                r = _reduce(ins[0], f, kwargs.get("axis", 0))
        elif method == "outer":
            f = _UF.get(ufunc)
            a, b = (np.asarray(i, dtype=object) for i in ins)
            r = _el(f, a.reshape(a.shape + (1,) * b.ndim), b)
        else:
            ins = [realize(i) if isinstance(i, np.ndarray) else i for i in ins]
            r = getattr(ufunc, method)(*ins, **kwargs)
        if out is not None:
            o = out[0]
            if isinstance(o, np.ndarray) and o.dtype != object:
                o[...] = realize(arr(r))
            else:
                _plain(o)[...] = _plain(r)
            return o
        return r

    def __array_function__(self, func, types, args, kwargs):
        h = _AF.get(func)
        if h is not None:
            return h(*args, **kwargs)
        try:
            return super().__array_function__(func, types, args, kwargs)
        except TypeError:
            args = tuple(realize(a) if isinstance(a, SymArr) else a
                         for a in args)
            kwargs = {k: realize(a) if isinstance(a, SymArr) else a
                      for k, a in kwargs.items()}
            return func(*args, **kwargs)


class _Fallback(Exception):
    pass


class Look(np.ndarray):
    """A concrete array that may be indexed with symbolic positions."""

    def __getitem__(self, key):
        if has_sym(key):
            return arr(self.view(np.ndarray))[key]
        r = super().__getitem__(key)
        return r


def wrap_arrays(obj, names=None):
    """Let the (integer and boolean) array attributes of obj be indexed with
    symbolic positions."""
    for k, v in list(vars(obj).items()):
        if isinstance(v, np.ndarray) and v.dtype.kind in "iub" and \
                (names is None or k in names):
            try:
                setattr(obj, k, v.view(Look))
            except AttributeError:
                pass
    return obj



def _objarr(k):
    return isinstance(k, np.ndarray) and k.dtype == object


def _take_axis(base, k, ax):
    if isinstance(k, slice) or (not is_sym(k) and np.isscalar(k)):
        return base[(slice(None),) * ax + (k,)]
    if isinstance(k, SymInt):
        rows = [base[(slice(None),) * ax + (j,)]
                for j in range(base.shape[ax])]
        return _select(rows, _inrange(k, base.shape[ax]))
    if isinstance(k, (np.ndarray, list)):
        ka = np.asarray(_plain(k), dtype=object)
        if ka.size and all(_is_boolish(v) for v in ka.flat):
            return base[(slice(None),) * ax + (concrete_bool_mask(ka),)]
        if ka.ndim != 1:
            if ax == 0:
                out = np.empty(ka.shape + base.shape[1:], dtype=object)
                for i in np.ndindex(ka.shape):
                    out[i] = _plain(_take_axis(base, ka[i], 0))
                return out
            raise _Fallback()
        if not any(is_sym(v) for v in ka.flat):
            return base[(slice(None),) * ax
                        + (np.array([int(v) for v in ka], dtype=np.intp),)]
        subs = [_take_axis(base, v if is_sym(v) else int(v), ax) for v in ka]
        if not isinstance(subs[0], np.ndarray):
            out = np.empty(len(subs), dtype=object)
            for i, v in enumerate(subs):
                out[i] = v
            return out
        return np.stack([_plain(s) for s in subs], axis=ax)
    raise _Fallback()


def _concrete_key(key):
    if isinstance(key, tuple):
        return tuple(_concrete_key(k) for k in key)
    if isinstance(key, SymInt):
        return int(key)
    if isinstance(key, SymBool):
        return bool(key)
    if isinstance(key, np.ndarray) and key.dtype == object:
        if key.size and all(_is_boolish(v) for v in key.flat):
            return concrete_bool_mask(key)
        return concrete_int(_plain(key))
    if isinstance(key, list):
        return [_concrete_key(k) for k in key]
    return key


def _toint(v):
    if isinstance(v, SymBool):
        return v._as_int()
    if is_sym(v):
        return v
    return int(v)


def _reduce(a, f, axis):
    a = np.asarray(_plain(a), dtype=object)
    if axis is None:
        return f(list(a.flat))
    if isinstance(axis, tuple):
        axes = sorted((x % a.ndim for x in axis), reverse=True)
        rest = [i for i in range(a.ndim) if i not in axes]
        b = a.transpose(rest + axes[::-1]).reshape(
            tuple(a.shape[i] for i in rest) + (-1,))
        return _reduce(b, f, -1)
    a = np.moveaxis(a, axis, -1)
    out = np.empty(a.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = f(list(a[i]))
    if out.shape == ():
        return out[()]
    return out.view(SymArr)


def _add(a, b):
    if _is_boolish(a) and _is_boolish(b):
        return Or(a, b)     # numpy boolean addition
    return a + b


def _sum(vs):
    s = 0
    for v in vs:
        s = s + (v._as_int() if isinstance(v, SymBool)
                 else int(v) if isinstance(v, (bool, np.bool_)) else v)
    return s


def _prod(vs):
    s = 1
    for v in vs:
        s = s * v
    return s


def _max(vs):
    r = vs[0]
    for v in vs[1:]:
        r = ite(v > r, v, r)
    return r


def _min(vs):
    r = vs[0]
    for v in vs[1:]:
        r = ite(v < r, v, r)
    return r


def _eq(a, b):
    r = a == b
    return r


def _bor(a, b):
    if _is_boolish(a) and _is_boolish(b):
        return Or(a, b)
    return a | b


def _band(a, b):
    if _is_boolish(a) and _is_boolish(b):
        return And(a, b)
    return a & b


def _sign(v):
    return ite(v > 0, 1, ite(v < 0, -1, 0))


_UF = {
    np.equal: _eq, np.not_equal: lambda a, b: Not(truth(a == b)),
    np.less: lambda a, b: a < b, np.less_equal: lambda a, b: a <= b,
    np.greater: lambda a, b: a > b, np.greater_equal: lambda a, b: a >= b,
    np.add: _add, np.subtract: lambda a, b: a - b,
    np.multiply: lambda a, b: And(a, b) if _is_boolish(a) and _is_boolish(b)
    else a * b,
    np.true_divide: lambda a, b: a / b,
    np.floor_divide: lambda a, b: a // b, np.remainder: lambda a, b: a % b,
    np.negative: lambda a: -a, np.positive: lambda a: a,
    np.absolute: abs, np.sign: _sign,
    np.logical_and: lambda a, b: And(truth(a), truth(b)),
    np.logical_or: lambda a, b: Or(truth(a), truth(b)),
    np.logical_not: lambda a: Not(truth(a)),
    np.logical_xor: lambda a, b: _xor(truth(a), truth(b)),
    np.bitwise_or: _bor, np.bitwise_and: _band,
    np.bitwise_xor: lambda a, b: _xor(a, b) if _is_boolish(a) and
    _is_boolish(b) else a ^ b,
    np.invert: lambda a: Not(a) if _is_boolish(a) else ~a,
    np.maximum: lambda a, b: ite(a > b, a, b),
    np.minimum: lambda a, b: ite(a < b, a, b),
    np.isfinite: lambda a: True if is_sym(a) else bool(np.isfinite(a)),
    np.isnan: lambda a: False if is_sym(a) else bool(np.isnan(a)),
    np.power: lambda a, b: a ** b, np.square: lambda a: a * a,
    np.conjugate: lambda a: a,
}


def _xor(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a) != bool(b)
    return SymBool(z3.Xor(z3b(a), z3b(b)))


def _sort1(vs):
    """Sorting network (insertion sort of compare-exchanges): no forks."""
    vs = list(vs)
    if not any(is_sym(v) for v in vs):
        return sorted(vs)
    n = len(vs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = vs[j], vs[j + 1]
            if not is_sym(a) and not is_sym(b):
                if b < a:
                    vs[j], vs[j + 1] = b, a
                continue
            c = b < a
            vs[j], vs[j + 1] = ite(c, b, a), ite(c, a, b)
    return vs


def _sort(a, axis=-1, kind=None, order=None, **k):
    a = np.asarray(_plain(a), dtype=object)
    a = np.moveaxis(a, axis, -1)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape[:-1]):
        out[i] = _obj(_sort1(a[i]))
    return np.moveaxis(out, -1, axis).view(SymArr)


def _obj(vs):
    o = np.empty(len(vs), dtype=object)
    for i, v in enumerate(vs):
        o[i] = v
    return o


def _argsort(a, axis=-1, kind=None, **k):
    vs = list(np.asarray(_plain(a), dtype=object))
    idx = sorted(range(len(vs)), key=functools.cmp_to_key(
        lambda i, j: -1 if bool(vs[i] < vs[j]) else
        (1 if bool(vs[j] < vs[i]) else 0)))
    return np.array(idx, dtype=np.intp)


def _array_equal(a, b, **k):
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        return False
    return And([truth(x == y) for x, y in zip(a.flat, b.flat)])


def _unique(a, return_index=False, return_inverse=False, return_counts=False,
            axis=None, **k):
    a = arr(a)
    if not deep_sym(a) or axis is not None:
        return np.unique(realize(a), return_index=return_index,
                         return_inverse=return_inverse,
                         return_counts=return_counts, axis=axis)
    if not (return_inverse or return_index or return_counts):
        out = []
        for v in a.flat:
            if not any(bool(truth(v == w)) for w in out):
                out.append(v)
        return _obj(_sort1(out)).view(SymArr)
    # forks on the weak order of the entries only
    vals, first, inv = [], [], [None] * a.size
    members = []
    for i, v in enumerate(a.flat):
        lo = 0
        while lo < len(vals) and bool(truth(vals[lo] < v)):
            lo += 1
        if lo < len(vals) and bool(truth(vals[lo] == v)):
            members[lo].append(i)
        else:
            vals.insert(lo, v)
            members.insert(lo, [i])
    for k, m in enumerate(members):
        for i in m:
            inv[i] = k
    res = [_obj(vals).view(SymArr)]
    if return_index:
        res.append(np.array([m[0] for m in members], dtype=np.intp))
    if return_inverse:
        res.append(np.array(inv, dtype=np.intp).reshape(a.shape))
    if return_counts:
        res.append(np.array([len(m) for m in members], dtype=np.intp))
    return tuple(res)


def _where(c, *xy):
    if not xy:
        return np.nonzero(concrete_bool_mask(_el(truth, c)))
    return _el(lambda c, x, y: ite(truth(c), x, y), c, *xy)


def _dot(a, b):
    a, b = (np.asarray(_plain(x), dtype=object) for x in (a, b))
    if a.ndim == 1 and b.ndim == 1:
        return _sum([x * y for x, y in zip(a, b)])
    if a.ndim == 2 and b.ndim == 1:
        return arr(_obj([_dot(r, b) for r in a]))
    if a.ndim == 1 and b.ndim == 2:
        return arr(_obj([_dot(a, c) for c in b.T]))
    if a.ndim == 2 and b.ndim == 2:
        out = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                out[i, j] = _dot(a[i], b[:, j])
        return out.view(SymArr)
    raise TypeError("dot")


def _isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    def f(x, y):
        return abs(x - y) <= atol + rtol * abs(y)
    return _el(f, a, b)


def _isin(a, b, **k):
    bs = list(arr(b).flat)
    inv = k.get("invert", False)
    return _el(lambda x: Not(Or([truth(x == y) for y in bs])) if inv else
               Or([truth(x == y) for y in bs]), a)


def _af(a, *r, **k):
    return arr(a)


def _take(a, idx, axis=None, **k):
    base = np.asarray(_plain(a), dtype=object)
    if axis is None:
        base, axis = base.ravel(), 0
    axis %= base.ndim
    if is_sym(idx):
        r = _take_axis(base, idx, axis)
        return arr(r) if isinstance(r, np.ndarray) else r
    ia = np.asarray(_plain(idx), dtype=object)
    flat = _take_axis(base, ia.ravel(), axis)
    flat = np.asarray(_plain(flat), dtype=object)
    return arr(flat.reshape(base.shape[:axis] + ia.shape
                            + base.shape[axis + 1:]))


_AF = {
    np.take: _take,
    np.any: lambda a, axis=None, **k: arr(a).any(axis=axis),
    np.all: lambda a, axis=None, **k: arr(a).all(axis=axis),
    np.sum: lambda a, axis=None, **k: arr(a).sum(axis=axis),
    np.prod: lambda a, axis=None, **k: arr(a).prod(axis=axis),
    np.max: lambda a, axis=None, **k: arr(a).max(axis=axis, **k),
    np.min: lambda a, axis=None, **k: arr(a).min(axis=axis, **k),
    np.amax: lambda a, axis=None, **k: arr(a).max(axis=axis),
    np.amin: lambda a, axis=None, **k: arr(a).min(axis=axis),
    np.count_nonzero: lambda a, axis=None, **k:
        _reduce(a, lambda vs: _sum([_toint(truth(v)) for v in vs]), axis),
    np.sort: _sort, np.argsort: _argsort,
    np.array_equal: _array_equal, np.unique: _unique, np.where: _where,
    np.nonzero: lambda a: arr(a).nonzero(),
    np.flatnonzero: lambda a: arr(a).ravel().nonzero()[0],
    np.argwhere: lambda a: np.stack(arr(a).nonzero(), axis=-1),
    np.dot: lambda a, b, **k: _dot(a, b),
    np.isclose: _isclose, np.isin: _isin,
    np.allclose: lambda a, b, **k: arr(_isclose(a, b, **k)).all(),
    np.lexsort: lambda keys, axis=-1: np.lexsort(
        [realize(k) for k in keys], axis=axis),
    np.abs: lambda a, **k: _el(abs, a),
}


class NpProxy:
    """Stands in for the module-global `np` of the code under execution."""

    def __init__(self, force_object=True):
        self._force = force_object

    def __getattr__(self, name):
        return getattr(np, name)

    def _obj_if(self, r):
        return r.astype(object).view(SymArr) if self._force and active() \
            else r

    def empty(self, shape, dtype=None, **k):
        if self._force and active():
            a = np.empty(shape, dtype=object)
            a[...] = 0
            return a.view(SymArr)
        return np.empty(shape, dtype=dtype or float, **k)

    def zeros(self, shape, dtype=None, **k):
        return self._obj_if(np.zeros(shape, dtype=dtype or float, **k))

    def ones(self, shape, dtype=None, **k):
        return self._obj_if(np.ones(shape, dtype=dtype or float, **k))

    def full(self, shape, v, dtype=None, **k):
        if is_sym(v) or (self._force and active()):
            a = np.empty(shape, dtype=object)
            a[...] = v
            return a.view(SymArr)
        return np.full(shape, v, dtype=dtype, **k)

    def eye(self, *a, **k):
        return self._obj_if(np.eye(*a, **k))

    def identity(self, *a, **k):
        return self._obj_if(np.identity(*a, **k))

    def zeros_like(self, a, dtype=None, **k):
        if isinstance(a, SymArr):
            return self._obj_if(np.zeros(a.shape, dtype=dtype or int))
        return np.zeros_like(a, dtype=dtype, **k)

    def ones_like(self, a, dtype=None, **k):
        if isinstance(a, SymArr):
            return self._obj_if(np.ones(a.shape, dtype=dtype or int))
        return np.ones_like(a, dtype=dtype, **k)

    def empty_like(self, a, dtype=None, **k):
        if isinstance(a, SymArr):
            return self.zeros_like(a)
        return np.empty_like(a, dtype=dtype, **k)

    def full_like(self, a, v, dtype=None, **k):
        if isinstance(a, SymArr):
            return self.full(a.shape, v)
        return np.full_like(a, v, dtype=dtype, **k)

    def arange(self, *a, **k):
        a = tuple(int(x) if is_sym(x) else x for x in a)
        return np.arange(*a, **k)

    def array(self, x, dtype=None, **k):
        if isinstance(x, SymArr):
            r = x.copy()
            return r.astype(dtype) if dtype is not None else r
        if has_sym(x):
            return _mk(x, dtype)
        return np.array(x, dtype=dtype, **k)

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SymArr):
            return x
        if has_sym(x):
            return _mk(x, dtype)
        return np.asarray(x, dtype=dtype, **k)

    def fromiter(self, it, dtype=None, **k):
        xs = list(it)
        if any(is_sym(v) for v in xs):
            return _mk(xs, dtype)
        return np.fromiter(xs, dtype=dtype, **k)

    # scalars: these numpy functions do not dispatch on proxies
    def isclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        if has_sym(a) or has_sym(b):
            return _isclose(a, b, rtol, atol)
        return np.isclose(a, b, rtol=rtol, atol=atol, **k)

    def allclose(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            return arr(_isclose(a, b, **k)).all()
        return np.allclose(a, b, **k)

    def abs(self, a, **k):
        return _el(abs, a) if has_sym(a) else np.abs(a, **k)
    absolute = abs

    def sign(self, a, **k):
        return _el(_sign, a) if has_sym(a) else np.sign(a, **k)

    def array_equal(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            return _array_equal(a, b)
        return np.array_equal(a, b, **k)

    def isfinite(self, a):
        return _UF[np.isfinite](a) if is_sym(a) else np.isfinite(a)

    def isnan(self, a):
        return False if is_sym(a) else np.isnan(a)

    def unique(self, a, **k):
        return _unique(a, **k) if has_sym(a) else np.unique(a, **k)

    def sum(self, a, axis=None, **k):
        return arr(list(a) if not isinstance(a, np.ndarray) else a).sum(
            axis=axis) if has_sym(a) else np.sum(a, axis=axis, **k)

    def prod(self, a, axis=None, **k):
        return arr(list(a) if not isinstance(a, np.ndarray) else a).prod(
            axis=axis) if has_sym(a) else np.prod(a, axis=axis, **k)

    def max(self, a, **k):
        return arr(a).max(**k) if has_sym(a) else np.max(a, **k)
    amax = max

    def min(self, a, **k):
        return arr(a).min(**k) if has_sym(a) else np.min(a, **k)
    amin = min

    def round(self, a, *r, **k):
        return a if has_sym(a) else np.round(a, *r, **k)
    around = round

    def logical_not(self, a, **k):
        return Not(truth(a)) if is_sym(a) else np.logical_not(a, **k)

    def any(self, a, **k):
        return arr(a).any(**k) if has_sym(a) else np.any(a, **k)

    def all(self, a, **k):
        return arr(a).all(**k) if has_sym(a) else np.all(a, **k)

    def ndarray(self, *a, **k):
        return np.ndarray(*a, **k)


def _mk(x, dtype=None):
    if is_sym(x):
        return arr(_box(x))
    r = arr(_nested(x))
    return r.astype(dtype) if dtype is not None and \
        np.dtype(dtype).kind in "biu" else r


def _nested(x):
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (list, tuple)):
        y = [_nested(v) for v in x]
        if y and all(isinstance(v, np.ndarray) for v in y):
            return np.stack([np.asarray(_plain(v), dtype=object) for v in y])
        o = np.empty(len(y), dtype=object)
        for i, v in enumerate(y):
            o[i] = v
        return o
    return x


class NpProxyMeta:
    pass


_PROXY = NpProxy()
# `isinstance(x, np.ndarray)` and annotations must see the real class
NpProxy.ndarray = np.ndarray


class patched:
    """Replace the global `np` of the given modules by the proxy."""

    def __init__(self, *modules, proxy=None, **extra):
        self.modules = modules
        self.proxy = proxy or _PROXY
        self.extra = extra

    def __enter__(self):
        self.saved = []
        for m in self.modules:
            for name, val in [("np", self.proxy), ("numpy", self.proxy)] \
                    + list(self.extra.items()):
                if name in m.__dict__ or name in self.extra:
                    self.saved.append((m, name, m.__dict__.get(name, _MISS)))
                    m.__dict__[name] = val
        return self

    def __exit__(self, *a):
        for m, name, old in reversed(self.saved):
            if old is _MISS:
                del m.__dict__[name]
            else:
                m.__dict__[name] = old


_MISS = object()
