"""Sparse matrices of symbolic numbers, standing in for scipy.sparse.

`Coo` and `Csx` follow the documented meaning of scipy's coo/csr/csc arrays for
the operations the package uses: positions are ordinary numpy integers, the
stored numbers may be symbolic.  `self_test` compares them with scipy on
concrete matrices.
"""
import numpy as np
import scipy.sparse as real

from .engine import is_sym, active
from .symnp import arr, SymArr, NpProxy


def _data(x):
    if isinstance(x, np.ndarray) and x.dtype != object:
        return np.array(x)
    x = list(x) if not isinstance(x, np.ndarray) else x
    return arr(x).ravel() if len(x) else np.zeros(0)


class Idx(np.ndarray):
    """Positions; may be selected by a mask of symbolic truth values."""

    def __getitem__(self, key):
        if isinstance(key, np.ndarray) and key.dtype == object:
            key = np.array([bool(v) for v in key.ravel()]).reshape(key.shape)
        return super().__getitem__(key)


def _ints(x):
    return np.array([int(v) for v in np.asarray(x).ravel()],
                    dtype=np.int64).view(Idx)


class Base:
    __array_priority__ = 3000
    ndim = 2

    @property
    def nnz(self):
        return len(self.data)

    def count_nonzero(self):
        return sum(bool(v != 0) for v in self.data)

    @property
    def dtype(self):
        return self.data.dtype

    def getnnz(self, axis=None):
        assert axis is None
        return self.nnz

    def toarray(self, *a, **k):
        c = self.tocoo()
        one = len(self.shape) == 1
        shape = (1,) + tuple(self.shape) if one else self.shape
        if not any(is_sym(v) for v in c.data):
            out = np.zeros(shape, dtype=np.result_type(
                *[np.asarray(v).dtype for v in c.data], np.int8)
                if len(c.data) else float)
        else:
            out = np.zeros(shape, dtype=object)
        for r, k_, v in zip(c.row, c.col, c.data):
            out[r, k_] = out[r, k_] + v
        out = out[0] if one else out
        return out.view(SymArr) if out.dtype == object else out

    todense = toarray
    A = property(lambda s: s.toarray())

    def tocsr(self, copy=False):
        return Csx.make(self.tocoo(), "csr")

    def tocsc(self, copy=False):
        return Csx.make(self.tocoo(), "csc")

    def tolil(self, copy=False):
        return Lil(self.tocsr())

    def todok(self, copy=False):
        return Dok((lambda c: (c.data, (c.row, c.col)))(
            Csx.make(self.tocoo(), "csr").tocoo()), shape=self.shape)

    def asformat(self, format, copy=False):
        return getattr(self, "to" + (format or self.format))()

    def copy(self):
        return type(self)._copy(self)

    def transpose(self, *a, **k):
        c = self.tocoo()
        r = Coo((c.data, (c.col, c.row)), shape=self.shape[::-1])
        return r

    T = property(lambda s: s.transpose())

    def _map(self, f):
        c = self.tocoo()
        return Coo((arr([f(v) for v in c.data]) if c.nnz else c.data,
                    (c.row, c.col)), shape=c.shape).asformat(self.format)

    def __neg__(self):
        return self._map(lambda v: -v)

    def __mul__(self, s):
        return self._map(lambda v: v * s)
    __rmul__ = __mul__

    def __truediv__(self, s):
        return self._map(lambda v: v / s)

    def astype(self, *a, **k):
        return self.copy()

    def __add__(self, o):
        if not issparse(o):
            if isinstance(o, (int, float, np.number)) and o == 0:
                return self.copy()
            raise NotImplementedError("adding a nonzero scalar to a sparse "
                                      "array is not supported")
        a, b = self.tocoo(), o.tocoo()
        return Coo((_cat([a.data, b.data]), (np.hstack((a.row, b.row)),
                                             np.hstack((a.col, b.col)))),
                   shape=self.shape).tocsr()

    def __radd__(self, o):
        return self + o

    def __sub__(self, o):
        return self + (-o)

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2 and all(
                isinstance(k, np.ndarray) and k.ndim == 1 for k in key):
            d = self.toarray()[key]      # a one-dimensional sparse array
            return _one(d, np.arange(len(d)), len(d))
        d = self.toarray()[key]
        return Coo(d) if isinstance(d, np.ndarray) and d.ndim == 2 else d

    def __len__(self):
        raise TypeError("sparse array length is ambiguous")

    def nonzero(self):
        c = self.tocoo()
        keep = [k for k, v in enumerate(c.data) if bool(v != 0)]
        return c.row[keep], c.col[keep]


def _cat(ds):
    ds = [d for d in ds if len(d)]
    if not ds:
        return np.zeros(0)
    if all(d.dtype != object for d in ds):
        return np.hstack(ds)
    return arr([v for d in ds for v in d])


class Coo(Base):
    format = "coo"

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(
                arg[1], (tuple, list)):
            data, (row, col) = arg
            if isinstance(data, np.ndarray) and data.ndim == 0:
                raise ValueError("scalar data")
            self.data = _data(data)
            self.row, self.col = _ints(row), _ints(col)
            if not len(self.row) == len(self.col) == len(self.data):
                raise ValueError("row, column, and data array must all be "
                                 "the same length")
            if shape is None:
                shape = (int(self.row.max()) + 1, int(self.col.max()) + 1)
        elif isinstance(arg, tuple) and len(arg) == 2:
            shape = arg
            self.data = np.zeros(0)
            self.row = self.col = np.zeros(0, dtype=np.int64)
        elif isinstance(arg, Base) or real.issparse(arg):
            c = arg.tocoo()
            self.data, self.row, self.col = c.data, c.row, c.col
            shape = shape or c.shape
        else:
            a = np.asarray(arg, dtype=object) if not isinstance(
                arg, np.ndarray) else arg
            shape = shape or a.shape
            if a.ndim == 1:
                a = a.reshape(1, -1)
            idx = [i for i in np.ndindex(a.shape) if bool(a[i] != 0)]
            self.data = _data([a[i] for i in idx])
            self.row = _ints([i[0] for i in idx])
            self.col = _ints([i[1] for i in idx])
        self.shape = tuple(int(s) for s in shape)
        if len(self.row) and len(self.shape) == 2:
            if self.row.max() >= self.shape[0] or self.row.min() < 0:
                raise ValueError("row index exceeds matrix dimensions")
            if self.col.max() >= self.shape[1] or self.col.min() < 0:
                raise ValueError("column index exceeds matrix dimensions")

    @property
    def coords(self):
        return (self.row, self.col)

    def tocoo(self, copy=False):
        return self

    def _copy(self):
        return Coo((self.data.copy(), (self.row.copy(), self.col.copy())),
                   shape=self.shape)

    def reshape(self, *shape, **k):
        shape = shape[0] if len(shape) == 1 and not np.isscalar(
            shape[0]) else shape
        shape = [int(s) for s in shape]
        size = int(np.prod(self.shape))
        if -1 in shape:
            rest = int(np.prod([s for s in shape if s != -1]))
            shape[shape.index(-1)] = size // rest
        if int(np.prod(shape)) != size:
            # scipy checks the sizes of the shapes only
            raise ValueError("cannot reshape array")
        w = self.shape[-1]
        flat = self.row * w + self.col
        w2 = shape[1] if len(shape) == 2 else size
        return Coo((self.data, (flat // max(w2, 1), flat % max(w2, 1))),
                   shape=tuple(shape)) if len(shape) == 2 else _one(
                       self.data, flat, size)

    def resize(self, *shape):
        shape = shape[0] if len(shape) == 1 and not np.isscalar(
            shape[0]) else shape
        m, n = (int(s) for s in shape)
        keep = [k for k in range(self.nnz)
                if self.row[k] < m and self.col[k] < n]
        if len(keep) < self.nnz:
            self.data = self.data[keep]
            self.row, self.col = self.row[keep], self.col[keep]
        self.shape = (m, n)

    def sum_duplicates(self):
        c = Csx.make(self, "csr").tocoo()
        self.data, self.row, self.col = c.data, c.row, c.col

    def eliminate_zeros(self):
        keep = [k for k, v in enumerate(self.data) if bool(v != 0)]
        self.data = self.data[keep]
        self.row, self.col = self.row[keep], self.col[keep]


def _one(data, col, size):
    c = Coo((data, (np.zeros(len(data), dtype=int), col)), shape=(1, size))
    c.shape = (size,)
    c.ndim = 1
    return c


class Csx(Base):
    @classmethod
    def make(cls, c, fmt):
        self = cls()
        self.format = fmt
        self.shape = c.shape
        maj, mnr = (c.row, c.col) if fmt == "csr" else (c.col, c.row)
        n = c.shape[0 if fmt == "csr" else 1]
        cells = {}
        for a, b, v in zip(maj, mnr, c.data):
            k = (int(a), int(b))
            cells[k] = cells[k] + v if k in cells else v
        keys = sorted(cells)
        self.indices = np.array([k[1] for k in keys], dtype=np.int64)
        self.indptr = np.searchsorted([k[0] for k in keys],
                                      np.arange(n + 1)).astype(np.int64) \
            if keys else np.zeros(n + 1, dtype=np.int64)
        self.data = _data([cells[k] for k in keys])
        return self

    def tocoo(self, copy=False):
        maj = np.repeat(np.arange(len(self.indptr) - 1),
                        np.diff(self.indptr))
        rc = (maj, self.indices)
        return Coo((self.data, rc if self.format == "csr" else rc[::-1]),
                   shape=self.shape)

    def _copy(self):
        return Csx.make(self.tocoo(), self.format)

    def sort_indices(self):
        pass

    sum_duplicates = sort_indices

    def eliminate_zeros(self):
        c = self.tocoo()
        c.eliminate_zeros()
        d = Csx.make(c, self.format)
        self.data, self.indices, self.indptr = d.data, d.indices, d.indptr


class Dok(Coo):
    format = "dok"

    def tocoo(self, copy=False):
        return Coo((self.data, (self.row, self.col)), shape=self.shape)

    def todok(self, copy=False):
        return self

    def _copy(self):
        return Dok((self.data.copy(), (self.row.copy(), self.col.copy())),
                   shape=self.shape)


class Lil(Base):
    format = "lil"

    def __init__(self, csr):
        self.shape = csr.shape
        self._csr = csr
        p = csr.indptr
        self.rows = np.empty(self.shape[0], dtype=object)
        self.data = np.empty(self.shape[0], dtype=object)
        for i in range(self.shape[0]):
            self.rows[i] = csr.indices[p[i]:p[i + 1]].tolist()
            self.data[i] = list(csr.data[p[i]:p[i + 1]])

    def tocoo(self, copy=False):
        return self._csr.tocoo()

    def _copy(self):
        return Lil(Csx.make(self.tocoo(), "csr"))


def vstack(blocks, format=None, dtype=None):
    blocks = [b.tocoo() if isinstance(b, Base) or real.issparse(b)
              else Coo(b) for b in blocks]
    blocks = [b if len(b.shape) == 2 else Coo(
        (b.data, (b.row, b.col)), shape=(1, b.shape[0])) for b in blocks]
    widths = {b.shape[1] for b in blocks}
    if len(widths) > 1:
        raise ValueError("incompatible column dimensions")
    off = np.cumsum([0] + [b.shape[0] for b in blocks])
    return Coo((_cat([b.data for b in blocks]),
                (np.hstack([b.row + o for b, o in zip(blocks, off)]),
                 np.hstack([b.col for b in blocks]))),
               shape=(int(off[-1]), widths.pop())).asformat(format or "coo")


def hstack(blocks, format=None, dtype=None):
    return vstack([b.T for b in blocks]).T.asformat(format or "coo")


def eye(m, n=None, k=0, dtype=float, format=None):
    c = real.eye(m, n, k=k, dtype=dtype).tocoo()
    return Coo((c.data, (c.row, c.col)), shape=c.shape)


def issparse(x):
    return isinstance(x, Base) or real.issparse(x)


class _CooMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Coo, real.coo_array, real.coo_matrix))

    def __call__(cls, *a, **k):
        return Coo(*a, **k)


class coo_array(metaclass=_CooMeta):
    pass


def _fmt(f):
    class M(type):
        def __instancecheck__(cls, x):
            return issparse(x) and x.format == f

        def __call__(cls, *a, **k):
            return Coo(*a, **k).asformat(f)

    return M(f + "_array", (), {})


class Sps:
    """Stands in for a module-global `sps` (scipy.sparse)."""
    coo_array = coo_matrix = coo_array
    csr_array = csr_matrix = _fmt("csr")
    csc_array = csc_matrix = _fmt("csc")
    eye = eye_array = staticmethod(eye)
    vstack = staticmethod(vstack)
    hstack = staticmethod(hstack)
    issparse = staticmethod(issparse)

    def __getattr__(self, name):
        return getattr(real, name)


class SpNp(NpProxy):
    """numpy proxy for modules that mix sparse and dense."""

    def __init__(self):
        super().__init__(force_object=False)

    def repeat(self, a, n, axis=None):
        return np.repeat(a, n, axis=axis)

    def zeros(self, shape, dtype=None, **k):
        if active() and np.dtype(dtype or float).kind in "fO":
            a = np.zeros(shape, dtype=object)
            a[...] = 0
            return a.view(SymArr)
        return np.zeros(shape, dtype=dtype or float, **k)

    def ones(self, shape, dtype=None, **k):
        if active() and np.dtype(dtype or float).kind in "fO":
            a = np.zeros(shape, dtype=object)
            a[...] = 1
            return a.view(SymArr)
        return np.ones(shape, dtype=dtype or float, **k)

    def hstack(self, xs, **k):
        xs = [np.asarray(x) if not isinstance(x, np.ndarray) else x
              for x in (arr(list(x)) if isinstance(x, (list, tuple)) and any(
                  is_sym(v) for v in x) else x for x in xs)]
        if any(x.dtype == object for x in xs):
            return arr([v for x in xs for v in np.atleast_1d(x)])
        return np.hstack(xs, **k)

    def concatenate(self, xs, axis=0, **k):
        if all(np.ndim(x) == 1 for x in xs):
            return self.hstack(xs)
        return np.concatenate(xs, axis=axis, **k)


def names(mod):
    """Replacements for the sparse names a module uses."""
    out = {}
    S = Sps()
    for k, v in list(vars(mod).items()):
        if v is real:
            out[k] = S
        elif v is real.coo_array or v is real.coo_matrix:
            out[k] = coo_array
        elif v is real.csr_array or v is real.csr_matrix:
            out[k] = Sps.csr_array
        elif v is real.csc_array or v is real.csc_matrix:
            out[k] = Sps.csc_array
        elif v is real.vstack:
            out[k] = vstack
        elif v is real.hstack:
            out[k] = hstack
        elif v is real.eye or v is real.eye_array:
            out[k] = eye
        elif v is real.issparse:
            out[k] = issparse
        elif isinstance(v, (real.coo_array, real.csr_array)):
            out[k] = Coo(v)      # a module constant
    return out


def self_test(seed=1, rounds=40):
    """Agreement with scipy on random concrete matrices."""
    rng = np.random.default_rng(seed)
    for _ in range(rounds):
        m, n, k = rng.integers(1, 5, 3)
        r, c = rng.integers(0, m, k), rng.integers(0, n, k)
        d = rng.integers(-3, 4, k).astype(float)
        A = real.coo_array((d, (r, c)), shape=(m, n))
        B = Coo((d, (r, c)), shape=(m, n))
        assert A.shape == B.shape and A.nnz == B.nnz
        assert (A.toarray() == B.toarray()).all()
        for f in ("tocsr", "tocsc"):
            X, Y = getattr(A, f)(), getattr(B, f)()
            X.sort_indices()
            assert (X.indptr == Y.indptr).all()
            assert (X.indices == Y.indices).all()
            assert (X.data == Y.data).all()
        X, Y = A.tolil(), B.tolil()
        assert [list(map(int, q)) for q in X.rows] == list(Y.rows)
        assert [list(map(float, q)) for q in X.data] == [
            list(map(float, q)) for q in Y.data]
        assert (A.reshape((1, m * n)).toarray()
                == B.reshape((1, m * n)).toarray()).all()
        V, W = real.vstack((A, A)), vstack((B, B))
        assert (V.toarray() == W.toarray()).all() and V.shape == W.shape
        R = real.coo_array(A.toarray()[::-1])
        S = Coo(A.toarray()[::-1])
        D, Q = A.asformat("dok"), B.asformat("dok")
        assert ((R + 2 * D).toarray() == (S + 2 * Q).toarray()).all()
        assert ((0 + D).toarray() == (0 + Q).toarray()).all()
        sup = D.nonzero()
        assert sorted(zip(*map(list, sup))) == sorted(zip(*map(
            list, Q.nonzero())))
        assert (D[sup].toarray().ravel() == Q[sup].toarray().ravel()).all()
        assert (real.eye(n).toarray() == eye(n).toarray()).all()
        A.resize(m + 1, n + 1)
        B.resize(m + 1, n + 1)
        assert (A.toarray() == B.toarray()).all() and A.shape == B.shape
        assert (real.coo_array(A.toarray()).toarray()
                == Coo(A.toarray()).toarray()).all()
    assert real.coo_array([]).shape == Coo([]).shape
