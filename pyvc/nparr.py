"""Symbolic numpy arrays: concrete rank, symbolic shape, element function.

Layout: address = offset + sum(idx_k * stride_k) into a base element function,
exactly as numpy's strided views, so reshape / slicing / axis moves stay
polynomial in the (symbolic) dimensions.
"""
import builtins
import bz2
import gzip
import io
import math

import numpy as np

from .core import z3, Ctx, Unsupported
from .values import (
    Sym, SymObj, SInt, SBool, SReal, SStr, And, Or, mkbool, mkint, mkreal,
    int_expr, real_expr, is_intlike, is_reallike, slice_bounds, contains_sym,
    floordiv, pymod, bnot, to_bool_expr, Ite,
)
from . import hooks as H
from . import poly as P
from .sbytes import SymBytes  # noqa: E402


def prod(xs):
    out = 1
    for x in xs:
        out = out * x
    return out


def same_int(a, b):
    """Provably equal ints?"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    ae, be = z3.simplify(int_expr(a)), z3.simplify(int_expr(b))
    if P.equal(ae, be):
        return True
    return Ctx.cur.must(ae == be)


class Elem(SymObj):
    """An element read from a file: sample at byte offset, with a dtype and a
    chain of conversions."""
    pytype = np.generic

    def __init__(self, off, dtype, tags=(), src=None):
        self.off, self.dtype, self.tags, self.src = off, dtype, tags, src

    def vc_same(self, o):
        if not isinstance(o, Elem):
            return False
        return And(self.src is o.src, self.dtype == o.dtype,
                   self.tags == o.tags, self.off == o.off)


class _Flags(SymObj):
    def __init__(self, arr):
        self.arr = arr

    def getitem(self, k):
        if k in ("C_CONTIGUOUS", "C"):
            return self.arr.contiguous()
        return mkbool(z3.Bool(Ctx.cur.fresh("flag")))

    __getitem__ = getitem

    @property
    def c_contiguous(self):
        return self.arr.contiguous()


class SArr(SymObj):
    pytype = np.ndarray
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, shape, base, offset=0, strides=None, dtype=None,
                 name="arr"):
        self.shape = tuple(shape)
        self.base = base            # base(flat) -> element
        self.offset = offset
        if strides is None:
            strides, acc = [], 1
            for d in reversed(self.shape):
                strides.append(acc)
                acc = acc * d
            strides.reverse()
        self.strides_ = tuple(strides)
        self.dtype = dtype
        self.name = name

    # --- basics
    @classmethod
    def from_get(cls, shape, get, dtype=None):
        """Array given by an index function; flat addressing by div/mod."""
        shape = tuple(shape)

        def base(flat):
            idx = []
            for k in range(len(shape)):
                inner = prod(shape[k + 1:])
                q = floordiv(flat, inner) if k else floordiv(flat, inner)
                idx.append(pymod(q, shape[k]) if k else q)
            return get(tuple(idx))
        a = cls(shape, base, dtype=dtype)
        a._get = get
        return a

    def get(self, idx):
        g = getattr(self, "_get", None)
        if g is not None:
            return g(tuple(idx))
        a = self.offset
        for i, s in zip(idx, self.strides_):
            a = a + i * s
        return self.base(a)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return prod(self.shape)

    @property
    def flags(self):
        return _Flags(self)

    @property
    def T(self):
        return self.transpose()

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    def length(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported("native len of symbolic array")

    def __bool__(self):
        raise Unsupported("truth of symbolic array")

    def __iter__(self):
        raise Unsupported("iteration over symbolic array")

    def contiguous(self):
        acc = 1
        for d, s in zip(reversed(self.shape), reversed(self.strides_)):
            if isinstance(d, int) and d == 1:
                continue
            if not same_int(s, acc):
                return mkbool(z3.Bool(Ctx.cur.fresh("contig")))
            acc = acc * d
        return True

    # --- views
    def reshape(self, *shape, **k):
        order = k.get("order", "C")
        if order != "C":
            raise Unsupported("reshape order " + str(order))
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = list(shape)
        for d in shape:
            if not is_intlike(d):
                raise TypeError("'%s' object cannot be interpreted as an "
                                "integer" % H.pytype(d).__name__)
        total = self.size
        neg = [i for i, d in enumerate(shape) if isinstance(d, int)
               and d == -1]
        if len(neg) > 1:
            raise ValueError("can only specify one unknown dimension")
        if neg:
            rest = prod(d for i, d in enumerate(shape) if i != neg[0])
            if isinstance(rest, Sym) and bool(rest == 0):
                raise ValueError("cannot reshape array")
            if not bool(pymod(total, rest) == 0 if isinstance(
                    total, Sym) or isinstance(rest, Sym)
                    else total % rest == 0):
                raise ValueError("cannot reshape array")
            shape[neg[0]] = floordiv(total, rest) if (
                isinstance(total, Sym) or isinstance(rest, Sym)) else \
                total // rest
        else:
            for d in shape:
                if isinstance(d, Sym):
                    if d < 0:
                        raise ValueError("negative dimensions not allowed")
                elif d < 0:
                    raise ValueError("negative dimensions not allowed")
            if not same_int(prod(shape), total):
                if not bool(prod(shape) == total):
                    raise ValueError("cannot reshape array of size into shape")
        return self._reshape(tuple(shape))

    def _reshape(self, new):
        old = self.shape
        if getattr(self, "_get", None) is not None and len(old) != 1:
            return self._reshape_slow(new)
        # group axes
        i = j = 0
        strides = []
        while i < len(old) or j < len(new):
            done = False
            for tot in range(1, len(old) - i + len(new) - j + 1):
                for di in range(0, min(tot, len(old) - i) + 1):
                    dj = tot - di
                    if dj > len(new) - j:
                        continue
                    if same_int(prod(old[i:i + di]), prod(new[j:j + dj])):
                        st = self._group(i, di, new[j:j + dj])
                        if st is None:
                            return self._reshape_slow(new)
                        strides.extend(st)
                        i += di
                        j += dj
                        done = True
                        break
                if done:
                    break
            if not done:
                return self._reshape_slow(new)
        a = SArr(new, self.base, self.offset, strides, self.dtype, self.name)
        if getattr(self, "_get", None) is not None:
            g, o = self._get, self
            return self._reshape_slow(new)
        return a

    def _group(self, i, di, news):
        dims = [(d, s) for d, s in zip(self.shape[i:i + di],
                                       self.strides_[i:i + di])
                if not (isinstance(d, int) and d == 1)]
        if not dims:
            return [1 for _ in news]
        # merge
        for (d0, s0), (d1, s1) in zip(dims, dims[1:]):
            if not same_int(s0, d1 * s1):
                return None
        inner = dims[-1][1]
        st = []
        for k in range(len(news)):
            st.append(prod(news[k + 1:]) * inner)
        return st

    def _reshape_slow(self, new):
        old = self.shape

        def get(idx):
            flat = 0
            for d, x in zip(new, idx):
                flat = flat * d + x
            oi = []
            for k in range(len(old)):
                q = floordiv(flat, prod(old[k + 1:]))
                oi.append(pymod(q, old[k]) if k else q)
            return self.get(oi)
        return SArr.from_get(new, get, self.dtype)

    def ravel(self, *a):
        return self.reshape(-1)

    flatten = ravel

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(self.ndim)))
        axes = [x + self.ndim if x < 0 else x for x in axes]
        if sorted(axes) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        return self._perm(axes)

    def _perm(self, axes):
        if getattr(self, "_get", None) is not None:
            g = self._get

            def get(idx):
                o = [None] * len(axes)
                for n, ax in enumerate(axes):
                    o[ax] = idx[n]
                return g(tuple(o))
            return SArr.from_get([self.shape[a] for a in axes], get,
                                 self.dtype)
        return SArr([self.shape[a] for a in axes], self.base, self.offset,
                    [self.strides_[a] for a in axes], self.dtype, self.name)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self._perm(ax)

    def copy(self, *a, **k):
        return self

    def squeeze(self, axis=None):
        keep = []
        for k, d in enumerate(self.shape):
            one = (d == 1)
            if axis is not None and k not in (axis if isinstance(
                    axis, tuple) else (axis,)):
                keep.append(k)
            elif bool(one):
                continue
            else:
                keep.append(k)
        g = self.get
        n = self.ndim

        def get(idx):
            it = iter(idx)
            return g([next(it) if k in keep else 0 for k in range(n)])
        if getattr(self, "_get", None) is None:
            return SArr([self.shape[k] for k in keep], self.base, self.offset,
                        [self.strides_[k] for k in keep], self.dtype)
        return SArr.from_get([self.shape[k] for k in keep], get, self.dtype)

    def getitem(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, (SArr, np.ndarray, list)) for k in key):
            raise Unsupported("fancy indexing of symbolic array")
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        if n_real > self.ndim:
            raise IndexError("too many indices for array")
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:p] + (slice(None),) * (self.ndim - n_real) + key[p + 1:]
        else:
            key = key + (slice(None),) * (self.ndim - n_real)
        shape, strides, off = [], [], self.offset
        starts = []
        ax = 0
        maps = []
        for k in key:
            if k is None:
                shape.append(1)
                strides.append(0)
                maps.append(("new",))
                continue
            d, s = self.shape[ax], self.strides_[ax]
            ax += 1
            if isinstance(k, slice):
                if k.step == -1 and k.start is None and k.stop is None:
                    shape.append(d)
                    off = off + (d - 1) * s
                    strides.append(-1 * s)
                    maps.append(("rev", d))
                    continue
                if k.step not in (None, 1):
                    raise Unsupported("strided slice of symbolic array")
                a, b = slice_bounds(k, d)
                ln = b - a
                if isinstance(ln, SInt):
                    ln = ln if ln >= 0 else 0
                else:
                    ln = max(0, ln)
                shape.append(ln)
                off = off + a * s
                strides.append(s)
                maps.append(("sl", a))
            elif is_intlike(k):
                if k < 0:
                    k = k + d
                    if k < 0:
                        raise IndexError("index out of bounds")
                if not (k < d):
                    raise IndexError("index out of bounds")
                off = off + k * s
                maps.append(("ix", k))
            else:
                raise Unsupported("index of symbolic array")
        if getattr(self, "_get", None) is not None:
            g = self._get

            def get(idx):
                it = iter(idx)
                o = []
                for m in maps:
                    if m[0] == "new":
                        next(it)
                    elif m[0] == "ix":
                        o.append(m[1])
                    elif m[0] == "rev":
                        o.append(m[1] - 1 - next(it))
                    else:
                        o.append(m[1] + next(it))
                return g(tuple(o))
            if not shape:
                return get(())
            return SArr.from_get(shape, get, self.dtype)
        if not shape:
            return self.base(off)
        return SArr(shape, self.base, off, strides, self.dtype, self.name)

    def __getitem__(self, key):
        return self.getitem(key)

    def __setitem__(self, key, v):
        raise Unsupported("assignment into symbolic array")

    # --- elementwise
    def map(self, f, dtype=None):
        if getattr(self, "_get", None) is not None:
            g = self._get
            return SArr.from_get(self.shape, lambda i: f(g(i)),
                                 dtype or self.dtype)
        b = self.base
        return SArr(self.shape, lambda a: f(b(a)), self.offset, self.strides_,
                    dtype or self.dtype, self.name)

    def astype(self, dt, *a, **k):
        d = np.dtype(dt)
        if d == self.dtype:
            return self
        return self.map(lambda e: cast(e, d), d)

    def view(self, dt, *a):
        raise Unsupported("view of symbolic array")

    def byteswap(self, *a, **k):
        raise Unsupported("byteswap")


def cast(e, d):
    if isinstance(e, Elem):
        return Elem(e.off, d, e.tags + (("cast", d.str),), e.src)
    raise Unsupported("cast of element")


# ------------------------------------------------------------------- files
class SymFile(SymObj):
    """An open binary file of symbolic size and arbitrary content."""
    pytype = io.BufferedReader

    def __init__(self, size, kind="plain", name="file", path=None):
        self.size_ = size
        self.pos = 0
        self.closed = False
        self.name = path or name
        self.ident = self
        self.pytype = {"plain": io.BufferedReader, "gzip": gzip.GzipFile,
                       "bz2": bz2.BZ2File, "bytesio": io.BytesIO}[kind]
        self.kind = kind

    def seek(self, n, whence=0):
        if not is_intlike(n):
            raise TypeError("'%s' object cannot be interpreted as an integer"
                            % H.pytype(n).__name__)
        if whence == 1:
            n = self.pos + n
        elif whence == 2:
            n = self.size_ + n
        if n < 0:
            raise ValueError("negative seek value")
        self.pos = n
        return n

    def tell(self):
        return self.pos

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def avail(self):
        a = self.size_ - self.pos
        return a if a >= 0 else 0

    def read(self, n=None):
        av = self.avail()
        if n is None or (isinstance(n, int) and n < 0):
            ln = av
        else:
            if isinstance(n, Sym) and bool(n < 0):
                ln = av
            else:
                ln = n if n <= av else av
        b = SymBytes(self, self.pos, ln)
        self.pos = self.pos + ln
        return b


class SymBytesIO(SymFile):
    def __init__(self, b):
        super().__init__(b.n, "bytesio")
        self.bytes = b

    def write(self, b):
        if not isinstance(b, SymBytes) or bool(self.bytes.n != 0):
            raise Unsupported("write into a buffer with content")
        self.bytes, self.size_ = b, b.n
        self.pos = b.n
        return b.n

    def getbuffer(self):
        return self.bytes

    getvalue = getbuffer

    def read(self, n=None):
        r = super().read(n)
        return SymBytes(self.bytes.src, self.bytes.off + r.off, r.n)


H.MODELS[io.BytesIO] = lambda b: SymBytesIO(b)


def file_array(src, off, n, dtype):
    dtype = np.dtype(dtype)
    isz = dtype.itemsize
    return SArr((n,), lambda i: Elem(off + i * isz, dtype, (), src),
                dtype=dtype)


def _fromfile(f, dtype=float, count=-1, sep="", offset=0):
    if not isinstance(f, SymFile):
        raise Unsupported("np.fromfile of a path")
    dtype = np.dtype(dtype)
    if f.kind != "plain":
        raise io.UnsupportedOperation("fileno")
    if sep:
        raise Unsupported("text fromfile")
    if isinstance(offset, Sym) or offset:
        f.pos = f.pos + offset
    av = f.avail() // dtype.itemsize
    if not is_intlike(count):
        raise TypeError("integer argument expected")
    if isinstance(count, Sym):
        n = av if count < 0 else (count if count <= av else av)
    else:
        n = av if count < 0 else (count if count <= av else av)
    src, p = f, f.pos
    if isinstance(f, SymBytesIO):
        raise io.UnsupportedOperation("fileno")
    f.pos = f.pos + n * dtype.itemsize
    return file_array(src, p, n, dtype)


def _frombuffer(b, dtype=float, count=-1, offset=0):
    if isinstance(b, SymBytesIO):
        b = b.bytes
    if not isinstance(b, SymBytes):
        raise Unsupported("frombuffer")
    dtype = np.dtype(dtype)
    n = b.n - offset
    if isinstance(count, Sym) or count >= 0:
        if count * dtype.itemsize > n:
            raise ValueError("buffer is smaller than requested size")
        m = count
    else:
        if not bool(n % dtype.itemsize == 0 if not isinstance(n, Sym)
                    else pymod(n, dtype.itemsize) == 0):
            raise ValueError("buffer size must be a multiple of element size")
        m = floordiv(n, dtype.itemsize) if isinstance(n, Sym) else \
            n // dtype.itemsize
    return file_array(b.src, b.off + offset, m, dtype)


def _axis(a, nd):
    if a < -nd or a >= nd:
        raise np.exceptions.AxisError(a, nd)
    return a + nd if a < 0 else a


def _moveaxis(a, s, d):
    ss = [s] if isinstance(s, int) else list(s)
    ds = [d] if isinstance(d, int) else list(d)
    ss = [_axis(x, a.ndim) for x in ss]
    ds = [_axis(x, a.ndim) for x in ds]
    order = [n for n in range(a.ndim) if n not in ss]
    for dd, sx in sorted(zip(ds, ss)):
        order.insert(dd, sx)
    return a._perm(order)


def _rollaxis(a, axis, start=0):
    n = a.ndim
    axis = _axis(axis, n)
    if start < 0:
        start += n
    if axis < start:
        start -= 1
    if axis == start:
        return a
    axes = list(range(n))
    axes.remove(axis)
    axes.insert(start, axis)
    return a._perm(axes)


def _as_array(a, *x, **k):
    """what an object that has one says is its array"""
    own = getattr(type(a), "__array__", None)
    return own(a) if own is not None and isinstance(a, SymObj) else a


M = H.MODELS
M[np.fromfile] = _fromfile
M[np.frombuffer] = _frombuffer
M[np.moveaxis] = _moveaxis
M[np.rollaxis] = _rollaxis
M[np.swapaxes] = lambda a, x, y: a.swapaxes(x, y)
M[np.transpose] = lambda a, axes=None: a.transpose(*(axes or ()))
M[np.ascontiguousarray] = _as_array
M[np.asarray] = _as_array
M[np.copy] = lambda a, **k: a


def _array(a, *x, **k):
    if x or set(k) - {"copy"} or not isinstance(a, SymObj):
        raise Unsupported("call of numpy.array with symbolic arguments")
    return _as_array(a)


M[np.array] = _array
M[np.reshape] = lambda a, s: a.reshape(s)
M[np.ravel] = lambda a: a.ravel()
M[np.squeeze] = lambda a, axis=None: a.squeeze(axis)
M[np.prod] = lambda it, *a, **k: prod(it)


def _dtype(x, *a, **k):
    if isinstance(x, SStr):
        return SymDtype(x)
    return np.dtype(x, *a, **k)


class SymDtype(SymObj):
    """np.dtype of a structured symbolic string such as '>f8' or 'S<n>'."""
    pytype = np.dtype

    def __init__(self, s):
        self.s = s
        parts = s.parts
        if parts is None:
            raise Unsupported("np.dtype of unstructured symbolic string")
        lit = parts[0] if isinstance(parts[0], str) else None
        rest = parts[1:]
        if lit is None:
            raise Unsupported("np.dtype of symbolic code")
        order = "="
        if lit[0] in "<>=|":
            order, lit = lit[0], lit[1:]
        self.order = order
        if len(rest) == 1 and isinstance(rest[0], SInt) and len(lit) == 1:
            self.kind = lit
            self.itemsize = rest[0]
        else:
            raise Unsupported("np.dtype of symbolic string parts")


M[np.dtype] = _dtype
try:
    import vax

    def _from_vax32(a):
        return a.map(lambda e: Elem(e.off, np.dtype("f4"),
                                    e.tags + (("vax32", e.dtype.str),),
                                    e.src), np.dtype("f4"))
    M[vax.from_vax32] = _from_vax32
except ImportError:  # pragma: no cover
    pass
