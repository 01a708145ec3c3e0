"""A contract for the part of numpy that the code under proof uses: fixed
length arrays of machine integers, element by element, as 64 bit vectors.
Result types come from numpy itself."""
import numpy as np
import z3

from .engine import Unsupported
from .values import E, Sym, mk

W = 64


def canon(e, dtype):
    """value of e cast to dtype, as 64 bits"""
    dt = np.dtype(dtype)
    if dt.kind == "b":
        return z3.If(e != 0, z3.BitVecVal(1, W), z3.BitVecVal(0, W))
    if dt.kind not in "iu":
        raise Unsupported("npsym dtype %s" % dt)
    bits = dt.itemsize * 8
    if bits == W:
        return e
    low = z3.Extract(bits - 1, 0, e)
    return (z3.SignExt if dt.kind == "i" else z3.ZeroExt)(W - bits, low)


def expr(x):
    if isinstance(x, BV):
        return x.e
    if isinstance(x, (int, np.integer, bool, np.bool_)):
        return z3.BitVecVal(int(x), W)
    raise Unsupported("npsym scalar %r" % type(x))


class BV(Sym):
    """one element"""
    __slots__ = ()

    def __index__(self):
        for k in range(16):
            if E().decide(self.e == k):
                return k
        raise Unsupported("npsym index")

    def __int__(self):
        return self

    def sym_int(self):
        return self

    def eq(self, other):
        return mk(self.e == expr(other))


class Arr:
    def __init__(self, data, dtype):
        self.dtype = np.dtype(dtype)
        self.data = list(data)

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return iter([BV(d) for d in self.data])

    def copy(self):
        return Arr(self.data, self.dtype)

    def astype(self, dtype, copy=True):
        return Arr([canon(d, dtype) for d in self.data], dtype)

    def _bin(self, o, f, rev=False, cmp=False):
        if isinstance(o, Arr):
            dt = np.result_type(self.dtype, o.dtype)
            od = [canon(d, dt) for d in o.data]
        else:
            dt = np.result_type(np.zeros(1, self.dtype), o)
            od = [expr(o)] * len(self.data)
        if dt.kind == "b" and not cmp and f in (SHL, SHR):
            dt = np.dtype("int8")
        if dt.kind not in "iub":
            raise Unsupported("npsym result %s" % dt)
        sd = [canon(d, dt) for d in self.data]
        signed = dt.kind == "i"
        pairs = zip(od, sd) if rev else zip(sd, od)
        if cmp:
            return Arr([z3.If(f(a, b, signed), z3.BitVecVal(1, W),
                              z3.BitVecVal(0, W)) for a, b in pairs], bool)
        return Arr([canon(f(a, b, signed), dt) for a, b in pairs], dt)

    def __and__(self, o):
        return self._bin(o, lambda a, b, s: a & b)
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b, s: a | b)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b, s: a ^ b)

    def __add__(self, o):
        return self._bin(o, lambda a, b, s: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b, s: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b, s: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b, s: a * b)
    __rmul__ = __mul__

    def __lshift__(self, o):
        return self._bin(o, SHL)

    def __rshift__(self, o):
        return self._bin(o, SHR)

    def __gt__(self, o):
        return self._bin(o, lambda a, b, s: a > b if s else z3.UGT(a, b),
                         cmp=True)

    def __ge__(self, o):
        return self._bin(o, lambda a, b, s: a >= b if s else z3.UGE(a, b),
                         cmp=True)

    def __lt__(self, o):
        return self._bin(o, lambda a, b, s: a < b if s else z3.ULT(a, b),
                         cmp=True)

    def __le__(self, o):
        return self._bin(o, lambda a, b, s: a <= b if s else z3.ULE(a, b),
                         cmp=True)

    def __eq__(self, o):
        return self._bin(o, lambda a, b, s: a == b, cmp=True)

    def __ne__(self, o):
        return self._bin(o, lambda a, b, s: a != b, cmp=True)
    __hash__ = None

    def _inplace(self, r):
        self.data = [canon(d, self.dtype) for d in r.data]
        return self

    def __iand__(self, o):
        return self._inplace(self & o)

    def __ior__(self, o):
        return self._inplace(self | o)

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __ilshift__(self, o):
        return self._inplace(self << o)

    def __irshift__(self, o):
        return self._inplace(self >> o)

    def __getitem__(self, i):
        if isinstance(i, Arr) and i.dtype.kind == "b":
            return Masked(self.data, self.dtype, i)
        if isinstance(i, slice):
            return Arr(self.data[i], self.dtype)
        if i is Ellipsis:
            return self
        return BV(self.data[i])

    def __setitem__(self, i, v):
        if isinstance(i, Arr) and i.dtype.kind == "b":
            if isinstance(v, Arr):
                src = [canon(d, self.dtype) for d in v.data]
                if not isinstance(v, Masked):
                    raise Unsupported("npsym masked store")
            else:
                src = [canon(expr(v), self.dtype)] * len(self.data)
            self.data = [z3.If(m != 0, s, d) for m, s, d in zip(
                i.data, src, self.data)]
        elif isinstance(i, slice) or i is Ellipsis:
            src = v.data if isinstance(v, Arr) else [expr(v)] * len(self.data)
            sl = slice(None) if i is Ellipsis else i
            self.data[sl] = [canon(d, self.dtype) for d in src]
        else:
            self.data[i] = canon(expr(v), self.dtype)

    def reshape(self, *shape):
        if len(shape) == 1:
            shape = shape[0]
        if isinstance(shape, int):
            shape = (shape,)
        if len(shape) == 1:
            return Arr(self.data, self.dtype)
        n, m = shape
        if n == -1:
            n = len(self.data) // m
        if m == -1:
            m = len(self.data) // n
        if n * m != len(self.data):
            raise ValueError("cannot reshape array of size %d into %r" % (
                len(self.data), shape))
        return Mat([[self.data[i * m + j] for j in range(m)]
                    for i in range(n)], m, self.dtype)

    def tolist(self):
        return list(self)

    shape = property(lambda s: (len(s.data),))


class Masked(Arr):
    """the selected elements, kept in place"""

    def __init__(self, data, dtype, mask):
        super().__init__(data, dtype)
        self.mask = mask


SHL = lambda a, b, s: a << b
SHR = lambda a, b, s: a >> b if s else z3.LShR(a, b)


class Mat:
    def __init__(self, rows, ncols, dtype):
        self.rows, self.ncols = rows, ncols
        self.dtype = np.dtype(dtype)

    def _col(self, i):
        if isinstance(i, tuple) and len(i) == 2 and (
                i[0] is Ellipsis or i[0] == slice(None)):
            if not -self.ncols <= i[1] < self.ncols:
                raise IndexError(
                    "index %d is out of bounds for axis 1 with size %d" % (
                        i[1], self.ncols))
            return i[1]
        raise Unsupported("npsym matrix index")

    def __getitem__(self, i):
        i = self._col(i)
        return Arr([r[i] for r in self.rows], self.dtype)

    def __setitem__(self, i, v):
        i = self._col(i)
        for r, d in zip(self.rows, v.data):
            r[i] = canon(d, self.dtype)

    def __len__(self):
        return len(self.rows)

    def reshape(self, *shape):
        return Arr([d for r in self.rows for d in r], self.dtype).reshape(
            *shape)

    def flatten(self):
        return self.reshape(len(self.rows) * self.ncols)
    ravel = flatten
    shape = property(lambda s: (len(s.rows), s.ncols))


class Np:
    """stands in for the numpy module"""

    def __getattr__(self, name):
        return getattr(np, name)

    def zeros(self, shape, dtype=float):
        if isinstance(shape, int):
            return Arr([z3.BitVecVal(0, W)] * shape, dtype)
        if len(shape) == 1:
            return Arr([z3.BitVecVal(0, W)] * shape[0], dtype)
        n, m = shape
        return Mat([[z3.BitVecVal(0, W)] * m for _ in range(n)], m, dtype)

    def array(self, x, dtype=None, **k):
        if isinstance(x, Arr):
            return x.astype(dtype or x.dtype)
        return Arr([canon(expr(v), dtype or "int64") for v in x],
                   dtype or "int64")
    asarray = array

    def where(self, c, a, b):
        def get(x, i):
            return x.data[i] if isinstance(x, Arr) else expr(x)
        dts = [x.dtype if isinstance(x, Arr) else None for x in (a, b)]
        if None not in dts:
            dt = np.result_type(*dts)
        else:
            arr, sc = (a, b) if dts[0] is not None else (b, a)
            dt = np.result_type(np.zeros(1, arr.dtype), sc)
        return Arr([canon(z3.If(m != 0, get(a, i), get(b, i)), dt)
                    for i, m in enumerate(c.data)], dt)

    def left_shift(self, a, b):
        return a << b

    def right_shift(self, a, b):
        return a >> b

    def bitwise_and(self, a, b):
        return a & b

    def bitwise_or(self, a, b):
        return a | b
