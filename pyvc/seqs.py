"""Unbounded symbolic sequences and lists."""
import z3

from .engine import Engine, PathEnd, Truncated, Unsupported
from .values import (If, Sym, SymBool, SymInt, SymReal, boolx, is_sym, lift, mk,
                     num2)

UNROLL = 6


def E():
    return Engine.cur


def sym_max0(n):
    if is_sym(n):
        return mk(z3.If(lift(n) > 0, lift(n), z3.IntVal(0)))
    return max(0, n)


class Seq:
    """Read only sequence: symbolic length, get(i) defined for 0 <= i < len"""

    def sym_len(self):
        raise NotImplementedError

    def get(self, i):
        raise NotImplementedError

    def _norm(self, i):
        n = self.sym_len()
        if not is_sym(i) and not is_sym(n):
            j = i + n if i < 0 else i
            if not 0 <= j < n:
                raise IndexError("list index out of range")
            return j
        if not is_sym(i):
            j = (n + i) if i < 0 else i
        elif bool(i < 0):
            j = n + i
        else:
            j = i
        if not bool(j >= 0) or not bool(j < n):
            raise IndexError("list index out of range")
        return j

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("strided slice of symbolic sequence")
            n = self.sym_len()

            def clamp(v, d):
                if v is None:
                    return d
                v = If(v < 0, v + n, v)
                return If(v < 0, 0, If(v > n, n, v))
            a = clamp(i.start, 0)
            b = clamp(i.stop, n)
            return SubSeq(self, a, sym_max0(b - a))
        if hasattr(i, "item") and not is_sym(i):
            i = i.item()
        return self.get(self._norm(i))

    def __len__(self):
        n = self.sym_len()
        if is_sym(n):
            from .values import concretize
            return concretize(n)
        return n

    def __bool__(self):
        n = self.sym_len()
        return bool(n > 0)

    def __iter__(self):
        return unroll(self)

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, (Seq, list, tuple)):
            return False
        raise Unsupported("== on symbolic sequences")

    __hash__ = None


def unroll(seq):
    i = 0
    while True:
        n = seq.sym_len()
        if not bool(i < n):
            return
        if i >= UNROLL and is_sym(n):
            raise Truncated("unroll bound")
        yield seq.get(i)
        i += 1


class SubSeq(Seq):
    def __init__(self, base, off, n):
        self.base, self.off, self.n = base, off, n

    def total(self):
        if hasattr(self.base, "prefix"):
            return (self.base.prefix(self.off + self.n)
                    - self.base.prefix(self.off))

    def sym_len(self):
        return self.n

    def get(self, i):
        return self.base.get(i + self.off)


class SymRange(Seq):
    def __init__(self, a, b, step=1):
        if step == 0:
            raise ValueError("range() arg 3 must not be zero")
        self.a, self.b, self.step = a, b, step
        if step == 1:
            self.n = sym_max0(b - a)
        elif step == -1:
            self.n = sym_max0(a - b)
        elif not is_sym(step) and step > 0:
            self.n = sym_max0((b - a + step - 1) // step)
        elif not is_sym(step) and step < 0:
            self.n = sym_max0((a - b - step - 1) // (-step))
        else:
            raise Unsupported("symbolic range step")

    def sym_len(self):
        return self.n

    def get(self, i):
        return self.a + i * self.step


class Mapped(Seq):
    def __init__(self, n, f):
        self.n, self.f = n, f

    def sym_len(self):
        return self.n

    def get(self, i):
        return self.f(i)

    def __add__(self, o):
        if isinstance(o, SymList) or not isinstance(o, (Seq, list)):
            return NotImplemented
        return Cat(self, as_seq(o))


class Cat(Mapped):
    """one read only sequence after another"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def sym_len(self):
        return self.a.sym_len() + self.b.sym_len()

    def get(self, i):
        n = self.a.sym_len()
        if bool(i < n):
            return self.a.get(i)
        return self.b.get(i - n)


def as_seq(x):
    if isinstance(x, Seq):
        return x
    x = list(x)
    if True:
        def f(i, x=x):
            if not is_sym(i):
                return x[i]
            for k in range(len(x)):
                if k == len(x) - 1 or bool(i == k):
                    return x[k]
        return Mapped(len(x), f)


SORTS = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}


def enc(kind, v):
    if kind == "bool":
        return boolx(v)
    e = lift(v)
    if e is None:
        raise Unsupported("cannot store %r in symbolic %s list" % (v, kind))
    if kind == "real" and z3.is_int(e):
        e = z3.ToReal(e)
    if kind == "int" and not z3.is_int(e):
        raise Unsupported("real in int list")
    return e


def dec(kind, e):
    return mk(e)


class SymList(Seq):
    """Mutable list over a functional representation: f maps an index (z3 Int)
    to a tuple of z3 terms.  kind: 'int' | 'real' | 'bool' | tuple of those
    (then ctor builds the python element, a tuple subclass).

    weights: {name: function(element) -> number}; psum(name, i) is the sum of
    the weights of elements [0, i).  For an arbitrary base list it is an
    uninterpreted prefix-sum function with its two defining equations
    instantiated where used; for derived lists (slice, store, concatenation)
    it is given by the algebra of finite sums."""

    def __init__(self, name, kind, n=None, minlen=0, ctor=None, weights=None):
        eng = E()
        self.kind = kind
        self.kinds = kind if isinstance(kind, tuple) else (kind,)
        self.ctor = ctor or tuple
        nm = eng.fresh(name)
        self.name = nm
        arrs = [z3.Array("%s.%d" % (nm, j), z3.IntSort(), SORTS[k])
                for j, k in enumerate(self.kinds)]
        self.arrs = arrs
        self.f = lambda i: tuple(z3.Select(a, i) for a in arrs)
        if n is None:
            n = z3.Int(nm + ".len")
            eng.add(n >= minlen)
            n = SymInt(n)
        self.n = n
        self.weights = weights or {}
        self.ps = {}
        for w in self.weights:
            self.ps[w] = self._base_ps(nm, w)

    def _base_ps(self, nm, w):
        eng = E()
        fn = z3.Function("PS.%s.%s" % (nm, w), z3.IntSort(), z3.IntSort())
        eng.add(fn(z3.IntVal(0)) == 0)
        f, me, wf = self.f, self, self.weights[w]

        def ps(i):
            # defining equation around i
            eng.add(z3.Implies(i >= 1, fn(i) == fn(i - 1) + lift(
                wf(me._mk(f(i - 1))))))
            return fn(i)
        return ps

    def _derive(self, f, n, ps):
        s = SymList.__new__(SymList)
        s.kind, s.kinds, s.ctor = self.kind, self.kinds, self.ctor
        s.weights = self.weights
        s.f, s.n, s.ps = f, n, ps
        s.name = self.name + "'"
        return s

    def _mk(self, es):
        vals = [dec(k, e) for k, e in zip(self.kinds, es)]
        if isinstance(self.kind, tuple):
            if self.ctor is tuple:
                return tuple(vals)
            return self.ctor(*vals)
        return vals[0]

    def _enc(self, v):
        vs = v if isinstance(self.kind, tuple) else (v,)
        if len(vs) != len(self.kinds):
            raise Unsupported("tuple shape")
        return tuple(enc(k, x) for k, x in zip(self.kinds, vs))

    @classmethod
    def empty_like(cls, o):
        return o._derive(o.f, 0, {w: (lambda i: z3.IntVal(0)) for w in o.ps})

    def copy(self):
        return self._derive(self.f, self.n, self.ps)

    __copy__ = copy

    def sym_len(self):
        return self.n

    def get(self, i):
        return self._mk(self.f(z3.simplify(lift(i))))

    def prefix(self, i):
        return self.psum("sum", i)

    def total(self):
        return self.psum("sum") if "sum" in self.ps else None

    def psum(self, w, i=None):
        i = self.n if i is None else i
        return mk(self.ps[w](z3.simplify(lift(i))))

    def _set(self, i, v):
        i = z3.simplify(lift(i))
        f0, es = self.f, self._enc(v)
        self.f = lambda j: tuple(z3.If(j == i, e, o)
                                 for e, o in zip(es, f0(j)))
        for w, ps0 in list(self.ps.items()):
            wf = self.weights[w]
            d = lift(wf(self._mk(es))) - lift(wf(self._mk(f0(i))))
            self.ps[w] = (lambda j, ps0=ps0, d=d:
                          ps0(j) + z3.If(j > i, d, 0))

    def append(self, v):
        n = z3.simplify(lift(self.n))
        f0, es = self.f, self._enc(v)
        self.f = lambda j: tuple(z3.If(j == n, e, o)
                                 for e, o in zip(es, f0(j)))
        for w, ps0 in list(self.ps.items()):
            d = lift(self.weights[w](self._mk(es)))
            self.ps[w] = (lambda j, ps0=ps0, d=d: z3.If(
                j > n, ps0(n) + d, ps0(j)))
        self.n = self.n + 1

    def extend(self, vs):
        if isinstance(vs, SymList) and vs.kinds == self.kinds:
            n = z3.simplify(lift(self.n))
            f0, f1 = self.f, vs.f
            self.f = lambda j: tuple(z3.If(j < n, x, y)
                                     for x, y in zip(f0(j), f1(j - n)))
            for w, ps0 in list(self.ps.items()):
                ps1 = vs.ps[w]
                self.ps[w] = (lambda j, ps0=ps0, ps1=ps1: z3.If(
                    j <= n, ps0(j), ps0(n) + ps1(j - n)))
            self.n = self.n + vs.n
            return
        if isinstance(vs, Rep):
            n = z3.simplify(lift(self.n))
            if len(vs.items) != 1:
                raise Unsupported("repeat of a longer list")
            es = self._enc(vs.items[0])
            f0 = self.f
            self.f = lambda j: tuple(z3.If(j < n, o, e)
                                     for e, o in zip(es, f0(j)))
            for w, ps0 in list(self.ps.items()):
                d = lift(self.weights[w](vs.items[0]))
                self.ps[w] = (lambda j, ps0=ps0, d=d: z3.If(
                    j <= n, ps0(j), ps0(n) + (j - n) * d))
            self.n = self.n + sym_max0(vs.k)
            return
        for v in vs:
            self.append(v)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = self.copy()
        r.extend(o)
        return r

    def __radd__(self, o):
        r = SymList.empty_like(self)
        r.extend(o)
        r.extend(self)
        return r

    def __getitem__(self, i):
        if isinstance(i, slice):
            sub = Seq.__getitem__(self, i)
            off = z3.simplify(lift(sub.off))
            f0 = self.f
            ps = {w: (lambda j, p=p: p(j + off) - p(off))
                  for w, p in self.ps.items()}
            return self._derive(lambda j: f0(j + off), sub.n, ps)
        return Seq.__getitem__(self, i)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported("slice store")
        self._set(self._norm(i), v)

    def pop(self, i=-1):
        if not is_sym(i) and i == -1:
            j = self._norm(-1)
            v = self.get(j)
            self.n = self.n - 1
            return v
        raise Unsupported("pop(i)")

    def clear(self):
        self.n = 0


class Rep(Seq):
    """[x] * k with symbolic k"""

    def __init__(self, items, k):
        self.items, self.k = list(items), k

    def sym_len(self):
        return sym_max0(self.k) * len(self.items)

    def get(self, i):
        if len(self.items) == 1:
            return self.items[0]
        r = self.items[-1]
        for k in range(len(self.items) - 2, -1, -1):
            r = If(i % len(self.items) == k, self.items[k], r)
        return r

    def prefix(self, i):
        """sum of the first i elements (0 <= i <= len)"""
        m = len(self.items)
        whole = sum(self.items)
        part, acc = 0, 0
        for k in range(m):
            part = If(i % m == k, acc, part)
            acc = acc + self.items[k]
        return (i // m) * whole + part

    def total(self):
        return sym_max0(self.k) * sum(self.items)
