"""Run-time support for transformed /repo modules: builtins on symbolic
values, loop cutting."""
import builtins
import math
import types

import z3

from .engine import (BindError, Engine, PathEnd, Truncated, Unsupported)
from .seqs import (Mapped, Seq, SubSeq, SymList, SymRange, as_seq, sym_max0,
                   unroll, UNROLL)
from .values import (If, Sym, SymBool, SymInt, SymNum, SymReal, SymStr, boolx,
                     concretize, is_sym, lift, mk, num2, sym_round, sym_sqrt,
                     trunc)

try:
    import numpy as np
except ImportError:
    np = None


def E():
    return Engine.cur


def deep_sym(x, d=0):
    if isinstance(x, (Sym, Seq)):
        return True
    if d < 3 and isinstance(x, (list, tuple)):
        return any(deep_sym(y, d + 1) for y in x)
    return False


def _len(x):
    if isinstance(x, (Seq, SymStr)):
        return x.sym_len()
    m = getattr(builtins.type(x), "__len__", None)
    if builtins.isinstance(m, types.FunctionType):
        return m(x)     # may be symbolic
    return builtins.len(x)


def _int(*a):
    if len(a) == 1 and isinstance(a[0], SymNum):
        return trunc(a[0])
    if len(a) == 1 and isinstance(a[0], SymBool):
        return mk(lift(a[0]))
    if len(a) == 1 and hasattr(a[0], "sym_int"):
        return a[0].sym_int()
    return builtins.int(*a)


def _float(*a):
    if len(a) == 1 and isinstance(a[0], (SymNum, SymBool)):
        e = lift(a[0])
        return SymReal(z3.ToReal(e) if z3.is_int(e) else e)
    return builtins.float(*a)


def _bool(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        if isinstance(a[0], SymBool):
            return a[0]
        if isinstance(a[0], SymNum):
            return mk(boolx(a[0]))
    return builtins.bool(*a)


def _str(*a):
    if len(a) == 1 and isinstance(a[0], SymStr):
        return a[0]
    return builtins.str(*a)


def _range(*a):
    if any(is_sym(x) for x in a):
        for x in a:
            if isinstance(x, SymReal):
                raise TypeError("'float' object cannot be interpreted as an integer")
        if len(a) == 1:
            return SymRange(0, a[0])
        return SymRange(*a)
    return builtins.range(*a)


_KIND = {}


def _isinstance(x, t):
    if isinstance(x, Sym):
        ts = []

        def flat(t):
            if isinstance(t, tuple):
                for y in t:
                    flat(y)
            else:
                ts.append(t)
        flat(t)
        import numbers
        for y in ts:
            if y is object:
                return True
            if isinstance(x, SymBool) and y in (bool, int, numbers.Number):
                return True
            if isinstance(x, SymInt) and y in (int, numbers.Number,
                                               numbers.Integral, numbers.Real):
                return True
            if isinstance(x, SymReal) and y in (float, numbers.Number,
                                                numbers.Real):
                return True
            if isinstance(x, SymStr) and y is str:
                return True
            if isinstance(y, type) and isinstance(x, y):
                return True
        return False
    if isinstance(x, Seq):
        ts = t if isinstance(t, tuple) else (t,)
        import collections.abc as cabc
        return any(y in (list, cabc.Sequence, cabc.Iterable, object)
                   or isinstance(x, y) for y in ts)
    return builtins.isinstance(x, t)


def _fold(better, xs):
    it = iter(xs)
    r = next(it)
    for x in it:
        if is_sym(x) or is_sym(r):
            r = If(better(x, r), x, r)
        else:
            r = x if better(x, r) else r
    return r


def _minmax(orig, better):
    def f(*a, **k):
        if k.get("key") is not None or "default" in k:
            xs = list(a[0]) if len(a) == 1 else list(a)
            if not xs and "default" in k:
                return k["default"]
            key = k.get("key") or (lambda v: v)
            ks = [key(v) for v in xs]
            if not any(deep_sym(v) for v in ks):
                return orig(*a, **k)
            r, rk = xs[0], ks[0]
            for v, kv in zip(xs[1:], ks[1:]):
                if better(kv, rk):
                    r, rk = v, kv
            return r
        if len(a) == 1:
            if isinstance(a[0], Seq):
                xs = list(unroll(a[0]))
            elif builtins.isinstance(a[0], (list, tuple, set, frozenset)):
                xs = a[0]
            else:
                xs = list(a[0])
        else:
            xs = a
        if any(is_sym(x) for x in xs):
            return _fold(better, xs)
        return orig(xs, **k)
    return f


def _sum(xs, start=0):
    if hasattr(xs, "total"):
        t = xs.total()
        if t is not None:
            return start + t
    if isinstance(xs, Seq):
        xs = unroll(xs)
    r = start
    for x in xs:
        r = r + x
    return r


def _sorted(xs, **k):
    xs = list(xs)
    key = k.get("key") or (lambda v: v)
    ks = [key(x) for x in xs]
    if not any(deep_sym(v) for v in ks):
        return builtins.sorted(xs, **k)
    # insertion sort, forking on comparisons (stable)
    out = []
    for x, kx in zip(xs, ks):
        pos = len(out)
        while pos > 0:
            a = out[pos - 1][1]
            less = (kx > a) if k.get("reverse") else (kx < a)
            if bool(less):
                pos -= 1
            else:
                break
        out.insert(pos, (x, kx))
    return [x for x, _ in out]


def _zip(*a, **k):
    if any(isinstance(x, Seq) for x in a):
        ss = [as_seq(x) for x in a]
        n = ss[0].sym_len()
        for s in ss[1:]:
            m = s.sym_len()
            n = If(m < n, m, n)
        return Mapped(n, lambda i: tuple(s.get(i) for s in ss))
    return builtins.zip(*a, **k)


def _enumerate(x, start=0):
    if isinstance(x, Seq):
        return Mapped(x.sym_len(), lambda i: (i + start, x.get(i)))
    return builtins.enumerate(x, start)


def _reversed(x):
    if isinstance(x, Seq):
        n = x.sym_len()
        return Mapped(n, lambda i: x.get(n - 1 - i))
    return builtins.reversed(x)


def _list(*a):
    if a and isinstance(a[0], SymList):
        return a[0].copy()
    if a and isinstance(a[0], Seq):
        return a[0]
    return builtins.list(*a)


def _tuple(*a):
    if a and isinstance(a[0], SymList):
        return a[0].copy()
    if a and isinstance(a[0], Seq):
        return a[0]
    return builtins.tuple(*a)


def _any(xs):
    for x in xs:
        if x:
            return True
    return False


def _all(xs):
    for x in xs:
        if not x:
            return False
    return True


def _round(x, n=None):
    if isinstance(x, SymNum):
        return sym_round(x, n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def _type(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        x = a[0]
        return {SymInt: int, SymReal: float, SymBool: bool,
                SymStr: str}[x.__class__]
    return builtins.type(*a)


TABLE = {
    builtins.len: _len, builtins.int: _int, builtins.float: _float,
    builtins.bool: _bool, builtins.str: _str, builtins.range: _range,
    builtins.isinstance: _isinstance,
    builtins.min: _minmax(builtins.min, lambda a, b: a < b),
    builtins.max: _minmax(builtins.max, lambda a, b: a > b),
    builtins.sum: _sum, builtins.sorted: _sorted, builtins.zip: _zip,
    builtins.enumerate: _enumerate, builtins.reversed: _reversed,
    builtins.list: _list, builtins.tuple: _tuple, builtins.any: _any, builtins.all: _all,
    builtins.round: _round, builtins.type: _type,
}
NAMES = {f.__name__ for f in TABLE}


def b(f, *a, **k):
    if Engine.cur is None:
        return f(*a, **k)
    try:
        g = TABLE.get(f)
    except TypeError:
        g = None
    return (g or f)(*a, **k)


# ---- functions of math / numpy on symbolic scalars ----
def np_isclose(a, c, rtol=1e-05, atol=1e-08):
    return mk(boolx(abs(a - c) <= atol + rtol * abs(c)))


def _np_array(x, *a, **k):
    if isinstance(x, Seq):
        return x
    if deep_sym(x):
        return np.array(x, dtype=object)
    return np.array(x, *a, **k)


MATH = {
    "sqrt": sym_sqrt,
    "fabs": abs,
    "floor": lambda x: mk(z3.ToInt(lift(x))) if isinstance(x, SymReal) else x,
    "ceil": lambda x: mk(-z3.ToInt(-lift(x))) if isinstance(x, SymReal) else x,
    "trunc": trunc,
    "isclose": np_isclose,
    "rint": lambda x: sym_round(x, 0),
    "round": lambda x, n=0: sym_round(x, 0),
    "abs": abs, "absolute": abs,
    "sign": lambda x: If(x > 0, 1, If(x < 0, -1, 0)),
    "isnan": lambda x: False, "isinf": lambda x: False,
    "isfinite": lambda x: True,
    "float64": _float, "int32": _int, "int64": _int, "uint32": _int,
    "maximum": lambda a, c: If(a > c, a, c),
    "minimum": lambda a, c: If(a < c, a, c),
    "array": _np_array, "asarray": _np_array,
}


def a(obj, name, *args, **kw):
    """call obj.name(*args): module functions on symbolic arguments"""
    if (Engine.cur is not None and builtins.isinstance(obj, types.ModuleType)
            and name in MATH and any(deep_sym(x) for x in args)):
        args = [x for x in args]
        if name in ("array", "asarray"):
            return _np_array(*args, **kw)
        if any(is_sym(x) for x in args):
            return MATH[name](*args, **kw)
    return getattr(obj, name)(*args, **kw)


def getitem(o, k):
    if Engine.cur is not None and is_sym(k):
        if builtins.isinstance(o, (builtins.list, builtins.tuple)):
            if isinstance(k, SymReal):
                raise TypeError("list indices must be integers")
            return as_seq(o)[k]
        if builtins.isinstance(o, dict):
            for kk in builtins.list(o):
                if kk == k:
                    return o[kk]
            if hasattr(o, "__missing__"):
                return o.__missing__(k)
            raise KeyError(k)
    return o[k]


def contains(x, o):
    """x in o"""
    if Engine.cur is not None and (is_sym(x) or isinstance(o, Seq)):
        if isinstance(o, SymRange) and o.step == 1:
            return mk(z3.And(boolx(x >= o.a), boolx(x < o.b)))
        if isinstance(o, Seq):
            for y in unroll(o):
                if bool(x == y):
                    return True
            return False
        if builtins.isinstance(o, range):
            if o.step == 1:
                return mk(z3.And(boolx(x >= o.start), boolx(x < o.stop)))
        if builtins.isinstance(o, str):
            raise Unsupported("symbolic in str")
        for y in builtins.list(o):
            if bool(x == y):
                return True
        return False
    return x in o


def fmt(s, v):
    """'...' % v"""
    if Engine.cur is not None and deep_sym(v):
        vs = v if isinstance(v, tuple) else (v,)
        bits = s.replace("%%", "\0").split("%s")
        if len(bits) == len(vs) + 1 and not any("%" in b for b in bits) and (
                any(isinstance(x, SymStr) for x in vs)):
            bits = [b.replace("\0", "%") for b in bits]
            return fstr(*[y for x in zip(bits, vs) for y in x] + bits[-1:])
        return "<formatted %s>" % (s[:60].replace("%", ""))
    return s % v


def fstr(*parts):
    """f"..." of parts without format specifications"""
    if any(isinstance(x, SymStr) for x in parts):
        out = ""
        for x in parts:
            x = x if isinstance(x, SymStr) else format(x)
            if isinstance(x, SymStr) or x:
                out = x if isinstance(out, str) and not out else out + x
        return out
    return "".join([format(x) for x in parts])


def join(sep, *args, **kwargs):
    """sep.join(xs)"""
    if Engine.cur is None or kwargs or len(args) != 1 or not isinstance(
            sep, (str, SymStr)):
        return sep.join(*args, **kwargs)
    xs = builtins.list(args[0])
    if isinstance(sep, SymStr) or any(isinstance(x, SymStr) for x in xs):
        return fstr(*[y for i, x in enumerate(xs)
                      for y in ((sep, x) if i else (x,))])
    return sep.join(xs)


def iadd(x, y):
    """x += y: a python list extended by an unbounded symbolic list becomes a
    symbolic list"""
    if (Engine.cur is not None and builtins.isinstance(x, builtins.list)
            and isinstance(y, SymList)):
        return y.__radd__(x)
    x += y
    return x


def short(eng, n, limit=4):
    """whether the path implies that n <= limit"""
    cache = eng.__dict__.setdefault("short_cache", {})
    k = (tuple(d[0] for d in eng.decisions), str(lift(n)))
    if k not in cache:
        cache[k] = eng._check(lift(n) > limit, timeout=2000) == z3.unsat
    return cache[k]


def lc(it, elt, plain):
    """[elt(x) for x in it]. Over an unbounded symbolic sequence the element
    is evaluated once at an arbitrary index (so its exceptions show) and the
    resulting term instantiated at each index used"""
    if Engine.cur is None or not isinstance(it, Seq):
        return plain(it)
    eng = E()
    n = it.sym_len()
    if not is_sym(n):
        return [elt(it.get(i)) for i in builtins.range(n)]
    if short(eng, n):
        return [elt(x) for x in unroll(it)]
    iv = z3.Int(eng.fresh("lc.i"))
    i = SymInt(iv)
    if not bool(n > 0):
        return []
    eng.add(z3.And(iv >= 0, iv < lift(n)))
    k, d0 = len(eng.pc), len(eng.decisions)
    v = elt(it.get(i))
    if any(o for _, o in eng.decisions[d0:]) or eng.pos < len(eng.prefix):
        raise Unsupported("branching list comprehension element")
    side = eng.pc[k:]
    te = lift(v)
    if te is None:
        if is_sym(v) or isinstance(v, Seq):
            raise Unsupported("list comprehension element")
        return Mapped(n, lambda j: v)

    def get(j):
        je = lift(j)
        for c in side:
            eng.add(z3.substitute(c, (iv, je)))
        return mk(z3.substitute(te, (iv, je)))
    return Mapped(n, get)


def it(x):
    return x


# ---- loops ----
LOOPS = {}   # (module, qualname, ordinal) -> contract instance


class St:
    def __init__(self, **k):
        self.__dict__.update(k)


def fresh_like(name, kind):
    eng = E()
    nm = eng.fresh("hv." + name)
    if kind == "int":
        return SymInt(z3.Int(nm))
    if kind == "nat":
        v = SymInt(z3.Int(nm))
        eng.add(v.e >= 0)
        return v
    if kind == "real":
        return SymReal(z3.Real(nm))
    if kind == "bool":
        return SymBool(z3.Bool(nm))
    if isinstance(kind, tuple) and kind[0] == "list":
        return SymList(nm, kind[1])
    if callable(kind):
        return kind()
    raise Unsupported("havoc kind %r" % (kind,))


def auto_kind(v):
    if isinstance(v, (SymBool, bool)):
        return "bool"
    if isinstance(v, (SymInt, int)):
        return "int"
    if isinstance(v, (SymReal, float)):
        return "real"
    if isinstance(v, SymList):
        return ("list", v.kind)
    return None


class Loop:
    """Run-time control of one dynamic loop execution"""

    def __init__(self, key, kind, seq=None):
        self.key, self.kind, self.seq = key, kind, seq
        eng = Engine.cur
        self.c = None
        if eng is not None and eng.use_loop_contracts:
            self.c = LOOPS.get(key)
            if self.c is not None and self.c.kind != kind:
                raise BindError("%s: expected a %s loop" % (key, self.c.kind))
            if self.c is not None and kind == "for" and not self.c.applies(seq):
                self.c = None
        self.cut = self.c is not None

    def _st(self, L, i):
        self.L = L
        return St(L=L, entry=self.entry_L, i=i, n=self.n, seq=self.seq,
                  g=self.g)

    def entry(self, L):
        eng = E()
        eng.cut_loops.add(self.key)
        L = dict(L)
        self.entry_L = L
        self.g = {}
        self.n = None
        if self.kind == "for":
            self.seq = as_seq(self.seq)
            self.n = self.seq.sym_len()
        try:
            self.c.begin(self._st(L, 0))
            for name, cond in self.c.inv(self._st(L, 0)):
                eng.check("%s: loop invariant on entry: %s" % (
                    self.label(), name), boolx(cond), "invariant")
        except (KeyError, AttributeError) as e:
            raise BindError("%s: %r" % (self.key, e))
        self.i = SymInt(z3.Int(eng.fresh("loop.i")))
        eng.add(self.i.e >= 0)
        eng.path_cut = True

    def label(self):
        return "%s loop %d" % (self.key[1], self.key[2])

    def has(self, name, L):
        return name in L

    def foreign(self, name):
        if self.c.havoc.get(name) != "keep":
            raise BindError("%s: changes %s of an enclosing scope" % (
                self.key, name))

    def hv(self, name, old):
        kind = self.c.havoc.get(name, "auto")
        if kind == "keep":
            return old
        if kind == "auto":
            kind = auto_kind(old)
            if kind is None:
                # not a value the loop contract constrains: poison it
                return Poison(name)
        return fresh_like(name, kind)

    def havoced(self, L):
        eng = E()
        L = dict(L)
        st = self._st(L, self.i)
        try:
            self.c.modifies(st)
            if self.n is not None:
                eng.assume(boolx(self.i <= self.n))
            for name, cond in self.c.inv(st):
                eng.assume(boolx(cond))
        except (KeyError, AttributeError) as e:
            raise BindError("%s: %r" % (self.key, e))

    def more(self):
        return bool(self.i < self.n)

    def one(self):
        return [self.seq.get(self.i)]

    def preserve(self, L):
        eng = E()
        st = self._st(dict(L), self.i + 1)
        try:
            for name, cond in self.c.inv(st):
                eng.check("%s: loop invariant preserved: %s" % (
                    self.label(), name), boolx(cond), "invariant")
            self.c.step(st)
        except (KeyError, AttributeError) as e:
            raise BindError("%s: %r" % (self.key, e))
        raise PathEnd("loop cut")

    # uncut
    def items(self):
        if isinstance(self.seq, Seq):
            return unroll(self.seq)
        return self.seq


class Poison:
    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def __getattr__(self, k):
        raise Unsupported("use of havocked variable %s" % self._n)

    def _no(self, *a, **k):
        raise Unsupported("use of havocked variable %s" % self._n)
    __bool__ = __add__ = __radd__ = __sub__ = __eq__ = __call__ = _no
    __iter__ = __len__ = __getitem__ = __lt__ = __gt__ = _no
    __hash__ = None


def loop(key, kind, seq=None):
    return Loop(key, kind, seq)


class LoopContract:
    kind = "for"
    havoc = {}

    def applies(self, seq):
        return True

    def begin(self, st):
        pass

    def modifies(self, st):
        pass

    def inv(self, st):
        return []

    def step(self, st):
        pass
