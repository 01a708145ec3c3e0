"""Symbolic proxies.  Python ints are mathematical integers (exact: Python
ints are unbounded); floats are treated as mathematical reals (assumption
FLOAT_AS_REAL, reported in the evidence)."""
import math
from fractions import Fraction

import z3

from .engine import Engine, Unsupported

try:
    import numpy as np
    NP_NUM = (np.integer, np.floating, np.bool_)
    NP_INT = (np.integer,)
    NP_FLT = (np.floating,)
except ImportError:
    NP_NUM = NP_INT = NP_FLT = ()


def E():
    return Engine.cur


class Sym:
    __array_ufunc__ = None
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickle of symbolic value")


def is_sym(x):
    return isinstance(x, Sym)


def rat(f):
    # floats stand for the reals they are written as
    if isinstance(f, float):
        f = repr(float(f))
    f = Fraction(f)
    return z3.Q(f.numerator, f.denominator)


def lift(x):
    """python scalar -> z3 expr or None"""
    if isinstance(x, Sym):
        if isinstance(x, SymBool):
            return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
        return x.e
    if isinstance(x, (bool,)):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        return rat(x)
    if isinstance(x, Fraction):
        return rat(x)
    if NP_NUM and isinstance(x, NP_NUM):
        if isinstance(x, NP_FLT):
            return lift(float(x))
        return z3.IntVal(int(x))
    return None


def num2(a, b):
    """coerce to a common sort"""
    if z3.is_int(a) and z3.is_int(b):
        return a, b, True
    if z3.is_int(a):
        a = z3.ToReal(a)
    if z3.is_int(b):
        b = z3.ToReal(b)
    return a, b, False


def mk(e):
    """z3 expr -> proxy (or concrete when it is a literal)"""
    e = z3.simplify(e)
    if z3.is_bool(e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)
    if z3.is_int(e):
        if z3.is_int_value(e):
            return e.as_long()
        return SymInt(e)
    if z3.is_real(e):
        return SymReal(e)
    if z3.is_string(e):
        if z3.is_string_value(e):
            return e.as_string()
        return SymStr(e)
    raise Unsupported("sort %s" % e.sort())


def boolx(x):
    """anything -> z3 Bool"""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymInt):
        return x.e != 0
    if isinstance(x, SymReal):
        return x.e != 0
    if isinstance(x, z3.ExprRef):
        return x
    return z3.BoolVal(bool(x))


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return E().decide(self.e)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mk(self.e == o.e)
        if isinstance(o, (bool,)):
            return mk(self.e if o else z3.Not(self.e))
        le = lift(o)
        if le is None:
            return NotImplemented
        return mk(lift(self) == le)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mk(z3.Not(boolx(r)))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return mk(z3.And(self.e, boolx(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mk(z3.Or(self.e, boolx(o)))
    __ror__ = __or__

    def __invert__(self):
        return mk(z3.Not(self.e))

    def __add__(self, o):
        return mk(lift(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return mk(lift(self)) * o
    __rmul__ = __mul__

    def __int__(self):
        return 1 if bool(self) else 0
    __index__ = __int__

    def __repr__(self):
        return "<SymBool>"


class SymNum(Sym):
    __slots__ = ()

    def _bin(self, o, f, swap=False):
        oe = lift(o)
        if oe is None:
            if isinstance(o, float) and math.isinf(o):
                return self._inf(o, f, swap)
            return NotImplemented
        a, b, _ = num2(self.e, oe)
        if swap:
            a, b = b, a
        return mk(f(a, b))

    def _inf(self, o, f, swap):
        raise Unsupported("arithmetic with infinity")

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)) and isinstance(self, SymInt):
            from .seqs import Rep
            return Rep(o, self)
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self.e >= 0, self.e, -self.e))

    def _nz(self, b):
        if E().decide(b == 0):
            raise ZeroDivisionError("division by zero")

    def _truediv(self, a, b):
        if z3.is_int(a):
            a = z3.ToReal(a)
        if z3.is_int(b):
            b = z3.ToReal(b)
        self._nz(b)
        return mk(a / b)

    def __truediv__(self, o):
        b = lift(o)
        if b is None:
            if isinstance(o, float) and math.isinf(o):
                return 0.0
            return NotImplemented
        return self._truediv(self.e, b)

    def __rtruediv__(self, o):
        a = lift(o)
        if a is None:
            return NotImplemented
        return self._truediv(a, self.e)

    def _floordiv(self, a, b):
        a, b, isint = num2(a, b)
        self._nz(b)
        if isint:
            # z3 div is Euclidean; python floors
            if z3.is_int_value(b) and b.as_long() > 0:
                return mk(a / b)
            return mk(z3.If(b > 0, a / b, (-a) / (-b)))
        return SymReal(z3.ToReal(z3.ToInt(a / b)))

    def _mod(self, a, b):
        a, b, isint = num2(a, b)
        self._nz(b)
        if isint:
            if z3.is_int_value(b) and b.as_long() > 0:
                return mk(a % b)
            return mk(z3.If(b > 0, a % b, -((-a) % (-b))))
        return mk(a - b * z3.ToReal(z3.ToInt(a / b)))

    def __floordiv__(self, o):
        b = lift(o)
        return NotImplemented if b is None else self._floordiv(self.e, b)

    def __rfloordiv__(self, o):
        b = lift(o)
        return NotImplemented if b is None else self._floordiv(b, self.e)

    def __mod__(self, o):
        b = lift(o)
        return NotImplemented if b is None else self._mod(self.e, b)

    def __rmod__(self, o):
        b = lift(o)
        return NotImplemented if b is None else self._mod(b, self.e)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 6:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        if isinstance(o, float) and o == 0.5:
            return sym_sqrt(self)
        raise Unsupported("pow")

    def __rpow__(self, o):
        raise Unsupported("pow")

    def _cmp(self, o, f):
        oe = lift(o)
        if oe is None:
            if isinstance(o, float) and math.isinf(o):
                return bool(f(0, 1 if o > 0 else -1))
            return NotImplemented
        a, b, _ = num2(self.e, oe)
        return mk(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        # hashing needs a determined value
        return hash(concretize(self))

    def __bool__(self):
        return E().decide(self.e != 0)

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def __repr__(self):
        return "<%s>" % self.__class__.__name__

    def __float__(self):
        raise Unsupported("float() of symbolic value in unmodelled code")

    def item(self):
        return self


def sym_sqrt(x):
    e = lift(x)
    if z3.is_int(e):
        e = z3.ToReal(e)
    eng = E()
    if eng.decide(e < 0):
        raise ValueError("math domain error")
    r = z3.Real(eng.fresh("sqrt"))
    eng.add(z3.And(r >= 0, r * r == e))
    return SymReal(r)


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def __lshift__(self, o):
        k = concretize(o)
        return self * (1 << k)

    def __rlshift__(self, o):
        return o << concretize(self)

    def __rshift__(self, o):
        return self // (1 << concretize(o))

    def __rrshift__(self, o):
        return o >> concretize(self)

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        raise Unsupported("bit and")
    __rand__ = __and__

    def __invert__(self):
        return -self - 1

    def bit_length(self):
        raise Unsupported("bit_length")

    @property
    def real(self):
        return self


class SymReal(SymNum):
    __slots__ = ()

    def is_integer(self):
        return mk(z3.ToReal(z3.ToInt(self.e)) == self.e)

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __int__(self):
        return concretize(trunc(self))

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return mk(z3.ToInt(self.e))

    def __ceil__(self):
        return mk(-z3.ToInt(-self.e))

    def __round__(self, n=None):
        return sym_round(self, n)


def trunc(x):
    if isinstance(x, SymInt):
        return x
    return mk(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))


def sym_round(x, n=None):
    if isinstance(x, SymInt):
        return x
    if n not in (None, 0):
        raise Unsupported("round to digits")
    # round half to even
    f = z3.ToInt(x.e)
    d = x.e - z3.ToReal(f)
    half = z3.Q(1, 2)
    r = z3.If(d < half, f, z3.If(d > half, f + 1,
                                 z3.If(f % 2 == 0, f, f + 1)))
    r = mk(r)
    if n == 0:
        return mk(z3.ToReal(lift(r)))
    return r


CONC_LIMIT = 24


def concretize(x, limit=CONC_LIMIT):
    """Fork over the (few) values x may take on this path."""
    if not isinstance(x, Sym):
        return x
    eng = E()
    if isinstance(x, SymBool):
        return bool(x)
    for _ in range(limit):
        # enumerate in a deterministic order: smallest first
        v = _smallest(eng, x)
        if v is None:
            raise Unsupported("cannot concretize")
        if eng.decide(lift(x) == v):
            return v
    raise Unsupported("too many concrete values")


def _smallest(eng, x):
    key = ("conc", eng.pos)
    if eng.pos < len(eng.prefix):
        # replaying: value was stored with the decision
        cache = eng.conc_cache if hasattr(eng, "conc_cache") else {}
        k = tuple(d[0] for d in eng.prefix[:eng.pos])
        if k in cache:
            return cache[k]
    if eng._check(timeout=5000) != z3.sat:
        return None
    m = eng.solver.model()
    v = m.eval(lift(x), model_completion=True)
    if not z3.is_int_value(v):
        raise Unsupported("cannot concretize a real")
    v = v.as_long()
    # walk down to the smallest value (bounded)
    for _ in range(64):
        r = eng._check(lift(x) < v, timeout=5000)
        if r == z3.unsat:
            break
        if r != z3.sat:
            break
        v2 = eng.solver.model().eval(lift(x), model_completion=True).as_long()
        # bisect toward far smaller values
        v = v2
    if not hasattr(eng, "conc_cache"):
        eng.conc_cache = {}
    eng.conc_cache[tuple(d[0] for d in eng.decisions)] = v
    return v


class SymStr(Sym):
    __slots__ = ()

    @staticmethod
    def _l(o):
        if isinstance(o, SymStr):
            return o.e
        if isinstance(o, str):
            return z3.StringVal(o)
        return None

    def __eq__(self, o):
        e = self._l(o)
        return False if e is None else mk(self.e == e)

    def __ne__(self, o):
        e = self._l(o)
        return True if e is None else mk(self.e != e)

    def __hash__(self):
        return 0

    def __add__(self, o):
        e = self._l(o)
        return NotImplemented if e is None else mk(z3.Concat(self.e, e))

    def __radd__(self, o):
        e = self._l(o)
        return NotImplemented if e is None else mk(z3.Concat(e, self.e))

    def __contains__(self, o):
        return bool(mk(z3.Contains(self.e, self._l(o))))

    def startswith(self, p):
        if isinstance(p, tuple):
            return mk(z3.Or([z3.PrefixOf(self._l(x), self.e) for x in p]))
        return mk(z3.PrefixOf(self._l(p), self.e))

    def endswith(self, p):
        return mk(z3.SuffixOf(self._l(p), self.e))

    def __getitem__(self, i):
        n = z3.Length(self.e)
        if isinstance(i, int):
            at = i if i >= 0 else n + i
            ok = n > i if i >= 0 else n >= -i
            if not E().decide(ok):
                raise IndexError("string index out of range")
            return mk(z3.SubString(self.e, at, 1))
        if isinstance(i, slice) and i.step is None:
            a, b = i.start or 0, i.stop
            if isinstance(a, int) and a >= 0 and (
                    b is None or isinstance(b, int)):
                # SubString is empty from beyond the end
                e = n if b is None else (
                    n + b if b < 0 else z3.IntVal(b))
                m = z3.If(e > n, n, e) - a
                return mk(z3.SubString(self.e, a, z3.If(m < 0, 0, m)))
            if b is None and isinstance(a, SymInt):
                k = z3.If(a.e >= 0, a.e, z3.If(n + a.e < 0, 0, n + a.e))
                return mk(z3.SubString(self.e, k, n - k))
        raise Unsupported("index of a string")

    def find(self, p):
        return mk(z3.IndexOf(self.e, self._l(p), 0))

    def partition(self, p):
        p = self._l(p)
        if not E().decide(z3.Contains(self.e, p)):
            return self, "", ""
        i, n, m = (z3.IndexOf(self.e, p, 0), z3.Length(self.e), z3.Length(p))
        return (mk(z3.SubString(self.e, 0, i)), mk(p),
                mk(z3.SubString(self.e, i + m, n - i - m)))

    def split(self, p=None, maxsplit=-1):
        if p is None or maxsplit != 1:
            raise Unsupported("split of a string")
        a, x, b = self.partition(p)
        return [a, b] if not isinstance(x, str) or x else [a]

    def removeprefix(self, p):
        p = self._l(p)
        n, m = z3.Length(self.e), z3.Length(p)
        return mk(z3.If(z3.PrefixOf(p, self.e),
                        z3.SubString(self.e, m, n - m), self.e))

    def __getattr__(self, k):
        if hasattr(str, k) and not k.startswith("__"):
            raise Unsupported("str." + k)
        raise AttributeError(k)

    def __iter__(self):
        raise Unsupported("characters of a string")

    def __bool__(self):
        return E().decide(z3.Length(self.e) > 0)

    def sym_len(self):
        return mk(z3.Length(self.e))

    def __str__(self):
        return "<symstr>"

    def __format__(self, s):
        return "<symstr>"

    def __repr__(self):
        return "<SymStr>"


# ---- logical connectives usable on concrete and symbolic operands ----
def And(*xs):
    if any(is_sym(x) for x in xs):
        return mk(z3.And([boolx(x) for x in xs]))
    return all(bool(x) for x in xs)


def Or(*xs):
    if any(is_sym(x) for x in xs):
        return mk(z3.Or([boolx(x) for x in xs]))
    return any(bool(x) for x in xs)


def Not(x):
    if is_sym(x):
        return mk(z3.Not(boolx(x)))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if not is_sym(c):
        return a if c else b
    if a is b:
        return a
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
            return mk(z3.If(boolx(c), SymStr._l(a), SymStr._l(b)))
        return a if bool(c) else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mk(z3.If(boolx(c), boolx(a), boolx(b)))
    la, lb, _ = num2(la, lb)
    return mk(z3.If(boolx(c), la, lb))
