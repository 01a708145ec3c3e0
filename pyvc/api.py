"""Contract/harness API, usable in two modes:

 * symbolic (class SymVC): inputs are arbitrary, check() is a verification
   condition discharged by z3/cvc5;
 * concrete (class ConcVC): the same contract executed on the unmodified
   /repo modules, with inputs from a solver model (replay) or a seeded
   generator (search for a failing input)."""
import math
import random
import signal
import traceback
from fractions import Fraction

HARNESSES = {}


class Discard(BaseException):
    pass


class Harness:
    def __init__(self, fn, name, functions, rand, loops, covers, max_paths,
                 unroll, bounded, timeout_ms, budget, note, concrete_only):
        self.fn, self.name, self.functions = fn, name, functions
        self.rand, self.loops, self.covers = rand, loops or {}, covers or []
        self.max_paths, self.unroll, self.bounded = max_paths, unroll, bounded
        self.timeout_ms, self.budget, self.note = timeout_ms, budget, note
        self.concrete_only = concrete_only


def harness(prop, functions=(), rand=300, loops=None, covers=None,
            max_paths=3000, unroll=6, bounded=None, timeout_ms=15000,
            budget=150, note="", concrete_only=False):
    """bounded: text of the bound when the harness fixes sizes (then its
    obligations are labelled bounded, not proved)"""
    def deco(fn):
        h = Harness(fn, fn.__name__, list(functions), rand, loops, covers,
                    max_paths, unroll, bounded, timeout_ms, budget, note,
                    concrete_only)
        HARNESSES.setdefault(prop, {})[fn.__name__] = h
        return fn
    return deco


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)

    def __repr__(self):
        return "Outcome(%r, %r)" % (self.value, self.exc)


class Base:
    def __init__(self):
        self._undo = []

    def patch(self, obj, attr, new):
        """Replace a callee by a stub for the rest of this run"""
        if isinstance(obj, dict):
            had = attr in obj
            old = obj.get(attr)
            self._undo.append(lambda: obj.__setitem__(attr, old) if had
                              else obj.pop(attr, None))
            obj[attr] = new
            return
        d = obj.__dict__ if hasattr(obj, "__dict__") else {}
        had = attr in d
        old = d.get(attr)

        def undo():
            if had:
                setattr(obj, attr, old)
            else:
                try:
                    delattr(obj, attr)
                except AttributeError:
                    pass
        self._undo.append(undo)
        setattr(obj, attr, new)

    def stub(self, obj, attr, contract):
        """Callers are checked against the contract of obj.attr. Nothing is
        stubbed when the current tree has no such callee (then whatever
        replaced it is executed in line)."""
        if attr in getattr(obj, "__dict__", {}):
            self.patch(obj, attr, contract)

    def at_exit(self, f):
        self._undo.append(f)

    def cleanup(self):
        for u in reversed(self._undo):
            u()
        self._undo = []

    def call(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except Exception as e:
            self.guard_exc(e)
            return Outcome(None, e)

    def check_all(self, items):
        for n, c in items:
            self.check(n, c)


class SymVC(Base):
    sym = True

    def __init__(self, eng):
        super().__init__()
        from . import values, seqs
        import z3
        self.z3, self.eng, self.v, self.s = z3, eng, values, seqs
        self.And, self.Or, self.Not = values.And, values.Or, values.Not
        self.Implies, self.If = values.Implies, values.If

    def guard_exc(self, e):
        """Errors caused by a proxy meeting code that cannot take it are tool
        limits, not behaviour of the code"""
        from .engine import Unsupported
        s = str(e)
        if isinstance(e, (UnboundLocalError, NameError)) and "__pyvc" in s:
            raise Unsupported(s)
        if isinstance(e, (TypeError, AttributeError, ValueError)) and (
                "Sym" in s or "Poison" in s or "Mapped" in s or "SubSeq" in s
                or "setting an array element" in s):
            raise Unsupported("proxy: " + s[:200])

    def _reg(self, name, kind, ex):
        n = self.eng.fresh(name)
        self.eng.inputs[n] = (kind, ex)
        self.eng.order.append(n)
        return n

    def int(self, name, lo=None, hi=None, pool=None):
        n = self.eng.fresh(name)
        e = self.z3.Int(n)
        self.eng.inputs[n] = ("int", e)
        self.eng.order.append(n)
        if lo is not None:
            self.eng.add(e >= self.v.lift(lo))
        if hi is not None:
            self.eng.add(e <= self.v.lift(hi))
        return self.v.SymInt(e)

    def real(self, name, lo=None, hi=None, pool=None):
        n = self.eng.fresh(name)
        e = self.z3.Real(n)
        self.eng.inputs[n] = ("real", e)
        self.eng.order.append(n)
        if lo is not None:
            self.eng.add(e >= self.v.lift(lo))
        if hi is not None:
            self.eng.add(e <= self.v.lift(hi))
        return self.v.SymReal(e)

    def bv(self, name, lo, hi):
        """machine integer lo..hi (within 64 bits) as a bit vector"""
        from .npsym import BV
        n = self.eng.fresh(name)
        e = self.z3.BitVec(n, 64)
        self.eng.inputs[n] = ("bv", e)
        self.eng.order.append(n)
        self.eng.add(self.z3.And(e >= lo, e <= hi))
        return BV(e)

    def bool(self, name):
        n = self.eng.fresh(name)
        e = self.z3.Bool(n)
        self.eng.inputs[n] = ("bool", e)
        self.eng.order.append(n)
        return self.v.SymBool(e)

    def str(self, name, pool=None):
        n = self.eng.fresh(name)
        e = self.z3.String(n)
        self.eng.inputs[n] = ("str", e)
        self.eng.order.append(n)
        return self.v.SymStr(e)

    def choice(self, name, options):
        """Nondeterministic choice among python objects (forks)"""
        options = list(options)
        n = self.eng.fresh(name)
        e = self.z3.Int(n)
        self.eng.inputs[n] = ("choice", e)
        self.eng.order.append(n)
        self.eng.add(self.z3.And(e >= 0, e < len(options)))
        for i in range(len(options)):
            if i == len(options) - 1 or self.eng.decide(e == i):
                return options[i]

    def flag(self, name):
        """Nondeterministic python bool (forks)"""
        return bool(self.bool(name))

    def list(self, name, kind, minlen=0, maxlen=30, lo=None, hi=None,
             weights=None):
        sl = self.s.SymList(name, kind, minlen=minlen, weights=weights)
        n = self.v.lift(sl.n)
        eng = self.eng
        if isinstance(kind, tuple):
            raise NotImplementedError
        arr = sl.arrs[0]
        nm = eng.fresh(name + ".in")
        eng.inputs[nm] = ("seq", (n, lambda i: self.z3.Select(arr, i), kind))
        eng.order.append(nm)
        if lo is not None or hi is not None:
            i = self.z3.Int(eng.fresh("qi"))
            cs = []
            if lo is not None:
                cs.append(self.z3.Select(arr, i) >= self.v.lift(lo))
            if hi is not None:
                cs.append(self.z3.Select(arr, i) <= self.v.lift(hi))
            eng.add(self.z3.ForAll([i], self.z3.Implies(
                self.z3.And(i >= 0, i < n), self.z3.And(cs))))
        return sl

    def reclist(self, name, fields, ctor=None, weights=None, minlen=0,
                maxlen=30, maxn=None):
        """Arbitrary-length list of records. fields: [(name, kind, lo, hi)]"""
        eng, z3, lift = self.eng, self.z3, self.v.lift
        sl = self.s.SymList(name, tuple(f[1] for f in fields), ctor=ctor,
                            minlen=minlen, weights=weights)
        n = lift(sl.n)
        if maxn is not None:
            eng.add(n <= maxn)
        base = sl.f
        done = set()

        def f(i):
            es = base(i)
            k = i.get_id()
            if k not in done:
                done.add(k)
                cs = []
                for (fn, kd, lo, hi), e in zip(fields, es):
                    if lo is not None:
                        cs.append(e >= lift(lo))
                    if hi is not None:
                        cs.append(e <= lift(hi))
                if cs:
                    sl._keep.append(i)
                    eng.add(z3.Implies(z3.And(i >= 0, i < n), z3.And(cs)))
            return es
        sl._keep = []
        sl.f = f
        for w in sl.weights:
            sl.ps[w] = sl._base_ps(sl.name + "w", w)
        for j, fl in enumerate(fields):
            nm = eng.fresh("%s.%s" % (name, fl[0]))
            eng.inputs[nm] = ("seq", (n, lambda i, j=j: base(i)[j], fl[1]))
            eng.order.append(nm)
        return sl

    def assume(self, c):
        self.eng.assume(self.v.boolx(c))

    def check(self, name, c, kind="property"):
        self.eng.check(name, self.v.boolx(c), kind)

    def cover(self, name):
        self.eng.cover(name)

    def close(self, a, b, tol=None):
        return self.v.And(a == b) if not self.v.is_sym(a == b) else (a == b)

    def le(self, a, b):
        return a <= b

    def forall(self, n, f):
        """forall 0 <= i < n . f(i), for use in positive (checked) position"""
        if not self.v.is_sym(n):
            r = True
            for i in range(n):
                r = self.v.And(r, f(i))
            return r
        i = self.int("any_i")
        rng = self.v.boolx(self.v.And(i >= 0, i < n))
        if str(self.eng._check(rng, timeout=5000)) == "unsat":
            return True
        return self.v.Implies(self.v.And(i >= 0, i < n), f(i))

    def assume_forall(self, n, f):
        if not self.v.is_sym(n):
            for i in range(n):
                self.assume(f(i))
            return
        i = self.z3.Int(self.eng.fresh("qi"))
        body = self.v.boolx(f(self.v.SymInt(i)))
        self.eng.add(self.z3.ForAll([i], self.z3.Implies(
            self.z3.And(i >= 0, i < self.v.lift(n)), body)))

    def len(self, x):
        from . import rt
        return rt._len(x)

    def at(self, xs, i):
        """xs[i] as a total function, for specifications (underspecified out
        of range); negative literals count from the end"""
        if not isinstance(xs, self.s.Seq):
            xs = list(xs)
            if not self.v.is_sym(i):
                if not xs:
                    raise Discard()
                return xs[max(-len(xs), min(i, len(xs) - 1))]
            xs = self.s.as_seq(xs)
        if not self.v.is_sym(i) and i < 0:
            i = xs.sym_len() + i
        return xs.get(i)

    def fork(self, c):
        return bool(c)

    def note(self, s):
        self.eng.notes.append(str(s))


BOUNDARY = [0, 1, -1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 31, 32, 33, 63, 64, 100,
            127, 128, 255, 256, 1000, 1023, 1024, 4095, 4096, 4097, 8191,
            8192, 12288, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1,
            2 ** 32, 2 ** 53]


class ConcVC(Base):
    sym = False

    def __init__(self, inputs=None, rng=None):
        super().__init__()
        self.given = inputs or {}
        self.rng = rng
        self.used = {}
        self.counter = {}
        self.failures = []
        self.checks = 0
        self.notes = []
        self.hung = False

    def guard_exc(self, e):
        pass

    @staticmethod
    def And(*xs):
        return all(bool(x) for x in xs)

    @staticmethod
    def Or(*xs):
        return any(bool(x) for x in xs)

    @staticmethod
    def Not(x):
        return not x

    @staticmethod
    def Implies(a, b):
        return (not a) or bool(b)

    @staticmethod
    def If(c, a, b):
        return a if c else b

    def _name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)

    def _dec(self, v):
        if isinstance(v, dict) and "frac" in v:
            a, b = v["frac"]
            return float(Fraction(int(a), int(b)))
        if isinstance(v, list):
            return [self._dec(x) for x in v]
        return v

    def _get(self, name, gen):
        n = self._name(name)
        if n in self.given and self.given[n] is not None:
            v = self._dec(self.given[n])
        else:
            v = gen()
        self.used[n] = v
        return v

    def _rint(self, lo, hi, pool=None):
        r = self.rng
        if pool is not None and r.random() < 0.7:
            return r.choice(pool)
        lo_ = -2 ** 33 if lo is None else lo
        hi_ = 2 ** 33 if hi is None else hi
        if hi_ < lo_:
            raise Discard()
        k = r.random()
        if k < 0.25:
            v = r.choice(BOUNDARY) * r.choice([1, 1, 1, -1])
        elif k < 0.45:
            v = r.choice([lo_, lo_ + 1, hi_, hi_ - 1, lo_ + r.randint(0, 5)])
        elif k < 0.8:
            base = lo_ if (lo is not None) else 0
            v = base + r.randint(0, 12)
        elif k < 0.9:
            v = r.randint(lo_, hi_)
        else:
            v = int(2 ** r.uniform(0, 33))
        return min(max(v, lo_), hi_)

    def int(self, name, lo=None, hi=None, pool=None):
        v = self._get(name, lambda: self._rint(lo, hi, pool))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard()
        return v

    def _rreal(self, lo, hi, pool=None):
        r = self.rng
        if pool is not None and r.random() < 0.7:
            return float(r.choice(pool))
        k = r.random()
        lo_ = -1e4 if lo is None else lo
        hi_ = 1e4 if hi is None else hi
        if k < 0.12 and lo is not None:
            v = lo
        elif k < 0.2 and hi is not None:
            v = hi
        elif k < 0.45:
            v = float(r.choice([0, 1, -1, 0.5, 2, 4, 10, 0.1, 0.001, 3, 100]))
        elif k < 0.75:
            v = r.uniform(lo_, min(hi_, lo_ + 20) if lo is not None else 20)
        else:
            v = r.uniform(lo_, hi_)
        return float(min(max(v, lo_), hi_))

    def real(self, name, lo=None, hi=None, pool=None):
        v = self._get(name, lambda: self._rreal(lo, hi, pool))
        if isinstance(v, int):
            v = float(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            # rationals that round just outside
            if lo is not None and v < lo and math.isclose(v, lo):
                return float(lo)
            if hi is not None and v > hi and math.isclose(v, hi):
                return float(hi)
            raise Discard()
        return v

    def bv(self, name, lo, hi):
        return self.int(name, lo, hi)

    def bool(self, name):
        return self._get(name, lambda: self.rng.random() < 0.5)

    flag = bool

    def str(self, name, pool=None):
        return self._get(name, lambda: self.rng.choice(
            pool or ["", "a", "b", "ab", "x.y", "foo", "_", " "]))

    def choice(self, name, options):
        options = list(options)
        i = self._get(name, lambda: self.rng.randrange(len(options)))
        if not 0 <= i < len(options):
            raise Discard()
        return options[i]

    def list(self, name, kind, minlen=0, maxlen=30, lo=None, hi=None,
             weights=None):
        def gen():
            n = self.rng.randint(minlen, maxlen)
            if kind == "int":
                return [self._rint(lo, hi) for _ in range(n)]
            if kind == "real":
                return [self._rreal(lo, hi) for _ in range(n)]
            return [self.rng.random() < 0.5 for _ in range(n)]
        v = self._get(name + ".in", gen)
        return list(v)

    def reclist(self, name, fields, ctor=None, weights=None, minlen=0,
                maxlen=30, maxn=None):
        n = []
        cols = []
        for fn, kd, lo, hi in fields:
            def gen():
                m = n[0] if n else self.rng.randint(minlen, maxlen)
                if kd == "int":
                    return [self._rint(lo, hi) for _ in range(m)]
                if kd == "real":
                    return [self._rreal(lo, hi) for _ in range(m)]
                return [self.rng.random() < 0.5 for _ in range(m)]
            c = self._get("%s.%s" % (name, fn), gen)
            n.append(len(c))
            cols.append(list(c))
        if len(set(n)) > 1:
            raise Discard()
        ctor = ctor or (lambda *a: tuple(a))
        return [ctor(*r) for r in zip(*cols)]

    def assume(self, c):
        if not c:
            raise Discard()

    def check(self, name, c, kind="property"):
        self.checks += 1
        if not c:
            self.failures.append(name)

    def cover(self, name):
        pass

    def close(self, a, b, tol=1e-9):
        if tol is None:
            tol = 1e-9
        return bool(abs(a - b) <= tol * max(1.0, abs(a), abs(b)))

    def le(self, a, b):
        return bool(a <= b or self.close(a, b))

    def forall(self, n, f):
        return all(bool(f(i)) for i in range(n))

    def assume_forall(self, n, f):
        for i in range(n):
            self.assume(f(i))

    def len(self, x):
        return len(x)

    def at(self, xs, i):
        if not len(xs):
            raise Discard()
        return xs[max(-len(xs), min(i, len(xs) - 1))]

    def fork(self, c):
        return bool(c)

    def note(self, s):
        self.notes.append(str(s))


VERIF = __file__.rsplit("/pyvc/", 1)[0]


def harness_fault(e):
    """True when the exception comes from the harness itself (it names
    something the current tree no longer has), not from the code under
    contract"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    if last is not None and last.startswith(VERIF):
        return True
    return "'Fake" in str(e)


CASE_CPU_S = 25
CASE_WALL_S = 80


class Hang(BaseException):
    """One concrete case did not end (cases take well under a second)"""


def _hang(signum, frame):
    # again later, in case this one is swallowed
    signal.setitimer(signal.ITIMER_PROF, 5)
    raise Hang("does not end")


def run_concrete(h, inputs=None, rng=None):
    """-> (status, failures, used inputs); status ok | discard | fail"""
    vc = ConcVC(inputs, rng)
    signal.signal(signal.SIGPROF, _hang)
    signal.signal(signal.SIGALRM, _hang)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_S)
    try:
        return _run_concrete(h, vc)
    except Hang:
        # while cleaning up
        vc.failures.append("the code under contract ends")
        return "fail", vc.failures, vc
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _run_concrete(h, vc):
    try:
        h.fn(vc)
    except Hang:
        vc.notes.append(traceback.format_exc()[-1500:])
        vc.failures.append("the code under contract ends")
        vc.hung = True
    except Discard:
        return "discard", vc.failures and [] or [], vc
    except Exception as e:
        tb = traceback.format_exc()
        vc.notes.append(tb[-1500:])
        if harness_fault(e):
            vc.bind = "%s: %s" % (type(e).__name__, str(e)[:200])
            if not vc.failures:
                return "bind", [], vc
            return "fail", vc.failures, vc
        vc.failures.append("unexpected exception %s: %s" % (
            type(e).__name__, str(e)[:200]))
    finally:
        vc.cleanup()
    return ("fail" if vc.failures else "ok"), vc.failures, vc
