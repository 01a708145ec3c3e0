"""pyvc engine: path-wise verification-condition generation over the real
functions of /repo (loaded by pyvc.loader), discharged by z3 (cvc5 second).

The function under contract is executed by CPython over symbolic proxies
(pyvc.values).  Every branch on a symbolic condition forks; every check() is
the verification condition  path-condition => contract-clause  and is sent to
the solver.  Loops under contract are cut at their invariant (pyvc.loops)."""
import os
import sys
import time
from fractions import Fraction

import z3


class PathEnd(BaseException):
    """This path is finished (infeasible, assumption false, loop cut)."""


class Unsupported(BaseException):
    """A construct outside the verifier's reach."""


class Truncated(BaseException):
    """An uncut loop was unrolled up to the bound: rest of the path dropped."""


class BindError(BaseException):
    """A loop contract does not fit the current text of the function."""


class Engine:
    cur = None

    def __init__(self, timeout_ms=20000, max_decisions=400, max_paths=4000,
                 deadline=None):
        self.timeout_ms = timeout_ms
        self.max_decisions = max_decisions
        self.max_paths = max_paths
        self.deadline = deadline
        self.results = []      # obligation records
        self.covers = {}
        self.paths = 0
        self.truncated = 0
        self.unsupported = []
        self.solver_s = 0.0
        self.queries = 0
        self.prefix = []
        self.use_loop_contracts = True
        self.cut_loops = set()
        self.stub_calls = {}
        self.cvc5_discharged = 0
        self.incomplete = None
        self.path_kinds = {"normal": 0, "assume_false": 0}

    # ---- one path ----
    def _reset_path(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.pc = []
        self.pos = 0
        self.decisions = []
        self.inputs = {}
        self.order = []
        self.counter = {}
        self.path_cut = False
        self.notes = []

    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)

    def _check(self, *extra, timeout=None):
        t = time.time()
        self.queries += 1
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*extra)
        if timeout:
            self.solver.set("timeout", self.timeout_ms)
        self.solver_s += time.time() - t
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        return r

    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def decide(self, cond):
        """Fork on z3 Bool cond; return python bool"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            val, open_ = self.prefix[self.pos]
        else:
            if len(self.decisions) >= self.max_decisions:
                raise Truncated("decision bound")
            t = self._check(cond, timeout=5000)
            if t == z3.unsat:
                val, open_ = False, False
            else:
                f = self._check(z3.Not(cond), timeout=5000)
                if f == z3.unsat:
                    val, open_ = True, False
                else:
                    val, open_ = True, True
        self.decisions.append((val, open_))
        self.pos += 1
        self.add(cond if val else z3.Not(cond))
        return val

    def assume(self, cond):
        """cond: z3 Bool"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        self.add(cond)
        if z3.is_false(cond) or self._check(timeout=5000) == z3.unsat:
            self.path_kinds["assume_false"] += 1
            raise PathEnd("assume")

    def cover(self, name):
        if not self.covers.get(name):
            self.covers[name] = self._check() != z3.unsat

    def check(self, name, cond, kind="property"):
        t0 = time.time()
        neg = z3.Not(cond)
        sneg = z3.simplify(neg)
        rec = {"name": name, "kind": kind, "path": self.paths,
               "cut": self.path_cut}
        if z3.is_false(sneg):
            rec.update(status="discharged", backend="z3-simplify", s=0.0)
            self.results.append(rec)
            return
        r = self._check(neg)
        rec["s"] = round(time.time() - t0, 4)
        rec["backend"] = "z3"
        if r == z3.unsat:
            rec["status"] = "discharged"
        elif r == z3.sat:
            rec["status"] = "refuted"
            rec["model"] = self.model_inputs(self.solver.model())
            rec["notes"] = list(self.notes)[-12:]
        else:
            rec["status"] = "unknown"
            if self._cvc5(neg):
                rec["status"] = "discharged"
                rec["backend"] = "cvc5"
                self.cvc5_discharged += 1
        if rec["status"] == "refuted":
            # one record per obligation name is enough for reporting
            n = sum(1 for x in self.results
                    if x["name"] == name and x["status"] == "refuted")
            if n >= 6:
                rec.pop("model", None)
        self.results.append(rec)
        # carry on under the assumption that it holds
        self.add(cond)
        if rec["status"] != "discharged" and self._check(timeout=5000) == z3.unsat:
            raise PathEnd("check failed on every state of this path")

    def _cvc5(self, neg):
        try:
            import cvc5
            s = z3.Solver()
            for a in self.pc:
                s.add(a)
            s.add(neg)
            txt = s.to_smt2()
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption("tlimit-per", str(self.timeout_ms))
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
            sm = p.getSymbolManager()
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                out = c.invoke(slv, sm)
                if str(out).strip() == "unsat":
                    return True
            return False
        except BaseException:
            return False

    def model_inputs(self, m):
        out = {}
        for name in self.order:
            kind, ex = self.inputs[name]
            try:
                out[name] = self._val(m, kind, ex)
            except Exception as e:
                out[name] = None
        return out

    def _val(self, m, kind, ex):
        if kind == "seq":
            n, getter, ekind = ex
            ln = m.eval(n, model_completion=True).as_long()
            return [self._val(m, ekind, getter(z3.IntVal(i)))
                    for i in range(min(ln, 300))]
        v = m.eval(ex, model_completion=True)
        if kind in ("int", "choice"):
            return v.as_long()
        if kind == "real":
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            f = Fraction(v.numerator_as_long(), v.denominator_as_long())
            return {"frac": [str(f.numerator), str(f.denominator)]}
        if kind == "bool":
            return z3.is_true(v)
        if kind == "bv":
            return v.as_signed_long()
        if kind == "str":
            return v.as_string()
        return str(v)

    # ---- exploration ----
    def explore(self, run):
        """run(engine) executes the harness once"""
        Engine.cur = self
        self.prefix = []
        while True:
            self._reset_path()
            self.paths += 1
            try:
                run()
                self.path_kinds["normal"] += 1
            except PathEnd:
                pass
            except Truncated:
                self.truncated += 1
            except Unsupported as e:
                self.unsupported.append(str(e))
                if len(self.unsupported) > 3 or "time budget" in str(e):
                    self.incomplete = str(e)
                    return
            # next path
            ds = self.decisions
            while ds and not ds[-1][1]:
                ds.pop()
            if not ds:
                return
            ds[-1] = (not ds[-1][0], False)
            self.prefix = list(ds)
            if self.paths >= self.max_paths:
                self.incomplete = "path bound %d reached" % self.max_paths
                return
            if self.deadline and time.time() > self.deadline:
                self.incomplete = "time budget exhausted"
                return
