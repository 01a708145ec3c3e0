"""Scan step accounting of RunnableController."""
from pyvc.api import harness
from pyvc.rt import LoopContract
from checks.lib import FakeProcess, FakeQueue, controller, every_kind, \
    use_fake_queue

from malcolm.core import AbortedError, Info, Part
from malcolm.modules.scanning.hooks import (ConfigureHook, PostRunArmedHook,
                                            PostRunReadyHook, RunHook,
                                            SeekHook)
from malcolm.modules.scanning.infos import RunProgressInfo

RC = "malcolm.modules.scanning.controllers.runnablecontroller"
R = RC + ":RunnableController."

ASSUMPTIONS = [
    "step counts are unbounded integers (int32 overflow of the attributes is "
    "not modelled in the symbolic harnesses)",
    "run_hooks passes the hook arguments to the parts unchanged (C17)",
    "invariant of an accepted configuration: steps_per_run entries are >= 1 "
    "and add up to the total number of steps (established by "
    "get_steps_per_run, checked here for up to 4 breakpoints)",
]


class FakeAttr:
    """attribute model: value / set_value"""

    class meta:
        class display:
            @staticmethod
            def set_limitHigh(v):
                pass

    def __init__(self, value):
        self.value = value

    def set_value(self, value):
        self.value = value


class FakeDim:
    def __init__(self, axes, size):
        self.axes, self.size = list(axes), size


class FakeGen:
    def __init__(self, dims):
        self.dimensions = dims
        n = 1
        for d in dims:
            n = n * d.size
        self.size = n
        self.axes = [a for d in dims for a in d.axes]

    def prepare(self):
        pass


# outermost first, as scanpointgenerator gives them
STRUCTURES = [[], [["x"]], [["y"], ["x"]], [["x", "y"]], [["z"], ["y"], ["x"]],
              [["z"], ["x", "y"]], [[], ["x"]], [["x"], []], [["y"], [], ["x"]],
              [["z", "w"], ["y"], ["x"]]]


def gen_input(vc, dims_hi=6):
    shape = vc.choice("structure", STRUCTURES)
    dims = [FakeDim(axes, vc.int("size%d" % i, 1, None if vc.sym else dims_hi))
            for i, axes in enumerate(shape)]
    g = FakeGen(dims)
    inner = vc.choice("dims moved by us", range(len(shape) + 1))
    moved = [a for axes in shape[len(shape) - inner:] for a in axes]
    # the steps of one run: trailing dimensions that we move (and those
    # without axes next to them)
    return g, shape, moved


def inner_dims(shape, moved):
    left = set(moved)
    k = 0
    for axes in reversed(shape):
        if axes and not left:
            break
        left -= set(axes)
        k += 1
    return k


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


@harness("C08", functions=[R + "get_steps_per_run", R + "_get_outer_steps"],
         bounded="up to 3 generator dimensions and 3 breakpoints; dimension "
         "sizes and breakpoint values unbounded", rand=500, max_paths=3000,
         covers=["plain", "breakpoints", "remainder", "refused"])
def steps_per_run(vc):
    g, shape, moved = gen_input(vc)
    c = controller("runnable") if not vc.sym else bare()
    nb = vc.choice("number of breakpoints", [0, 1, 2, 3])
    bps = [vc.int("bp%d" % i, 1, None if vc.sym else 12) for i in range(nb)]
    k = inner_dims(shape, moved)
    inner = prod(d.size for d in g.dimensions[len(shape) - k:])
    outer = prod(d.size for d in g.dimensions[:len(shape) - k])
    r = vc.call(c.get_steps_per_run, g, moved, bps)
    if nb and vc.fork(sum(bps) > inner):
        vc.cover("refused")
        vc.check("breakpoints beyond the end of the inner scan are refused",
                 not r.ok)
        return
    vc.check("an acceptable scan is accepted", r.ok)
    steps = r.value
    n = vc.len(steps)
    if nb == 0:
        vc.cover("plain")
        vc.check("without breakpoints one run covers the dimensions we move",
                 vc.And(n == 1, steps[0] == inner))
        vc.check("a whole number of runs makes up the scan",
                 steps[0] * outer == g.size)
        return
    vc.cover("breakpoints")
    m = nb
    if vc.fork(sum(bps) < inner):
        vc.cover("remainder")
        m += 1
    vc.check("one run per breakpoint (and remainder) per outer step",
             n >= m * outer)
    # entries beyond the end of the scan (dimensions without axes) are unused
    n = m * outer
    want = bps + [inner - sum(bps)]

    def pick(i):
        r = want[m - 1]
        for j in range(m - 2, -1, -1):
            r = vc.If(i % m == j, want[j], r)
        return r
    vc.check("runs repeat the breakpoints then the remainder",
             vc.forall(n, lambda i: vc.at(steps, i) == pick(i)))
    vc.check("every run has at least one step",
             vc.forall(n, lambda i: vc.at(steps, i) >= 1))
    bs = c.breakpoint_steps
    vc.check("absolute steps: one per run", vc.len(bs) == vc.len(steps))
    vc.check("absolute step of the first run is its own number of steps",
             vc.at(bs, 0) == vc.at(steps, 0))
    vc.check("absolute steps advance by the steps of each run", vc.forall(
        n - 1, lambda i: vc.at(bs, i + 1) == vc.at(bs, i)
        + vc.at(steps, i + 1)))
    vc.check("the runs together make up the whole scan",
             vc.at(bs, n - 1) == g.size)


_C = []


def bare():
    """one controller, reused: each harness sets every field it depends on"""
    if not _C:
        _C.append(controller("runnable"))
    return _C[0]


class Abstract:
    """A configured scan in an arbitrary state: runs of any number and length
    (or equal runs without breakpoints)"""

    def __init__(self, vc, c=None):
        self.vc = vc
        c = self.c = c or bare()
        self.bp = vc.flag("breakpoints in use")
        c.use_breakpoints = self.bp
        if self.bp:
            steps = vc.list("steps", "int", minlen=1, maxlen=8, lo=1,
                            hi=None if vc.sym else 9,
                            weights={"sum": lambda x: x})
            self.n = vc.len(steps)
            c.steps_per_run = steps
            if vc.sym:
                from pyvc.seqs import Mapped
                self.end = lambda i: steps.psum("sum", i + 1)
                c.breakpoint_steps = Mapped(self.n, self.end)
            else:
                self.end = lambda i: sum(steps[:i + 1])
                c.breakpoint_steps = [self.end(i) for i in range(self.n)]
            self.total = self.end(self.n - 1)
            self.b = self.index("current run")
            c.breakpoint_index = self.b
            # lemmas over the prefix sums of the (positive) runs
            if vc.sym:
                self.lemmas(steps)
        else:
            s = vc.int("steps in each run", 1, None if vc.sym else 9)
            self.n = vc.int("number of runs", 1, None if vc.sym else 9)
            c.steps_per_run = [s]
            c.breakpoint_steps = []
            c.breakpoint_index = 0
            self.end = lambda i: (i + 1) * s
            self.total = s * self.n
            self.b = self.index("current run")
            self.s = s
        c.total_steps = FakeAttr(self.total)
        c.configured_steps = FakeAttr(self.end(self.b))
        c.completed_steps = FakeAttr(0)
        c.progress_updates = {}
        c.part_contexts = {}
        for a in ("total_steps", "configured_steps", "completed_steps"):
            pass
        self.hooks = []
        self.states = []

        def run_hooks(hooks):
            for h in hooks:
                self.hooks.append(h)
            return {}
        vc.patch(c, "run_hooks", run_hooks)
        vc.patch(c, "abortable_transition", self.states.append)
        vc.patch(c, "transition", self.states.append)
        vc.patch(c, "create_part_contexts", lambda: {})

    def index(self, name):
        b = self.vc.int(name, 0, None if self.vc.sym else self.n - 1)
        self.vc.assume(b < self.n)
        return b

    def lemmas(self, steps):
        """psum strictly increases with the index; instantiated at the end"""
        vc = self.vc
        b = self.b
        # by induction over the list (every run >= 1): see harness `lemma`
        vc.assume(vc.Implies(b < self.n - 1,
                             self.end(b + 1) <= self.total))
        vc.assume(vc.And(self.end(b) >= 1, self.end(b) <= self.total))
        vc.assume(vc.Implies(self.end(b) == self.total, b == self.n - 1))


@harness("C08", rand=50, note="induction step of the lemma assumed in "
         "Abstract.lemmas and seek: prefix sums of runs >= 1 increase")
def lemma(vc):
    steps = vc.list("steps", "int", minlen=1, maxlen=8, lo=1,
                    hi=None if vc.sym else 9, weights={"sum": lambda x: x})
    n = vc.len(steps)
    ps = (lambda i: steps.psum("sum", i)) if vc.sym else (
        lambda i: sum(steps[:i]))
    a = vc.int("a", 0, None if vc.sym else n - 1)
    j = vc.int("j", 0, None if vc.sym else n - 1)
    vc.assume(vc.And(a <= j, j < n))
    vc.assume(ps(a) <= ps(j))      # induction hypothesis (equality at j = a)
    vc.check("prefix sums of positive runs strictly increase",
             ps(a) < ps(j + 1))


def catch_hooks(vc, st):
    """record the arguments the accounting hooks are made with"""
    import malcolm.modules.scanning.controllers.runnablecontroller as m
    seen = []
    for name in ("ConfigureHook", "PostRunArmedHook", "PostRunReadyHook",
                 "SeekHook", "ReportStatusHook", "PauseHook", "PreRunHook",
                 "RunHook", "PreConfigureHook", "PostConfigureHook"):
        def make(name):
            def f(p, c, *a, **k):
                seen.append((name, a))
                return (name, a)
            return f
        vc.stub(m, name, make(name))
    st.c.part_contexts = {"part": "ctx"}
    vc.patch(st.c, "create_part_contexts", lambda: {"part": "ctx"})
    vc.patch(st.c, "_part_params",
             lambda *a, **k: [("part", "ctx", {})])
    return seen


@harness("C08", functions=[R + "do_run"], rand=400,
         covers=["another run", "last run"])
def end_of_run(vc):
    """do_run from any configured state"""
    st = Abstract(vc)
    c = st.c
    seen = catch_hooks(vc, st)
    done = st.end(st.b)
    last = vc.fork(st.b == st.n - 1)
    import malcolm.modules.scanning.controllers.runnablecontroller as m
    r = vc.call(c.do_run, m.RunHook)
    vc.check("a run that succeeds is accounted for without error", r.ok)
    names = [x[0] for x in seen]
    vc.check("completed steps are those this run was configured up to",
             c.completed_steps.value == done)
    vc.check("the parts are run exactly once", names.count("RunHook") == 1)
    if last:
        vc.cover("last run")
        vc.check("after the last run the parts are told the scan is over",
                 names.count("PostRunReadyHook") == 1
                 and "PostRunArmedHook" not in names)
        vc.check("nothing more is configured",
                 c.configured_steps.value == done)
    else:
        vc.cover("another run")
        vc.check("the parts are prepared for exactly one more run",
                 names.count("PostRunArmedHook") == 1
                 and "PostRunReadyHook" not in names)
        for name, a in seen:
            if name == "PostRunArmedHook":
                vc.check("the next run starts where this one ended",
                         a[0] == done)
                vc.check("the next run ends at the next run boundary",
                         a[0] + a[1] == st.end(st.b + 1))
                vc.check("the next run has steps to do", a[1] >= 1)
        vc.check("configured steps move to the next run boundary",
                 c.configured_steps.value == st.end(st.b + 1))
        if st.bp:
            vc.check("current run advances by one",
                     c.breakpoint_index == st.b + 1)


class BpIndex(LoopContract):
    kind = "while"

    def inv(self, st):
        me = st.L["self"]
        idx = st.L["index"]
        k = st.L["completed_steps"]
        bs = me.breakpoint_steps
        from pyvc.values import And, Implies, Or
        return [("index in range", And(idx >= 0, idx < bs.sym_len())),
                ("runs before index are over", Or(
                    idx == 0, bs.get(idx - 1) <= k))]


@harness("C08", functions=[R + "do_pause", R + "get_breakpoint_index"],
         loops={(RC, "RunnableController.get_breakpoint_index", 0): BpIndex()},
         rand=500, covers=["breakpoints", "no breakpoints"],
         timeout_ms=5000)
def seek(vc):
    """do_pause to any step of the scan"""
    st = Abstract(vc)
    c = st.c
    seen = catch_hooks(vc, st)
    k = vc.int("step", 0, None if vc.sym else st.total - 1)
    vc.assume(k < st.total)
    # j is the run that contains step k (exists and is unique as runs are >= 1)
    j = vc.int("run containing step", 0, None if vc.sym else 80) \
        if vc.sym else next(i for i in range(st.n) if k < st.end(i))
    vc.assume(vc.And(j < st.n, k < st.end(j),
                     vc.Or(j == 0, k >= st.end(j - 1))))
    if vc.sym and st.bp:
        # psum is strictly increasing: index below j ends at or before k,
        # index from j on ends after k
        bs = c.breakpoint_steps
        end = st.end
        steps = c.steps_per_run

        class Mono:
            pass
        from pyvc.seqs import Mapped

        def get(i):
            e = end(i)
            vc.assume(vc.Implies(vc.And(i >= 0, i < j), e <= k))
            vc.assume(vc.Implies(vc.And(i >= j, i < st.n), e > k))
            return e
        c.breakpoint_steps = Mapped(st.n, get)
    vc.cover("breakpoints" if st.bp else "no breakpoints")
    r = vc.call(c.do_pause, k)
    vc.check("seeking to a step of the scan succeeds", r.ok)
    names = [x[0] for x in seen]
    vc.check("the parts are asked to seek exactly once",
             names.count("SeekHook") == 1)
    for name, a in seen:
        if name == "SeekHook":
            vc.check("the parts are told the step asked for", a[0] == k)
            vc.check("there is at least one step to do after a seek",
                     a[1] >= 1)
            vc.check("the steps to do reach the end of the run containing "
                     "the step", a[0] + a[1] == st.end(j))
    vc.check("completed steps are the step asked for",
             c.completed_steps.value == k)
    vc.check("configured steps are the end of the run containing the step",
             c.configured_steps.value == st.end(j))
    if st.bp:
        vc.check("the current run is the one containing the step",
                 c.breakpoint_index == j)


@harness("C08", functions=[R + "pause"], rand=400,
         covers=["finished", "explicit", "current"])
def pause_bounds(vc):
    """pause(lastGoodStep): the step it seeks to, from any state"""
    st = Abstract(vc)
    c = st.c
    from malcolm.modules.scanning.util import RunnableStates as ss
    s0 = vc.choice("state", [ss.ARMED, ss.RUNNING, ss.PAUSED, ss.FINISHED])
    vc.patch(c, "state", FakeAttr(s0))
    conf = c.configured_steps.value
    comp = vc.int("completed", 0, None if vc.sym else conf)
    vc.assume(comp <= conf)
    if s0 == ss.FINISHED:
        if vc.sym:
            vc.assume(vc.And(comp == st.total, conf == st.total))
        else:
            comp = conf = st.total
            c.configured_steps.set_value(conf)
    elif s0 == ss.ARMED:
        vc.assume(comp < conf)
    c.completed_steps.set_value(comp)
    k = vc.int("lastGoodStep", None if vc.sym else -3, None if vc.sym else 90)
    calls = []

    def tryit(start, end, func, *args):
        calls.append((start, end, func, args))
    vc.patch(c, "try_aborting_function", tryit)
    r = vc.call(c.pause, k)
    vc.check("pause does not fail", r.ok)
    if s0 == ss.FINISHED and vc.fork(k < 0):
        vc.cover("finished")
        vc.check("pausing a finished scan changes nothing", not calls)
        return
    vc.check("pause seeks once", len(calls) == 1)
    if len(calls) != 1:
        return
    start, end, func, args = calls[0]
    vc.check("pause goes through Seeking", start == ss.SEEKING)
    vc.check("pause ends Armed when no run is in progress and Paused when "
             "one is", end == (ss.ARMED if s0 in (ss.ARMED, ss.FINISHED)
                               else ss.PAUSED))
    vc.check("the step sought is a step of the scan",
             vc.And(args[0] >= 0, args[0] < st.total))
    if vc.fork(k < 0):
        vc.cover("current")
        vc.check("by default pause stays at the completed steps (or the last "
                 "step of the run)", vc.Or(
                     args[0] == comp,
                     vc.And(comp == conf, args[0] == comp - 1)))
    else:
        vc.cover("explicit")
        want = vc.If(k >= st.total, st.total - 1, k)
        vc.check("pause goes to the step asked for, limited to the scan "
                 "(and to the current run while one is paused)", vc.Or(
                     args[0] == want,
                     vc.And(s0 in (ss.RUNNING, ss.PAUSED), want == conf,
                            args[0] == want - 1)))


@harness("C08", functions=[R + "run"], rand=300,
         covers=["finished", "armed", "paused and resumed"])
def run_outcome(vc):
    """run(): Finished exactly when every step was configured, also when the
    run was paused, moved elsewhere and resumed"""
    st = Abstract(vc)
    c = st.c
    from malcolm.modules.scanning.util import RunnableStates as ss
    pauses = vc.choice("times paused", [0, 1, 2])
    st.i = 0
    final = []

    def do_run(hook):
        if st.i < pauses:
            st.i += 1
            # pause() moved the scan to another run (contract of seek)
            j = st.index("run after pause")
            c.configured_steps.set_value(st.end(j))
            st.b = j
            raise AbortedError("paused")
        done = c.configured_steps.value
        final.append(done)
        nxt = vc.int("configured afterwards", 1, None) if vc.sym else min(
            st.total, done + 1)
        vc.assume(nxt >= done)
        vc.assume(vc.Implies(done == st.total, nxt == done))
        vc.assume(vc.Implies(done < st.total, nxt > done))
        vc.assume(nxt <= st.total)
        c.configured_steps.set_value(nxt)
        c.completed_steps.set_value(done)
    vc.patch(c, "do_run", do_run)
    c.abort_queue = FakeQueue()
    c.resume_queue = FakeQueue()
    for _ in range(pauses):
        c.resume_queue.put(True)
    r = vc.call(c.run)
    vc.check("run completes", r.ok and len(final) == 1)
    if not final:
        return
    if pauses:
        vc.cover("paused and resumed")
    if vc.fork(final[0] < st.total):
        vc.cover("armed")
        vc.check("run ends Armed when steps remain",
                 st.states[-1] == ss.ARMED)
    else:
        vc.cover("finished")
        vc.check("run ends Finished when every step is done",
                 st.states[-1] == ss.FINISHED)


@harness("C08", functions=[R + "update_completed_steps"], rand=300,
         bounded="1 to 4 parts reporting")
def progress(vc):
    c = bare()
    c.completed_steps = FakeAttr(vc.int("completed", 0))
    before = c.completed_steps.value
    n = vc.choice("parts", [1, 2, 3, 4])
    parts = ["p%d" % i for i in range(n)]
    steps = {p: vc.int("steps." + p, 0) for p in parts}
    known = [p for p in parts if vc.flag("reported." + p)]
    c.progress_updates = {p: steps[p] for p in known}
    who = vc.choice("who", parts)
    new = vc.int("new", 0)
    r = vc.call(c.update_completed_steps, who, RunProgressInfo(new))
    vc.check("progress reports are accepted", r.ok)
    after = c.completed_steps.value
    vals = [new if p == who else steps[p] for p in parts
            if p == who or p in known]
    lowest = vals[0]
    for v in vals[1:]:
        lowest = vc.If(v < lowest, v, lowest)
    vc.check("progress never goes backwards", after >= before)
    vc.check("progress is what the slowest reporting part has done, if "
             "further", after == vc.If(lowest > before, lowest, before))


# ---- whole scans on the real controller ----
@harness("C08", functions=[R + "configure", R + "run", R + "pause",
                           R + "resume", R + "do_configure", R + "do_run",
                           R + "do_pause", R + "get_steps_per_run",
                           R + "get_breakpoint_index"],
         concrete_only=True, rand=250,
         bounded="seeded random histories of run/pause/resume/seek on the "
         "real controller")
def whole_scan(vc):
    import malcolm.modules.scanning.controllers.runnablecontroller as m
    from scanpointgenerator import CompoundGenerator, LineGenerator
    use_fake_queue(vc)
    c = controller("runnable")
    c.init()
    sizes = [vc.int("size%d" % i, 1, 5) for i in range(vc.choice(
        "dimensions", [1, 2, 3]))]
    names = ["z", "y", "x"][3 - len(sizes):]
    gen = CompoundGenerator([LineGenerator(n, "mm", 0, 1, s)
                             for n, s in zip(names, sizes)], [], [], 0.1)
    inner = vc.choice("axes moved", range(1, len(sizes) + 1))
    axes = names[len(sizes) - inner:]
    per_run = prod(sizes[len(sizes) - inner:])
    total = prod(sizes)
    bps = []
    if vc.flag("use breakpoints"):
        left = per_run
        for i in range(vc.choice("breakpoints", [1, 2, 3])):
            if left < 1:
                break
            b = vc.int("bp%d" % i, 1, left)
            bps.append(b)
            left -= b
        runs = (bps + ([left] if left else [])) * (total // per_run)
    else:
        runs = [per_run] * (total // per_run)
    ends = [sum(runs[:i + 1]) for i in range(len(runs))]
    seg = []           # what the parts have been told: (from, steps)
    ran = []           # segments that were run to the end
    vc.note("runs %s" % runs)
    actions = [0]
    paused_at = []

    def run_hooks(hooks):
        got = None
        for h in hooks:
            got = type(h).__name__
            a = getattr(h, "_kwargs", {}) or {}
            if got in ("ConfigureHook", "PostRunArmedHook", "SeekHook"):
                got = (got, a.get("completed_steps"), a.get("steps_to_do"))
        if isinstance(got, tuple):
            seg.append(got[1:])
        if got == "RunHook":
            if actions[0] < 4 and vc.flag("interrupt"):
                actions[0] += 1
                k = vc.int("pause at", -1, total)
                lo = c.completed_steps.value
                # some progress was made before the pause
                conf = c.configured_steps.value
                p = vc.int("progress", 0, 30)
                c.update_completed_steps(
                    "part", RunProgressInfo(min(conf, lo + p)))
                c.abort_queue = None
                c.pause(k)
                paused_at.append((k, c.completed_steps.value,
                                  c.configured_steps.value))
                if vc.flag("seek again"):
                    k2 = vc.int("seek to", 0, total)
                    c.pause(k2)
                    want = min(k2, total - 1)
                    vc.check("seek while paused goes to the step asked for",
                             c.completed_steps.value in (want, want - 1))
                c.resume()
                c._pending_resume = True
                raise AbortedError("paused")
            ran.append((c.completed_steps.value, c.configured_steps.value))
        return {}
    vc.patch(c, "run_hooks", run_hooks)

    def check_pos():
        """what the parts were last told is a run (or its tail)"""
        vc.check("parts were told the steps at every (re)configuration",
                 bool(seg))
        if not seg:
            return
        a, n = seg[-1]
        vc.check("the segment given to the parts has at least one step and "
                 "ends at a run boundary", n >= 1 and a + n in ends)
        vc.check("the segment does not span a run boundary", not any(
            a < e < a + n for e in ends))
        vc.check("configured steps are the end of the segment",
                 c.configured_steps.value == a + n)
    c.configure(gen, axes, bps)
    vc.check("totalSteps is the size of the scan",
             c.total_steps.value == total)
    check_pos()
    if not seg:
        return
    vc.check("configure starts at step 0", seg[-1][0] == 0)
    n = 0
    while c.state.value == "Armed" and n < 6 * len(runs) + 10:
        n += 1
        if vc.flag("seek before run") and actions[0] < 4:
            actions[0] += 1
            k = vc.int("seek armed to", 0, total)
            c.pause(k)
            vc.check("seek while armed goes to the step asked for",
                     c.completed_steps.value == min(k, total - 1)
                     and c.state.value == "Armed")
            check_pos()
        start = len(ran)
        c.run()
        vc.check("one run of the parts per run()", len(ran) == start + 1)
        if not ran:
            return
        end = ran[-1][1]
        vc.check("run() ends at the run boundary it was configured for",
                 end in ends and c.completed_steps.value == end)
        vc.check("Finished exactly when all steps are done",
                 (c.state.value == "Finished") == (end == total))
        if c.state.value == "Armed":
            vc.check("the next run starts where this one ended",
                     seg[-1][0] == end)
            check_pos()
    vc.check("the scan reaches its end", c.state.value == "Finished")


# ---- what the parts are told, and when ----
class Told(Info):
    def __init__(self, hook, part, n):
        self.hook, self.part, self.n = hook, part, n


def attentive(vc, names):
    """parts that have a function for every hook, which writes it down"""
    import malcolm.modules.scanning.hooks as sh
    from malcolm.modules import builtin
    log = []
    fails, then = {}, {}
    every = [sh.ValidateHook, sh.ReportStatusHook, sh.PreConfigureHook,
             sh.ConfigureHook, sh.PostConfigureHook, sh.PreRunHook,
             sh.RunHook, sh.PostRunArmedHook, sh.PostRunReadyHook,
             sh.PauseHook, sh.SeekHook, sh.AbortHook,
             builtin.hooks.ResetHook, builtin.hooks.DisableHook,
             builtin.hooks.InitHook]

    class Attentive(Part):
        def setup(self, registrar):
            super().setup(registrar)
            for h in every:
                registrar.hook(h, self.func(h.__name__),
                               args_gen=lambda keys: list(keys))

        def func(self, name):
            def f(**kw):
                infos = []
                if name in ("ReportStatusHook", "ConfigureHook"):
                    infos = [Told(name, self.name, i) for i in range(
                        1 + names.index(self.name))]
                kw.pop("context", None)
                log.append((name, self.name, kw, infos))
                if (name, self.name) in then:
                    then.pop((name, self.name))()
                if (name, self.name) in fails and (
                        name != "ReportStatusHook" or any(
                            x[0] in ("PreConfigureHook", "PauseHook",
                                     "RunHook") for x in log)):
                    raise fails[name, self.name]
                return infos
            return f
    return [Attentive(n) for n in names], log, fails, then


def rounds(log):
    """[(hook, {part: (arguments, infos)})]: the parts of one hook together"""
    out = []
    for name, part, kw, infos in log:
        if not out or out[-1][0] != name or part in out[-1][1]:
            out.append((name, {}))
        out[-1][1][part] = (kw, infos)
    return out


NEW = ["ReportStatusHook", "ValidateHook"]
CONF = ["PreConfigureHook", "ReportStatusHook", "ConfigureHook",
        "PostConfigureHook"]
ARMED = ["PreRunHook", "RunHook", "ReportStatusHook", "PostRunArmedHook"]
DONE = ["PreRunHook", "RunHook", "PostRunReadyHook"]
SEEK = ["PauseHook", "ReportStatusHook", "SeekHook"]


@harness("C08", functions=[R + x for x in (
    "configure", "do_configure", "run", "do_run", "pause", "do_pause",
    "abort", "do_abort", "try_aborting_function", "_part_params", "validate",
    "abortable_transition", "do_reset")], rand=150, max_paths=5000,
    bounded="two parts; every operation from every kind of resting state",
    covers=["failed", "done"])
def told_in_order(vc):
    """the functions of the parts for an operation run in the documented
    order, for all parts, with what the parts reported just before"""
    from malcolm.modules.scanning.util import RunnableStates as ss
    from scanpointgenerator import CompoundGenerator, LineGenerator
    use_fake_queue(vc)
    names = ["a", "b"]
    parts, log, fails, then = attentive(vc, names)
    c = controller("runnable", parts=parts)
    c.init()

    def gen():
        return CompoundGenerator([LineGenerator("y", "mm", 0, 1, 3),
                                  LineGenerator("x", "mm", 0, 1, 4)],
                                 [], [], 0.1)
    axes = ["x"]
    at = vc.choice("from", ["ready", "armed", "armed later", "finished",
                            "aborted", "configured again"])
    if at in ("armed", "armed later", "finished", "configured again"):
        c.configure(gen(), axes)
    for _ in range({"armed later": 1, "finished": 3,
                    "configured again": 3}.get(at, 0)):
        c.run()
    if at == "configured again":
        c.configure(gen(), axes)
    if at == "aborted":
        c.abort()
    done = {"armed later": 4, "finished": 12}.get(at, 0)
    ops = {"ready": ["configure", "abort", "disable", "validate"],
           "armed": ["run", "pause", "abort", "paused run", "reset"],
           "armed later": ["run", "pause", "paused run", "abort",
                           "disable"],
           "configured again": ["run", "pause", "paused run", "validate"],
           "finished": ["configure", "pause", "reset", "abort"],
           "aborted": ["reset", "disable"]}[at]
    op = vc.choice("operation", ops)
    del log[:]
    want = {"validate": NEW,
            "configure": NEW + (["ResetHook"] if at == "finished" else [])
            + CONF,
            "run": ARMED, "pause": SEEK, "abort": ["AbortHook"],
            "paused run": ["PreRunHook", "RunHook"] + SEEK + ARMED,
            "reset": ["ResetHook"], "disable": ["DisableHook"]}[op]
    end = {"validate": None, "configure": ss.ARMED, "run": ss.ARMED,
           "pause": ss.ARMED, "abort": ss.ABORTED, "paused run": ss.ARMED,
           "reset": ss.READY, "disable": ss.DISABLED}[op]
    fail = op not in ("paused run", "validate") and vc.flag("one fails")
    if fail:
        # (validating is C22)
        steps = want[2:] if op == "configure" else want
        i = vc.choice("where", range(len(steps)))
        who = vc.choice("who", names)
        fails[steps[i], who] = vc.choice("kind", [
            PartFailed, every_kind(PartFailed)])("no")
        want = want[:len(want) - len(steps) + i + 1]
        end = ss.FAULT
    seek_to = vc.choice("seek to", [0, 5, 11]) if op == "pause" else None
    if op == "paused run":
        def interrupt():
            c.pause(done + 1)
            c.resume()
            raise AbortedError("paused")
        then["RunHook", "b"] = interrupt
    r = vc.call({
        "configure": lambda: c.configure(gen(), axes),
        "validate": lambda: c.validate(gen(), axes),
        "run": c.run, "paused run": c.run, "reset": c.reset,
        "pause": lambda: c.pause(seek_to), "abort": c.abort,
        "disable": c.disable}[op])
    rs = rounds(log)
    vc.note("%s from %s: %s" % (op, at, [x[0] for x in rs]))
    if fail:
        vc.cover("failed")
        vc.check("an error of a part is the error of the operation",
                 r.exc is list(fails.values())[0])
    else:
        vc.cover("done")
        vc.check("the operation succeeds", r.ok)
    vc.check("the parts are told in the documented order",
             [x[0] for x in rs] == want)
    vc.check("all parts are told each", all(
        sorted(x[1]) == names for x in rs))
    if end is not None:
        vc.check("the state afterwards", c.state.value == end)
    status, result = None, None
    for name, each in rs:
        for p, (kw, infos) in each.items():
            if name in ("ValidateHook", "ConfigureHook", "PostRunArmedHook",
                        "SeekHook"):
                got = kw.get("part_info", {})
                vc.check("with what the parts last reported",
                         {k: list(v) for k, v in got.items()} == status)
                vc.check("and the scan", list(kw.get("axesToMove", ()))
                         == axes and kw.get("generator") is not None
                         and [list(d.axes) for d in kw["generator"].generators]
                         == [["y"], ["x"]])
            if name == "PostConfigureHook":
                got = kw.get("part_info", {})
                vc.check("with what configuring gave",
                         {k: list(v) for k, v in got.items()} == result)
        if name == "ReportStatusHook":
            status = {p: infos for p, (kw, infos) in each.items()}
        if name == "ConfigureHook":
            result = {p: infos for p, (kw, infos) in each.items()}
    if op == "reset" and not fail:
        vc.check("no steps are configured after a reset",
                 (c.configured_steps.value, c.completed_steps.value,
                  c.total_steps.value) == (0, 0, 0))


class PartFailed(Exception):
    pass
