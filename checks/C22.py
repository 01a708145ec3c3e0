"""validate(): the parameters of a scan suit every part of it"""
from annotypes import Anno, add_call_types
from scanpointgenerator import CompoundGenerator, LineGenerator

from pyvc.api import harness
from checks.lib import FakeProcess, Hooks, controller
from checks.pmaclib import (
    FakeBrick, FakeContext, FakeMotor, TRIGGERS, infos)

import malcolm.modules.pmac.parts.pmacchildpart as pm
from malcolm.core import Part
from malcolm.modules.pmac.parts import PmacChildPart
from malcolm.modules.scanning import hooks
from malcolm.modules.scanning.hooks import ConfigureHook, ValidateHook
from malcolm.modules.scanning.infos import (
    MotionTrigger, ParameterTweakInfo)
from malcolm.modules.scanning.util import (
    DetectorTable, resolve_generator_tweaks)

RC = "malcolm.modules.scanning.controllers.runnablecontroller"
M = "malcolm.modules.pmac.parts.pmacchildpart"

ASSUMPTIONS = [
    "floats are treated as reals in the proofs; the executable contracts on "
    "the unmodified code compare with a tolerance",
    "run_hooks passes arguments and returned infos on unchanged (C17)",
    "CompoundGenerator.to_dict/from_dict keep the generator (dependency)",
]


class Gen:
    def __init__(self, duration):
        self.duration = duration


@harness("C22", functions=["malcolm.modules.scanning.util:"
                           "resolve_generator_tweaks"], rand=300,
         bounded="up to 5 parts tweak the generator at once")
def resolve(vc):
    n = vc.choice("n", [1, 2, 3, 4, 5])
    ds = [vc.real("d", 0, pool=[0.0, 0.1, 0.1, 1.0, 7.5]) for _ in range(n)]
    out = resolve_generator_tweaks([
        ParameterTweakInfo("generator", Gen(d)) for d in ds])
    vc.check("a tweak of the generator", out.parameter == "generator")
    got = out.value.duration
    vc.check("no shorter than any part asked for",
             vc.And(*[vc.le(d, got) for d in ds]))
    vc.check("and no longer than that",
             vc.Or(*[vc.close(d, got) for d in ds]))


class Picky(Part):
    """Wants a duration of at least least, in whole multiples of grid, and
    exposure no longer than the duration less dead"""

    def want(self, least, grid, dead, restless, strict=None):
        self.least, self.grid, self.dead = least, grid, dead
        self.restless, self.strict = restless, strict
        self.durations = []
        self.asked, self.configured = [], []
        return self

    def setup(self, registrar):
        if self.dead is None:
            registrar.hook(ValidateHook, self.on_validate)
            registrar.hook(ConfigureHook, self.on_configure)
        else:
            registrar.hook(ValidateHook, self.on_validate_exposed)
            registrar.hook(ConfigureHook, self.on_configure_exposed)
            registrar.report(hooks.ConfigureHook.create_info(
                self.on_configure_exposed))

    def tweak(self, generator, exposure=None):
        out = []
        d = generator.duration
        if self.strict and d != 0 and self.dead is None:
            # only helps those who do not say; may mind what is asked
            assert self.strict == "easy" or d >= self.least, "too short"
        elif d < self.least:
            d = self.least
        if self.grid and not (self.strict and self.dead is None):
            k = d / self.grid
            if abs(k - round(k)) > 1e-6:
                d = (int(k) + 1) * self.grid
        if self.restless:
            d = generator.duration + 1
        if d != generator.duration:
            g = CompoundGenerator.from_dict(generator.to_dict())
            g.duration = d
            self.durations.append(d)
            out.append(ParameterTweakInfo("generator", g))
        if self.dead is not None:
            most = round(d - self.dead, 9)
            if exposure != most and (exposure == 0 or exposure > most):
                out.append(ParameterTweakInfo("exposure", most))
        return out

    @add_call_types
    def on_validate(self, generator: hooks.AGenerator,
                    axesToMove: hooks.AAxesToMove,
                    breakpoints: hooks.ABreakpoints
                    ) -> hooks.UParameterTweakInfos:
        self.asked.append(dict(generator=generator, axesToMove=axesToMove,
                               breakpoints=breakpoints))
        return self.tweak(generator)

    @add_call_types
    def on_validate_exposed(self, generator: hooks.AGenerator,
                            axesToMove: hooks.AAxesToMove,
                            breakpoints: hooks.ABreakpoints,
                            exposure: hooks.AExposure
                            ) -> hooks.UParameterTweakInfos:
        self.asked.append(dict(generator=generator, axesToMove=axesToMove,
                               breakpoints=breakpoints, exposure=exposure))
        return self.tweak(generator, exposure)

    @add_call_types
    def on_configure(self, generator: hooks.AGenerator,
                     axesToMove: hooks.AAxesToMove,
                     breakpoints: hooks.ABreakpoints) -> hooks.UInfos:
        self.configured.append(dict(
            generator=generator, axesToMove=axesToMove,
            breakpoints=breakpoints))
        return None

    @add_call_types
    def on_configure_exposed(self, generator: hooks.AGenerator,
                             axesToMove: hooks.AAxesToMove,
                             breakpoints: hooks.ABreakpoints,
                             exposure: hooks.AExposure = 0.0
                             ) -> hooks.UInfos:
        self.configured.append(dict(
            generator=generator, axesToMove=axesToMove,
            breakpoints=breakpoints, exposure=exposure))
        return None


def same_generator(a, b):
    a, b = dict(a.to_dict()), dict(b.to_dict())
    a.pop("duration"), b.pop("duration")
    return repr(a) == repr(b)


@harness("C22", functions=[RC + ":RunnableController.validate",
                           RC + ":RunnableController.configure",
                           RC + ":RunnableController.do_configure",
                           RC + ":RunnableController._part_params"],
         rand=500, concrete_only=True, bounded="1 to 4 parts with a minimum "
         "duration, a grid or an exposure of their own, seeded sample")
def whole_validate(vc):
    n = vc.int("parts", 1, 4)
    parts = []
    exposed = False
    for i in range(n):
        dead = None
        if not exposed and vc.choice("exposes%d" % i, [False, True]):
            dead, exposed = vc.choice("dead", [0.0, 0.01, 0.25]), True
        parts.append(Picky("p%d" % i).want(
            vc.choice("least%d" % i, [0.0, 0.3, 1.0, 5.0]),
            vc.choice("grid%d" % i, [None, None, 0.25, 0.5]), dead,
            vc.choice("restless%d" % i, [False] * 9 + [True]),
            vc.choice("strict%d" % i, [None, None, "easy", "strict"])))
    c = controller("runnable", FakeProcess(), parts=parts)
    c.init()
    d = vc.choice("duration", [0.0, 0.3, 0.5, 2.0])
    g = CompoundGenerator([LineGenerator("y", "mm", 0, 1, 2),
                           LineGenerator("x", "mm", 0, 1, 5)], [], [], d)
    axes = vc.choice("axes", [["x"], ["x", "y"], ["y", "x"]])
    kw = {}
    if exposed:
        e = vc.choice("exposure", [None, 0.0, 0.1, 99.0])
        if e is not None:
            kw["exposure"] = e
    bp = vc.choice("breakpoints", [None, [2, 3], [2, 3, 5], [10]])
    if len(axes) == 1 and bp:
        bp = bp[:2] if len(bp) > 1 else [4]
    if bp is not None:
        kw["breakpoints"] = bp
    before = g.to_dict()
    how = vc.choice("how", ["validate", "configure"])
    r = vc.call(getattr(c, how), generator=g, axesToMove=axes, **kw)
    if any(p.restless for p in parts):
        vc.check("parameters that never suit all parts are refused",
                 r.raised((ValueError, AssertionError)))
        vc.check("without configuring anything",
                 all(not p.configured for p in parts))
        return
    if not r.ok and r.raised(AssertionError) and d != 0 and any(
            q.strict == "strict" and q.dead is None and d < q.least
            for q in parts):
        vc.check("nothing is configured with refused parameters",
                 all(not q.configured for q in parts))
        return
    vc.check("parameters that suit all parts are found (%r)" % (r.exc,), r.ok)
    if not r.ok:
        return
    p = r.value
    vc.check("the parameters are given", p is not None)
    if p is None:
        return
    for part in parts:
        x = {"exposure": p.exposure} if exposed else {}
        y = x if part.dead is not None else {}
        vc.check("every part is happy with them",
                 part.tweak(p.generator, **y) == [])
        vc.check("every part was asked about them last",
                 part.asked and part.asked[-1]["generator"].duration
                 == p.generator.duration and part.asked[-1].get(
                     "exposure", x.get("exposure")) == x.get("exposure"))
    vc.check("no shorter than the longest duration asked for",
             all(x <= p.generator.duration for q in parts
                 for x in q.durations))
    vc.check("what no part asked to change is as it was given",
             list(p.axesToMove) == list(axes)
             and list(p.breakpoints or []) == list(bp or [])
             and same_generator(p.generator, g))
    if not any(q.least > d or q.grid for q in parts):
        vc.check("the duration is kept if it suits all parts",
                 p.generator.duration == d)
    if how == "validate":
        vc.check("nothing is configured", all(
            not q.configured for q in parts))
        vc.check("the state is still Ready", c.state.value == "Ready")
        # what validate gives is what configure takes
        r2 = vc.call(c.validate, **{k: getattr(p, k) for k in p.call_types})
        vc.check("validating them again keeps them", r2.ok
                 and r2.value.generator.duration == p.generator.duration
                 and (not exposed or r2.value.exposure == p.exposure))
    else:
        for q in parts:
            vc.check("each part is configured once with them",
                     len(q.configured) == 1 and all(
                         q.configured[0][k].duration == v.duration
                         if k == "generator"
                         else list(q.configured[0][k] or []) == list(v or [])
                         if k in ("axesToMove", "breakpoints")
                         else q.configured[0][k] == v
                         for k, v in ((k, getattr(p, k))
                                      for k in q.configured[0])))
        vc.check("all steps of the generator are to be done",
                 c.total_steps.value == 10 and c.completed_steps.value == 0)


FREQS = [3200.0, 3199.98, 1000.0, 2500.3, 5000.0, 4423.0]


def fake_np(vc):
    """ceil and floor by what defines them: a whole number within one"""

    class FakeNp:
        n, ceiled, floored = 0, 0, 0

        @classmethod
        def whole(cls, base):
            # a whole number, as a whole difference from another one: the
            # solver then branches on the difference
            cls.n += 1
            return base + vc.int("whole%d" % cls.n)

        @classmethod
        def ceil(cls, x):
            i = cls.ceiled = cls.whole(cls.ceiled)
            vc.assume(vc.And(i - 1 < x, x <= i))
            return i

        @classmethod
        def floor(cls, x, near=None):
            i = cls.floored = cls.whole(cls.floored if near is None else near)
            vc.assume(vc.And(i <= x, x < i + 1))
            return i

        @staticmethod
        def isclose(a, b):
            return abs(a - b) <= 1e-8 + 1e-5 * abs(b)

    return FakeNp


@harness("C22", functions=[
    M + ":PmacChildPart.get_aligned_duration_with_servo_frequency"],
    rand=600, covers=["aligned"], timeout_ms=10000)
def servo(vc):
    np = None
    if vc.sym:
        np = fake_np(vc)
        vc.patch(pm, "np", np)
    f = vc.choice("frequency", FREQS)
    d = vc.real("duration", 0.000001, 1000, pool=[
        0.001, 0.0017, 0.0082, 0.0175, 0.1, 0.33333, 1.0, 7.0])
    align = PmacChildPart.get_aligned_duration_with_servo_frequency
    a = align(f, d)
    vc.cover("aligned")
    # the half duration is sent in microseconds
    vc.check("not shortened by more than that and the jitter allowed for",
             vc.le(d - 0.000002 - 0.0041 / f - 0.000000003, a))
    vc.check("not lengthened by a whole servo cycle or more",
             vc.le(a, d + 2.0 / f))
    vc.check("it is within the microseconds and jitter of a whole number of "
             "servo cycles for half of it", whole(np, f, a))
    vc.check("aligning it again keeps it", vc.close(align(f, a), a)
             if vc.sym else align(f, a) == a)


def whole(np, f, a):
    import math
    k = a * 0.5 * f
    up = k + 0.0021 + f * 0.0000010001
    if np:
        return np.floor(up, np.ceiled) >= k - 0.000001
    return math.floor(up) >= k - 0.000001


@harness("C22", functions=[
    M + ":PmacChildPart.calculate_duration_from_first_two_points"],
    rand=300, covers=["moving", "still"])
def guess(vc):
    from checks.C10 import Pt, motor
    POS = [-3.0, 0.0, 0.0, 0.5, 2.0]
    part = PmacChildPart("pmac", "PMAC")
    top = {a: vc.real("max " + a, pool=[0.1, 1.0, 50.0]) for a in "xy"}
    for a in "xy":
        vc.assume(top[a] > 0)
    p, q = [Pt(0.0, {}, {a: vc.real(k + a, pool=POS) for a in "xy"}, {})
            for k in ("first ", "second ")]
    axes = {a: motor(max_velocity=top[a], axis=k)
            for a, k in (("x", "A"), ("y", "B"))}
    d = part.calculate_duration_from_first_two_points(axes, p, q)
    dist = {a: q.positions[a] - p.positions[a] for a in "xy"}
    vc.check("a duration is found", d > 0)
    vc.check("in which every motor can get from one to the other", vc.And(*[
        vc.And(vc.le(dist[a], top[a] * d * 1.000000001),
               vc.le(-dist[a], top[a] * d * 1.000000001)) for a in "xy"]))
    still = vc.And(*[dist[a] == 0 for a in "xy"])
    if still:
        vc.cover("still")
    else:
        vc.cover("moving")
        vc.check("and which is no longer than one of them needs", vc.Or(*[
            vc.Or(vc.close(top[a] * d, dist[a]), vc.close(
                top[a] * d, -dist[a])) for a in "xy"]))


@harness("C22", functions=[
    M + ":PmacChildPart.on_validate",
    M + ":PmacChildPart.calculate_generator_duration",
    M + ":PmacChildPart.taking_part_in_scan"], rand=600, concrete_only=True,
    bounded="line and raster scans of one or two axes, seeded sample")
def pmac_validate(vc):
    part = PmacChildPart("pmac", "PMAC")
    trigger = vc.choice("trigger", TRIGGERS + [None])
    gap = vc.choice("gap", [None, 0.1])
    f = vc.choice("frequency", FREQS)
    motors = {a: FakeMotor("BRICK2CS1," + k, max_velocity=v, percent=50.0)
              for a, k, v in (("x", "A", 4.0), ("y", "B", 0.5))}
    if vc.choice("unmapped", [False, False, False, True]):
        motors["x"].cs.value = ""
    brick = FakeBrick(sorted(motors), f)
    blocks = {"M:" + k: m for k, m in motors.items()}
    blocks["PMAC"] = brick
    ctx = FakeContext(blocks)
    a, b = vc.choice("from to", [(0.0, 1.0), (1.0, 0.0), (-2.0, -1.0),
                                 (2.0, 2.0)])
    n = vc.choice("n", [1, 2, 5])
    names = vc.choice("names", [["x"], ["y"], ["x", "y"], ["other"]])
    gens = [LineGenerator(k, "mm", a, b, n) for k in names]
    d = vc.choice("duration", [0.0, -0.1, 0.001, 0.0082, 0.3, 1.0, 2.0])
    cont = vc.choice("continuous", [True, False])
    g = CompoundGenerator(gens, [], [], d, continuous=cont, delay_after=0.25)
    axes = vc.choice("axes", [names, names[-1:], []])
    r = vc.call(Hooks(part, ctx, generator=g, axesToMove=axes, part_info=infos(
        trigger, gap, 0.01)).validate)
    if "other" in axes:
        vc.check("axes that are not there are refused",
                 r.raised(AssertionError))
        return
    if d < 0:
        vc.check("a negative duration is refused", r.raised(AssertionError))
        return
    vc.check("a possible scan is accepted (%r)" % (r.exc,), r.ok)
    if not r.ok:
        return
    tweaks = r.value
    if tweaks is None:
        tweaks = []
    elif isinstance(tweaks, ParameterTweakInfo):
        tweaks = [tweaks]
    tweaks = list(tweaks)
    vc.check("it can only tweak the generator", len(tweaks) <= 1 and all(
        t.parameter == "generator" for t in tweaks))
    every = trigger in (MotionTrigger.EVERY_POINT, None)
    taking = bool(axes) or trigger != MotionTrigger.NONE
    guessable = not (axes and "x" in axes and motors["x"].cs.value == "")
    got = tweaks[0].value if tweaks else g
    if tweaks:
        vc.check("only its duration", same_generator(got, g)
                 and got is not g and g.duration == d)
    align = PmacChildPart.get_aligned_duration_with_servo_frequency
    if d == 0 and not (taking and guessable):
        vc.check("no duration is guessed without knowing", not tweaks)
        return
    want = d
    if d == 0:
        if not axes:
            want = 1e-6
        elif cont and g.size > 1:
            g.prepare()
            p, q = g.get_point(0), g.get_point(1)
            top = {"x": 2.0, "y": 0.25}
            want = max([abs(p.positions[k] - q.positions[k]) / top[k]
                        for k in axes])
            want = want or 1e-6
        else:
            want = max(gap or 0.0, 0.002)
    if every:
        vc.check("aligned to the servo cycle", got.duration == align(f, want)
                 or abs(got.duration - align(f, want)) <= 1e-9)
    else:
        vc.check("the duration asked for or guessed",
                 abs(got.duration - want) <= 1e-12)
    vc.check("a duration is left", got.duration > 0)
    r = vc.call(Hooks(part, ctx, generator=got, axesToMove=axes,
                      part_info=infos(trigger, gap, 0.01)).validate)
    vc.check("validating that again changes nothing",
             r.ok and (r.value is None or len(list(
                 [r.value] if isinstance(r.value, ParameterTweakInfo)
                 else r.value)) == 0))


@harness("C22", functions=[
    "malcolm.modules.scanning.parts.detectorchildpart:DetectorChildPart." + x
    for x in ("on_validate", "_configure_args")], rand=500,
    concrete_only=True, bounded="up to 3 rows of detectors, seeded sample of "
    "durations, exposures, dead times and frames per step")
def detector_rows(vc):
    """what a detector tweaks in the table of detectors, and that it settles"""
    from malcolm.core import TableMeta
    from malcolm.modules.scanning.infos import DetectorMutiframeInfo
    from malcolm.modules.scanning.parts import DetectorChildPart
    from malcolm.modules.scanning.util import DetectorTable
    from checks.C09 import FakeDetector, FakeContext, FakeRegistrar, TAKES
    d = vc.choice("duration", [0.1, 1.0, 0.35])
    dead = vc.choice("dead", [0.0, 0.01, 0.05])
    frames = vc.choice("frames", [0, 1, 1, 2, 5])
    exposure = vc.choice("exposure", [0.0, 0.0, 0.015, 0.02, 0.3])
    row = vc.choice("row", ["first", "last", "middle", "disabled", "none"])
    multi = vc.choice("multiplied", ["det", "det", "other", "no"])
    takes = list(TAKES)
    if vc.choice("no exposure", [False, False, False, True]):
        takes.remove("exposure")
    g = CompoundGenerator([LineGenerator("y", "mm", 0, 1, 2),
                           LineGenerator("x", "mm", 0, 1, 5)], [], [], d)
    g.prepare()
    asked = []

    def validate(kw):
        asked.append(dict(kw))
        if "exposure" in takes:
            most = kw["generator"].duration - dead
            e = kw.get("exposure", 0.0)
            assert e <= most + 1e-9, "exposure too long"
            kw["exposure"] = e or most
        return kw

    child = FakeDetector(takes, validate)
    part = DetectorChildPart("DET", "det", True)
    part.registrar = FakeRegistrar()
    ctx = FakeContext(child)
    info = {"m": [DetectorMutiframeInfo(multi)]} if multi != "no" else {}
    others = [[True, "OTHER", "other", 0.3, 1], [False, "X", "x", 0.0, 4]]
    mine = [row != "disabled", "DET", "det", exposure, frames]
    rows = {"first": [mine] + others, "last": others + [mine],
            "middle": [others[0], mine, others[1]],
            "disabled": others + [mine], "none": others}[row]
    meta = TableMeta.from_table(DetectorTable, "d")
    table = meta.validate(DetectorTable.from_rows(rows))
    for i in range(5):
        r = vc.call(Hooks(
            part, ctx, part_info=info, generator=g, fileDir="/d",
            detectors=table, axesToMove=["x"]).validate)
        if not r.ok:
            break
        tweaks = {t.parameter: t.value for t in list(r.value or [])}
        vc.check("nothing but the table of detectors is tweaked",
                 set(tweaks) <= {"detectors"})
        if "detectors" not in tweaks:
            break
        table = meta.validate(tweaks["detectors"])
    got = [list(x) for x in table.rows()]
    takes_part = row not in ("disabled", "none")
    vc.check("the rows of other detectors are kept",
             [x for x in got if x[1] != "DET"] == others)
    now = [x for x in got if x[1] == "DET"]
    bad = takes_part and (
        (exposure and "exposure" not in takes and multi != "det")
        or (frames > 1 and multi != "det")
        or (exposure and "exposure" in takes
            and (exposure + dead) * max(frames, 1) > d + 1e-9))
    guess = takes_part and frames == 0
    if takes_part and not exposure and dead * frames >= d:
        return  # there is no such exposure
    if guess and "exposure" not in takes and exposure:
        return  # nobody says what to do
    if guess and exposure and not bad:
        n = 0
        while (exposure + dead) * (n + 1) <= d + 1e-9:
            n += 1
        if n > 1 and multi != "det":
            bad = True
    if bad:
        vc.check("what the detector cannot do is refused", not r.ok)
        return
    vc.check("it settles (%r)" % (r.exc,), r.ok and not tweaks)
    if not r.ok or tweaks:
        return
    vc.check("the detector has one row", len(now) == 1)
    if len(now) != 1:
        return
    enable, _, mri, e, f = now[0]
    vc.check("it takes part if told to", enable is takes_part or
             bool(enable) == takes_part)
    vc.check("of its mri", mri == "det")
    if not takes_part:
        vc.check("a detector that does not take part is not asked",
                 not asked)
        return
    if not guess:
        vc.check("the frames per step are as given", f == frames)
    elif not exposure:
        vc.check("one frame per step if nothing was given", f == 1)
    else:
        vc.check("as many frames as fit (%s of %s)" % (f, n),
                 f >= 1 and (exposure + dead) * f <= d + 1e-9 and f >= n - 1
                 and (f == n or abs(d / (exposure + dead) - n) < 1e-6))
    if exposure:
        vc.check("the exposure is as given", abs(e - exposure) < 1e-12)
    elif "exposure" in takes:
        vc.check("the exposure is the longest that fits",
                 abs(e - (d / f - dead)) < 1e-9)
    last = asked[-1]
    vc.check("the detector was asked about its share of the scan",
             abs(last["generator"].duration - d / f) < 1e-12
             and last["fileDir"] == "/d" and last["formatName"] == "DET")


# ---- the parameters the parts ask for ----
with Anno("pee"):
    AP = str
with Anno("queue"):
    AQ = float
with Anno("detectors"):
    ADets = DetectorTable


def asker(name, kind, rows):
    """a part that wants extra parameters, and says so when it is set up"""
    part = Part(name)
    part.got = []

    def note(**k):
        part.got.append(k)

    if kind in ("p required", "then q"):
        @add_call_types
        def func(p: AP) -> hooks.UInfos:
            note(p=p)
    elif kind == "p default":
        @add_call_types
        def func(p: AP = "dee") -> hooks.UInfos:
            note(p=p)
    elif kind == "p empty":
        @add_call_types
        def func(generator: hooks.AGenerator, p: AP = "") -> hooks.UInfos:
            note(p=p)
    elif kind == "q default":
        @add_call_types
        def func(axesToMove: hooks.AAxesToMove, breakpoints:
                 hooks.ABreakpoints, q: AQ = 0.0) -> hooks.UInfos:
            note(q=q)
    elif kind == "both":
        @add_call_types
        def func(q: AQ, p: AP = "eff") -> hooks.UInfos:
            note(p=p, q=q)
    elif kind == "table":
        @add_call_types
        def func(detectors: ADets = None) -> hooks.UInfos:
            note(detectors=detectors)
    else:
        @add_call_types
        def func(generator: hooks.AGenerator) -> hooks.UInfos:
            note()

    @add_call_types
    def other(q: AQ = 2.5) -> hooks.UInfos:
        note(q=q)

    def info(f):
        i = ConfigureHook.create_info(f)
        if kind == "table":
            i.defaults["detectors"] = DetectorTable.from_rows(rows)
            cols = i.metas["detectors"].elements
            cols["name"].set_writeable(False)
            cols["mri"].set_writeable(False)
        return i

    def setup(registrar):
        part.reg = registrar
        registrar.hook(ConfigureHook, func)
        if kind != "silent":
            registrar.report(info(func))
    part.setup = setup
    part.other = lambda: part.reg.report(info(other))
    part.asks = {"p required": [("p", None)], "then q": [("q", 2.5)],
                 "p default": [("p", "dee")], "p empty": [("p", "")],
                 "q default": [("q", 0.0)],
                 "both": [("q", None), ("p", "eff")],
                 "table": [("detectors", rows)], "silent": []}[kind]
    return part


ROWS = [[[True, "d1", "m1", 0.0, 1]], [],
        [[True, "d2", "m2", 0.0, 5], [False, "d3", "m3", 0.0, 1]]]


@harness("C22", functions=[
    RC + ":update_configure_model",
    RC + ":RunnableController.update_configure_params",
    RC + ":RunnableController.update_block_endpoints",
    "malcolm.modules.scanning.hooks:ConfigureHook.create_info"],
    rand=200, max_paths=4000, bounded="three parts that ask for up to two "
    "parameters each", covers=["required", "default", "rows"])
def parameters(vc):
    """configure and validate take what the parts ask for, no more"""
    kinds = [vc.choice("part%d" % i, [
        "silent", "p required", "p default", "p empty", "q default", "both",
        "table", "then q"]) for i in range(3)]
    vc.assume(kinds == sorted(kinds) or kinds.count("silent") == 0)
    parts = [asker("p%d" % i, k, r) for i, (k, r) in enumerate(
        zip(kinds, ROWS))]
    c = controller("runnable", parts=parts)
    c.init()
    for p, k in zip(parts, kinds):
        if k == "then q":
            p.other()
    asked = [x for p in parts for x in p.asks]
    required = {k for k, v in asked if v is None}
    defaults = {}
    for k, v in asked:
        if k not in required:
            defaults[k] = defaults.get(k, []) + v if k == "detectors" else v
    base = {"generator", "axesToMove", "breakpoints"}
    for name in ("configure", "validate"):
        m = c.block_view()[name].meta
        vc.check("%s takes what the parts ask for" % name,
                 set(m.takes.elements) == base | {k for k, v in asked}
                 and set(m.returns.elements) == set(m.takes.elements))
        vc.check("what a part cannot do without is required",
                 set(m.takes.required) == {"generator"} | required)
        got = {k: v for k, v in m.defaults.items() if k not in base}
        if "detectors" in got:
            vc.cover("rows")
            got["detectors"] = [list(x) for x in got["detectors"].rows()]
        vc.check("with the defaults of the parts", got == defaults)
        vc.check("that can be written, and read back", all(
            x.writeable for x in m.takes.elements.values()) and not any(
            x.writeable for x in m.returns.elements.values()))
    g = CompoundGenerator([LineGenerator("x", "mm", 0, 1, 5)], [], [], 0.5)
    given = {k: {"p": "gee", "q": 7.5}[k] for k in required}
    for k in defaults:
        if k != "detectors" and vc.flag("given " + k):
            given[k] = {"p": "gee", "q": 7.5}[k]
    if "then q" in kinds:
        return
    r = vc.call(c.block_view().configure, generator=g, axesToMove=["x"],
                **given)
    vc.check("configure takes them", r.ok)
    if required:
        vc.cover("required")
    if defaults:
        vc.cover("default")
    for p in parts:
        for k, v in p.asks:
            vc.check("each part gets what it asked for, as given or else "
                     "its default", len(p.got) == 1 and (
                         [list(x) for x in p.got[0][k].rows()]
                         if k == "detectors" else p.got[0][k])
                     == given.get(k, defaults.get(k)))
