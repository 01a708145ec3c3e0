"""PMAC trajectories pass through every step of the scan at the right time"""
import math

from scanpointgenerator import (
    ArrayGenerator, CompoundGenerator, LineGenerator, LissajousGenerator,
    SpiralGenerator, StaticPointGenerator)

from pyvc.api import harness
from pyvc.rt import LoopContract
from pyvc.seqs import SymList
from pyvc.values import And
from checks.lib import Hooks
from checks.pmaclib import (
    FakeBrick, FakeContext, FakeMotor, FakeRegistrar, TRIGGERS, infos)

import malcolm.modules.pmac.parts.pmacchildpart as pm
from malcolm.modules.pmac.infos import MotorInfo
from malcolm.modules.pmac.parts import PmacChildPart
from malcolm.modules.pmac.util import cs_axis_mapping, point_velocities
from malcolm.modules.scanning.infos import MotionTrigger

M = "malcolm.modules.pmac.parts.pmacchildpart"
FNS = [M + ":PmacChildPart." + x for x in (
    "on_configure", "on_run", "update_step", "write_profile_points",
    "calculate_generator_profile", "create_generator_profile_every_point",
    "create_generator_profile_sparse", "add_generator_point_pair",
    "add_sparse_point", "add_profile_point", "add_tail_off", "insert_gap",
    "calculate_profile_from_velocities", "get_some_points", "move_to_start")]

AVERAGE, REAL, AVERAGE_CURRENT, ZERO = 0, 1, 2, 3
# what the GPIOs are set to: nothing done, live, dead, mid, all off
PROGRAMS = {
    MotionTrigger.NONE: dict(join=0, start=0, mid=0, end=0, turn=0),
    MotionTrigger.ROW_GATE: dict(join=0, start=1, mid=0, end=8, turn=0),
    MotionTrigger.EVERY_POINT: dict(join=1, start=1, mid=4, end=2, turn=8),
}


def make_generator(vc, bounds_needed=False):
    kind = vc.choice("generator", [
        "line", "snake", "unidirectional", "spiral", "array", "static",
        "static outer", "lissajous", "static axis", "diagonal"])
    n = vc.int("n", 1, 40)
    m = vc.int("m", 1, 5)
    dur = vc.choice("duration", [0.001, 0.01, 0.3, 1.0, 2.5, 4.0, 7.0, 9.0])
    delay = vc.choice("delay", [0.0, 0.0, 0.0, 0.5, 6.0])
    cont = vc.choice("continuous", [True, True, False])
    size = vc.choice("size", [0.01, 0.1, 1.0])
    x = LineGenerator("x", "mm", 0.0, size, n)
    if kind == "line":
        gens = [x]
    elif kind == "snake":
        gens = [LineGenerator("y", "mm", 0, 0.3, m),
                LineGenerator("x", "mm", 0, size, n, alternate=True)]
    elif kind == "unidirectional":
        gens = [LineGenerator("y", "mm", 0, 0.3, m), x]
    elif kind == "diagonal":
        gens = [LineGenerator(["x", "y"], ["mm", "mm"], [0, 1], [size, 0], n)]
    elif kind == "spiral":
        gens = [SpiralGenerator(["x", "y"], ["mm", "mm"], [0, 0], size,
                                scale=size / 3)]
    elif kind == "lissajous":
        gens = [LissajousGenerator(["x", "y"], ["mm", "mm"], [0, 0],
                                   [size, size], 2, n * 4)]
    elif kind == "array":
        pts, at = [], 0.0
        for i in range(max(n, 2)):
            at += vc.choice("hop%d" % i, [0.1, 0.1, 0.1, 0.2, -0.1])
            pts.append(at * size)
        gens = [ArrayGenerator("x", "mm", pts)]
    elif kind == "static":
        gens = [StaticPointGenerator(n)]
    elif kind == "static outer":
        gens = [StaticPointGenerator(m), x]
    else:
        gens = [StaticPointGenerator(m, "t"), x]
    g = CompoundGenerator(gens, [], [], dur, continuous=cont,
                          delay_after=delay)
    g.prepare()
    # scanpointgenerator gets the bounds of a single point of a row scanned
    # backwards the wrong way round if it is asked for only that point
    get_points = g.get_points

    def fixed_get_points(start, finish):
        if finish == start + 1 and start > 0:
            return get_points(start - 1, finish)[1:]
        return get_points(start, finish)
    g.get_points = fixed_get_points
    return g


def joined(g, i):
    a, b = g.get_point(i), g.get_point(i + 1)
    if not a.upper:
        return True
    return a.delay_after == 0 and all(
        a.upper[k] == b.lower[k] for k in a.upper)


class Rig:
    def __init__(self, vc, g, axes, trigger, gap, interval, motors):
        self.brick = FakeBrick(sorted(motors))
        blocks = {"M:" + k: v for k, v in motors.items()}
        blocks["PMAC"] = self.brick
        self.ctx = FakeContext(blocks)
        self.part = PmacChildPart("pmac", "PMAC")
        self.part.registrar = self.reg = FakeRegistrar()
        self.g, self.axes = g, axes
        self.info = infos(trigger, gap, interval)

    def configure(self, done, todo):
        Hooks(self.part, self.ctx, part_info=self.info, generator=self.g,
              axesToMove=self.axes).configure(done, todo)

    def run(self):
        Hooks(self.part, self.ctx).run()


ASSUMPTIONS = [
    "floats are treated as reals in the proof; the executable contract on "
    "the unmodified code compares with a relative tolerance of 1e-9",
    "the brick is a recorder: it takes what it is given by writeProfile and "
    "moves as it is told; the motors move linearly between profile points "
    "inside a row",
    "velocity profiles come from the velocity_profile library; its profile "
    "of a move with a settle time and a final velocity does not end where it "
    "should, so settle times are only sampled for step scans; an assertion of "
    "its own math excludes the sample",
    "scanpointgenerator is trusted, except that the bounds it gives for a "
    "single point of a row scanned backwards are replaced by the right ones",
]
U = "malcolm.modules.pmac.util"
INF = "malcolm.modules.pmac.infos"


def motor(acceleration=1.0, max_velocity=1.0, low=0.0, high=0.0, dial=None,
          axis="A", at=0.0):
    dial = (low, high) if dial is None else dial
    return MotorInfo(
        cs_axis=axis, cs_port="BRICK2CS1", acceleration=acceleration,
        resolution=0.001, offset=0.0, max_velocity=max_velocity,
        current_position=at, scannable="x", velocity_settle=0.0, units="mm",
        user_high_limit=high, user_low_limit=low, dial_high_limit=dial[1],
        dial_low_limit=dial[0])


class Pt:
    def __init__(self, duration, lower, positions, upper, delay=0.0):
        self.duration, self.delay_after = duration, delay
        self.lower, self.positions, self.upper = lower, positions, upper


class Pts:
    """what scanpointgenerator's Points is to the trajectory: a sequence of
    points that also has their durations"""

    def __init__(self, points):
        self.points = points
        self.duration = [p.duration for p in points]

    def __getitem__(self, i):
        return self.points[i]

    def __len__(self):
        return len(self.points)


TIMES = [1e-6, 0.002, 0.1, 1.0, 3.9, 4.0, 4.1, 8.0, 11.9, 12.0, 13.0]
POS = [-3.0, -1.0, 0.0, 0.5, 2.0, 10.0]


def some_point(vc, d=None):
    if d is None:
        d = vc.real("duration", pool=TIMES)
        vc.assume(d > 0)
    names = ("x", "y")
    return Pt(d, *[{a: vc.real(k + a, pool=POS) for a in names}
                   for k in ("lower ", "position ", "upper ")])


def started(vc, trigger):
    """A part that has put one point into its profile"""
    part = PmacChildPart("pmac", "PMAC")
    part.axis_mapping = {"x": motor(axis="A"), "y": motor(axis="B")}
    part.output_triggers = trigger
    part.profile = dict(timeArray=[0.1], velocityMode=[1], userPrograms=[0],
                        a=[vc.real("a0", pool=POS)],
                        b=[vc.real("b0", pool=POS)])
    part.completed_steps_lookup = [0]
    return part


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def consistent(vc, part):
    n = len(part.completed_steps_lookup)
    vc.check("one entry per profile point in every array",
             {len(v) for v in part.profile.values()} == {n})
    for t in part.profile["timeArray"][1:]:
        vc.check("no profile point takes longer than allowed",
                 vc.le(t, 4.0))
        vc.check("no profile point goes back in time", t >= 0)


@harness("C10", functions=[M + ":PmacChildPart.add_profile_point"], rand=300,
         covers=["whole", "split"], bounded="a move of at most 13 s, so at "
         "most 4 profile points (all times and positions up to that)")
def one_move(vc):
    part = started(vc, MotionTrigger.EVERY_POINT)
    t = vc.real("time", 0, 13, pool=TIMES)
    x, y = vc.real("x", pool=POS), vc.real("y", pool=POS)
    a0, b0 = part.profile["a"][0], part.profile["b"][0]
    part.add_profile_point(t, 2, 4, 7, {"x": x, "y": y})
    consistent(vc, part)
    times = part.profile["timeArray"][1:]
    n = len(times)
    vc.cover("whole" if n == 1 else "split")
    vc.check("it takes the time asked for", vc.close(total(times), t))
    vc.check("it ends at the position, mode and signal asked for", vc.And(
        vc.close(part.profile["a"][-1], x), vc.close(part.profile["b"][-1], y),
        part.profile["velocityMode"][-1] == 2,
        part.profile["userPrograms"][-1] == 4))
    vc.check("which only the end is marked with", vc.And(*[
        vc.And(part.profile["velocityMode"][i] == 0,
               part.profile["userPrograms"][i] == 0)
        for i in range(1, n)]))
    vc.check("steps completed count from the end of it",
             part.completed_steps_lookup == [0] * n + [7])
    done = 0
    for i in range(n):
        done = done + times[i]
        for c, z0, z in (("a", a0, x), ("b", b0, y)):
            vc.check("it goes straight there", vc.close(
                (part.profile[c][i + 1] - z0) * t, (z - z0) * done))


@harness("C10", functions=[M + ":PmacChildPart.add_generator_point_pair",
                           M + ":PmacChildPart.get_user_program"], rand=200,
         covers=["joined", "end of row"])
def one_step(vc):
    part = started(vc, MotionTrigger.EVERY_POINT)
    d = vc.real("duration", pool=TIMES[:6])
    vc.assume(vc.And(d > 0, d <= 8))
    p = some_point(vc, d)
    joined = vc.flag("joined")
    num = vc.int("step", 0, 1000000)
    part.add_generator_point_pair(p, num, joined)
    consistent(vc, part)
    vc.cover("joined" if joined else "end of row")
    pr = part.profile
    vc.check("a step is two moves", len(pr["timeArray"]) == 3)
    vc.check("half of it to its position, half of it to its upper bound",
             vc.And(vc.close(pr["timeArray"][1] * 2, d),
                    vc.close(pr["timeArray"][2] * 2, d),
                    *[vc.And(vc.close(pr[c][1], p.positions[a]),
                             vc.close(pr[c][2], p.upper[a]))
                      for a, c in (("x", "a"), ("y", "b"))]))
    P = PROGRAMS[MotionTrigger.EVERY_POINT]
    vc.check("signals", pr["userPrograms"][1:] == [
        P["mid"], P["join"] if joined else P["end"]])
    vc.check("velocities", pr["velocityMode"][1:] == [
        AVERAGE, AVERAGE if joined else REAL])
    vc.check("the step is completed at its upper bound", vc.And(
        part.completed_steps_lookup[1] == num,
        part.completed_steps_lookup[2] == num + 1))


@harness("C10", functions=[M + ":PmacChildPart.add_sparse_point"], rand=300,
         covers=["skipped", "not linear", "end of row", "whole row skipped"])
def one_sparse_step(vc):
    """From any state in which a straight move of `waiting` seconds has been
    left out: afterwards the time in the profile and the time left out are
    still the time of all the steps"""
    trigger = vc.choice("trigger", [MotionTrigger.NONE,
                                    MotionTrigger.ROW_GATE])
    part = started(vc, trigger)
    d = vc.real("duration", pool=[0.001, 0.3, 1.0])
    vc.assume(vc.And(d > 0, d <= 2))
    waiting = vc.real("waiting", 0, 3, pool=[0.0, 0.0, 0.001, 1.0])
    part.time_since_last_pvt = waiting
    p = some_point(vc, d)
    joined, same = vc.flag("joined"), vc.flag("same velocity")
    k = vc.choice("index", [0, 1])
    pts = Pts([p, p] if k == 0 else [None and p or Pt(d, {}, {}, {}), p])
    before = len(part.profile["timeArray"])
    added = part.add_sparse_point(pts, k, joined, same)
    consistent(vc, part)
    pr = part.profile
    n = len(pr["timeArray"]) - before
    times = pr["timeArray"][before:]
    vc.check("it says whether it added anything", bool(added) == (n > 0))
    left = part.time_since_last_pvt
    vc.check("no time is lost", vc.close(total(times) + left, waiting + d))
    if joined and same:
        vc.cover("skipped")
        vc.check("a straight step inside a row is left out", n == 0)
        return
    vc.check("nothing is left out up to its upper bound", vc.And(
        left == 0, n > 0))
    vc.check("which it ends at", vc.And(vc.close(pr["a"][-1], p.upper["x"]),
                                        vc.close(pr["b"][-1], p.upper["y"])))
    P = PROGRAMS[trigger]
    vc.check("with the right signal", pr["userPrograms"][-1] == (
        P["join"] if joined else P["end"]))
    vc.check("and no other", all(u == 0 for u in pr["userPrograms"][1:-1]))
    if joined:
        vc.cover("not linear")
        vc.check("velocity is averaged inside a row",
                 pr["velocityMode"][-1] == AVERAGE)
    else:
        vc.cover("end of row")
        vc.check("the row ends with a definite velocity",
                 pr["velocityMode"][-1] in (REAL, AVERAGE_CURRENT))
    if waiting > 0 and not joined:
        # the steps left out and this one are one straight move
        vc.cover("whole row skipped")
        return
    # its position is passed in the middle of it
    done, hit = 0, False
    for i in range(n):
        done = done + times[i]
        hit = vc.Or(hit, vc.And(vc.close(done, waiting + d / 2),
                                vc.close(pr["a"][before + i],
                                         p.positions["x"]),
                                vc.close(pr["b"][before + i],
                                         p.positions["y"])))
    vc.check("its position is passed half way through it", hit)


@harness("C10", functions=[U + ":point_velocities"], rand=300,
         covers=["too fast", "fine"])
def velocities(vc):
    p = some_point(vc)
    top = vc.real("max velocity", pool=[0.1, 1.0, 100.0])
    vc.assume(top > 0)
    axes = {"x": motor(max_velocity=top), "y": motor(max_velocity=top)}
    at_entry = vc.flag("entry")
    r = vc.call(point_velocities, axes, p, at_entry)
    f = entry if at_entry else exit
    vs = {a: f(p, a) for a in "xy"}
    ok = vc.And(*[vc.And(vs[a] < top * 1.000001, -vs[a] < top * 1.000001)
                  for a in "xy"])
    slow = vc.And(*[vc.And(vs[a] <= top, -vs[a] <= top) for a in "xy"])
    if r.ok:
        vc.cover("fine")
        vc.check("no velocity above the maximum is accepted",
                 vc.And(*[vc.And(vc.le(vs[a], top * 1.000002),
                                 vc.le(-vs[a], top * 1.000002))
                          for a in "xy"]))
        vc.check("the velocity of a constant acceleration through the point",
                 vc.And(*[vc.close(r.value[a], vs[a]) for a in "xy"]))
    else:
        vc.cover("too fast")
        vc.check("refused with an explanation", r.raised(AssertionError))
        vc.check("only refused if it is too fast", vc.Not(slow))


@harness("C10", functions=[
    INF + ":MotorInfo.__init__", INF + ":MotorInfo.acceleration_time",
    INF + ":MotorInfo.ramp_distance",
    INF + ":MotorInfo.check_position_within_soft_limits",
    M + ":PmacChildPart.move_to_start", M + ":PmacChildPart.add_tail_off"],
    rand=300, covers=["start refused", "end refused", "moved", "ended"])
def limits(vc):
    part = PmacChildPart("pmac", "PMAC")
    low, high = vc.real("low", pool=POS), vc.real("high", pool=POS)
    dlow, dhigh = (vc.real("dial low", pool=[0.0, 0.0, -1.0]),
                   vc.real("dial high", pool=[0.0, 0.0, 1.0]))
    acc = vc.real("acceleration", pool=[0.1, 1.0, 100.0])
    vc.assume(acc > 0)
    m = motor(acc, 1e9, low, high, (dlow, dhigh))
    part.axis_mapping = {"x": m}
    part.output_triggers = MotionTrigger.ROW_GATE
    part.profile = dict(timeArray=[0.1], velocityMode=[1], userPrograms=[0],
                        a=[0.0])
    part.completed_steps_lookup = [0]
    part.min_turnaround = pm.MinTurnaround(0.002, 0.002)
    p = some_point(vc, vc.choice("exact duration", [1.0, 2.0]))
    part.steps_up_to = 1

    class Gen:
        def get_point(self, i):
            return p
    part.generator = Gen()

    class FakeProfile:
        t_total = 0.5

        def make_arrays(self):
            return [0.0, 0.5], [0.0, 0.0]
    if vc.sym:
        vc.stub(MotorInfo, "make_velocity_profile",
                lambda self, *a, **k: FakeProfile())
    limited = vc.Or(dlow != 0, dhigh != 0)

    def outside(x):
        return vc.And(limited, vc.Or(x < low, x > high))
    v = entry(p, "x")
    vc.assume(vc.And(v < 1e9, v > -1e9, exit(p, "x") < 1e9,
                     exit(p, "x") > -1e9))
    t = vc.If(v >= 0, v, -v) / acc
    t = vc.If(t >= 0.002, t, 0.002)
    start = p.lower["x"] - v * t / 2
    brick = FakeBrick(["x"])
    if not vc.sym:
        vc.assume(abs(v) / acc < 1e6)
        # stay away from the edge, where rounding decides
        vc.assume(abs(start - low) > 1e-9 and abs(start - high) > 1e-9)
    r = vc.call(part.move_to_start, brick, "BRICK2CS1", 0)
    if r.ok:
        vc.cover("moved")
        vc.check("no run-up from outside the soft limits",
                 vc.Not(outside(start)))
        vc.check("it goes to where the run-up begins",
                 vc.close(brick.log[-1][1]["a"], start))
    else:
        vc.assume("check the math" not in str(r.exc))
        vc.cover("start refused")
        vc.check("only refused outside the soft limits (%s)" % (
            type(r.exc).__name__), vc.And(r.raised(AssertionError),
                                          outside(start)))
    w = exit(p, "x")
    t = vc.If(w >= 0, w, -w) / acc
    stop = p.upper["x"] + w * t / 2
    if not vc.sym:
        vc.assume(abs(w) / acc < 1e2)
        vc.assume(abs(stop - low) > 1e-9 and abs(stop - high) > 1e-9)
    else:
        vc.assume(t <= 4)
    r = vc.call(part.add_tail_off)
    if r.ok:
        vc.cover("ended")
        vc.check("no tail-off to outside the soft limits",
                 vc.Not(outside(stop)))
        vc.check("it ends where the motor has slowed down",
                 vc.close(part.profile["a"][-1], stop))
        vc.check("in the time that takes", vc.And(
            vc.le(t, total(part.profile["timeArray"][1:])),
            part.profile["velocityMode"][-1] == ZERO))
    else:
        vc.cover("end refused")
        vc.check("only refused if it ends outside the soft limits",
                 vc.And(r.raised(AssertionError), outside(stop)))


class TickLoop(LoopContract):
    """ticks so far and what is carried over are the time so far"""

    def _list():
        return SymList("ticks", "int", weights={"sum": lambda t: t})
    havoc = {"time_array_ticks": _list, "ticks": "keep"}

    def inv(self, st):
        out, over = st.L["time_array_ticks"], st.L["overflow"]
        done = out.psum("sum") if hasattr(out, "psum") else sum(out)
        n = out.sym_len() if hasattr(out, "sym_len") else len(out)
        return [
            ("one tick count per time", n == st.i),
            ("ticks and carry are the time so far",
             (done + over) * pm.TICK_S == st.seq.psum("sum", st.i)),
            ("less than a tick is carried over", And(
                over <= 0.5, over > -0.5)),
        ]


@harness("C10", functions=[M + ":PmacChildPart.write_profile_points"],
         loops={(M, "PmacChildPart.write_profile_points", 1): TickLoop()},
         rand=400, covers=["written"])
def ticks(vc):
    """The times sent add up to the times wanted, however many there are"""
    part = PmacChildPart("pmac", "PMAC")
    if vc.sym:
        times = vc.reclist("times", [("t", "real", 0, 4)], lambda t: t,
                           {"sum": lambda t: t}, minlen=1,
                           maxn=pm.PROFILE_POINTS)
        part.profile = {"timeArray": times}

        class FakeNp:
            int32, float64 = "int32", "float64"

            @staticmethod
            def array(x, *a):
                return x
        vc.patch(pm, "np", FakeNp)
    else:
        n = vc.int("n", 1, 400)
        base = vc.choice("base", [0.0012345678, 1e-6 / 3, 0.1, 3.99999951])
        step = vc.choice("step", [0.0, 1e-7, 3.3e-7])
        times = [min(base + step * i, 4.0) for i in range(n)]
        part.profile = {"timeArray": list(times), "velocityMode": [0] * n,
                        "userPrograms": [0] * n, "a": [0.5] * n}
    brick = FakeBrick(["x"])
    part.write_profile_points(brick, "BRICK2CS1")
    vc.cover("written")
    vc.check("one profile is written", len(brick.log) == 1
             and brick.log[0][0] == "write")
    out = brick.log[0][1]["timeArray"]
    if vc.sym:
        d = out.psum("sum") * pm.TICK_S - times.psum("sum")
        vc.check("within half a tick of the time wanted", vc.And(
            d <= 0.5 * pm.TICK_S, d >= -0.5 * pm.TICK_S))
        vc.check("one for each", out.sym_len() == times.sym_len())
    else:
        want = got = 0.0
        vc.check("one for each", len(out) == len(times))
        for t, k in zip(times, out):
            want, got = want + t, got + int(k) * 1e-6
            vc.check("within half a tick of the time wanted, all along",
                     abs(want - got) <= 0.501e-6)
        vc.check("nothing is left over", all(
            len(v) == 0 for v in part.profile.values()))


CS = ["BRICK2CS1,A", "BRICK2CS1,B", "BRICK2CS1,Z", "BRICK2CS2,A", "",
      "BRICK2CS1,I", "BRICK2CS1"]


@harness("C10", functions=[U + ":cs_axis_mapping"], rand=600,
         covers=["mapped", "refused"])
def mapping(vc):
    names = ["x", "y", "z"]
    motors, cs = {}, {}
    for a in names:
        cs[a] = vc.choice("cs " + a, CS)
        v = vc.real("velocity " + a, pool=[0.5, 10.0])
        pc = vc.real("percent " + a, pool=[1.0, 50.0, 100.0])
        t = vc.real("accel time " + a, pool=[0.01, 1.0])
        vc.assume(vc.And(v > 0, pc > 0, pc <= 100, t > 0))
        motors[a] = FakeMotor(cs[a], v, pc, t, low=-5.0, high=7.0,
                              dial=(9.0, -9.0), offset=2.0, readback=3.0,
                              settle=0.25)
    want = vc.choice("axes", [["x"], ["x", "y"], ["y", "x"],
                              ["z", "x", "y"], ["x", "missing"], []])
    brick = FakeBrick(names)
    ctx = FakeContext({"M:" + k: m for k, m in motors.items()})
    r = vc.call(cs_axis_mapping, ctx, brick.layout.value, want)
    on = [tuple(cs.get(a, "").split(",")) for a in want]
    good = all(len(c) == 2 and c[1] in list("ABCUVWXYZ") for c in on) and \
        len({c[0] for c in on}) <= 1 and len({c[-1] for c in on}) == len(on)
    if not good:
        vc.cover("refused")
        vc.check("axes that are not one to one on one CS are refused (%s)" %
                 ["%s" % (c,) for c in on], r.exc is not None)
        return
    vc.cover("mapped")
    vc.check("axes on one CS are accepted", r.ok)
    if not r.ok:
        return
    vc.check("with a motor for each", set(r.value) == set(want))
    for a in want:
        m, f = r.value[a], motors[a]
        vc.check("with its port, axis and limits",
                 (m.cs_port, m.cs_axis, m.scannable) == (
                     cs[a].split(",")[0], cs[a].split(",")[1], a)
                 and (m.user_low_limit, m.user_high_limit) == (-5.0, 7.0)
                 and m.check_position_within_soft_limits(6.9)
                 and not m.check_position_within_soft_limits(7.1)
                 and not m.check_position_within_soft_limits(-5.1)
                 and m.current_position == 3.0 and m.velocity_settle == 0.25)
        top = f.maxVelocity.value * f.maxVelocityPercent.value / 100
        vc.check("with the percentage of its maximum velocity",
                 vc.close(m.max_velocity, top))
        vc.check("and the acceleration that takes it there", vc.close(
            m.acceleration * f.accelerationTime.value, top))


def near(a, b, tol):
    return abs(a - b) <= tol


@harness("C10", functions=FNS, rand=900, concrete_only=True,
         bounded="generators of up to 200 steps with the number of profile "
         "points sent at once cut down to 40..80 and batches of 7..40 steps, "
         "seeded sample")
def trajectory(vc):
    g = make_generator(vc)
    trigger = vc.choice("trigger", TRIGGERS + [None])
    moved = [a for a in ("x", "y") if a in g.axes]
    gap = vc.choice("gap", [None, 0.0, 0.1, 5.0])
    interval = vc.choice("interval", [0.002, 0.01])
    amax = {}
    motors = {}
    # velocities the scan needs
    speeds = {a: 0.1 for a in "xy"}
    vmax = {}
    for i in range(g.size):
        p = g.get_point(i)
        for a in moved:
            for d in (p.positions[a] - p.lower[a], p.upper[a] - p.positions[a]):
                speeds[a] = max(speeds[a], 6.5 * abs(d) / p.duration)
    for a in "xy":
        t = vc.choice("accel " + a, [0.05, 0.5, 3.0])
        v = speeds[a] * vc.choice("headroom " + a, [1.0, 2.0])
        motors[a] = FakeMotor("BRICK2CS1," + {"x": "A", "y": "B"}[a],
                              max_velocity=2 * v, percent=50.0, accel_time=t,
                              readback=vc.choice("at " + a, [0.0, 5.0, -7.5]),
                              settle=0.0 if g.continuous else vc.choice(
                                  "settle " + a, [0.0, 0.05]))
        amax[a], vmax[a] = v / t, v
    motors["spare"] = FakeMotor("BRICK2CS1,C")
    pp = vc.int("points at once", 40, 80)
    bp = vc.int("batch", 7, 40)
    if hasattr(pm, "PROFILE_POINTS"):
        vc.patch(pm, "PROFILE_POINTS", pp)
    if hasattr(pm, "BATCH_POINTS"):
        vc.patch(pm, "BATCH_POINTS", bp)
    axes = vc.choice("order", [moved, moved[::-1]])
    if "t" in g.axes and vc.flag("all axes"):
        # what only repeats does not move
        axes = ["t"] + axes
    taking = bool(moved) or trigger != MotionTrigger.NONE
    rig = Rig(vc, g, axes, trigger, gap, interval, motors)
    first = vc.choice("first", [0, 1, g.size // 2, g.size - 1])
    first = min(first, g.size - 1)
    todo = g.size - first
    if vc.flag("part of it"):
        todo = max(1, todo // 2)
    r = vc.call(rig.configure, first, todo)
    # an assertion of the velocity_profile library
    vc.assume(r.ok or "check the math" not in str(r.exc))
    vc.check("the scan can be configured (%r)" % (r.exc,), r.ok)
    if not r.ok:
        return
    log = rig.brick.log
    if not taking:
        vc.check("nothing to do, nothing done", log == [])
        r = vc.call(rig.run)
        vc.check("nor when run", r.ok and log == [])
        return
    eff = MotionTrigger.EVERY_POINT if trigger is None else trigger
    # ---- before the profile: GPIOs off, go to the start ----
    vc.check("first the GPIOs are reset", log[0][0] == "write"
             and list(log[0][1]["userPrograms"]) == [8]
             and log[0][1]["csPort"] == "BRICK2CS1"
             and log[1][0] == "execute")
    moves = [x for x in log if x[0].startswith("moveCS")]
    p0 = g.get_point(first)
    if moved:
        vc.check("one move to the start, waited for",
                 [x[0] for x in moves] == ["moveCS1_async"]
                 and len(rig.ctx.waited) == 1)
        kw = moves[0][1] if moves else {}
        for a in moved:
            v = entry(p0, a)
            t = max(abs(v) / amax[a], 0.002)
            want = p0.lower[a] - v * t / 2
            got = kw.get("ab"["xy".index(a)])
            vc.check("to where the run-up begins",
                     got is not None and vc.close(got, want))
            far = abs(motors[a].readback.value - want)
            full = vmax[a] ** 2 / amax[a]
            need = (far / vmax[a] + vmax[a] / amax[a] if far >= full
                    else 2 * (far / amax[a]) ** 0.5)
            vc.check("no faster than the motor can",
                     kw.get("moveTime", -1) >= need * 0.999)
        vc.check("only the axes of the scan move",
                 set(kw) == {"moveTime"} | {"ab"["xy".index(a)]
                                            for a in moved})
    else:
        vc.check("no move without axes", not moves)
    writes = [x[1] for x in log[2:] if x[0] == "write"]
    vc.check("one profile, for the right CS", len(writes) == 1
             and writes[0]["csPort"] == "BRICK2CS1")
    # ---- run it, feeding back how far it is ----
    r = vc.call(rig.run)
    vc.check("running executes the profile", r.ok and rig.brick.log[-1][0]
             == "execute")
    cb = rig.brick.pointsScanned.cb
    vc.check("progress is watched", cb is not None)
    if cb is None or not r.ok:
        return

    def written():
        return [x[1] for x in rig.brick.log[2:] if x[0] == "write"]

    def total():
        return sum(len(w["timeArray"]) for w in written())
    scanned = 0
    reports = []
    hop = vc.choice("hop", [1, 3, 17, 1000])
    for _ in range(100000):
        if scanned >= total():
            break
        scanned = min(scanned + hop, total())
        k = len(rig.reg.infos)
        cb(scanned)
        reports += [(scanned, x.steps) for x in rig.reg.infos[k:]]
    writes = written()
    # ---- put it together again ----
    for w in writes:
        lens = {len(v) for k, v in w.items() if k != "csPort"}
        vc.check("arrays of one length, no longer than allowed",
                 len(lens) == 1 and max(lens) <= (
                     pp if hasattr(pm, "PROFILE_POINTS") else 2000))
    vc.check("appended without starting a new profile",
             all("csPort" not in w for w in writes[1:]))
    cat = {}
    for w in writes:
        for k, v in w.items():
            if k != "csPort":
                cat.setdefault(k, []).extend(float(y) if k in "ab" else int(y)
                                             for y in v)
    vc.check("positions of just the axes of the scan",
             set(cat) == {"timeArray", "velocityMode", "userPrograms"} | {
                 "ab"["xy".index(a)] for a in moved})
    prog, mode = cat["userPrograms"], cat["velocityMode"]
    n = len(prog)
    times = [t * 1e-6 for t in cat["timeArray"]]
    vc.check("no move is too long", max(times) <= 4.0 + 1e-6)
    vc.check("no move goes back in time", min(times) >= 0)
    at, now = [], 0.0
    for t in times:
        now += t
        at.append(now)
    P = PROGRAMS[eff]
    ax = [(a, "ab"["xy".index(a)]) for a in moved]
    tick = 1.1e-6 * (len(writes) + 1)
    turn = max(0.002, gap or 0.0)
    ival = 0.002 if gap is None else interval
    k = 0
    # run-up
    need = ival
    for a in moved:
        need = max(need, abs(entry(p0, a)) / amax[a])
    vc.check("the run-up is long enough", times[0] >= need - tick)

    def is_at(j, pos):
        return all(near(cat[c][j], pos[a], 1e-9 + 1e-9 * abs(pos[a]))
                   for a, c in ax)
    vc.check("row starts at the lower bound of its first step, live",
             is_at(0, p0.lower) and prog[0] == P["start"]
             and mode[0] == REAL)
    done_at = []            # (profile index, steps done from there on)
    i = first
    end = first + todo
    while i < end:
        # steps of this row
        row = [i]
        while row[-1] + 1 < end and joined(g, row[-1]):
            row.append(row[-1] + 1)
        t0 = at[k]
        start = k
        marks = []
        t = t0
        for s in row:
            p = g.get_point(s)
            marks.append((t + p.duration / 2, p.positions, "mid", s))
            t += p.duration
            marks.append((t, p.upper, "join" if s != row[-1] else "end", s))
        # the profile points of the row
        k2 = k
        while k2 + 1 < n and at[k2 + 1] <= t + tick:
            k2 += 1
        for a, c in ax:
            span = max(abs(m[1][a] - p0.lower[a]) for m in marks) + 1e-6
            for mt, pos, what, s in marks:
                j = start
                while j + 1 < k2 and at[j + 1] < mt - tick:
                    j += 1
                # within move j -> j+1
                if j + 1 >= n:
                    break
                f = (mt - at[j]) / max(at[j + 1] - at[j], 1e-9)
                got = cat[c][j] + f * (cat[c][j + 1] - cat[c][j])
                exact = any(near(at[q], mt, tick) and near(
                    cat[c][q], pos[a], 1e-9 + 1e-9 * abs(pos[a]))
                    for q in (j, j + 1))
                vc.check("the %s of a step is passed at its time" % what,
                         exact or near(got, pos[a], 2e-4 * span))
        vc.check("a row lasts as long as its steps", k2 < n
                 and near(at[k2], t, tick) and is_at(k2, g.get_point(
                     row[-1]).upper))
        vc.check("a row ends with its end signal", prog[k2] == P["end"])
        # triggers inside the row
        inner = [(j, prog[j]) for j in range(start + 1, k2)]
        if eff == MotionTrigger.EVERY_POINT:
            want = [(mt, P[what]) for mt, _, what, _ in marks[:-1]]
            got = [(at[j], u) for j, u in inner if u != 0]
            vc.check("one trigger for the middle and the end of each step",
                     len(want) == len(got) and all(
                         near(x[0], y[0], tick) and x[1] == y[1]
                         for x, y in zip(want, got)))
        else:
            vc.check("no other signals in the row",
                     all(u == 0 for _, u in inner))
        vc.check("velocities inside a row are averaged",
                 all(mode[j] == AVERAGE for j, _ in inner))
        vc.check("the end of the row has a definite velocity",
                 mode[k2] in (REAL, AVERAGE_CURRENT))
        for mt, _, what, s in marks:
            if what != "mid":
                done_at.append((mt, s + 1))
        k = k2
        i = row[-1] + 1
        if i < end:
            # turnaround to the next row
            nxt = g.get_point(i)
            last = g.get_point(row[-1])
            k3 = k + 1
            stop = i
            while stop + 1 < end and joined(g, stop):
                stop += 1
            length = sum(g.get_point(s).duration
                         for s in range(i, stop + 1))
            stop = g.get_point(stop).upper
            while k3 < n and not (
                    is_at(k3, nxt.lower) and mode[k3] == REAL
                    and prog[k3] == P["start"]
                    and at[k3] - at[k] >= max(turn, last.delay_after)
                    * (1 if ax else 0) - tick
                    and any(near(at[j], at[k3] + length, tick)
                            and is_at(j, stop) for j in range(k3 + 1, n))):
                k3 += 1
            # settling there
            while k3 + 1 < n and is_at(k3 + 1, nxt.lower) and (
                    mode[k3 + 1], prog[k3 + 1]) == (REAL, P["start"]):
                k3 += 1
            vc.check("a turnaround leads to the next row", k3 < n)
            if k3 >= n:
                return
            gone = at[k3] - at[k]
            vc.check("no signals in a turnaround", all(
                prog[j] in (0, P["turn"]) for j in range(k + 1, k3)))
            for a, c in ax:
                top = motors[a].maxVelocity.value / 2
                for j in range(k + 1, k3 + 1):
                    dt = at[j] - at[j - 1]
                    vc.check("no faster than the motor allows",
                             abs(cat[c][j] - cat[c][j - 1]) <= top * (
                                 dt + 3e-6) * (1 + 1e-6) + 1e-9)
                # leaves with the velocity at the end of the row, arrives
                # with the velocity at the start of the next
                for (q, w, v) in ((k, k + 1, exit(last, a)),
                                  (k3, k3 - 1, entry(nxt, a))):
                    dt = abs(at[w] - at[q])
                    d = (cat[c][w] - cat[c][q]) * (1 if w > q else -1)
                    vc.check("a turnaround begins and ends at the speed of "
                             "its rows", abs(d - v * dt) <= amax[a] * (
                                 1.2) * dt * dt / 2 + 1e-5 * abs(v)
                             + 1e-8)
            k = k3
    # tail-off
    last = g.get_point(end - 1)
    # a long tail-off is split
    k4 = n - 1
    vc.check("the end of the scan is followed by a tail-off", k4 > k)
    if k4 <= k:
        return
    tail = at[k4] - at[k]
    need = ival
    for a, c in ax:
        v = exit(last, a)
        need = max(need, abs(v) / amax[a])
        want = last.upper[a] + v * abs(v) / amax[a] / 2
        vc.check("which ends where the motor has slowed down",
                 near(cat[c][k4], want, 1e-6 + 1e-9 * abs(want)))
    vc.check("and lasts long enough", near(tail, need, tick + 1e-6))
    vc.check("which ends at rest without a signal", mode[k4] == ZERO
             and prog[k4] == P["turn"])
    vc.check("nothing else follows", all(
        prog[j] == 0 and mode[j] == AVERAGE for j in range(k + 1, k4)))
    # progress
    if eff == MotionTrigger.EVERY_POINT:
        vc.check("progress is reported", len(reports) > 0)
        for sc, steps in reports:
            t = at[sc - 1]
            want = max([first] + [s for mt, s in done_at if mt <= t + tick])
            vc.check("progress is the steps done", steps == want)
    else:
        vc.check("no progress without a trigger for every point",
                 reports == [])


def entry(p, a):
    return 4 * (p.positions[a] - p.lower[a]) / p.duration - (
        p.upper[a] - p.lower[a]) / p.duration


def exit(p, a):
    return 4 * (p.upper[a] - p.positions[a]) / p.duration - (
        p.upper[a] - p.lower[a]) / p.duration
