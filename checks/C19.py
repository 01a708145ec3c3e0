"""PVs: an attribute shows what its readback PV last reported and a put is
written to its demand PV."""
import numpy as np

from pyvc.api import harness
from checks.lib import controller

from malcolm.core import AlarmSeverity, Error, Put, Post, Return
import malcolm.modules.ca.parts.caactionpart as action
import malcolm.modules.ca.util as util
from malcolm.modules.ca import parts

U = "malcolm.modules.ca.util:"
P = "malcolm.modules.ca.parts."
ASSUMPTIONS = [
    "the channel access library gives the values, severities and times of "
    "the PVs and closes a subscription whose callback raises (as cothread "
    "does); its callbacks run one at a time",
    "validation of values by metas is C05",
]


class FakeNothing(Exception):
    """what the library gives for a PV that is not there"""
    ok = False

    def __init__(self, name):
        super().__init__(name)
        self.name = name

    def __bool__(self):
        return False


class AnInt(int):
    pass


class AFloat(float):
    pass


class AStr(str):
    pass


class AnArray(np.ndarray):
    pass


class Monitor:
    def __init__(self, ca, pv, callback, index):
        self.ca, self.pv, self.callback = ca, pv, callback
        self.index = index
        self.open = True

    def close(self):
        self.ca.closes += 1
        self.open = False

    def event(self):
        if not self.open:
            return
        v = self.ca.value(self.pv, "time")
        if v is None:
            v = FakeNothing(self.pv)
        a = () if self.index is None else (self.index,)
        try:
            self.callback(v, *a)
        except Exception as e:
            # this is what cothread does
            self.ca.died.append((self.pv, repr(e)))
            self.open = False


class FakeCA:
    """stands in for cothread.catools"""
    ca_nothing = FakeNothing

    def __init__(self):
        self.pvs = {}
        self.puts = []
        self.monitors = []
        self.closes = 0
        self.died = []
        self.gets = []
        self.on_put = None

    def __getattr__(self, name):
        if name.startswith(("DBR_", "FORMAT_")):
            return name
        raise AttributeError(name)

    def value(self, pv, form):
        """None while it is not connected"""
        x = self.pvs.get(pv)
        if x is None:
            return None
        typ, raw, sev, stamp, extra = x
        if typ is AnArray:
            v = np.array(raw, dtype=extra.get("dtype", float)).view(AnArray)
        else:
            v = typ(raw)
        v.ok, v.severity, v.name = True, sev, pv
        if form == "ctrl":
            for k, e in extra.items():
                if k != "dtype":
                    setattr(v, k, e)
        elif form == "time":
            v.raw_stamp = stamp
        return v

    def caget(self, pvs, format=None, datatype=None, throw=True, **kwargs):
        self.gets.append((pvs, format, datatype))
        if isinstance(pvs, str):
            v = self.value(pvs, {"FORMAT_CTRL": "ctrl",
                                 "FORMAT_TIME": "time"}.get(format))
            if v is None:
                if throw:
                    raise FakeNothing(pvs)
                return FakeNothing(pvs)
            return v
        return [self.caget(p, format, datatype, throw) for p in pvs]

    def caput(self, pv, value, wait=False, timeout=5, datatype=None, **k):
        self.puts.append((pv, value, wait, timeout, datatype))
        if self.on_put:
            self.on_put(pv, value)

    def camonitor(self, pvs, callback, **kwargs):
        self.monitor_args = kwargs
        if isinstance(pvs, str):
            m = Monitor(self, pvs, callback, None)
            self.monitors.append(m)
            return m
        ms = [Monitor(self, p, callback, i) for i, p in enumerate(pvs)]
        self.monitors += ms
        return ms

    def opened(self):
        return [m.pv for m in self.monitors if m.open]

    def event(self, pv):
        for m in list(self.monitors):
            if m.pv == pv:
                m.event()


class Clock:
    def __init__(self, now=0.0):
        self.now = now

    def time(self):
        return self.now

    def sleep(self, dt):
        self.now += dt


DISPLAY = dict(precision=3, units="mm", lower_disp_limit=-1.0,
               upper_disp_limit=5.0)
# kind: class, type of the PV, its values, what the attribute then shows,
# values to put and what is to be written for them
KINDS = dict(
    boolean=(parts.CABooleanPart, AnInt, [(0, False), (1, True), (7, True)],
             [(True, 1), (False, 0)], "DBR_LONG", {}),
    long=(parts.CALongPart, AnInt, [(0, 0), (-5, -5), (2 ** 31 - 1,) * 2],
          [(4, 4), (0, 0), (-1, -1)], "DBR_LONG", {}),
    double=(parts.CADoublePart, AFloat, [(0.0, 0.0), (-1.5, -1.5),
                                         (1e300, 1e300)],
            [(2.5, 2.5), (0, 0.0)], "DBR_DOUBLE", DISPLAY),
    string=(parts.CAStringPart, AStr, [("", ""), ("x y", "x y")],
            [("new", "new"), ("", "")], "DBR_STRING", {}),
    chars=(parts.CACharArrayPart, AStr, [("", ""), ("a" * 60, "a" * 60)],
           [("b" * 50, "b" * 50), ("", "")], "DBR_CHAR_STR", {}),
    choice=(parts.CAChoicePart, AnInt, [(0, "no"), (1, "yes"), (2, "0")],
            [("yes", 1), ("0", 2), (0, 0), ("no", 0)], "DBR_ENUM",
            dict(enums=["no", "yes", "0"])),
    doubles=(parts.CADoubleArrayPart, AnArray, [([], []), ([1.5, 2.0],) * 2],
             [([3.5], [3.5]), ([], [])], "DBR_DOUBLE", DISPLAY),
    longs=(parts.CALongArrayPart, AnArray, [([], []), ([1, -2],) * 2],
           [([3, 4], [3, 4]), ([], [])], "DBR_LONG", dict(dtype="int32")),
)


def shows(attr, want):
    v = attr.value
    if isinstance(want, list):
        return list(v) == want
    return type(v) is not type(None) and v == want and (
        isinstance(v, bool) == isinstance(want, bool))


class Rig:
    def __init__(self, vc, kind, how, timeout=10.0, throw=True):
        cls, self.typ, self.values, self.to_put, self.dbr, self.extra = \
            KINDS[kind]
        self.vc = vc
        self.kind = kind
        self.ca = FakeCA()
        vc.patch(util, "catools", self.ca)
        self.clock = Clock(vc.choice("clock", [0.0, 1000.0]))
        vc.stub(util, "time", self.clock)
        vc.stub(util, "sleep", self.clock.sleep)
        self.pv, self.rbv, k = dict(
            pv=("d", "d", dict(pv="d")),
            both=("d", "r", dict(pv="d", rbv="r")),
            suffix=("d", "d.R", dict(pv="d", rbv_suffix=".R")),
            rbv=("", "r", dict(rbv="r")))[how]
        k["timeout"] = timeout
        if not throw:
            k["throw"] = False
        self.set_pv(self.rbv, self.values[0], 0, (5, 6))
        if self.pv:
            self.ca.pvs.setdefault(self.pv, self.ca.pvs[self.rbv])
        self.part = cls(name="attr", description="desc", **k)
        self.c = controller("stateful", parts=[self.part])
        self.attr = self.c._block.attr

    def set_pv(self, pv, val, sev, stamp):
        self.ca.pvs[pv] = (self.typ, val[0], sev, stamp, self.extra)
        if pv == self.rbv:
            self.shown = (val[1], sev, stamp)

    def call(self, request):
        got = []
        request.set_callback(got.append)
        self.c.handle_request(request)
        self.vc.check("one answer", len(got) == 1)
        return got[0] if got else None

    def check(self, when, stamp=True):
        want, sev, st = self.shown
        self.vc.check("the value is that of the readback PV (%s)" % when,
                      shows(self.attr, want))
        self.vc.check("the severity is that of the PV (%s)" % when,
                      self.attr.alarm.severity == AlarmSeverity(sev))
        if stamp:
            t = self.attr.timeStamp
            self.vc.check("the time is that of the PV (%s)" % when,
                          (t.secondsPastEpoch, t.nanoseconds) == st)


class Value:
    """Stands for any value of a PV"""

    def __init__(self, ok, severity, stamp):
        self.ok = ok
        if ok:
            self.severity = severity
            if stamp:
                self.raw_stamp = stamp


@harness("C19", functions=[U + "CABase._update_value",
                           U + "CABase._monitor_callback",
                           U + "CABase.__init__", U + "CAAttribute.__init__"],
         rand=150, max_paths=20000, budget=200,
         covers=["ok", "disconnected"])
def updates(vc):
    """one update, from any state, with any value (validation by contract)"""
    vc.patch(util, "catools", FakeCA())
    asleep = []
    now = vc.real("now", 0)
    clock = Clock(now)
    vc.stub(util, "time", clock)
    vc.stub(util, "sleep", asleep.append)
    kind = vc.choice("kind", ["long", "string", "doubles"])
    told = []
    part = KINDS[kind][0](name="attr", description="d", pv="d")
    caa = part.caa
    # nothing is to be said about the times if these are not there
    caa.min_delta, caa._update_after, caa._user_callback
    caa.min_delta = delta = vc.real("min delta", 0.001, 1)
    caa._update_after = after = vc.real("update after", 0)
    if vc.flag("user callback"):
        caa._user_callback = told.append
    a = caa.attr
    old = a.value
    before = vc.choice("before", [0, 3])
    from malcolm.core import Alarm, TimeStamp
    a.set_value_alarm_ts(old, Alarm.ok if not before else Alarm(
        AlarmSeverity(before), message="m"), TimeStamp(1, 2))
    v = Value(vc.flag("connected"), vc.choice("severity", [0, 1, 2, 3]),
              vc.choice("stamp", [None, (34, 43)]))
    valid = object()
    seen = []

    def validate(x):
        seen.append(x)
        return old if x is old else valid
    vc.patch(type(a.meta), "validate", lambda self, x: validate(x))
    how = vc.choice("how", ["update", "monitor"])
    if how == "update":
        out = vc.call(caa._update_value, v)
    else:
        out = vc.call(caa._monitor_callback, v)
    vc.check("an update is accepted", out.ok)
    if not out.ok:
        return
    vc.check("the user's callback gets each value once",
             len(told) == (1 if caa._user_callback else 0)
             and all(x is v for x in told))
    if v.ok:
        vc.cover("ok")
        vc.check("the value is the one of the PV", a.value is valid
                 and len(seen) == 1 and seen[0] is v)
        vc.check("its severity", a.alarm.severity == AlarmSeverity(v.severity))
        t = (a.timeStamp.secondsPastEpoch, a.timeStamp.nanoseconds)
        if hasattr(v, "raw_stamp"):
            vc.check("its time", t == v.raw_stamp)
        else:
            vc.check("or the time now", t[0] > 10 ** 9)
    else:
        vc.cover("disconnected")
        vc.check("the last value stays while disconnected", a.value is old)
        vc.check("shown as disconnected", a.alarm.severity ==
                 AlarmSeverity.UNDEFINED_ALARM)
    for s in asleep:
        vc.check("updates wait, but no longer than they are early", vc.And(
            s > 0, s <= after - now))
    # an update that is let through at once is at or after the time allowed
    if how == "monitor" and not asleep:
        vc.check("the next one is due later, by one interval at most",
                 vc.And(caa._update_after >= after,
                        caa._update_after <= now + delta))


@harness("C19", functions=[U + "CAAttribute.caput", U + "CAAttribute.reconnect",
                           U + "CABase.disconnect", U + "CABase.setup",
                           U + "assert_connected"] + [
                               P + m + ".caput" for m in (
                                   "cabooleanpart:CABooleanPart",
                                   "cachoicepart:CAChoicePart",
                                   "calongarraypart:CALongArrayPart",
                                   "cadoublearraypart:CADoubleArrayPart")],
         rand=150, max_paths=6000, covers=["put", "refused"])
def puts(vc):
    """one put, of every kind of PV"""
    kind = vc.choice("kind", sorted(KINDS))
    how = vc.choice("how", ["pv", "both", "suffix", "rbv"])
    timeout = vc.choice("timeout", [10.0, 0.5, -1, -0.1])
    r = Rig(vc, kind, how, timeout)
    out = vc.call(r.c.init)
    vc.check("it connects", out.ok and r.c.state.value == "Ready")
    r.check("at first", stamp=False)
    vc.check("each PV is looked for", r.ca.gets and set(
        r.ca.gets[0][0]) == {r.rbv} | ({r.pv} if r.pv else set()))
    vc.check("as its own type", all(g[2] == r.dbr for g in r.ca.gets))
    vc.check("the readback PV is followed", r.ca.opened() == [r.rbv])
    value, want = vc.choice("value", r.to_put)
    after = vc.choice("readback", r.values)
    sev = vc.choice("severity", [0, 2])

    def on_put(pv, v):
        r.set_pv(r.rbv, after, sev, (77, 88))
    r.ca.on_put = on_put
    got = r.call(Put(id=1, path=["mri", "attr", "value"], value=value))
    if not r.pv:
        vc.cover("refused")
        vc.check("a read-only PV cannot be put",
                 isinstance(got, Error) and not r.ca.puts)
        return
    vc.cover("put")
    vc.check("a put is answered when it is done", isinstance(got, Return))
    vc.check("written once", len(r.ca.puts) == 1)
    if len(r.ca.puts) != 1:
        return
    pv, v, wait, t, dbr = r.ca.puts[0]
    if isinstance(want, list):
        right = list(v) == want
    else:
        right = v == want and isinstance(v, str) == isinstance(want, str)
    vc.check("to the demand PV, the value asked for", pv == r.pv and right)
    vc.check("as the type of the PV", dbr == r.dbr)
    vc.check("waiting until it is done", wait is True)
    vc.check("as long as was asked for",
             t is None if timeout < 0 else t == timeout)
    r.check("after the put")


@harness("C19", functions=[U + "CAAttribute.caput", U + "CAAttribute.reconnect",
                           U + "CABase.disconnect",
                           U + "CABase._monitor_callback"],
         rand=250, concrete_only=True,
         bounded="seeded histories of 12 updates, disconnections, puts, "
         "disables and resets")
def life(vc):
    kind = vc.choice("kind", sorted(KINDS))
    how = vc.choice("how", ["pv", "both", "suffix", "rbv"])
    throw = kind in ("choice", "chars", "doubles", "longs") or not vc.flag(
        "may be missing")
    r = Rig(vc, kind, how, throw=throw)
    connected = vc.choice("connected at first", [True, True, False])
    saved = dict(r.ca.pvs)
    if not connected:
        r.ca.pvs.clear()
    vc.call(r.c.init)
    state = "Ready"
    if not connected:
        vc.check("a missing PV is a fault, unless it may be missing",
                 r.c.state.value == ("Fault" if throw else "Ready"))
        if throw:
            r.ca.pvs.update(saved)
            connected = True
            got = r.call(Post(id=3, path=["mri", "reset"]))
            vc.check("reset finds it again", isinstance(got, Return))
            r.check("after reset", stamp=False)
        else:
            vc.check("shown as disconnected", r.attr.alarm.severity ==
                     AlarmSeverity.UNDEFINED_ALARM)
    else:
        r.check("at first", stamp=False)
    n = 10
    for i in range(vc.choice("steps", range(1, 13))):
        n += 1
        r.clock.now += vc.choice("gap", [0, 0.01, 0.04, 0.05, 1.0])
        op = vc.choice("op", ["event", "event", "gone", "put", "disable",
                              "reset"])
        if op in ("event", "put") and not connected:
            # back again
            r.ca.pvs.update(saved)
            connected = True
        val = vc.choice("val", r.values)
        sev = vc.choice("sev", [0, 0, 1, 2, 3])
        if op == "event":
            if r.pv != r.rbv and r.pv and vc.flag("demand"):
                r.ca.pvs[r.pv] = (r.typ, val[0], sev, (n, n), r.extra)
                r.ca.event(r.pv)
            else:
                r.set_pv(r.rbv, val, sev, (n, n))
                r.ca.event(r.rbv)
            if state == "Ready" and r.ca.opened():
                r.ca.event(r.rbv)
                r.check("after an update")
        elif op == "gone":
            if connected:
                saved = dict(r.ca.pvs)
            r.ca.pvs.clear()
            connected = False
            r.ca.event(r.rbv)
            if state == "Ready":
                vc.check("shown as disconnected", r.attr.alarm.severity ==
                         AlarmSeverity.UNDEFINED_ALARM)
                vc.check("with its last value", shows(r.attr, r.shown[0]))
        elif op == "put" and r.pv:
            v, want = vc.choice("to put", r.to_put)
            before = len(r.ca.puts)
            r.set_pv(r.rbv, val, sev, (n, n))
            got = r.call(Put(id=1, path=["mri", "attr", "value"], value=v))
            ok = state == "Ready"
            vc.check("puts are for blocks that are ready",
                     isinstance(got, Return) == ok)
            vc.check("written once", len(r.ca.puts) == before + ok)
            if ok:
                r.check("after a put")
        elif op == "disable" and state == "Ready":
            r.call(Post(id=2, path=["mri", "disable"]))
            state = "Disabled"
            vc.check("nothing is followed when disabled", not r.ca.opened())
        elif op == "reset":
            if not connected:
                r.ca.pvs.update(saved)
                connected = True
            got = r.call(Post(id=3, path=["mri", "reset"]))
            if state == "Disabled":
                vc.check("reset answers", isinstance(got, Return))
                state = "Ready"
                r.check("after reset", stamp=False)
        if state == "Ready":
            vc.check("the readback PV is followed, once",
                     r.ca.opened() == [r.rbv])
        vc.check("no update is lost to an error", not r.ca.died)


@harness("C19", functions=[U + "WaveformTableAttribute.reconnect",
                           U + "WaveformTableAttribute.__init__",
                           U + "CABase._monitor_callback",
                           U + "CABase._update_value",
                           P + "cawaveformtablepart:CAWaveformTablePart."
                           "_update_display",
                           P + "cawaveformtablepart:CAWaveformTablePart."
                           "__init__"],
         rand=250, concrete_only=True,
         bounded="seeded histories of 8 updates of 1 to 3 columns")
def table(vc):
    ca = FakeCA()
    vc.patch(util, "catools", ca)
    clock = Clock(5.0)
    vc.stub(util, "time", clock)
    vc.stub(util, "sleep", clock.sleep)
    n = vc.choice("columns", [1, 2, 3])
    pvs = ["pv%d" % i for i in range(n)]
    names = ["c%d" % (n - i) for i in range(n)]
    data, sevs = {}, {}

    def put(p, length, sev, stamp):
        data[p] = [vc.choice("x", [0.0, 1.5, -2.0]) for _ in range(length)]
        sevs[p] = sev
        ca.pvs[p] = (AnArray, np.array(data[p], dtype=float), sev, stamp,
                     dict(DISPLAY, units="u" + p))
    length = vc.choice("rows", [0, 1, 3])
    for p in pvs:
        put(p, length, vc.choice("sev", [0, 0, 2]), (1, 1))
    display = vc.flag("display")
    part = parts.CAWaveformTablePart("attr", "desc", pv_list=pvs,
                                     name_list=names,
                                     display_from_pv=display)
    c = controller("stateful", parts=[part])
    out = vc.call(c.init)
    vc.check("it connects", out.ok and c.state.value == "Ready")
    a = c._block.attr
    vc.check("it is read-only", not a.meta.writeable)
    for i, name in enumerate(names):
        u = a.meta.elements[name].display.units
        vc.check("each column has the display of its PV",
                 u == ("upv%d" % i if display else ""))
    gone = set()
    stamp = None

    def check(when):
        if gone:
            vc.check("disconnected while any of the PVs is (%s)" % when,
                     a.alarm.severity == AlarmSeverity.UNDEFINED_ALARM)
            return
        if len(set(len(data[p]) for p in pvs)) > 1:
            return
        vc.check("each PV has its own column (%s)" % when, all(
            list(a.value[name]) == data[p] for p, name in zip(pvs, names)))
        vc.check("as bad as the worst of them (%s)" % when,
                 a.alarm.severity == AlarmSeverity(max(sevs.values())))
        if stamp:
            t = a.timeStamp
            vc.check("the time of the last update (%s)" % when,
                     (t.secondsPastEpoch, t.nanoseconds) == stamp)
    check("at first")
    for i in range(vc.choice("steps", range(1, 9))):
        clock.now += vc.choice("gap", [0, 0.04, 1.0])
        p = vc.choice("which", pvs)
        op = vc.choice("op", ["event", "event", "gone", "resize"])
        sev = vc.choice("sev", [0, 0, 1, 3])
        stamp = (10 + i, i)
        if op == "event":
            put(p, len(data[p]), sev, stamp)
            gone.discard(p)
            ca.event(p)
        elif op == "gone":
            ca.pvs.pop(p, None)
            gone.add(p)
            ca.event(p)
        else:
            # all of them, one after the other
            length = vc.choice("rows", [0, 1, 2])
            for q in pvs:
                put(q, length, sev, stamp)
                gone.discard(q)
                ca.event(q)
        check("after " + op)
        vc.check("no update is lost to an error", not ca.died)


class FakeQueue:
    """delivers what is to come, at its time"""
    plan = ()
    clock = None

    def __init__(self):
        self.left = list(self.plan)

    def put(self, x):
        self.left.insert(0, (0, x))

    def get(self, timeout=None):
        from malcolm.core import TimeoutError
        if timeout is not None and timeout < 0:
            raise TimeoutError("negative")
        if self.left and (timeout is None or
                          self.left[0][0] <= self.clock.now + timeout):
            at, x = self.left.pop(0)
            self.clock.now = max(self.clock.now, at)
            return x
        self.clock.now += timeout
        raise TimeoutError("timed out")


@harness("C19", functions=[P + "caactionpart:CAActionPart." + f for f in (
    "caput", "reconnect", "wait_for_good_status", "setup")], rand=200,
    max_paths=6000, covers=["returns", "fails", "missing"])
def actions(vc):
    """a method made of PVs"""
    ca = FakeCA()
    vc.patch(util, "catools", ca)
    clock = Clock(100.0)
    vc.stub(action, "time", clock)
    status = vc.choice("status pv", ["", "st"])
    message = vc.choice("message pv", ["", "msg"])
    wait = vc.flag("wait")
    throw = vc.flag("throw")
    timeout = vc.choice("timeout", [1, 3])
    value = vc.choice("value", [1, 0, 5])
    ca.pvs["d"] = (AnInt, 0, 0, (0, 0), {})
    if status:
        ca.pvs["st"] = (AStr, "idle", 0, (0, 0), {})
    if message:
        ca.pvs["msg"] = (AStr, "why it failed", 0, (0, 0), {})
    missing = vc.choice("missing", [None, "d", status, message])
    if missing:
        del ca.pvs[missing]
    part = action.CAActionPart("go", "desc", "d", status, "good", timeout,
                               message, value, wait, throw)
    c = controller("stateful", parts=[part])
    vc.call(c.init)
    m = c._block.go
    hidden = any("hidden" in t for t in m.meta.tags)
    vc.check("a missing PV is a fault, or hides the method if it may be",
             (c.state.value == "Fault", hidden) == (
                 bool(missing and throw), bool(missing and not throw)))
    if missing:
        vc.cover("missing")
        return
    plan = vc.choice("the status", [[], ["good"], ["bad"], ["bad", "good"],
                                    ["good", "bad"]])
    late = vc.choice("late", [0.0, 0.4, 1.0, 2.0, 5.0])
    FakeQueue.plan = [(100.0 + late * (i + 1), s) for i, s in enumerate(plan)]
    FakeQueue.clock = clock
    vc.stub(action, "Queue", FakeQueue)
    got = []
    request = Post(id=3, path=["mri", "go"])
    request.set_callback(got.append)
    c.handle_request(request)
    vc.check("one answer", len(got) == 1)
    vc.check("the value is put once", ca.puts == [
        ("d", value, wait, None, None)])
    # the first time it is good, if in time
    good = not status
    for at, s in FakeQueue.plan:
        if at > 100.0 + timeout:
            break
        if s == "good":
            good = True
            break
    vc.check("it returns exactly if the status is good in time",
             len(got) == 1 and isinstance(got[0], Return) == good)
    vc.check("nothing is followed afterwards", not ca.opened())
    if good:
        vc.cover("returns")
    elif got:
        vc.cover("fails")
        text = str(got[0].message)
        last = [s for at, s in FakeQueue.plan if at <= 100.0 + timeout]
        vc.check("the error tells the status and the message",
                 (not last or last[-1] in text)
                 and (not message or "why it failed" in text))
