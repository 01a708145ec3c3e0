"""A PMAC brick that records its trajectory, with motors on it"""
from malcolm.core import Future
from malcolm.modules.builtin.util import LayoutTable
from malcolm.modules.scanning.infos import (
    MinTurnaroundInfo, MotionTrigger, MotionTriggerInfo)


class FakeVal:
    def __init__(self, value):
        self.value = value


class FakeMotor:
    def __init__(self, cs="CS1,A", max_velocity=10.0, percent=100.0,
                 accel_time=0.5, resolution=0.001, offset=0.0, readback=0.0,
                 settle=0.0, high=0.0, low=0.0, dial=None, units="mm",
                 axis_number=1):
        self.cs = FakeVal(cs)
        self.maxVelocity = FakeVal(max_velocity)
        self.maxVelocityPercent = FakeVal(percent)
        self.accelerationTime = FakeVal(accel_time)
        self.resolution = FakeVal(resolution)
        self.offset = FakeVal(offset)
        self.readback = FakeVal(readback)
        self.velocitySettle = FakeVal(settle)
        self.units = FakeVal(units)
        self.userHighLimit = FakeVal(high)
        self.userLowLimit = FakeVal(low)
        dial = dial or (high, low)
        self.dialHighLimit = FakeVal(dial[0])
        self.dialLowLimit = FakeVal(dial[1])
        self.axisNumber = FakeVal(axis_number)


class FakePoints:
    def __init__(self):
        self.cb = None

    def subscribe_value(self, cb, *args):
        self.cb = lambda v: cb(v, *args)
        return Future(None)


class FakeBrick:
    def __init__(self, names, freq=3200.0):
        n = len(names)
        self.layout = FakeVal(LayoutTable(
            list(names), ["M:" + x for x in names], [0.0] * n, [0.0] * n,
            [True] * n))
        self.pointsScanned = FakePoints()
        self.log = []
        self.freq = freq

    def servoFrequency(self):
        return self.freq

    def writeProfile(self, **kw):
        self.log.append(("write", kw))

    def executeProfile(self):
        self.log.append(("execute", {}))

    def abortProfile(self):
        self.log.append(("abort", {}))

    def _move(self, name, kw):
        self.log.append((name, kw))
        return Future(None)

    def __getitem__(self, name):
        if name.startswith("moveCS"):
            return lambda **kw: self._move(name, kw)
        raise KeyError(name)

    def __getattr__(self, name):
        if name.startswith("moveCS"):
            return lambda **kw: self._move(name, kw)
        raise AttributeError("'FakeBrick' has no " + name)


class FakeContext:
    def __init__(self, blocks):
        self.blocks = blocks
        self.waited = []

    def block_view(self, mri):
        return self.blocks[mri]

    def unsubscribe_all(self, *a, **k):
        pass

    def wait_all_futures(self, fs, *a, **k):
        self.waited.append(fs)


class FakeRegistrar:
    def __init__(self):
        self.infos = []

    def report(self, info):
        self.infos.append(info)


def infos(trigger=None, gap=None, interval=None):
    d = {}
    if trigger is not None:
        d["trig"] = [MotionTriggerInfo(trigger)]
    if gap is not None:
        d["turn"] = [MinTurnaroundInfo(gap, interval)]
    return d


TRIGGERS = [MotionTrigger.NONE, MotionTrigger.ROW_GATE,
            MotionTrigger.EVERY_POINT]
