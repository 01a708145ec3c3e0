"""Every step of a scan is one labelled, counted frame of each detector"""
import os
import re
import shutil
import tempfile

import h5py
import numpy
from scanpointgenerator import (
    CompoundGenerator, LineGenerator, ROIExcluder, SpiralGenerator,
    SquashingExcluder, StaticPointGenerator)
from scanpointgenerator.rois import CircularROI

from pyvc.api import harness
from checks.lib import Hooks, fire
from checks.managerlib import Scratch

import malcolm.modules.ADCore.parts.positionlabellerpart as labels
import malcolm.modules.ADOdin.parts.odinwriterpart as odin
import malcolm.modules.xspress3.parts.xspresswriterpart as xspress
from malcolm.core import BadValueError, Future
from malcolm.modules.ADCore.parts import (
    DetectorDriverPart, HDFWriterPart, PositionLabellerPart)
from malcolm.modules.ADCore.parts.hdfwriterpart import set_dimensions
from malcolm.modules.adUtil.parts import ReframePluginPart
from malcolm.modules.builtin.hooks import ResetHook
from malcolm.modules.scanning.hooks import AbortHook
from malcolm.modules.scanning.infos import (
    DatasetType, DetectorMutiframeInfo, ExposureDeadtimeInfo, RunProgressInfo)
from malcolm.modules.scanning.parts import DetectorChildPart
from malcolm.modules.scanning.util import DetectorTable

AD = "malcolm.modules.ADCore.parts."

ASSUMPTIONS = [
    "the detector counts one frame for each trigger from the arrayCounter "
    "put, and runs of hooks are as the controller gives them (C08)",
    "floats are treated as reals in the proofs",
    "scanpointgenerator is trusted for the points of a generator",
]


class FakeAttr:
    def __init__(self, block, name):
        self.block, self.name = block, name

    @property
    def value(self):
        return self.block.values[self.name]

    def put_value(self, value, *a, **k):
        self.block.put(self.name, value)

    def put_value_async(self, value, *a, **k):
        self.block.put(self.name, value)
        return Future(None)

    def subscribe_value(self, cb, *args):
        self.block.subs[self.name] = lambda v: cb(v, *args)
        return Future(None)


class FakeChild:
    """A block of an area detector plugin that records what is done"""

    def __init__(self, **values):
        self.values = dict(values)
        self.log, self.subs, self.matches = [], {}, []

    def put(self, name, value):
        assert name in self.values, "'FakeChild' has no " + name
        self.values[name] = value
        self.log.append(("put", name, value))

    def __contains__(self, name):
        return name in self.values

    def put_attribute_values(self, params, *a, **k):
        for n, v in params.items():
            self.put(n, v)

    def put_attribute_values_async(self, params, *a, **k):
        self.put_attribute_values(params)
        return [Future(None)]

    def when_value_matches(self, name, value, *a, **k):
        self.matches.append((name, value))

    def when_value_matches_async(self, name, value, *a, **k):
        self.matches.append((name, value))
        return Future(None)

    def call(self, name):
        self.log.append(("call", name, None))

    def update(self, vc, name, value):
        vc.check("%s is watched" % name, name in self.subs)
        if name in self.subs:
            self.subs[name](value)

    def started(self, since=0):
        return [x for x in self.log[since:] if x[:2] == ("call", "start")]

    def __getattr__(self, name):
        if name.startswith("_") or name == "values":
            raise AttributeError("'FakeChild' has no " + name)
        if name in self.values:
            return FakeAttr(self, name)
        if name.endswith("_async"):
            def f(*a, **k):
                self.call(name[:-6])
                r = Future(None)
                r.set_result(None)
                return r
            return f
        if name in ("start", "stop", "delete", "flushNow"):
            return lambda *a, **k: self.call(name)
        raise AttributeError("'FakeChild' has no " + name)


class FakeContext:
    def __init__(self, child):
        self.child = child

    def block_view(self, mri):
        return self.child

    def unsubscribe_all(self, *a, **k):
        self.child.subs.clear()

    def wait_all_futures(self, *a, **k):
        pass


class FakeRegistrar:
    def __init__(self):
        self.reported = []

    def report(self, info):
        if isinstance(info, RunProgressInfo):
            self.reported.append(info.steps)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Gen:
    def __init__(self, size, duration):
        self.size, self.duration = size, duration


def driver(vc, kind):
    soft = vc.flag("software triggered")
    values = dict(arrayCounter=-1, imageMode="", numImages=-1,
                  arrayCallbacks=False, arrayCounterReadback=0,
                  acquirePeriod=-1.0, exposure=-1.0, acquiring=True,
                  triggerMode="Soft" if soft else "Ext")
    if kind == "reframe":
        values.update(postCount=0, averageSamples="No",
                      triggerOffCondition="Always On",
                      triggerMode="Always On" if soft else "Ext")
        part = ReframePluginPart("det", "DET", 10000.0, False)
    else:
        part = DetectorDriverPart("det", "DET", soft_trigger_modes=["Soft"])
    return part, FakeChild(**values), soft


def run_of(vc, i, done, size):
    """The steps of the next run: at least one, and not too many"""
    s = vc.int("steps%d" % i, 1, pool=[1, 2, 3, 5, 100])
    vc.assume(done + s <= size)
    return s


@harness("C09", functions=[
    AD + "detectordriverpart:DetectorDriverPart." + x for x in (
        "setup_detector", "on_configure", "on_seek", "on_post_run_armed",
        "on_run", "update_completed_steps", "arm_detector",
        "wait_for_detector")] + [
    "malcolm.modules.adUtil.parts.reframepluginpart:"
    "ReframePluginPart.setup_detector"], rand=500,
    covers=["ran", "sought", "mid run"], max_paths=4000, bounded="histories "
    "of up to 4 runs and seeks; any number of steps in each")
def detector(vc):
    kind = vc.choice("kind", ["driver", "driver", "reframe"]
                     if not vc.sym else ["driver", "reframe"])
    part, child, soft = driver(vc, kind)
    breaks = vc.flag("breakpoints")
    bp = [1, 2] if breaks else None
    size = vc.int("size", 1, pool=[1, 10, 500, 1000, 5000])
    gen = Gen(size, 0.5)
    part.registrar = reg = FakeRegistrar()
    ctx = FakeContext(child)
    exposure = vc.choice("exposure", [None, 0.1])
    kw = {} if exposure is None else {"exposure": exposure}
    info = {"dead": [ExposureDeadtimeInfo(0.01, 0.0, 0.0)]}
    run = Hooks(part, ctx, part_info=info, generator=gen, breakpoints=bp,
                **kw)
    if vc.flag("used before"):
        # for another scan, of which some frames were taken
        s = vc.int("steps before", 1, pool=[1, 2, 30])
        run.configure(0, s, generator=Gen(s, 0.5), breakpoints=None)
        run.run()
        child.update(vc, "arrayCounterReadback", s)
        child.log[:], child.matches[:] = [], []
        del reg.reported[:]
    done = 0
    s = run_of(vc, 0, done, size)
    run.configure(done, s)
    # ghost: the counter of the detector, the images it can still take, and
    # the last frame number it ever used
    left, base, last = None, None, 0
    mark = 0
    what = "configure"
    for i in range(4):
        since = child.log[mark:]
        mark = len(child.log)
        puts = {n: v for k, n, v in since if k == "put"}
        if "arrayCounter" in puts:
            base = puts["arrayCounter"]
            left = puts["numImages"]
            vc.check("frame numbers are not used twice (%s)" % what,
                     base >= last)
            if kind == "driver":
                vc.check("the period fits the exposure in every run",
                         vc.close(child.acquirePeriod.value,
                                  0.11 if exposure else 0.5))
            vc.check("frames are passed on", child.arrayCallbacks.value
                     is True and child.imageMode.value == "Multiple")
        n = len([x for x in since if x[:2] == ("call", "start")])
        if not soft:
            vc.check("started once whenever set up (%s)" % what,
                     n == (1 if "arrayCounter" in puts else 0))
        else:
            vc.check("not started before the run", n == 0)
            vc.check("set up before each run", "arrayCounter" in puts)
        vc.check("enough images are asked for (%s)" % what, left >= s)
        if soft or breaks:
            vc.check("and no more than the run has", left == s)
        else:
            vc.check("and no more than the scan has", left == size - done)
        # the run
        matches = len(child.matches)
        run.run()
        if soft:
            vc.check("started by the run",
                     len(child.started(mark)) == 1)
        mark = len(child.log)
        waits = [v for n, v in child.matches[matches:]
                 if n == "arrayCounterReadback"]
        vc.check("waits for the last frame of the run (%s)" % what,
                 len(waits) == 1 and waits[0] == base + s)
        k = vc.int("frames%d" % i, 0, pool=[0, 0, 1, 1, 2, 50])
        vc.assume(k <= s)
        del reg.reported[:]
        child.update(vc, "arrayCounterReadback", base + k)
        vc.check("each frame is one step (%s)" % what,
                 len(reg.reported) == 1 and reg.reported[0] == done + k)
        what = vc.choice("then%d" % i, ["run", "seek", "end"])
        if what == "end":
            return
        if what == "run":
            last = base + s
            done = done + s
            base, left = base + s, left - s
            s = run_of(vc, i + 1, done, size)
            vc.cover("ran")
            run.armed(done, s)
        else:
            # stopped after k frames
            last = base + k
            vc.cover("sought")
            if vc.Not(k == s):
                vc.cover("mid run")
            done = vc.int("to%d" % i, 0, pool=[0, 1, 3])
            vc.assume(done < size)
            s = run_of(vc, i + 1, done, size)
            run.seek(done, s)


def put_state(part, **state):
    """Private state for an induction step: None of this runs if the part
    keeps it otherwise, and `detector` and `writer` decide alone"""
    for k, v in state.items():
        if not hasattr(part, k):
            raise RuntimeError("'FakeState': %s has no %s" % (part, k))
        setattr(part, k, v)


@harness("C09", functions=[
    AD + "detectordriverpart:DetectorDriverPart." + x for x in (
        "setup_detector", "on_seek", "on_post_run_armed", "on_run",
        "update_completed_steps")] + [
    "malcolm.modules.adUtil.parts.reframepluginpart:"
    "ReframePluginPart.setup_detector"], rand=300,
    covers=["ran", "sought"], max_paths=4000)
def detector_step(vc):
    """Invariant of all histories: the last frame of the run is the counter
    waited for, no frame after it has been used, and with the offset it is
    the step at the end of the run"""
    kind = vc.choice("kind", ["driver", "reframe"])
    part, child, soft = driver(vc, kind)
    bp = [1, 2] if vc.flag("breakpoints") else None
    size = vc.int("size", 1, pool=[1, 10, 500, 1000])
    gen = Gen(size, 0.5)
    part.registrar = reg = FakeRegistrar()
    ctx = FakeContext(child)
    run = Hooks(part, ctx, generator=gen, breakpoints=bp)
    end = vc.int("end of run", 1, pool=[1, 2, 100])
    number = vc.int("its frame", 1, pool=[1, 2, 100])
    put_state(part, done_when_reaches=number, uniqueid_offset=end - number,
              is_hardware_triggered=not soft)
    child.values["arrayCounter"] = number
    if vc.choice("event", ["run", "seek"]) == "run":
        vc.assume(end < size)
        done = end
        s = run_of(vc, 1, done, size)
        run.armed(done, s)
        vc.cover("ran")
    else:
        done = vc.int("to", 0, pool=[0, 1, 3])
        vc.assume(done < size)
        s = run_of(vc, 1, done, size)
        run.seek(done, s)
        vc.cover("sought")
    vc.check("frame numbers go on from the last", child.arrayCounter.value
             == number)
    run.run()
    waits = [v for n, v in child.matches if n == "arrayCounterReadback"]
    vc.check("waits for the last frame of the run",
             len(waits) == 1 and waits[0] == number + s)
    for k in (0, s, vc.int("k", 0, pool=[0, 1, 5])):
        vc.assume(k <= s)
        del reg.reported[:]
        child.update(vc, "arrayCounterReadback", number + k)
        vc.check("each frame is one step",
                 len(reg.reported) == 1 and reg.reported[0] == done + k)
    vc.check("the invariant holds again",
             vc.And(part.done_when_reaches == number + s,
                    part.uniqueid_offset == done + s - (number + s)))


@harness("C09", functions=[AD + "hdfwriterpart:HDFWriterPart." + x for x in (
    "on_seek", "on_run", "update_completed_steps")], rand=200)
def writer_step(vc):
    """From any state: needs no invariant at all"""
    part = HDFWriterPart("hdf", "HDF")
    n = vc.int("captured", 0, pool=[0, 1, 5, 100])
    child = FakeChild(arrayCounter=-1, numCapturedReadback=n)
    part.registrar = reg = FakeRegistrar()
    ctx = FakeContext(child)
    put_state(part, done_when_captured=vc.int("waited for"),
              num_captured_offset=vc.int("offset"))
    done = vc.int("done", 0, pool=[0, 1, 3])
    s = vc.int("steps", 1, pool=[1, 2, 5])
    run = Hooks(part, ctx)
    run.seek(done, s)
    run.run()
    waits = [v for k, v in child.matches if k == "numCapturedReadback"]
    vc.check("waits for the last frame of the run",
             len(waits) == 1 and waits[0] == n + s)
    k = vc.int("k", 0, pool=[0, 1, 5])
    vc.assume(k <= s)
    child.update(vc, "numCapturedReadback", n + k)
    vc.check("each frame written is one step",
             len(reg.reported) == 1 and reg.reported[0] == done + k)


XML = re.compile(r"<position ([^/]*)/>")


class FakeLabeller(FakeChild):
    """Takes the next position for each frame from idStart on"""

    def __init__(self):
        FakeChild.__init__(self, enableCallbacks=False, idStart=-1,
                           arrayCounter=-1, xml="", qty=0,
                           arrayCounterReadback=0)
        self.queue, self.next_id = [], None
        self.lazy = lambda: False

    def put(self, name, value):
        FakeChild.put(self, name, value)
        if name == "xml":
            for p in XML.findall(value):
                self.queue.append(tuple(
                    int(v) for v in re.findall(r'd\d+="(\d+)"', p)))
            self.values["qty"] = len(self.queue)
        elif name == "idStart":
            self.next_id = value

    def call(self, name):
        FakeChild.call(self, name)
        if name == "delete":
            self.queue = []
            self.values["qty"] = 0

    def frame(self, number):
        assert number == self.next_id, "frame %s, expected %s" % (
            number, self.next_id)
        self.next_id += 1
        if not self.queue:
            self.changed()
        if not self.queue:
            return None
        got = self.queue.pop(0)
        self.values["qty"] = len(self.queue)
        if not self.lazy():
            self.changed()
        return got

    def changed(self):
        """updates may be skipped or repeated"""
        if "qty" in self.subs:
            self.subs["qty"](len(self.queue))


def some_generator(vc, big=False):
    kind = vc.choice("generator", ["line", "raster", "snake", "spiral",
                                   "masked", "static outer", "3d", "joined"])
    n = vc.int("n", 1, 9)
    m = vc.int("m", 1, 4)
    x = LineGenerator("x", "mm", 0.0, 1.0, n, alternate=kind == "snake")
    y = LineGenerator("y", "mm", 0.0, 1.0, m)
    ex = []
    if kind == "line":
        gens = [x]
    elif kind in ("raster", "snake"):
        gens = [y, x]
    elif kind == "spiral":
        gens = [y, SpiralGenerator(["x", "z"], ["mm", "mm"], [0, 0], 1.0,
                                   scale=0.5)]
    elif kind == "masked":
        gens = [LineGenerator("y", "mm", 0, 1, m + 2),
                LineGenerator("x", "mm", 0, 1, n + 2, alternate=True)]
        ex = [ROIExcluder([CircularROI([0.5, 0.5], 0.55)], ["x", "y"])]
    elif kind == "static outer":
        gens = [StaticPointGenerator(m), x]
    elif kind == "joined":
        gens = [LineGenerator("z", "mm", 0, 1, 2), y, x]
        ex = [SquashingExcluder(["y", "x"])]
    else:
        gens = [LineGenerator("z", "mm", 0, 1, 2), y, x]
    d = vc.choice("duration", [0.0, 0.1, 1.0])
    return gens, ex, d


def prepared(gens, ex, d):
    g = CompoundGenerator(gens, ex, [], d)
    g.prepare()
    return g


@harness("C09", functions=[AD + "positionlabellerpart:PositionLabellerPart."
                           + x for x in (
    "setup_plugin", "on_configure", "on_run", "on_seek", "on_post_run_armed",
    "load_more_positions", "_make_xml")], rand=600, concrete_only=True,
    bounded="scans of up to 100 steps with 1 to 20 positions sent at once, "
    "histories of up to 8 runs and seeks, seeded sample")
def labeller(vc):
    g = prepared(*some_generator(vc))
    size = g.size
    part = PositionLabellerPart("pos", "POS")
    part.registrar = FakeRegistrar()
    child = FakeLabeller()
    ctx = FakeContext(child)
    vc.patch(labels, "POSITIONS_PER_XML", vc.int("at once", 1, 20))
    lazy = vc.choice("skipped updates", ["none", "some", "all"])
    child.lazy = lambda: lazy == "all" or (
        lazy == "some" and vc.flag("skipped"))
    run = Hooks(part, ctx, generator=g)
    done, base = 0, 0
    per = vc.int("per run", 1, size)
    s = min(per, size)
    if vc.flag("used before"):
        old = prepared(*some_generator(vc))
        run.configure(0, old.size, generator=old)
        run.run()
        for j in range(vc.int("frames before", 0, old.size)):
            child.frame(j + 1)
    run.configure(0, s)
    for i in range(8):
        vc.check("starts and is enabled", child.enableCallbacks.value is True)
        child.matches = []
        run.run()
        waits = [v for n, v in child.matches if n == "arrayCounterReadback"]
        vc.check("waits for the last frame of the run",
                 waits == [base + s])
        if "qty" in child.subs:
            child.update(vc, "qty", child.qty.value)
        what = vc.choice("then%d" % i, ["run", "run", "seek", "seek", "end"])
        k = s if what == "run" else vc.int("frames%d" % i, 0, s)
        for j in range(k):
            got = child.frame(base + j + 1)
            want = tuple(g.get_point(done + j).indexes)
            vc.check("frame is labelled with its own step (%s, not %s)" % (
                got, want), got == want)
        if what == "end":
            return
        if what == "run":
            done, base = done + s, base + s
            if done == size:
                return
            s = min(per, size - done)
            run.armed(done, s)
        else:
            base = base + s
            done = vc.int("to%d" % i, 0, size - 1)
            s = min(per - done % per, size - done)
            mark = len(child.log)
            run.seek(done, s)
            since = child.log[mark:]
            names = [n for _, n, _ in since]
            vc.check("restarted after a seek", "start" in names)
            vc.check("frame numbers go on from those used or spoken for",
                     child.idStart.value == base + 1
                     and child.arrayCounter.value == base)


@harness("C09", functions=[AD + "positionlabellerpart:"
                           "PositionLabellerPart.load_more_positions"],
         rand=200, covers=["loaded", "enough", "all loaded"],
         note="callers are checked against _make_xml's contract")
def load_more(vc):
    """positions are loaded in order, each once, whenever few are left"""
    size = vc.int("size", 1, pool=[1, 100, 5000, 5001, 40000])
    end = vc.int("end", 1, pool=[1, 5000, 5001, 10000, 39999])
    vc.assume(end <= size)
    left = vc.int("left", 0, pool=[0, 1, 4999, 5000, 19999, 20000, 10 ** 6])
    most = vc.int("at once", 1, pool=[1, 5000])
    vc.patch(labels, "POSITIONS_PER_XML", most)
    part = PositionLabellerPart("pos", "POS")
    part.loading = False
    part.end_index = end

    class Sized:
        pass

    part.generator = Sized()
    part.generator.size = size
    made, put = [], []

    def make_xml(start):
        stop = vc.If(start + most > size, size, start + most)
        made.append((start, stop))
        return ("xml", len(made) - 1), stop

    vc.patch(part, "_make_xml", make_xml)

    class Xml:
        def put_value(self, value):
            put.append(value)
            # updates arriving while it loads do not load anything else
            part.load_more_positions(left, child)

    class Child:
        xml = Xml()

    child = Child()
    part.load_more_positions(left, child)
    vc.check("at most one lot is loaded at once", len(put) <= 1)
    if put:
        start, stop = made[put[0][1]]
        vc.check("it starts with the first not loaded yet", start == end)
        vc.check("and is marked as loaded", part.end_index == stop)
        vc.cover("loaded")
    else:
        vc.check("else nothing is marked as loaded", part.end_index == end)
        vc.check("more is loaded when none is left",
                 vc.Or(left > 0, end >= size))
        if vc.fork(end >= size):
            vc.cover("all loaded")
        else:
            vc.cover("enough")
    vc.check("and the next update may load more", not part.loading)


@harness("C09", functions=[AD + "hdfwriterpart:HDFWriterPart." + x for x in (
    "on_configure", "on_seek", "on_run", "update_completed_steps")], rand=200,
    covers=["ran", "sought"], max_paths=4000, bounded="histories of up to 4 "
    "runs and seeks; any number of steps in each")
def writer(vc):
    tmp = tempfile.mkdtemp(prefix="pyvc_hdf_")
    try:
        vals = {n: None for n in (
            "positionMode enableCallbacks fileWriteMode swmrMode storeAttr "
            "dimAttDatasets lazyOpen arrayCounter filePath fileName "
            "fileTemplate numExtraDims flushAttrPerNFrames xmlLayout "
            "flushDataPerNFrames numCapture").split()}
        vals.update({p + x: None for p in ("posNameDim", "extraDimSize")
                     for x in "NXY3456789"})
        vals.update(xmlLayoutValid=True, numCapturedReadback=0,
                    arrayCounterReadback=0, uniqueId=0)
        child = FakeChild(**vals)
        part = HDFWriterPart("hdf", "HDF")
        part.registrar = reg = FakeRegistrar()
        ctx = FakeContext(child)
        g = prepared([LineGenerator("x", "mm", 0, 1, 3)], [], 0.1)
        size = vc.int("size", 1, pool=[1, 10, 500, 1000, 5000])
        done, n0 = 0, 0
        run = Hooks(part, ctx, generator=g, fileDir=tmp)
        if vc.flag("used before"):
            s = vc.int("steps before", 1, pool=[1, 2, 30])
            run.configure(0, s, formatName="old")
            run.run()
            child.update(vc, "numCapturedReadback", s)
            child.log[:] = []
            del reg.reported[:]
        s = run_of(vc, 0, done, size)
        run.configure(done, s)
        vc.check("captures until stopped", child.numCapture.value == 0
                 and len(child.started()) == 1)
        what = "configure"
        for i in range(4):
            child.matches = []
            run.run()
            waits = [v for n, v in child.matches if n == "numCapturedReadback"]
            vc.check("waits for the last frame of the run (%s)" % what,
                     len(waits) == 1 and waits[0] == n0 + s)
            k = vc.int("frames%d" % i, 0, pool=[0, 0, 1, 1, 2, 50])
            vc.assume(k <= s)
            del reg.reported[:]
            child.update(vc, "numCapturedReadback", n0 + k)
            vc.check("each frame written is one step (%s)" % what,
                     len(reg.reported) == 1 and reg.reported[0] == done + k)
            what = vc.choice("then%d" % i, ["run", "seek", "end"])
            if what == "end":
                return
            if what == "run":
                n0, done = n0 + s, done + s
                vc.cover("ran")
            else:
                n0 = n0 + k
                done = vc.int("to%d" % i, 0, pool=[0, 1, 3])
                vc.assume(done < size)
                vc.cover("sought")
            s = run_of(vc, i + 1, done, size)
            child.values["numCapturedReadback"] = n0
            (run.armed if what == "run" else run.seek)(done, s)
    finally:
        shutil.rmtree(tmp)


@harness("C09", functions=[
    "malcolm.modules.ADOdin.parts.odinwriterpart:OdinWriterPart." + x
    for x in ("on_run", "on_post_run_armed", "update_completed_steps")] + [
    "malcolm.modules.xspress3.parts.xspresswriterpart:XspressWriterPart." + x
    for x in ("on_run", "on_post_run_armed", "update_completed_steps")],
    rand=200, covers=["ran"], max_paths=4000, bounded="up to 4 runs of any "
    "number of steps, 1 to 4 writers")
def odin_writers(vc):
    pairs = vc.choice("writers", [1, 2, 4])
    mod = xspress if vc.flag("xspress") else odin
    vc.patch(mod, "create_vds", lambda *a, **k: None)
    vc.patch(mod, "add_nexus_nodes", lambda *a, **k: None)
    child = FakeChild(numCapture=0, filePath="", fileName="", numCaptured=0,
                      arrayCounter=0, numFramesChunks=0, numProcesses=2)
    if mod is odin:
        part, per = odin.OdinWriterPart("odin", "ODIN"), 1
    else:
        part, per = xspress.XspressWriterPart(
            "odin", "ODIN", num_pairs=pairs), pairs
    part.registrar = reg = FakeRegistrar()
    ctx = FakeContext(child)
    g = prepared([LineGenerator("x", "mm", 0, 1, 30)], [], 0.1)
    size = vc.int("size", 1, pool=[1, 10, 500, 1000, 5000])
    done = 0
    s = run_of(vc, 0, done, size)
    run = Hooks(part, ctx, generator=g, fileDir="/nowhere")
    run.configure(done, s)
    vc.check("told of all steps", child.numCapture.value == 30)
    for i in range(4):
        child.matches = []
        run.run()
        waits = [v for n, v in child.matches if n == "numCaptured"]
        vc.check("waits for the last frame of the run",
                 len(waits) == 1 and waits[0] == per * (done + s))
        k = vc.int("frames%d" % i, 0, pool=[0, 0, 1, 1, 2, 50])
        vc.assume(k <= per * s)
        del reg.reported[:]
        child.update(vc, "numCaptured", per * done + k)
        vc.check("a step is done when all of its frames are",
                 len(reg.reported) == 1 and vc.And(
                     reg.reported[0] * per <= per * done + k,
                     per * done + k < (reg.reported[0] + 1) * per))
        if i == 3 or vc.choice("then%d" % i, ["run", "end"]) == "end":
            return
        vc.cover("ran")
        done = done + s
        s = run_of(vc, i + 1, done, size)
        run.armed(done, s)


def share(frames, block, count, i):
    """how many of the frames the i-th of count writers gets, when blocks of
    frames go to each of them in turn"""
    spare = frames % (block * count) - i * block
    if spare < 0:
        spare = 0
    elif spare > block:
        spare = block
    return frames // (block * count) * block + spare


@harness("C09", functions=[
    "malcolm.modules.ADOdin.parts.odinwriterpart:files_shape",
    "malcolm.modules.xspress3.parts.xspresswriterpart:files_shape"],
    rand=300, covers=["uneven"], max_paths=8000,
    bounded="1 to 4 writers, blocks of 1 to 4 and of 10 frames; any number "
    "of frames")
def writer_files(vc):
    mod = vc.choice("writer", [odin, xspress])
    count = vc.choice("writers", [1, 2, 3, 4])
    block = vc.choice("frames in a block", [1, 2, 3, 4, 10])
    frames = vc.int("frames", 1, pool=[1, 2, 5, 7, 10, 100, 101, 10 ** 6 + 1])
    r = vc.call(mod.files_shape, frames, block, count)
    vc.check("answers", r.ok)
    vc.check("one number for each file", len(r.value) == count)
    if frames % (block * count) != 0:
        vc.cover("uneven")
    for i in range(count):
        vc.check("each file has the frames of its blocks",
                 r.value[i] == share(frames, block, count, i))


def scan_of(vc):
    gens = []
    snake = vc.flag("snake")
    n = vc.choice("dimensions", [1, 2, 3])
    for i in range(n):
        gens.append(LineGenerator(
            "xyz"[i], "mm", i, i + 2.0, vc.choice("size%d" % i, [1, 2, 3, 5]),
            alternate=snake and i > 0))
    excl = []
    if snake and n > 1 and vc.flag("unrolled"):
        excl = [SquashingExcluder(axes=["x", "y", "z"][:n])]
    g = CompoundGenerator(gens, excl, [], 0.1)
    g.prepare()
    return g, any(d.alternate for d in g.dimensions[1:])


@harness("C09", functions=[
    "malcolm.modules.ADOdin.parts.odinwriterpart:" + x for x in (
        "create_dataset_infos", "create_raw_dataset_infos", "files_shape",
        "one_vds", "create_vds", "add_nexus_nodes",
        "OdinWriterPart.on_configure")] + [
    "malcolm.modules.xspress3.parts.xspresswriterpart:" + x for x in (
        "create_dataset_infos", "create_raw_dataset_infos", "files_shape",
        "one_vds", "create_vds", "add_nexus_nodes",
        "XspressWriterPart.on_configure")],
    rand=60, covers=["read", "snake refused"], concrete_only=True,
    bounded="scans of 1 to 3 dimensions of up to 5 steps, 1 to 4 writers, "
    "blocks of 1 to 3 frames, read back from real files")
def virtual_files(vc):
    mod = vc.choice("writer", [odin, xspress])
    g, snakes = scan_of(vc)
    count = vc.choice("writers", [1, 2, 3, 4])
    block = vc.choice("frames in a block", [1, 2, 3])
    width, height = 2, 3
    chans = count * vc.choice("channels of each writer", [1, 2])
    child = FakeChild(numCapture=0, filePath="", fileName="", numCaptured=0,
                      arrayCounter=0, numFramesChunks=0, numProcesses=count,
                      imageWidth=width, imageHeight=height, blockSize=block,
                      dataType="UInt16")
    if mod is odin:
        part = odin.OdinWriterPart("odin", "ODIN", uid_name="ids",
                                   sum_name="total")
    else:
        part = xspress.XspressWriterPart("odin", "ODIN", num_pairs=count,
                                         num_datasets=chans)
    part.registrar = FakeRegistrar()
    with Scratch() as tmp:
        run = Hooks(part, FakeContext(child), generator=g, fileDir=tmp,
                    fileTemplate="my_%s.h5")
        r = vc.call(run.configure, 0, g.size)
        if snakes:
            vc.cover("snake refused")
            vc.check("a snake is refused", r.raised(BadValueError))
            return
        vc.check("accepted", r.ok)
        vc.check("told where to write and how much",
                 child.filePath.value == tmp + os.sep
                 and child.numCapture.value == g.size)
        base = os.path.join(tmp, child.fileName.value)
        frame = 0
        for i in range(count):
            name = "_%06d.h5" % (i + 1) if mod is odin else (
                "_%s_000000.h5" % "ABCDEFGH"[i])
            mine = [k for k in range(g.size) if k // block % count == i]
            with h5py.File(base + name, "w", libver="latest") as f:
                f["data"] = numpy.array(
                    [numpy.arange(6).reshape(3, 2) + 10 * k for k in mine],
                    dtype="uint16").reshape(len(mine), height, width)
                for node, add in (("ids", 1), ("total", 1000)):
                    f[node] = numpy.array(
                        [k + add for k in mine], dtype="uint64").reshape(
                            len(mine), 1, 1)
                f["uid"] = numpy.array([k + 1 for k in mine])
                for c in range(chans):
                    if c // (chans // count) == i:
                        f["mca_%d" % c] = numpy.array([c])
        infos = r.value
        vc.check("no dataset twice",
                 len({x.name for x in infos}) == len(infos))
        with h5py.File(os.path.join(tmp, "my_det.h5"), "r") as f:
            for x in infos:
                vc.check("every dataset is in the file it was reported in",
                         x.filename == "my_det.h5"
                         and f.get(x.path, getlink=True) is not None)
            shape = tuple(d.size for d in g.dimensions)

            def reads(path, want):
                got = f[path][...]
                want = numpy.array(want).reshape(shape + got.shape[-2:])
                return got.shape == want.shape and (got == want).all()
            frames = [numpy.arange(6).reshape(3, 2) + 10 * k
                      for k in range(g.size)]
            vc.cover("read")
            node = "detector" if mod is odin else "xspress"
            path = "/entry/%s/data" % node
            vc.check("each step has its own frame", reads(path, frames))
            main = [x for x in infos if x.path == path]
            vc.check("reported as the primary data", len(main) == 1
                     and main[0].name == "det.data"
                     and main[0].type == DatasetType.PRIMARY
                     and main[0].rank == f[path].ndim)
            if mod is odin:
                vc.check("each step has its own unique id", reads(
                    "/entry/detector_uid/uid", range(1, g.size + 1)))
                vc.check("each step has its own sum", reads(
                    "/entry/detector_sum/sum", range(1000, 1000 + g.size)))
                vc.check("the unique id of the data is in the file",
                         main[0].uniqueid == "/entry/detector_uid/uid")
            raw = [x for x in infos if x.type == DatasetType.RAW]
            if mod is odin:
                vc.check("the files of all writers are reported",
                         sorted(x.path for x in raw) == sorted(
                             "/%s%d" % (w, i + 1) for w in ("raw", "uid")
                             for i in range(count)))
                for i in range(count):
                    vc.check("raw data is that of its writer",
                             list(f["uid%d" % (i + 1)]) == [
                                 k + 1 for k in range(g.size)
                                 if k // block % count == i])
            else:
                for c in range(chans):
                    vc.check("spectra are those of their channel",
                             list(f["raw/mca%d" % c]) == [c])
            for i, d in enumerate(g.dimensions):
                for axis in d.axes:
                    at = "/entry/%s/%s_set" % (node, axis)
                    x = [x for x in infos if x.path == at]
                    vc.check("the positions asked for are reported",
                             len(x) == 1 and x[0].name == axis + ".value_set"
                             and x[0].type == DatasetType.POSITION_SET)
                    vc.check("and are those of the scan",
                             list(f[at]) == list(d.get_positions(axis)))
                    vc.check("against their dimension", f[
                        "/entry/" + node].attrs[axis + "_set_indices"] == i)


class FakeDims:
    def __init__(self):
        self.got = {}

    def put_attribute_values_async(self, d):
        assert not set(d) & set(self.got)
        self.got.update(d)
        return []


class Dim:
    def __init__(self, size):
        self.size = size


class DimGen:
    def __init__(self, sizes):
        self.dimensions = [Dim(s) for s in sizes]


def hdf_child():
    vals = {n: None for n in (
        "positionMode enableCallbacks fileWriteMode swmrMode storeAttr "
        "dimAttDatasets lazyOpen arrayCounter filePath fileName "
        "fileTemplate numExtraDims flushAttrPerNFrames xmlLayout "
        "flushDataPerNFrames numCapture").split()}
    vals.update({p + x: None for p in ("posNameDim", "extraDimSize")
                 for x in "NXY3456789"})
    vals.update(xmlLayoutValid=True, numCapturedReadback=0,
                arrayCounterReadback=0, uniqueId=0, running=False)
    return FakeChild(**vals)


def walk_layout(el, path=""):
    """{path: element} of all datasets and links of a layout"""
    out = {}
    for x in el:
        if x.tag == "group":
            out.update(walk_layout(x, path + "/" + x.get("name")))
        elif x.tag in ("dataset", "hardlink"):
            out[path + "/" + x.get("name")] = x
    return out


PANDA = [("I0.data", DatasetType.PRIMARY, "COUNTER1.Diff"),
         ("I0.data", DatasetType.MONITOR, "C.Diff"),
         ("x.value", DatasetType.POSITION_VALUE, "INENC1.Mean"),
         ("x.min", DatasetType.POSITION_MIN, "INENC1.Min")]
AH = AD + "hdfwriterpart:"


@harness("C09", functions=[AH + x for x in (
    "create_dataset_infos", "make_layout_xml", "make_nxdata",
    "make_set_points", "_write_additional_hdf",
    "HDFWriterPart.on_configure", "HDFWriterPart.on_reset")] + [
    "malcolm.modules.ADCore.infos:FilePathTranslatorInfo.translate_filepath"],
    rand=250, concrete_only=True,
    bounded="scans of eight kinds, detectors of rank 1 to 3 with up to two "
    "calculated datasets and attributes, files written to a scratch folder")
def hdf_layout(vc):
    """each dataset that is reported is in the layout of the file (or in the
    file of demand positions), with its own source"""
    from xml.etree import ElementTree as ET
    from malcolm.modules.ADCore.infos import (
        CalculatedNDAttributeDatasetInfo, FilePathTranslatorInfo,
        NDArrayDatasetInfo, NDAttributeDatasetInfo)
    gens, ex, d = some_generator(vc)
    g = prepared(gens, ex, d)
    info = {}
    rank = vc.choice("detector", [None, 1, 2, 3])
    if rank is not None:
        info["det"] = [NDArrayDatasetInfo(rank)]
    calc = vc.choice("calculated", [[], [("sum", "STATS_TOTAL")],
                                    [("sum", "T"), ("mean", "M")]])
    if calc:
        info["stat"] = [CalculatedNDAttributeDatasetInfo(*x) for x in calc]
    attrs = [x for i, x in enumerate(PANDA) if vc.flag("attribute%d" % i)]
    attrs = [x for i, x in enumerate(attrs)
             if x[0] not in [y[0] for y in attrs[:i]]]
    if attrs:
        info["panda"] = [NDAttributeDatasetInfo(*x) for x in attrs]
    tmp = tempfile.mkdtemp(prefix="pyvc_hdf_")
    here = os.getcwd()
    os.chdir(tmp)
    try:
        where = os.path.join(tmp, "data", tmp.strip("/"))
        os.makedirs(where)
        windows = vc.flag("windows")
        net = vc.choice("network", ["", "//host"])
        if windows:
            info["translator"] = [FilePathTranslatorInfo("X", tmp, net)]
        extra = vc.flag("positions in another file")
        child = hdf_child()
        part = HDFWriterPart("hdf", "HDF:1", runs_on_windows=windows,
                             write_all_nd_attributes=vc.flag("all"),
                             remove_demand_positions_from_xml=extra)
        part.registrar = FakeRegistrar()
        name, templ = vc.choice("names", [("det", "%s.h5"),
                                          ("d1", "scan-%s.hdf5")])
        run = Hooks(part, FakeContext(child), generator=g, part_info=info,
                    fileDir=where + vc.choice("ends", ["", "/"]),
                    formatName=name, fileTemplate=templ)
        got = vc.call(run.configure, 0, g.size)
        vc.check("configured (%r)" % got.exc, got.ok)
        if not got.ok:
            return
        sets = list(got.value)

        def seen(path):
            """the path as the file writer sees it"""
            if not windows:
                return path
            root = net + tmp if net else "X:"
            return (root + path[len(tmp):]).replace("/", "\\")
        v = child.values
        vc.check("the file is written where it was asked for",
                 (v["filePath"] % () if False else v["filePath"]).rstrip("/")
                 == seen(where) and v["fileName"] == name
                 and v["fileTemplate"] == "%s" + templ)
        files = [x for x in os.listdir(where) if x.endswith(".xml")]
        vc.check("with a layout of its own", len(files) == 1
                 and v["xmlLayout"] == seen(os.path.join(where, files[0])))
        if len(files) != 1:
            return
        tree = walk_layout(ET.parse(os.path.join(where, files[0])).getroot())
        vc.check("nothing is left elsewhere", sorted(os.listdir(tmp))
                 == ["data"])
        want = {}
        k = len(g.dimensions)
        if rank is not None:
            want[name + ".data"] = (DatasetType.PRIMARY, k + rank,
                                    "detector", None)
            for n, a in calc:
                want["%s.%s" % (name, n)] = (DatasetType.SECONDARY, k,
                                             "ndattribute", a)
        for n, t, a in attrs:
            want[n] = (t, k, "ndattribute", a)
        for axis in g.axes:
            want[axis + ".value_set"] = (DatasetType.POSITION_SET, 1,
                                         "constant", axis)
        vc.check("all data of the scan is reported once",
                 sorted(x.name for x in sets) == sorted(want))
        file = templ % name
        if rank is not None:
            vc.check("the detector's data is stored",
                     any(x.get("det_default") == "true"
                         for x in tree.values()))
        for x in sets:
            if x.name not in want:
                continue
            t, r, source, attr = want[x.name]
            vc.check("with its type and rank", x.type == t and x.rank == r)
            if t == DatasetType.POSITION_SET:
                pos = [p for dim in g.dimensions if attr in dim.axes
                       for p in dim.get_positions(attr)]
            if t == DatasetType.POSITION_SET and extra:
                full = os.path.join(where, x.filename)
                vc.check("the file of positions is there",
                         os.path.isfile(full) and x.filename != file)
                if os.path.isfile(full):
                    if part._hdf:
                        part._hdf.close()
                    with h5py.File(full, "r") as f:
                        vc.check("and has the positions of the axis",
                                 x.path in f and list(f[x.path][()]) == pos
                                 and f[x.path].attrs["units"]
                                 == g.units[attr])
                continue
            vc.check("in the file that is written", x.filename == file)
            el = tree.get(x.path)
            vc.check("at a path of the layout", el is not None
                     and el.tag == "dataset")
            if el is None:
                continue
            vc.check("from its own source", el.get("source") == source
                     and (source != "ndattribute"
                          or el.get("ndattribute") == attr))
            if source == "constant":
                vc.check("with the positions of the axis", numpy.allclose(
                    [float(p) for p in el.get("value").split(",")], pos,
                    rtol=1e-11, atol=0) if len(pos) == len(
                        el.get("value").split(",")) else False)
                vc.check("and their units", [
                    a.get("value") for a in el if a.get("name") == "units"]
                    == [g.units[attr]])
            else:
                u = tree.get(x.uniqueid)
                vc.check("with the ids of its frames", u is not None
                         and u.get("ndattribute") == "NDArrayUniqueId")
        vc.check("links lead somewhere", all(
            x.get("target") in tree for x in tree.values()
            if x.tag == "hardlink"))
        child.log[:] = []
        from malcolm.modules.builtin.parts import ChildPart
        vc.patch(ChildPart, "on_reset", lambda self, context: None)
        vc.call(part.on_reset, FakeContext(child))
        vc.check("the layout is removed in the end", not [
            x for x in os.listdir(where) if x.endswith(".xml")])
    finally:
        os.chdir(here)
        shutil.rmtree(tmp)


class Clock:
    def __init__(self, now):
        self.now = now

    def time(self):
        return self.now


@harness("C09", functions=[AH + "HDFWriterPart." + x for x in (
    "on_run", "_flush_if_still_writing", "_has_file_writing_stalled",
    "_get_file_writing_stalled_error_message", "update_completed_steps",
    "on_configure")], rand=200, max_paths=4000,
    covers=["stalled", "done", "failed"],
    bounded="up to four waits of a second; any times and durations")
def hdf_stalled(vc):
    """a run that gets no more frames fails in the end, and flushes what it
    has got meanwhile"""
    import malcolm.modules.ADCore.parts.hdfwriterpart as m
    from malcolm.core import TimeoutError
    child = hdf_child()
    tmp = tempfile.mkdtemp(prefix="pyvc_hdf_")
    try:
        part = HDFWriterPart("hdf", "HDF")
        part.registrar = FakeRegistrar()
        ctx = FakeContext(child)
        d = vc.real("duration", 0, pool=[0.0, 0.1, 10.0])
        g = prepared([LineGenerator("x", "mm", 0, 1, 3)], [], 0.1)
        g.duration = d
        clock = Clock(vc.real("start", 1))
        vc.stub(m, "time", clock)
        run = Hooks(part, ctx, generator=g, fileDir=tmp)
        run.configure(0, 9)
        n = vc.choice("waits", [0, 1, 2, 3])
        failed = vc.flag("capture failed")
        exc = RuntimeError("disk full")
        f = Future(None)
        if failed:
            f.set_exception(exc)
        part.start_future = f
        last = [None]
        seen = []

        def wait(futures, timeout=None):
            if timeout is None:
                return
            if len(seen) >= n:
                seen.append("done")
                return
            seen.append("late")
            clock.now = clock.now + vc.real("passed%d" % len(seen), 0,
                                            pool=[1.0, 1.0, 30.0, 100.0])
            if vc.flag("frame%d" % len(seen)):
                last[0] = clock.now
                child.update(vc, "numCapturedReadback", 3)
                clock.now = clock.now + vc.real(
                    "more%d" % len(seen), 0, pool=[0.5, 59.0, 61.0, 200.0])
            raise TimeoutError("not yet")
        ctx.wait_all_futures = wait
        child.log[:] = []
        r = vc.call(run.run)
        flushes = [x for x in child.log if x[1] == "flushNow"]
        if failed and n:
            vc.cover("failed")
            vc.check("the error of the capture is raised", r.exc is exc)
            return
        if not r.ok:
            vc.cover("stalled")
            vc.check("by a timeout", r.raised(TimeoutError))
            vc.check("only if there was a frame, but none for a minute and "
                     "a step", last[0] is not None and vc.fork(
                         clock.now > last[0] + 60 + vc.If(
                             d > 0, d, 0)))
        else:
            vc.cover("done")
            vc.check("once the last frame is there", seen[-1:] == ["done"])
        late = seen.count("late")
        vc.check("what there is is flushed while waiting",
                 len(flushes) == late)
        if r.ok and n and last[0] is not None and seen[-2:-1] == ["late"]:
            vc.check("and it was not given up on too late", vc.Not(
                clock.now > last[0] + 120 + d))
    finally:
        shutil.rmtree(tmp)


@harness("C09", functions=[AD + "hdfwriterpart:set_dimensions"], rand=200,
         covers=["set", "refused"])
def dimensions(vc):
    n = vc.choice("dimensions", list(range(1, 12)))
    sizes = [vc.int("size%d" % i, 1) for i in range(n)]
    child = FakeDims()
    r = vc.call(set_dimensions, child, DimGen(sizes))
    if n > 10:
        vc.cover("refused")
        vc.check("more dimensions than the file can have are refused",
                 not r.ok and child.got == {})
        return
    vc.cover("set")
    vc.check("accepted", r.ok)
    got = child.got
    vc.check("number of dimensions", got.get("numExtraDims") == n - 1)
    for i, x in enumerate("NXY3456789"):
        if i < n:
            j = n - 1 - i
            vc.check("dimension fastest first", got["posNameDim" + x]
                     == "d%d" % j)
            vc.check("with its size", got["extraDimSize" + x] == sizes[j])
        else:
            vc.check("no other dimension", got["posNameDim" + x] == ""
                     and got["extraDimSize" + x] == 1)
    vc.check("nothing else", len(got) == 21)


class FakeMeta:
    def __init__(self, takes):
        self.elements = {k: None for k in takes}
        self.takes = self
        self.meta = self


class FakeMethod:
    def __init__(self, takes, f):
        self.meta, self.f = FakeMeta(takes), f

    def __call__(self, **kw):
        return self.f(kw)


TAKES = ["generator", "axesToMove", "breakpoints", "fileDir", "formatName",
         "fileTemplate", "exposure", "frames_per_step"]


class FakeDetector(FakeChild):
    def __init__(self, takes, tweak):
        FakeChild.__init__(self, completedSteps=0, state="Armed",
                           datasets=Rows())
        self.took, self.paused, self.resumed = [], [], 0

        def validate(kw):
            bad = set(kw) - set(takes)
            assert not bad, "'FakeDetector' does not take %s" % bad
            return tweak(dict(kw))

        def configure(kw):
            bad = set(kw) - set(takes)
            assert not bad, "does not take %s" % bad
            self.took.append(kw)

        def pause(kw):
            self.paused.append(kw)

        self.validate = FakeMethod(takes, validate)
        self.configure = FakeMethod(takes, configure)
        self.pause = FakeMethod(["lastGoodStep"], pause)

    def resume(self):
        self.resumed += 1


class Rows:
    def rows(self):
        return []


def runs(g, axes, bp):
    """Steps of each run of the inner scan: as RunnableController's (C08)"""
    from malcolm.modules.scanning.controllers import RunnableController
    from checks.lib import FakeProcess, controller
    c = controller("runnable", FakeProcess())
    assert isinstance(c, RunnableController)
    return c.get_steps_per_run(g, axes, bp or [])


@harness("C09", functions=[
    "malcolm.modules.scanning.parts.detectorchildpart:DetectorChildPart." + x
    for x in ("on_configure", "_configure_args", "on_seek", "on_run",
              "update_completed_steps", "on_validate")], rand=400,
    concrete_only=True, bounded="generators of up to 100 steps, up to 5 "
    "frames per step, seeded sample")
def frames_per_step(vc):
    gens, ex, d = some_generator(vc)
    g = prepared(gens, ex, d)
    frames = vc.choice("frames", [1, 2, 3, 5])
    enable = vc.choice("enable", [True, True, True, False])
    inner = list(g.dimensions[-1].axes)
    axes = vc.choice("axes", [inner, [a for x in g.dimensions
                                      for a in x.axes]])
    n = 1
    for x in g.dimensions:
        if set(x.axes) <= set(axes):
            n *= x.size
    bp = vc.choice("breakpoints", [None, [1], [1, 1, 2], [n]])
    if bp and sum(bp) > n:
        bp = [n]
    exposure = vc.choice("exposure", [0.0, 0.0, 0.01])
    takes = list(TAKES)
    if vc.choice("no exposure", [False, False, True]):
        takes.remove("exposure")
        exposure = 0.0
    want = vc.choice("tweaked duration", [None, 0.7])

    def tweak(kw):
        if want is not None and kw["generator"].duration == 0:
            h = CompoundGenerator.from_dict(kw["generator"].to_dict())
            h.duration = want
            kw["generator"] = h
        return kw

    child = FakeDetector(takes, tweak)
    part = DetectorChildPart("DET", "det", True)
    part.registrar = reg = FakeRegistrar()
    ctx = FakeContext(child)
    table = DetectorTable.from_rows([[enable, "DET", "det", exposure, frames],
                                     [True, "OTHER", "other", 0.3, 1]])
    info = {"m": [DetectorMutiframeInfo("det")]}
    run = Hooks(part, ctx, part_info=info, generator=g, fileDir="/d",
                detectors=table, axesToMove=axes, breakpoints=bp)
    r = vc.call(run.validate)
    vc.check("can be validated (%r)" % (r.exc,), r.ok)
    if not r.ok:
        return
    tweaks = {t.parameter: t.value for t in list(r.value or [])}
    vc.check("only what the detector asks for is tweaked", set(tweaks) <= {
        "generator"} if not (enable and d == 0 and want) else set(tweaks) == {
        "generator"})
    if "generator" in tweaks:
        t = tweaks["generator"]
        t.prepare()
        vc.check("the tweaked generator is that of the scan with another "
                 "duration", t.size == g.size and t.duration == want
                 and len(t.dimensions) == len(g.dimensions)
                 and g.duration == d)
    r = vc.call(run.configure, 0, g.size)
    vc.check("can be configured (%r)" % (r.exc,), r.ok)
    if not r.ok:
        return
    if not enable:
        run.run()
        run.seek(0, 1)
        vc.check("a detector that does not take part is left alone",
                 not child.took and not child.log and not child.paused)
        return
    vc.check("configured once", len(child.took) == 1)
    kw = child.took[0]
    h = CompoundGenerator.from_dict(kw["generator"].to_dict())
    if frames > 1 and any(x.alternate for x in gens):
        # scanpointgenerator refuses to multiply out a snake: so does the
        # child then
        try:
            h.prepare()
        except ValueError:
            return
    else:
        h.prepare()
    vc.check("as many frames for each step", h.size == g.size * frames)
    vc.check("each with its share of the time",
             abs(h.duration * frames - d) <= 1e-12)
    vc.check("as many dimensions",
             [x.size for x in h.dimensions] == [x.size for x in g.dimensions][
                 :-1] + [g.dimensions[-1].size * frames])
    for i in range(g.size):
        p = g.get_point(i)
        for k in range(frames):
            q = h.get_point(i * frames + k)
            vc.check("all frames of a step are at its position", all(
                q.positions[a] == v for a, v in p.positions.items())
                and q.indexes[:-1] == p.indexes[:-1]
                and q.indexes[-1] == p.indexes[-1] * frames + k)
    vc.check("its exposure", kw.get("exposure", 0.0) == exposure
             and kw["fileDir"] == "/d" and kw["formatName"] == "DET")
    mine = vc.call(runs, g, axes, bp)
    if mine.ok:
        its = vc.call(runs, h, list(kw["axesToMove"]), kw["breakpoints"])
        vc.check("its runs end with those of the scan", its.ok and
                 list(its.value) == [x * frames for x in mine.value])
    run.run()
    vc.check("run", len([x for x in child.log if x[:2] == ("call", "run")])
             == 1 and not child.resumed)
    for n in (0, 1, frames - 1, frames, g.size * frames):
        del reg.reported[:]
        child.update(vc, "completedSteps", n)
        vc.check("a step is done when all of its frames are",
                 reg.reported == [n // frames])
    c = vc.int("seek to", 0, g.size - 1)
    run.seek(c, 1)
    vc.check("moved to the first frame of the step",
             child.paused == [{"lastGoodStep": c * frames}])
    child.values["state"] = "Paused"
    run.run()
    vc.check("resumed", child.resumed == 1)


class RunFuture(Future):
    """The run of a child: done, or failed with an error of its own"""

    def __init__(self, error):
        Future.__init__(self, None)
        if error is None:
            self.set_result(None)
        else:
            self.set_exception(error)


class RunContext(FakeContext):
    """Waiting for the state of the child ends as the case says; waiting for
    its run gives the result of the run"""

    def __init__(self, child, ends):
        FakeContext.__init__(self, child)
        self.ends, self.waited = ends, []

    def wait_all_futures(self, futures, *a, **k):
        if isinstance(futures, Future):
            futures = [futures]
        for f in futures or []:
            self.waited.append(f)
            if f is self.child.state_future:
                self.child.values["state"] = self.ends
                if self.ends in self.child.bad:
                    raise BadValueError("state is %s" % self.ends)
            elif isinstance(f, RunFuture):
                f.result()


class RunChild(FakeDetector):
    def __init__(self, error, rows):
        FakeDetector.__init__(self, TAKES, lambda kw: kw)
        self.values["datasets"] = DatasetRows(rows)
        self.run_future, self.state_future = RunFuture(error), Future(None)
        self.bad, self.ran, self.aborted, self.reset_ = [], 0, 0, 0
        self.abort, self.reset = Simple(self, "aborted"), Simple(
            self, "reset_")

    def when_value_matches_async(self, name, value, bad_values=None, *a, **k):
        self.matches.append((name, value))
        self.bad = list(bad_values or [])
        return self.state_future

    def run_async(self):
        self.ran += 1
        return self.run_future


class Simple:
    def __init__(self, owner, count):
        self.owner, self.count = owner, count
        self.meta, self.writeable = self, True

    def __call__(self):
        setattr(self.owner, self.count, getattr(self.owner, self.count) + 1)


class DatasetRows:
    def __init__(self, rows):
        self.r = rows

    def rows(self):
        return [list(x) for x in self.r]


@harness("C09", functions=[
    "malcolm.modules.scanning.parts.detectorchildpart:DetectorChildPart." + x
    for x in ("on_configure", "on_run", "on_post_run", "on_abort",
              "on_reset", "on_validate")], rand=200, concrete_only=True,
    covers=["done", "fault", "aborting", "not taking part", "faulty"],
    bounded="one and two runs of a child that ends in each state, any "
    "number of datasets up to 3")
def detector_run(vc):
    ends = vc.choice("child ends in", [
        "PostRun", "PostRun", "Fault", "Aborting", "Disabling"])
    takes_part = vc.choice("takes part", [True, True, True, False])
    again = vc.flag("paused first")
    error = ValueError("the reason") if ends == "Fault" else None
    rows = [["DET.d%d" % i, "f.h5", list(DatasetType)[i], i,
             "/entry/d%d" % i, ""] for i in range(vc.choice(
                 "datasets", [0, 1, 3]))]
    child = RunChild(error, rows)
    ctx = RunContext(child, ends)
    part = DetectorChildPart("DET", "det", True)
    part.registrar = FakeRegistrar()
    g = CompoundGenerator([LineGenerator("x", "mm", 0, 1, 4)], [], [], 0.1)
    g.prepare()
    table = DetectorTable.from_rows([[takes_part, "DET", "det", 0.0, 1]])
    run = Hooks(part, ctx, generator=g, fileDir="/d", detectors=table,
                axesToMove=["x"])
    faulty = vc.choice("faulty at init", [False, False, False, True])
    if faulty:
        vc.cover("faulty")
        part.faulty = True
        r = vc.call(run.validate)
        vc.check("a detector that was faulty at init is refused if it takes "
                 "part, and only then", r.ok != takes_part)
        fire(part, ResetHook, context=ctx)
        vc.check("and is not reset", child.aborted == child.reset_ == 0)
        return
    fire(part, ResetHook, context=ctx)
    vc.check("a reset stops and resets the child",
             child.aborted == 1 and child.reset_ == 1)
    child.aborted = 0
    r = vc.call(run.configure, 0, g.size)
    vc.check("can be configured (%r)" % (r.exc,), r.ok)
    if not r.ok:
        return
    if not takes_part:
        vc.cover("not taking part")
        vc.check("reports no datasets", not r.value)
        r = vc.call(run.run)
        run.armed(0, 0)
        vc.check("is not run", r.ok and child.ran == 0 and child.resumed == 0
                 and not ctx.waited)
        return
    got = [[i.name, i.filename, i.type, i.rank, i.path, i.uniqueid]
           for i in (r.value or [])]
    vc.check("the datasets of the child are those of the scan", got == rows)
    if again:
        # The scan was paused in its first run
        ctx.ends = "PostRun"
        run.run()
        run.seek(1, 1)
        child.values["state"] = "Paused"
        ctx.ends = ends
        del ctx.waited[:]
    r = vc.call(run.run)
    vc.check("the child is run once", child.ran == 1
             and child.resumed == (1 if again else 0))
    vc.check("and the run lasts until it has done its steps",
             child.state_future in ctx.waited
             and child.matches[-1] == ("state", "PostRun"))
    if ends == "PostRun":
        vc.cover("done")
        vc.check("the run ends well", r.ok)
        run.armed(4, 0)
        vc.check("and after it the run of the child is waited for",
                 child.run_future in ctx.waited)
    elif ends == "Fault":
        vc.cover("fault")
        vc.check("a failure of the child fails the scan with its reason "
                 "(%r)" % (r.exc,), not r.ok and r.exc is error)
    else:
        vc.cover("aborting")
        vc.check("a child that stops fails the scan", r.raised(
            BadValueError))
    fire(part, AbortHook, context=ctx)
    vc.check("an abort stops the child", child.aborted == 1)
