"""Exposure and readout fit in the frame."""
from pyvc.api import harness
from checks.lib import fire

from scanpointgenerator import CompoundGenerator, LineGenerator

import malcolm.modules.scanning.parts.exposuredeadtimepart as ed
from malcolm.modules.scanning.hooks import (
    ConfigureHook, PostConfigureHook, ValidateHook)
from malcolm.modules.ADAndor.parts.andordriverpart import AndorDriverPart
from malcolm.modules.ADPandABlocks.parts import PandAPulseTriggerPart
from malcolm.modules.scanning.infos import ExposureDeadtimeInfo

I = "malcolm.modules.scanning.infos"
P = "malcolm.modules.scanning.parts.exposuredeadtimepart"
A = "malcolm.modules.ADAndor.parts.andordriverpart"
ASSUMPTIONS = [
    "floats are treated as reals in the proof; the executable contract on "
    "the unmodified code compares with a relative tolerance of 1e-9",
    "readout time and minimum exposure are not negative, frequency accuracy "
    "is 0..10000 ppm (preconditions)",
    "CompoundGenerator.to_dict/from_dict keep the generator (scanpoint"
    "generator is a dependency)",
]
POOL = [0.0, 1e-9, 1e-4, 0.01, 0.1, 1.0, 3.7, 1000.0]


class Gen:
    """A generator of which only the duration matters"""

    def __init__(self, duration):
        self.duration = duration

    def to_dict(self):
        return {"duration": self.duration}

    @classmethod
    def from_dict(cls, d, *a):
        return cls(d["duration"])


def gen(vc, duration):
    if vc.sym:
        vc.stub(ed, "CompoundGenerator", Gen)
        return Gen(duration)
    return CompoundGenerator([LineGenerator("x", "mm", 0, 2, 3)], [], [],
                             duration)


def params(vc):
    r = vc.real("readout", 0, pool=POOL)
    a = vc.real("accuracy", 0, 10000, pool=[0.0, 50.0, 1000.0, 9999.0])
    m = vc.real("min exposure", 0, pool=POOL)
    return r, a, m


def fits(vc, d, e, r, a):
    """exposure, readout and clock error fit in the duration"""
    return vc.le(e + r + a * d / 1000000, d)


@harness("C13", functions=[
    I + ":ExposureDeadtimeInfo.calculate_exposure",
    I + ":ExposureDeadtimeInfo.calculate_maximum_exposure",
    I + ":ExposureDeadtimeInfo.calculate_minimum_duration"], rand=600,
    covers=["given", "longest", "raised to the minimum"])
def info(vc):
    r, a, m = params(vc)
    i = ExposureDeadtimeInfo(r, a, m)
    d = vc.real("duration", 0, pool=POOL)
    e = vc.real("exposure", 0, pool=POOL)
    out = i.calculate_exposure(d, e)
    vc.check("never below the minimum exposure", vc.le(m, out))
    longest = d - r - a * d / 1000000
    possible = longest >= m
    if possible:
        vc.check("exposure, readout and clock error fit in the frame",
                 vc.Or(vc.And(d == 0, e == 0), fits(vc, d, out, r, a)))
        if e == 0:
            vc.cover("longest")
            vc.check("as long as possible when not given",
                     vc.Or(d == 0, vc.close(out, longest)))
        elif e < m:
            vc.cover("raised to the minimum")
            vc.check("the minimum when less was asked for", vc.close(out, m))
        elif e <= longest:
            vc.cover("given")
            vc.check("a possible exposure is kept", vc.close(out, e))
        else:
            vc.check("the longest when more was asked for",
                     vc.close(out, longest))
    else:
        vc.check("the minimum when nothing is possible", vc.close(out, m))
    if e >= 0:
        md = i.calculate_minimum_duration(e)
        vc.check("the minimum duration holds exposure, readout and error",
                 vc.close(e + r + a * md / 1000000, md))
        vc.check("and is not negative", md >= 0)


@harness("C13", functions=[P + ":ExposureDeadtimePart.on_validate",
                           P + ":ExposureDeadtimePart.on_report_status"],
         rand=500, covers=["duration", "exposure", "accepted", "refused"])
def validate(vc):
    r, a, m = params(vc)
    part = ed.ExposureDeadtimePart("n", min_exposure=m) \
        if not vc.sym else ed.ExposureDeadtimePart("n")
    part.min_exposure = m
    part.readout_time.value = r
    part.frequency_accuracy.value = a
    d = vc.real("duration", 0, pool=POOL)
    e = vc.real("exposure", 0, pool=POOL)
    frames = vc.int("frames", 1, 100)
    g = gen(vc, d)
    o = vc.call(fire, part, ValidateHook, generator=g, exposure=e,
                frames_per_step=frames)
    vc.check("the generator given is not changed", g.duration == d)
    if d == 0:
        vc.cover("duration")
        vc.check("a zero duration is tweaked", o.ok and o.value is not None
                 and o.value.parameter == "generator")
        if not o.ok:
            return
        nd = o.value.value.duration
        want = e if e > 0 else m
        vc.check("each frame holds exposure, readout and clock error",
                 fits(vc, nd / frames, want, r, a))
        need = (want + r) / (1 - a / 1000000) * frames
        vc.check("and the duration is no longer than that takes",
                 vc.le(nd, need * (1 + 2e-12)))
        if e == 0 or e >= m:
            # what it asked for it accepts (per frame)
            o2 = vc.call(fire, part, ValidateHook, exposure=e,
                         generator=gen(vc, nd / frames), frames_per_step=1)
            vc.check("the tweaked duration is accepted", o2.ok)
        return
    longest = d - r - a * d / 1000000
    if e == 0:
        vc.cover("exposure")
        vc.check("a zero exposure is tweaked", o.ok and o.value is not None
                 and o.value.parameter == "exposure")
        if not o.ok:
            return
        ne = o.value.value
        vc.check("to at least the minimum", vc.le(m, ne))
        if longest >= m:
            vc.check("to the longest that fits", vc.close(ne, longest))
        if ne > 0:
            vc.check("the tweaked exposure is accepted",
                     vc.call(fire, part, ValidateHook, generator=g,
                             exposure=ne, frames_per_step=frames).ok)
    elif o.ok:
        vc.cover("accepted")
        vc.check("accepted as given", o.value is None)
        vc.check("accepted only above the minimum", vc.le(m, e))
        if longest >= m:
            vc.check("accepted only if it fits the frame",
                     fits(vc, d, e, r, a))
    else:
        vc.cover("refused")
        vc.check("refused only with reason",
                 vc.Or(e < m, e > longest,
                       vc.And(not vc.sym, vc.close(e, longest))))


@harness("C13", functions=[
    A + ":AndorDriverPart.get_adjusted_exposure_time_and_acquire_period",
    A + ":AndorDriverPart.get_additional_readout_factor"], rand=200)
def andor(vc):
    d = vc.real("duration", 0, pool=POOL)
    r = vc.real("readout", 0, pool=POOL)
    e = vc.real("exposure", 0, pool=POOL)
    vc.assume(d > 0)
    part = AndorDriverPart("n", "mri")
    exposure, period = part.get_adjusted_exposure_time_and_acquire_period(
        d, r, e)
    vc.check("the exposure is not negative", exposure >= 0)
    extra = d * 0.004 + 0.001
    vc.check("the period is exposure, readout and the extra readout",
             vc.close(period, exposure + r + extra))
    if d - r - extra - 50 * d / 1000000 >= 0:
        vc.check("the period fits in the frame with the clock error",
                 vc.le(period + 50 * d / 1000000, d))
        if e > 0:
            vc.check("never longer than asked for", vc.le(exposure, e))


@harness("C13", functions=[P + ":ExposureDeadtimePart.on_configure"], rand=60)
def configure(vc):
    part = ed.ExposureDeadtimePart("n", min_exposure=0.01)
    e = vc.choice("exposure", POOL)
    fire(part, ConfigureHook, exposure=e)
    vc.check("the configured exposure is published", part.exposure.value == e)


class FakeRows:
    def __init__(self, rows):
        self.value = self
        self.r = rows

    def rows(self):
        return self.r


class FakeVal:
    def __init__(self, value):
        self.value = value


class FakeBlock(dict):
    mri = "B"

    def __getattr__(self, name):
        return self[name]

    def put_attribute_values(self, d):
        self["put"] = d


class FakeBlocks:
    def __init__(self, **blocks):
        self.blocks = blocks

    def block_view(self, mri):
        return self.blocks[mri]


@harness("C13", functions=[
    "malcolm.modules.ADPandABlocks.parts.pandapulsetriggerpart:"
    "PandAPulseTriggerPart." + x for x in ("on_configure",
                                           "on_post_configure")],
    rand=300, covers=["pulses", "refused", "not taking part"])
def pulses(vc):
    part = PandAPulseTriggerPart("detTrig", "TRIG",
                                 zero_delay=vc.flag("zero delay"))
    zero = part.zero_delay
    enable = vc.flag("enable")
    frames = vc.int("frames", 1, pool=[1, 2, 3, 10])
    d = vc.real("duration", pool=[1e-6, 0.01, 0.1, 1.0, 7.0])
    vc.assume(d > 0)
    exposed = vc.flag("has exposure")
    e = vc.real("exposure", 0, pool=[0.0, 0.001, 0.05, 0.1, 0.5, 1.0])
    units = FakeVal("s")
    panda = FakeBlock(
        exports=FakeRows([("PULSE3.pulses", "detTrigPulses"),
                          ("OTHER.val", "other"),
                          ("PULSE3.width", "detTrigWidth"),
                          ("PULSE3.step", "detTrigStep"),
                          ("PULSE3.delay", "detTrigDelay")]),
        layout=FakeRows([("PULSE3", "P3", 0, 0, True),
                         ("OTHER", "OT", 0, 0, True)]))
    det = FakeBlock(state=FakeVal("Armed"))
    if exposed:
        det["exposure"] = FakeVal(e)
    ctx = FakeBlocks(
        TRIG=FakeBlock(panda=FakeVal("PANDA"), detector=FakeVal("DET")),
        PANDA=panda, DET=det, P3=FakeBlock(
            widthUnits=units, stepUnits=units, delayUnits=units))
    table = FakeRows([(True, "other", "OTHER", 0.0, 7),
                      (enable, "det", "DET", 0.0, frames)])
    fire(part, ConfigureHook, context=ctx, generator=Gen(d), detectors=table)
    r = vc.call(fire, part, PostConfigureHook)
    got = panda.get("put")
    if not enable:
        vc.cover("not taking part")
        vc.check("no pulses without the detector", r.ok and got is None)
        return
    if not r.ok:
        vc.cover("refused")
        vc.check("refused only if the pulses do not fit", exposed and vc.le(
            d, e * frames))
        vc.check("and nothing is set", got is None)
        return
    vc.cover("pulses")
    step, width, delay = (got["detTrig" + x] for x in (
        "Step", "Width", "Delay"))
    vc.check("a pulse for each frame", got["detTrigPulses"] == frames)
    vc.check("evenly spread over the step", vc.close(step * frames, d))
    vc.check("as long as the exposure", width == e if exposed
             else vc.close(width, step - 0.000001))
    vc.check("the pulses do not touch", width < step)
    vc.check("and are in the middle, or at the start",
             delay == 0 if zero else vc.close(delay * 2 + width, step))
