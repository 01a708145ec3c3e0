"""Block state machines."""
from pyvc.api import harness
from checks.lib import FakeProcess, FakeQueue, controller, every_kind, \
    use_fake_queue

from malcolm.core import (AbortedError, AlarmSeverity, Context, MethodModel,
                          StringMeta, NotWriteableError)
from malcolm.modules import builtin, scanning
from malcolm.modules.builtin.infos import HealthInfo

U = "malcolm.modules.builtin.util"
SC = "malcolm.modules.builtin.controllers.statefulcontroller"
RC = "malcolm.modules.scanning.controllers.runnablecontroller"
SS = "malcolm.core.stateset"

ASSUMPTIONS = [
    "the finite case split over (state set, state, target, field, failing "
    "hook) is complete; everything else is executed symbolically or opaque",
    "operations are executed one at a time: interleavings of threads inside "
    "one operation are represented by the failures (AbortedError, other "
    "exceptions, state moved meanwhile) they can cause at each hook",
    "concurrency primitives (cothread RLock/Queue) behave as documented",
]

# ---- the documented machines, written from the state diagrams ----
BASE = {
    "Resetting": {"Ready"},
    "Ready": set(),
}
MAN = {"Ready": {"Saving", "Loading"}, "Saving": {"Ready"},
       "Loading": {"Ready"}}
RUN = {
    "Ready": {"Configuring"},
    "Configuring": {"Armed"},
    "Armed": {"Running", "Seeking", "Resetting"},
    "Running": {"PostRun", "Seeking"},
    "PostRun": {"Finished", "Armed", "Seeking"},
    "Finished": {"Seeking", "Resetting", "Configuring"},
    "Seeking": {"Armed", "Paused", "Finished"},
    "Paused": {"Seeking", "Running"},
    "Aborting": {"Aborted"},
    "Aborted": {"Resetting"},
}
ABORTABLE = ["Ready", "Configuring", "Armed", "Running", "PostRun", "Paused",
             "Seeking", "Finished"]


def machine(kind):
    d = {k: set(v) for k, v in BASE.items()}
    if kind in ("manager", "runnable"):
        for k, v in MAN.items():
            d.setdefault(k, set()).update(v)
    if kind == "runnable":
        for k, v in RUN.items():
            d.setdefault(k, set()).update(v)
        for k in ABORTABLE:
            d[k].add("Aborting")
    for k in d:
        d[k] |= {"Fault", "Disabling"}
    d["Fault"] = {"Resetting", "Disabling"}
    d["Disabling"] = {"Fault", "Disabled"}
    d["Disabled"] = {"Resetting"}
    return d


# the states in which each built in operation may be used
WRITEABLE = {
    "stateful": {"reset": ["Disabled", "Fault"]},
    "manager": {"reset": ["Disabled", "Fault"], "layout": ["Ready"],
                "design": ["Ready"], "exports": ["Ready"], "save": ["Ready"]},
    "runnable": {
        "reset": ["Disabled", "Fault", "Aborted", "Armed", "Finished"],
        "layout": ["Ready"], "design": ["Ready"], "exports": ["Ready"],
        "save": ["Ready"], "configure": ["Ready", "Finished"],
        "run": ["Armed"], "abort": ABORTABLE,
        "pause": ["Armed", "Paused", "Running", "Finished"],
        "resume": ["Paused"], "completedSteps": ["Paused", "Armed"]},
}
DEFAULT_FIELDS = {"stateful": ["disable"], "manager": ["disable"],
                  "runnable": ["disable", "validate"]}
READ_ONLY = {"stateful": ["state", "health"],
             "manager": ["state", "health", "modified", "mri"],
             "runnable": ["state", "health", "configuredSteps", "totalSteps"]}
KINDS = ["stateful", "manager", "runnable"]


def expected_writeable(kind, name, state):
    if name in WRITEABLE[kind]:
        return state in WRITEABLE[kind][name]
    if name in READ_ONLY[kind] or name == "ro":
        return False
    return state not in ("Disabling", "Disabled")


FIELDS = {k: sorted(WRITEABLE[k]) + DEFAULT_FIELDS[k] + READ_ONLY[k]
          + ["rw", "ro", "act"] for k in KINDS}


def snapshot(c, kind):
    b = c._block
    return (c.state.value, c.state.alarm.severity, c.state.alarm.message,
            c.health.value,
            tuple((f, b[f].meta.writeable) for f in FIELDS[kind]))


def put_in(c, kind, state):
    """Arbitrary reachable state: value and flags as the invariant says"""
    c.state.set_value(state)
    for f in FIELDS[kind]:
        c._block[f].meta.set_writeable(expected_writeable(kind, f, state))


def make(kind):
    c = controller(kind)
    rw = StringMeta("d").create_attribute_model("v")
    ro = StringMeta("d").create_attribute_model("v")
    c.add_block_field("rw", rw, rw.set_value, False)
    c.add_block_field("ro", ro, None, False)
    act = MethodModel()
    c.add_block_field("act", act, lambda: None, False)
    return c


@harness("C01", functions=[SC + ":StatefulController.transition",
                           SS + ":StateSet.transition_allowed",
                           SS + ":StateSet.set_allowed",
                           U + ":StatefulStates.create_block_transitions",
                           U + ":StatefulStates.create_error_disable_transitions",
                           U + ":ManagerStates.create_block_transitions",
                           "malcolm.modules.scanning.util:RunnableStates."
                           "create_block_transitions",
                           SC + ":StatefulController.set_writeable_in",
                           SC + ":StatefulController.add_block_field"],
         rand=300, max_paths=4000, covers=["moved", "refused"])
def transition(vc):
    kind = vc.choice("machine", KINDS)
    m = machine(kind)
    c = make(kind)
    states = sorted(m)
    vc.check("the machine has exactly the documented states",
             sorted(c.state_set.possible_states) == states)
    s0 = vc.choice("from", states)
    s1 = vc.choice("to", states + ["Nonsense"])
    put_in(c, kind, s0)
    before = snapshot(c, kind)
    r = vc.call(c.transition, s1, "why")
    if s1 in m[s0]:
        vc.cover("moved")
        vc.check("allowed transition is taken", r.ok and c.state.value == s1)
        sev = c.state.alarm.severity
        want = {"Fault": AlarmSeverity.MAJOR_ALARM,
                "Disabled": AlarmSeverity.INVALID_ALARM}.get(
                    s1, AlarmSeverity.NO_ALARM)
        vc.check("alarm severity follows the state", sev == want)
        vc.check("fault message is reported", vc.Or(
            s1 != "Fault", c.state.alarm.message == "why"))
        vc.check("health reports the fault or OK", c.health.value == (
            {"Fault": "why", "Disabled": "Disabled"}.get(s1, "OK")))
        for f in FIELDS[kind]:
            vc.check("field %s writeable as declared after the change" % f,
                     c._block[f].meta.writeable
                     == expected_writeable(kind, f, s1))
    else:
        vc.cover("refused")
        vc.check("transition not in the diagram is refused", not r.ok)
        vc.check("a refused transition changes nothing",
                 snapshot(c, kind) == before)


class Boom(Exception):
    pass


@harness("C01", functions=[SC + ":StatefulController.try_stateful_function",
                           SC + ":StatefulController.go_to_error_state",
                           SC + ":StatefulController.init",
                           SC + ":StatefulController.reset",
                           SC + ":StatefulController.disable",
                           "malcolm.modules.builtin.controllers."
                           "managercontroller:ManagerController.save"],
         rand=200, covers=["ok", "failed"])
def stateful_operation(vc):
    """init/reset/disable: for each outcome of the work inside"""
    kind = vc.choice("machine", KINDS)
    m = machine(kind)
    op = vc.choice("op", ["init", "reset", "disable"])
    c = make(kind)
    s0 = vc.choice("from", sorted(m))
    put_in(c, kind, s0)
    start, end = {"init": ("Resetting", "Ready"), "reset": ("Resetting",
                  "Ready"), "disable": ("Disabling", "Disabled")}[op]
    outcome = vc.choice("outcome", ["ok", "raises", "raises any", "moved to Fault",
                                    "moved to Disabling"])
    seen = []

    def work(*a, **k):
        seen.append(c.state.value)
        if outcome == "raises":
            raise Boom("bang")
        if outcome == "raises any":
            raise every_kind(Boom)("bang")
        if outcome == "moved to Fault" and "Fault" in m[c.state.value]:
            c.transition("Fault", "other")
        if outcome == "moved to Disabling" and (
                "Disabling" in m[c.state.value]):
            c.transition("Disabling")
        return {}
    vc.patch(c, "run_hooks", lambda hooks: work(list(hooks)))
    vc.patch(c, "do_" + op, work)
    r = vc.call(getattr(c, op))
    s1 = c.state.value
    if start not in m[s0]:
        vc.check("refused operation does not run", not r.ok and not seen)
        vc.check("refused operation leaves Fault (or stays where Fault is "
                 "not reachable)", s1 in ("Fault", s0))
        return
    vc.check("work runs in the intermediate state", seen[:1] == [start])
    if outcome == "raises":
        vc.cover("failed")
        vc.check("a failed operation ends in Fault and reports its error",
                 s1 == "Fault" and r.raised(Boom)
                 and c.state.alarm.message == "bang"
                 and c.health.value == "bang")
    elif outcome == "ok":
        vc.cover("ok")
        vc.check("a completed operation ends in its end state",
                 r.ok and s1 == end)
    elif r.ok:
        vc.check("operation that reports success is in its end state",
                 s1 == end)
    else:
        vc.check("operation whose end state became unreachable ends in Fault",
                 s1 == "Fault")
    for f in FIELDS[kind]:
        vc.check("field %s writeable as declared" % f,
                 c._block[f].meta.writeable == expected_writeable(kind, f, s1))


@harness("C01", functions=[SC + ":StatefulController.set_writeable_in",
                           SC + ":StatefulController.add_block_field",
                           SC + ":StatefulController.check_field_writeable"],
         rand=200)
def declared_states(vc):
    """set_writeable_in for an arbitrary subset of the states"""
    kind = vc.choice("machine", KINDS)
    m = machine(kind)
    states = sorted(m)
    s1 = vc.choice("observed", states)
    inside = vc.flag("observed state declared")
    other = vc.choice("other", states)
    decl = [x for x in ([s1] if inside else []) + [other]
            if inside or x != s1]
    c = controller(kind)
    attr = StringMeta("d").create_attribute_model("v")
    c.set_writeable_in(attr, *decl)
    c.add_block_field("mine", attr, attr.set_value, False)
    vc.check("unknown state is refused",
             not vc.call(c.set_writeable_in, attr, "Nonsense").ok)
    pre = [s for s in states if s1 in m[s]]
    for s0 in pre[:1]:
        c.state.set_value(s0)
        c.transition(s1)
        vc.check("field is writeable exactly in its declared states",
                 attr.meta.writeable == (s1 in decl))
        r = vc.call(c.check_field_writeable, attr)
        vc.check("use outside the declared states is refused",
                 r.ok == (s1 in decl) and (r.ok or r.raised(NotWriteableError)))


# ---- runnable operations ----
class FakeGen:
    size = 12
    axes = []
    dimensions = ()

    def prepare(self):
        pass


class FakeParams:
    generator = FakeGen()
    axesToMove = ()
    breakpoints = ()
    call_types = {"generator": None, "axesToMove": None,
                  "breakpoints": None}


def runnable(vc, s0, fail_at, exc, during):
    """RunnableController in state s0 whose hooks do what we say: the
    fail_at-th run of hooks raises exc (after another thread moved the block
    to the state `during`)"""
    c = make("runnable")
    use_fake_queue(vc)
    put_in(c, "runnable", s0)
    c.moved = None
    n = [0]

    def run_hooks(hooks):
        list(hooks)
        n[0] += 1
        if n[0] == fail_at:
            if during and during in machine("runnable")[c.state.value]:
                c.transition(during, "meanwhile")
                c.moved = during
            if exc == "stopped":
                if c.moved:
                    for ctx in c.part_contexts.values():
                        ctx.stop()
            elif exc:
                raise exc("bang")
        return {}
    vc.patch(c, "run_hooks", run_hooks)
    vc.patch(c, "validate", lambda *a, **k: FakeParams())
    c.configure_params = FakeParams()
    c.part_contexts = c.create_part_contexts()
    c.part_contexts[c] = Context(c.process)
    c.steps_per_run = [12]
    c.total_steps.set_value(12)
    c.configured_steps.set_value(12)
    c.abort_queue = FakeQueue()
    c.resume_queue = FakeQueue()
    c.progress_updates = {}
    return c


@harness("C01", functions=[RC + ":RunnableController.configure",
                           RC + ":RunnableController.do_configure",
                           RC + ":RunnableController.run",
                           RC + ":RunnableController.do_run",
                           RC + ":RunnableController.abort",
                           RC + ":RunnableController.pause",
                           RC + ":RunnableController.do_pause",
                           RC + ":RunnableController.resume",
                           RC + ":RunnableController.try_aborting_function",
                           RC + ":RunnableController.abortable_transition",
                           RC + ":RunnableController.go_to_error_state",
                           RC + ":RunnableController.do_disable"],
         rand=300, max_paths=8000, budget=240,
         covers=["configured", "ran", "failed", "aborted", "stopped"])
def runnable_operation(vc):
    op = vc.choice("op", ["configure", "run", "abort", "pause", "resume",
                          "reset", "disable"])
    m = machine("runnable")
    s0 = vc.choice("from", sorted(m))
    fail_at = vc.choice("failing hook", [0, 1, 2, 3, 4, 5])
    exc = None
    during = None
    if fail_at:
        exc = vc.choice("failure", [Boom, AbortedError, "stopped"])
        during = vc.choice("meanwhile", [None, "Fault", "Disabling"]
                           if exc is Boom else ["Aborting", "Disabling"])
        if exc == "stopped":
            # reset and disable are not abortable
            vc.assume(op in ("configure", "run", "abort", "pause"))
    c = runnable(vc, s0, fail_at, exc, during)
    if exc is AbortedError:
        c.resume_queue.put(False)
    r = vc.call(getattr(c, op), *([FakeGen()] if op == "configure" else []))
    s1 = c.state.value
    first, end = {
        "configure": ("Configuring", ["Armed"]), "run": ("Running", ["Finished"]),
        "abort": ("Aborting", ["Aborted"]),
        "pause": ("Seeking", ["Armed", "Paused", "Finished"]),
        "resume": ("Running", ["Running"]), "reset": ("Resetting", ["Ready"]),
        "disable": ("Disabling", ["Disabled"])}[op]
    if exc == "stopped" and c.moved:
        vc.cover("stopped")
        vc.check("%s stopped by another thread while its hooks succeed is "
                 "aborted" % op, r.raised(AbortedError))
    if r.ok:
        if op == "configure":
            vc.cover("configured")
        if op == "run":
            vc.cover("ran")
        vc.check("%s that returns is in its end state" % op,
                 s1 in end or (op == "pause" and s0 == s1 == "Finished"))
        vc.check("%s only starts from a state that leads to %s" % (op, first),
                 first in m[s0] or (op == "pause" and s0 == "Finished"))
    elif r.raised(AbortedError) and op not in ("reset", "disable"):
        vc.cover("aborted")
        vc.check("an aborted %s leaves the state to whoever aborted it" % op,
                 s1 == c.moved if c.moved else s1 != "Fault")
        vc.check("an aborted %s does not report completion" % op,
                 s1 not in end or s0 in end)
    elif r.raised(Boom, AbortedError):
        vc.cover("failed")
        vc.check("a failed %s ends in Fault" % op, s1 == "Fault")
        vc.check("a failed %s reports its error" % op,
                 c.moved == "Fault" or c.state.alarm.message == "bang")
    else:
        vc.check("a refused %s does not move the block to a working state" % op,
                 s1 in ("Fault", s0, "Disabling"))
    vc.check("%s: state is one of the documented states" % op, s1 in m)
    for f in FIELDS["runnable"]:
        vc.check("field %s writeable as declared" % f,
                 c._block[f].meta.writeable
                 == expected_writeable("runnable", f, s1))
