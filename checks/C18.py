"""Process: hosting, starting, publishing and stopping controllers."""
from annotypes import add_call_types

from pyvc.api import harness
from checks.lib import every_kind

import malcolm.core.hook as hmod
import malcolm.core.process as pmod
from malcolm.core import Controller, Part, Process, TimeoutError
from malcolm.core.process import (APublished, ProcessPublishHook,
                                  ProcessStartHook, ProcessStopHook,
                                  UnpublishedInfo)

P = "malcolm.core.process:Process."
FNS = [P + f for f in (
    "start", "stop", "_start_controllers", "_publish_controllers",
    "_run_hook", "spawn", "_clear_spawn_list", "add_controllers",
    "add_controller", "mri_list", "get_controller")]
ASSUMPTIONS = [
    "spawned functions run at once to their end, queues in order (stand-ins "
    "for cothread)",
    "no two blocks are each other's children",
]


class Boom(Exception):
    pass


class Now:
    """a spawned function that has run"""
    late = False

    def __init__(self, f, args, kwargs):
        self._function, self._args, self._kwargs = f, args, kwargs
        self.waited = False
        self.result = None
        try:
            self.result = f(*args, **kwargs)
        except Exception as e:
            self.result = e

    def wait(self, timeout=None):
        self.waited = True
        if self.late:
            raise TimeoutError("still running")

    def ready(self):
        return self.waited

    def get(self, timeout=None):
        self.wait(timeout)
        return self.result


class Q:
    def __init__(self):
        self.items = []

    def put(self, x):
        self.items.append(x)

    def get(self, timeout=None):
        return self.items.pop(0)


class Recorder(Controller):
    """says what it is told"""

    def prep(self, log, unpublished, fails):
        self.calls = log
        self.unpub, self.fails = unpublished, fails
        self.add = None
        self.register_hooked(ProcessStartHook, self.go)
        self.register_hooked(ProcessPublishHook, self.on_publish)
        self.register_hooked(ProcessStopHook, self.halt)
        return self

    def said(self, *what):
        self.calls.append((self.mri,) + what)
        if what[0] in self.fails:
            raise (every_kind(Boom) if self.mri[-1] in "bB13" else Boom)(
                what[0])

    @add_call_types
    def go(self):
        if self.add:
            add, self.add = self.add, None
            self.process.add_controller(add)
        self.said("start")
        if self.unpub:
            return UnpublishedInfo(self.mri)

    @add_call_types
    def on_publish(self, published: APublished):
        self.said("publish", list(published))

    def halt(self):
        self.said("stop")


class ChildPart(Part):
    mri = None


def world(vc, n, edges=(), simple=False):
    vc.stub(hmod, "Queue", Q)
    vc.stub(pmod, "Spawned", Now)
    log = []
    p = Process("proc")
    cs = []
    for i in range(n):
        unpub = vc.flag("unpublished%d" % i)
        fails = () if simple else vc.choice("fails%d" % i, [
            (), (), ("start",), ("publish",), ("stop",)])
        cs.append(Recorder("m%d" % i).prep(log, unpub, fails))
    for a, b in edges:
        part = ChildPart("child%d" % b)
        part.mri = "m%d" % b
        cs[a].add_part(part)
    return p, cs, log


def counted(log, mri, what):
    return sum(1 for x in log if x[0] == mri and x[1] == what)


def check_published(vc, log, since, cs, have):
    """what was published since: exactly the publishable ones hosted"""
    pubs = [x[2] for x in log[since:] if x[1] == "publish"]
    want = sorted(c.mri for c in have
                  if not (c.unpub and "start" not in c.fails))
    vc.check("exactly the controllers to be published are, once each",
             all(sorted(x) == want for x in pubs))
    return pubs


@harness("C18", functions=FNS, rand=200, max_paths=60000, budget=200,
         covers=["published", "not published"])
def lifecycle(vc):
    """two controllers, each added before or after start, failing anywhere"""
    n = 2
    p, cs, log = world(vc, n)
    late = [vc.flag("late%d" % i) for i in range(n)]
    together = vc.flag("added together")
    early = [c for c, l in zip(cs, late) if not l]
    after = [c for c, l in zip(cs, late) if l]
    if together:
        p.add_controllers(early)
    else:
        for c in early:
            p.add_controller(c)
    vc.check("nothing is started before the process",
             not [x for x in log if x[1] == "start"])
    for c in early:
        vc.check("it can be found as soon as it is added",
                 p.get_controller(c.mri) is c)
    p.start()
    have = list(early)
    vc.check("every controller is started once",
             all(counted(log, c.mri, "start") == 1 for c in early))
    pubs = check_published(vc, log, 0, cs, early)
    pub = [c for c in early if not (c.unpub and "start" not in c.fails)]
    if pub:
        vc.cover("published")
        vc.check("all of them are told what is published",
                 all(counted(log, c.mri, "publish") == 1 for c in early))
    else:
        vc.cover("not published")
    for group in ([after] if together else [[c] for c in after]):
        since = len(log)
        p.add_controllers(group)
        have += group
        vc.check("a controller added later is started once", all(
            counted(log, c.mri, "start") == 1 for c in have))
        check_published(vc, log, since, cs, have)
        if [c for c in group if not (c.unpub and "start" not in c.fails)]:
            vc.check("all are told of new controllers", sorted(
                x[0] for x in log[since:] if x[1] == "publish")
                == sorted(c.mri for c in have))
    vc.check("the list of controllers", list(p.mri_list)
             == [c.mri for c in have])
    again = vc.call(p.start)
    vc.check("a started process is not started again", not again.ok)
    out = vc.call(p.stop)
    vc.check("stops whatever the controllers do", out.ok)
    vc.check("every controller is told to stop, once",
             all(counted(log, c.mri, "stop") == 1 for c in cs))
    vc.check("every controller was started once",
             all(counted(log, c.mri, "start") == 1 for c in cs))
    vc.check("a stopped process hosts nothing", list(p.mri_list) == [])
    again = vc.call(p.spawn, lambda: None)
    vc.check("a stopped process runs nothing", not again.ok)
    vc.check("and cannot be stopped again", not vc.call(p.stop).ok)


SHAPES = [(), ((0, 1),), ((1, 0),), ((0, 1), (0, 2)), ((2, 1), (1, 0)),
          ((0, 1), (1, 2)), ((1, 0), (1, 2)), ((0, 2), (1, 2)),
          ((0, 1), (0, 2), (1, 2)), ((2, 0), (2, 1), (1, 0)),
          ((0, 1), (2, 3), (3, 1)), ((3, 0), (3, 1), (3, 2)),
          ((0, 3), (3, 2), (2, 1)), ((0, 5),)]


@harness("C18", functions=FNS, rand=200, max_paths=20000,
         bounded="four controllers in the shapes tried")
def publishing(vc):
    """blocks made of blocks: each is published once, however nested"""
    edges = vc.choice("shape", SHAPES)
    p, cs, log = world(vc, 4, edges, simple=True)
    back = vc.flag("added in reverse")
    if back:
        cs = cs[::-1]
    p.add_controllers(cs)
    p.start()
    check_published(vc, log, 0, cs, cs)
    if not all(c.unpub for c in cs):
        vc.check("all are told", all(counted(log, c.mri, "publish") == 1
                                     for c in cs))
        told = [x[2] for x in log if x[1] == "publish"]
        vc.check("all are told the same", all(x == told[0] for x in told))


@harness("C18", functions=FNS, rand=100, max_paths=5000)
def from_a_start_hook(vc):
    """a controller that adds another one while it is being started"""
    p, cs, log = world(vc, 3, simple=True)
    cs[0].add = cs[2]
    p.add_controllers(cs[:2])
    running = vc.flag("already started")
    if running:
        p, cs, log = world(vc, 3, simple=True)
        cs[0].add = cs[2]
        p.start()
        since = len(log)
        p.add_controllers(cs[:2])
    else:
        since = 0
        p.start()
    vc.check("all are started once", all(
        counted(log, c.mri, "start") == 1 for c in cs))
    vc.check("all can be found", sorted(p.mri_list) == ["m0", "m1", "m2"])
    pubs = [x for x in log[since:] if x[1] == "publish"]
    if not all(c.unpub for c in cs[:2]):
        want = sorted(c.mri for c in cs if not c.unpub)
        last = {}
        for x in pubs:
            last[x[0]] = x[2]
        vc.check("all end up told of all", sorted(last)
                 == ["m0", "m1", "m2"]
                 and all(sorted(v) == want for v in last.values()))


@harness("C18", functions=FNS, rand=60)
def names(vc):
    p, cs, log = world(vc, 2, simple=True)
    started = vc.flag("started")
    if started:
        p.start()
    p.add_controller(cs[0])
    cs[1].mri = "m0"
    n = len(log)
    out = vc.call(p.add_controller, cs[1])
    vc.check("a second controller of the same name is refused", not out.ok)
    vc.check("and not started", len(log) == n)
    vc.check("the first one stays", p.get_controller("m0") is cs[0])
    vc.check("an unknown name is refused",
             vc.call(p.get_controller, "nope").raised(ValueError))


@harness("C18", functions=FNS, rand=60)
def stop_waits(vc):
    """stopping waits for what was spawned"""
    p, cs, log = world(vc, 1, simple=True)
    vc.patch(pmod, "SPAWN_CLEAR_COUNT", vc.choice("clear", [2, 1000]))
    p.add_controllers(cs)
    p.start()
    made = []
    for i in range(5):
        made.append(p.spawn(lambda: 5))
    late = vc.choice("late", [None, 0, 4])
    if late is not None:
        made[late].late = True
    out = vc.call(p.stop)
    if late is None:
        vc.check("stops", out.ok)
        vc.check("once all that was spawned has ended",
                 all(t.waited for t in made))
    else:
        vc.check("says when something did not end",
                 out.raised(TimeoutError))


@harness("C18", functions=["malcolm.modules.builtin.controllers."
                           "proxycontroller:ProxyController.init",
                           "malcolm.modules.builtin.controllers."
                           "proxycontroller:ProxyController.__init__"],
         rand=10)
def proxy(vc):
    """a block of another process is published only if it is asked for"""
    import malcolm.modules.builtin.controllers.proxycontroller as m
    from checks.lib import FakeProcess
    vc.stub(m, "wait_for_stateful_block_init", lambda *a, **k: None)
    asked = vc.choice("publish", [None, True, False])
    k = {} if asked is None else dict(publish=asked)
    c = m.ProxyController("remote", "comms", **k)
    synced = []

    class FakeComms:
        def sync_proxy(self, mri, block):
            synced.append((mri, block))

    p = FakeProcess()
    p.controllers["comms"] = FakeComms()
    p.controllers["remote"] = c
    c.setup(p)
    out = vc.call(c.init)
    vc.check("it is started", out.ok)
    vc.check("its block is asked for once", len(synced) == 1
             and synced[0][0] == "remote" and synced[0][1] is c._block)
    info = out.value
    if isinstance(info, (list, tuple)) and len(info) == 1:
        info = info[0]
    said = isinstance(info, UnpublishedInfo) and info.mri == "remote"
    vc.check("it says it is not to be published unless it is",
             said == (asked is not True) and (said or not info))
