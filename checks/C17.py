"""Hooks: every part that asked for one is run, and waited for."""
from annotypes import Anno, Array, add_call_types
from typing import Union

from pyvc.api import harness
from checks.lib import every_kind

import malcolm.core.controller as cmod
import malcolm.core.hook as hmod
from malcolm.core import AbortedError, Controller, Hook, Info, Part
from malcolm.core.errors import BadValueError, TimeoutError
from malcolm.modules.builtin.hooks import ControllerHook

H = "malcolm.core.hook"
C = "malcolm.core.controller"
FNS = [H + ":start_hooks", H + ":wait_hooks", H + ":Hook.__call__",
       H + ":Hook._run", H + ":Hook.set_spawn", H + ":Hook.set_queue",
       H + ":Hookable.register_hooked", H + ":Hookable.on_hook",
       H + ":make_args_gen", C + ":Controller.run_hooks",
       C + ":Controller.start_hooks", C + ":Controller.wait_hooks",
       "malcolm.modules.builtin.hooks:ControllerHook.prepare",
       "malcolm.modules.builtin.hooks:ControllerHook.stop"]
ASSUMPTIONS = [
    "spawned functions run to their end one after the other, in any order "
    "(the real ones also interleave where they wait)",
    "queues and locks are trusted (stand-ins)",
    "logging is left out",
]

with Anno("context"):
    AContext = object
with Anno("a"):
    AA = int
with Anno("b"):
    AB = str


class ThisInfo(Info):
    def __init__(self, x):
        self.x = x


class OtherInfo(ThisInfo):
    pass


class Boom(Exception):
    pass


class Hang(Exception):
    pass


with Anno("infos"):
    AInfos = Union[Array[ThisInfo]]


class GoHook(ControllerHook):
    def validate_return(self, ret):
        return AInfos(ret)


class OtherHook(ControllerHook):
    pass


class Sched:
    """Spawned functions wait here until somebody waits"""

    def __init__(self, vc):
        self.vc = vc
        self.tasks = []
        self.order = []
        self.n = 0

    def spawn(self, f, *a, **k):
        t = Task(self, f, a, k)
        self.tasks.append(t)
        return t

    def run_some(self):
        able = [t for t in self.tasks if not t.done and not t.running
                and t.able()]
        if not able:
            raise Hang()
        self.n += 1
        t = self.vc.choice("run%d" % self.n, list(range(len(able)))) \
            if len(able) > 1 else 0
        able[t].run()


class Task:
    def __init__(self, sched, f, a, k):
        self.sched, self.f, self.a, self.k = sched, f, a, k
        self.done = False
        self.running = False
        self.able = lambda: True

    def run(self):
        self.running = True
        self.result = None
        try:
            self.result = self.f(*self.a, **self.k)
        except Exception as e:
            self.result = e
        self.done, self.running = True, False
        self.sched.order.append(self)

    def wait(self, timeout=None):
        while not self.done:
            if not self.able():
                # may still be stopped by somebody else
                raise TimeoutError("it never ended")
            if self.running:
                raise Hang()
            self.run()

    def ready(self):
        return self.done

    def get(self, timeout=None):
        self.wait(timeout)
        if isinstance(self.result, Exception):
            raise self.result
        return self.result


class FakeCtx:
    def __init__(self):
        self.log = []

    def stop(self):
        self.log.append("stop")

    def ignore_stops_before_now(self):
        self.log.append("ignore")

    @property
    def stopped(self):
        # a stop that came before the hook was started does not count
        return "stop" in self.log[max(
            [i for i, x in enumerate(self.log) if x == "ignore"] + [-1]):]


class FakeLock:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def acquire(self, *a, **k):
        return True

    def release(self):
        pass


class Q:
    sched = None

    def __init__(self):
        self.items = []

    def put(self, x):
        self.items.append(x)

    def get(self, timeout=None):
        while not self.items:
            Q.sched.run_some()
        return self.items.pop(0)


def make_part(name, asks, does, world):
    p = Part(name)
    p.calls = []

    def body(got):
        p.calls.append(got)
        if does == "raises":
            p.exc = (every_kind(Boom) if name[-1] in "bB13" else Boom)(name)
            raise p.exc
        if does == "aborts" or does == "until stopped":
            p.exc = AbortedError(name)
            raise p.exc
        if does == "infos":
            p.infos = [ThisInfo(1), OtherInfo(2)]
            return p.infos
        if does == "info":
            p.infos = [ThisInfo(3)]
            return p.infos[0]
        p.infos = []
        return None

    if asks == "nothing":
        def func():
            return body({})
        want = []
    elif asks == "context":
        @add_call_types
        def func(context: AContext):
            return body(dict(context=context))
        want = ["context"]
    elif asks == "some":
        @add_call_types
        def func(b: AB, context: AContext):
            return body(dict(b=b, context=context))
        want = ["b", "context"]
    else:
        @add_call_types
        def func(context: AContext, a: AA, b: AB):
            return body(dict(context=context, a=a, b=b))
        want = ["context", "a", "b"]
    p.want = want
    p.does = does
    if asks == "named":
        p.register_hooked(GoHook, lambda **k: body(k),
                          args_gen=lambda keys: [k for k in keys if k != "b"])
        p.want = ["context", "a"]
    elif asks == "not this hook":
        @add_call_types
        def other(context: AContext):
            return body(dict(context=context))
        p.register_hooked(OtherHook, other)
        p.want = None
    elif asks == "not hooked":
        p.want = None
    elif asks == "some":
        p.register_hooked((OtherHook, GoHook), func)
    else:
        p.register_hooked(GoHook, func)
    return p


def setup(vc):
    import malcolm.core.controller as m
    sched = Sched(vc)
    Q.sched = sched
    vc.stub(hmod, "Queue", Q)
    vc.stub(cmod, "Queue", Q)
    vc.stub(m, "RLock", FakeLock)
    c = Controller("mri")

    class Proc:
        name = "proc"
        spawn = sched.spawn
    c.setup(Proc())
    return sched, c


class CtxMap(dict):
    pass


def start(vc, asks, does):
    sched, c = setup(vc)
    parts = [make_part("p%d" % i, a, d, None)
             for i, (a, d) in enumerate(zip(asks, does))]
    ctxs = [FakeCtx() for _ in parts]
    for x in ctxs:
        if vc.choice("stopped before", [False, True]) if len(
                parts) < 2 else False:
            x.stop()
    hooks = [GoHook(p, x, a=5, b="bee") for p, x in zip(parts, ctxs)]
    real = sched.spawn

    def spawn(f, *a, **k):
        t = real(f, *a, **k)
        owner = [x for h, x, p in zip(hooks, ctxs, parts)
                 if getattr(f, "__self__", None) is h
                 and p.does == "until stopped"]
        if owner:
            t.able = lambda: owner[0].stopped
        return t
    c.process.spawn = spawn
    return sched, c, parts, ctxs, hooks


def judge(vc, sched, parts, ctxs, hooks, out):
    mine = [(p, x, h) for p, x, h in zip(parts, ctxs, hooks)
            if p.want is not None]
    for p, x, h in zip(parts, ctxs, hooks):
        if p.want is None:
            vc.check("a part that did not ask is not called", p.calls == [])
    for p, x, h in mine:
        vc.check("a part that asked is called once", len(p.calls) == 1)
        for got in p.calls:
            vc.check("with the arguments it asked for, and no more",
                     sorted(got) == sorted(p.want)
                     and got.get("a", 5) == 5 and got.get("b", "bee") == "bee"
                     and ("context" not in got
                          or got["context"].log is x.log))
        vc.check("stops from before it was started are ignored",
                 "ignore" in x.log)
    vc.check("nothing is left running", all(t.done for t in sched.tasks))
    failed = [p for t in sched.order for p, x, h in mine
              if getattr(t.f, "__self__", None) is h and hasattr(p, "exc")]
    if failed:
        vc.cover("failed")
        vc.check("the error of the first part that failed is raised",
                 out.exc is failed[0].exc)
        if isinstance(failed[0].exc, Boom):
            vc.check("the others are stopped",
                     all(x.stopped for p, x, h in mine))
    else:
        vc.cover("done")
        vc.check("succeeds when no part fails", out.ok)
        if out.ok:
            vc.check("results in the order of the parts",
                     list(out.value) == [p.name for p, x, h in mine])
            vc.check("each part's own results", all(
                list(out.value.get(p.name, "x")) == p.infos
                for p, x, h in mine))
            if not any(p.does == "aborts" for p in parts):
                vc.check("nothing is stopped", not any(
                    x.stopped for x in ctxs))


ASKS = ["nothing", "context", "some", "all", "named", "not this hook",
        "not hooked"]
DOES = ["nothing", "infos", "info", "raises", "aborts", "until stopped"]


@harness("C17", functions=FNS, rand=300, max_paths=40000, budget=200,
         covers=["done", "failed"])
def run_two(vc):
    """two parts: everything they can ask for and do, in any order"""
    asks = [vc.choice("asks%d" % i, ASKS) for i in range(2)]
    does = [vc.choice("does%d" % i, DOES) for i in range(2)]
    # one that waits to be stopped is only stopped if another part fails
    if "until stopped" in does:
        other = 1 - does.index("until stopped")
        vc.assume(does[other] == "raises"
                  and not asks[other].startswith("not "))
    sched, c, parts, ctxs, hooks = start(vc, asks, does)
    gen = vc.flag("given as a generator")
    out = vc.call(c.run_hooks, (h for h in hooks) if gen else hooks)
    judge(vc, sched, parts, ctxs, hooks, out)


@harness("C17", functions=FNS, rand=300, max_paths=40000, budget=200,
         covers=["done", "failed"],
         bounded="four parts")
def run_four(vc):
    """four parts that end in any order, by any of their outcomes"""
    does = [vc.choice("does%d" % i, ["infos", "raises", "aborts",
                                     "until stopped"]) for i in range(4)]
    if "until stopped" in does:
        vc.assume("raises" in does and "aborts" not in does)
    sched, c, parts, ctxs, hooks = start(vc, ["context"] * 4, does)
    out = vc.call(c.run_hooks, hooks)
    judge(vc, sched, parts, ctxs, hooks, out)


@harness("C17", functions=FNS, rand=100)
def start_then_wait(vc):
    """all are started before any is waited for; a hook runs once only"""
    does = [vc.choice("does%d" % i, ["nothing", "infos"]) for i in range(2)]
    asks = [vc.choice("asks%d" % i, ["context", "not hooked"])
            for i in range(2)]
    sched, c, parts, ctxs, hooks = start(vc, asks, does)
    got = c.start_hooks(h for h in hooks)
    want = sum(p.want is not None for p in parts)
    vc.check("started without being waited for",
             len(sched.tasks) == want and not any(t.done
                                                  for t in sched.tasks))
    out = vc.call(c.wait_hooks, *got)
    judge(vc, sched, parts, ctxs, hooks, out)
    for p, h in zip(parts, hooks):
        if p.want is not None:
            again = vc.call(h, lambda: None)
            vc.check("a hook is not run twice", not again.ok
                     and len(sched.tasks) == want)


@harness("C17", functions=[H + ":Hook.__call__", H + ":make_args_gen"],
         rand=60)
def bad_arguments(vc):
    """a function asking for what the hook does not have is refused"""
    sched, c, parts, ctxs, hooks = start(vc, ["not hooked"], ["nothing"])
    p = parts[0]
    case = vc.choice("case", ["unknown", "untyped"])
    if case == "unknown":
        @add_call_types
        def func(context: AContext, c: AA):
            p.calls.append(c)
        out = vc.call(lambda: (p.register_hooked(GoHook, func),
                               c.run_hooks(hooks)))
    else:
        def func(context):
            p.calls.append(context)
        out = vc.call(p.register_hooked, GoHook, func)
    vc.check("is refused", not out.ok and p.calls == [])


I = "malcolm.core.info:Info."


@harness("C17", functions=[I + "filter_parts", I + "filter_values",
                           I + "filter_single_value"], rand=200,
         max_paths=20000, bounded="three parts with up to two infos each")
def info_filters(vc):
    """infos are handed on by type"""
    info, ref = {}, {}
    for i in range(3):
        what = vc.choice("part%d" % i, ["none", "error", "empty", "this",
                                        "other", "both"])
        a, b = ThisInfo(i), OtherInfo(i)
        val = {"none": None, "error": Boom(), "empty": [], "this": [a],
               "other": [b], "both": [b, a]}[what]
        info["p%d" % i] = val
        ref["p%d" % i] = val if isinstance(val, list) else []
    cls = vc.choice("type", [ThisInfo, OtherInfo])
    want = [(k, [x for x in v if isinstance(x, cls)])
            for k, v in ref.items()]
    want = [(k, v) for k, v in want if v]
    got = cls.filter_parts(info)
    vc.check("those of the type, by part, in order",
             [(k, list(v)) for k, v in got.items()] == want)
    flat = [x for k, v in want for x in v]
    vc.check("and all of them", list(cls.filter_values(info)) == flat)
    one = vc.call(cls.filter_single_value, info)
    if len(flat) == 1:
        vc.check("the only one", one.ok and one.value is flat[0])
    else:
        vc.check("refused unless there is just one",
                 one.raised(BadValueError))


SC = ["part_info", "generator", "axesToMove"]
SEEK = SC + ["completed_steps", "steps_to_do"]
# hook: arguments it hands to the parts apart from the context, whether it
# takes the extra configure arguments of the parts too, and what it returns
SPEC = {
    "scanning.ValidateHook": (SC + ["breakpoints"], True, "tweaks"),
    "scanning.ReportStatusHook": ([], False, "infos"),
    "scanning.PreConfigureHook": ([], True, None),
    "scanning.ConfigureHook": (SEEK + ["breakpoints"], True, "infos"),
    "scanning.PostConfigureHook": (["part_info"], False, None),
    "scanning.PreRunHook": ([], False, None),
    "scanning.RunHook": ([], False, None),
    "scanning.PostRunArmedHook": (SEEK, True, None),
    "scanning.PostRunReadyHook": ([], False, None),
    "scanning.PauseHook": ([], False, None),
    "scanning.SeekHook": (SEEK, True, None),
    "scanning.AbortHook": ([], False, None),
    "builtin.InitHook": ([], False, None),
    "builtin.ResetHook": ([], False, None),
    "builtin.HaltHook": ([], False, None),
    "builtin.DisableHook": ([], False, None),
    "builtin.LayoutHook": (["ports", "layout"], False, "layouts"),
    "builtin.LoadHook": (["structure", "init"], False, None),
    "builtin.SaveHook": ([], False, "structure"),
    "web.ReportHandlersHook": ([], False, "handlers"),
    "process.ProcessPublishHook": (["published"], False, None),
    "process.ProcessStartHook": ([], False, "unpublished"),
    "process.ProcessStopHook": ([], False, None),
}


def hook_class(name):
    import malcolm.core.process as process
    from malcolm.modules import builtin, scanning, web
    where, cls = name.split(".")
    mod = {"scanning": scanning.hooks, "builtin": builtin.hooks,
           "web": web.hooks, "process": process}[where]
    return getattr(mod, cls)


def results(kind):
    import malcolm.core.process as process
    from malcolm.modules import builtin, scanning, web
    if kind == "tweaks":
        P = scanning.infos.ParameterTweakInfo
        return [P("a", 1), P("b", 2)]
    if kind == "layouts":
        P = builtin.infos.LayoutInfo
        return [P("m", 1, 2, True), P("n", 1, 2, False)]
    if kind == "handlers":
        P = web.infos.HandlerInfo
        return [P("a", object), P("b", object)]
    if kind == "unpublished":
        P = process.UnpublishedInfo
        return [P("a"), P("b")]
    return [ThisInfo(1), OtherInfo(2)]


SH = "malcolm.modules.scanning.hooks:"
BH = "malcolm.modules.builtin.hooks:"


@harness("C17", functions=FNS + [
    SH + x for x in ("ValidateHook.__init__", "ValidateHook.validate_return",
                     "ReportStatusHook.validate_return",
                     "ConfigureHook.__init__", "ConfigureHook.validate_return",
                     "PostConfigureHook.__init__", "PostRunArmedHook.__init__",
                     "SeekHook.__init__", "check_array_info")] + [
    BH + x for x in ("ControllerHook.__init__", "LayoutHook.__init__",
                     "LayoutHook.validate_return", "LoadHook.__init__",
                     "SaveHook.validate_return")] + [
    "malcolm.core.process:ProcessPublishHook.__init__",
    "malcolm.core.process:ProcessStartHook.validate_return",
    "malcolm.modules.web.hooks:ReportHandlersHook.validate_return",
    H + ":Hook.validate_return"], rand=200, max_paths=4000,
    covers=["kept", "refused", "nothing"])
def each_hook(vc):
    """every hook there is hands over all its arguments, whatever they are,
    and keeps what the part returns"""
    sched, c = setup(vc)
    name = vc.choice("hook", sorted(SPEC))
    args, extra, returns = SPEC[name]
    cls = hook_class(name)
    p = Part("p")
    kw = {a: object() for a in args}
    if extra:
        kw["fileDir"] = object()
    ctx = FakeCtx()
    got = []
    if returns == "structure":
        how = vc.choice("returns", ["some", "odd"])
        ret = {"some": {"a": 1, "b": {}}, "odd": 7}[how]
        keeps, bad = ret, how == "odd"
    else:
        how = vc.choice("returns", ["nothing", "some", "one"])
        some = results(returns)
        ret = {"nothing": None, "some": some, "one": some[0]}[how]
        keeps = {"nothing": [], "some": some, "one": some[:1]}[how]
        bad = returns is None and how != "nothing"

    def func(**k):
        got.append(k)
        return ret
    p.register_hooked(cls, func, args_gen=lambda keys: list(keys))
    if name.startswith(("process.", "web.")):
        hook = cls(p, **kw)
    else:
        hook = cls(p, ctx, **kw)
    out = vc.call(c.run_hooks, [hook])
    vc.check("the part is called once", len(got) == 1)
    for k in got:
        k = dict(k)
        x = k.pop("context", None)
        vc.check("with all arguments of the hook", sorted(k) == sorted(kw)
                 and all(k[a] is kw[a] for a in k if a in kw))
        if not name.startswith(("process.", "web.")):
            vc.check("and its own context", x is not None
                     and x.log is ctx.log)
    if bad:
        vc.cover("refused")
        vc.check("a return that is not asked for is refused",
                 not out.ok)
        return
    vc.check("and succeeds", out.ok)
    if not out.ok:
        return
    if returns is None:
        vc.cover("nothing")
        vc.check("nothing is returned", list(out.value) == ["p"]
                 and not out.value["p"])
    else:
        vc.cover("kept")
        val = out.value.get("p")
        vc.check("what the part returned is kept",
                 val == keeps if returns == "structure"
                 else val is not None and list(val) == keeps)


assert Hook
