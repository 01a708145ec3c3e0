"""Context: futures, waits, subscriptions, stops and timeouts."""
from pyvc.api import harness
from checks.lib import FakeLookup, every_kind

import malcolm.core.context as mod
from malcolm.core import (AbortedError, BadValueError, Context, Error, Future, Post,
                          Put, Return, Subscribe, TimeoutError, Unsubscribe,
                          Update)

X = "malcolm.core.context"
FNS = [X + ":Context." + f for f in (
    "wait_all_futures", "_service_futures", "_dispatch_request", "put_async",
    "post_async", "subscribe", "unsubscribe", "unsubscribe_all",
    "when_matches_async", "sleep", "stop", "ignore_stops_before_now")] + [
    X + ":When.__call__", X + ":When.__init__",
    "malcolm.core.future:Future.result",
    "malcolm.core.future:Future.exception",
    "malcolm.core.future:Future.set_result",
    "malcolm.core.future:Future.set_exception"]
LEVEL = "exploration"
ASSUMPTIONS = [
    "the queue of a Context delivers what was put into it in order, and times "
    "out when nothing arrives in time (stand-in with a clock of its own)",
    "a controller answers a Put and a Post once, a Subscribe by Updates, and "
    "an Unsubscribe by a Return (C02, C04)",
]


class Hang(Exception):
    """waits for something that will never come"""


class Boom(Exception):
    pass


def boom(text, n):
    """now of a kind of its own, now of every kind"""
    return (every_kind(Boom) if n % 2 else Boom)(text % n)


class Clock:
    """Time, and what arrives when: the only thing that moves time is waiting"""

    def __init__(self):
        self.now = 0.0
        self.items = []

    def time(self):
        return self.now

    def sleep(self, s):
        self.now += s

    monotonic = time

    def arrive(self, item, at):
        i = len(self.items)
        while i and self.items[i - 1][0] > at:
            i -= 1
        self.items.insert(i, (at, item))

    def pop(self, timeout):
        if self.items:
            at = self.items[0][0]
            if timeout is None or at <= self.now + timeout:
                self.now = max(self.now, at)
                return self.items.pop(0)[1]
        if timeout is None:
            raise Hang()
        self.now += timeout
        raise TimeoutError("nothing came")


class SomeController:
    def __init__(self):
        self.sent = []
        self.defer = False

    def handle_request(self, request):
        self.sent.append(request)
        auto = request.path and request.path[-1] == "auto" if hasattr(
            request, "path") else False
        if isinstance(request, Unsubscribe) and not self.defer:
            request.callback(Return(request.id))
        elif auto:
            request.callback(Return(request.id, "auto"))


class SomeProcess:
    mri_list = ["m"]

    def __init__(self):
        self.c = SomeController()

    def get_controller(self, mri):
        return self.c


class Ref:
    """What a Context promises, told without queues, dicts or weak references.

    A future is a key; done[key] = ("ok", value) or ("err", exception)"""

    def __init__(self):
        self.now = 0.0
        self.events = []     # (at, kind, key, value)
        self.done = {}
        self.active = {}     # key -> callback(value)
        self.order = []      # subscriptions in order
        self.unsub = []      # keys Unsubscribe was sent for
        self.ignoring = None
        self.log = []
        self.defer = False
        self.n = 0

    def arrive(self, ev, at):
        i = len(self.events)
        while i and self.events[i - 1][0] > at:
            i -= 1
        self.events.insert(i, (at,) + ev)

    def step(self, waiting, until):
        timeout = None if until is None else max(0, until - self.now)
        if self.events and (timeout is None
                            or self.events[0][0] <= self.now + timeout):
            at, kind, key, value = self.events.pop(0)
            self.now = max(self.now, at)
        elif timeout is None:
            raise Hang()
        else:
            self.now += timeout
            raise TimeoutError()
        if kind == "mark":
            if self.ignoring == key:
                self.ignoring = None
        elif kind == "stop":
            if self.ignoring is None:
                raise AbortedError()
        elif kind == "update":
            if key in self.active:
                self.active[key](value)
            for f in waiting:
                if f in self.done and self.done[f][0] == "err":
                    raise self.done[f][1]
        else:
            self.done[key] = (kind, value)
            if kind == "err" and key in waiting:
                raise value

    def wait(self, waiting, timeout=None, event_timeout=None):
        end = None if timeout is None else self.now + timeout
        for f in waiting:
            if f in self.done and self.done[f][0] == "err":
                raise self.done[f][1]
        while [f for f in waiting if f not in self.done]:
            until = end
            if event_timeout is not None:
                until = self.now + event_timeout
                if end is not None:
                    until = min(until, end)
            self.step(waiting, until)

    def sleep(self, s):
        until = self.now + s
        try:
            while True:
                self.step([], until)
        except TimeoutError:
            pass

    def unsubscribe(self, key):
        del self.active[key]
        self.unsub.append(key)
        if not self.defer:
            self.arrive(("ok", key, None), self.now)

    def unsubscribe_all(self):
        for key in list(self.order):
            if key in self.active:
                self.unsubscribe(key)


class World:
    """The same actions done to the real Context and to the reference"""

    def __init__(self, vc):
        self.clock = clock = Clock()

        class Q:
            def put(self, x):
                clock.arrive(x, clock.now)

            def get(self, timeout=None):
                return clock.pop(timeout)

        class Time:
            time = staticmethod(clock.time)
            monotonic = staticmethod(clock.time)
            sleep = staticmethod(clock.sleep)

        vc.stub(mod, "Queue", Q)
        vc.stub(mod, "time", Time)
        self.vc = vc
        self.p = SomeProcess()
        self.ctx = Context(self.p)
        self.ref = Ref()
        self.futures = []
        self.log = []
        self.marks = 0
        self.subs = []

    @property
    def sent(self):
        return self.p.c.sent

    def defer(self):
        self.p.c.defer = self.ref.defer = True

    # -- actions ---------------------------------------------------------
    def new(self, kind, cb=None, cond=None):
        """cb: list of (action, arg) done by the callback when it is called"""
        ctx, key = self.ctx, len(self.futures)
        n = len(self.sent)
        name = "f%d" % key
        if kind == "put":
            f = ctx.put_async(["m", name], key)
        elif kind == "post":
            f = ctx.post_async(["m", name], {"a": key})
        elif kind == "sub":
            def real(value, tag):
                self.log.append((key, value, tag))
                self.act_real(cb, key)
            f = ctx.subscribe(["m", name, "value"], real, "tag%d" % key)
        else:
            f = ctx.when_matches_async(["m", name, "value"], *cond)
        self.futures.append(f)
        typ = {"put": Put, "post": Post}.get(kind, Subscribe)
        ok = len(self.sent) == n + 1 and type(self.sent[n]) is typ and \
            self.sent[n].path[1] == name
        self.vc.check("one request is sent for it", ok)
        if kind == "put":
            self.vc.check("with its value", self.sent[n].value == key)
        elif kind == "post":
            self.vc.check("with its parameters",
                          self.sent[n].parameters == {"a": key})
        self.vc.check("with an id of its own", self.sent[n].id not in [
            x.id for x in self.sent[:n]])
        if not hasattr(self, "req"):
            self.req = {}
        self.req[key] = self.sent[n]
        r = self.ref
        if kind == "sub":
            def told(value):
                r.log.append((key, value, "tag%d" % key))
                self.act_ref(cb, key)
            r.active[key] = told
            r.order.append(key)
        elif kind == "when":
            good, bad = cond if len(cond) == 2 else (cond[0], None)

            def when(value):
                try:
                    if callable(good):
                        sat = good(value)
                    else:
                        if bad and value in bad:
                            raise BadValueError("bad")
                        sat = value == good
                except Exception:
                    r.unsubscribe(key)
                    raise
                if sat:
                    r.unsubscribe(key)
            r.active[key] = when
            r.order.append(key)
        return key

    def act_real(self, cb, key):
        for what, arg in cb or ():
            if what == "wait":
                self.ctx.wait_all_futures([self.futures[k] for k in arg])
            elif what == "trywait":
                try:
                    self.ctx.wait_all_futures([self.futures[k] for k in arg])
                except Boom:
                    pass
            elif what == "unsub":
                self.ctx.unsubscribe(self.futures[key])
            elif what == "raise":
                raise boom("callback of %d", key)
            elif what == "sleep":
                self.ctx.sleep(arg)
            elif what == "put":
                self.log.append(("put", self.ctx.put(["m", "auto"], arg)))

    def act_ref(self, cb, key):
        r = self.ref
        for what, arg in cb or ():
            if what == "wait":
                r.wait(arg)
            elif what == "trywait":
                try:
                    r.wait(arg)
                except Boom:
                    pass
            elif what == "unsub":
                r.unsubscribe(key)
            elif what == "raise":
                raise boom("callback of %d", key)
            elif what == "sleep":
                r.sleep(arg)
            elif what == "put":
                r.n += 1
                k = ("auto", r.n)
                r.arrive(("ok", k, "auto"), r.now)
                r.wait([k])
                r.log.append(("put", "auto"))

    def answer(self, key, kind, value, at):
        """the controller's answer to the request of a future"""
        req = self.req[key]
        resp = {"ok": Return, "err": Error, "update": Update}[kind](
            req.id, value)
        now = self.clock.now
        self.clock.now = at
        req.callback(resp)
        self.clock.now = now
        self.ref.arrive((kind, key, value), at)

    def stop(self, at):
        now = self.clock.now
        self.clock.now = at
        self.ctx.stop()
        self.clock.now = now
        self.ref.arrive(("stop", None, None), at)

    def ignore(self):
        self.ctx.ignore_stops_before_now()
        self.marks += 1
        self.ref.ignoring = self.marks
        self.ref.arrive(("mark", self.marks, None), self.ref.now)

    def unsubscribe(self, key):
        self.ctx.unsubscribe(self.futures[key])
        self.ref.unsubscribe(key)

    def unsubscribe_all(self):
        self.ctx.unsubscribe_all()
        self.ref.unsubscribe_all()

    # -- comparing -------------------------------------------------------
    def both(self, what, real, ref):
        def run(f):
            try:
                f()
                return ("returned",)
            except Exception as e:
                if isinstance(e, Boom):
                    return ("raised", e.args[0])
                return ("raised", type(e).__name__)
        a, b = run(real), run(ref)
        self.vc.check("%s ends as it should (%s, not %s)" % (
            what, a, b) if a != b else what + " ends as it should", a == b)
        self.same(what)
        return b

    def wait(self, keys, timeout=None, event_timeout=None, style="list"):
        fs = [self.futures[k] for k in keys]

        def real():
            if style == "result" and len(fs) == 1:
                fs[0].result(timeout)
            elif style == "single" and len(fs) == 1:
                self.ctx.wait_all_futures(fs[0], timeout, event_timeout)
            else:
                given = list(fs)
                try:
                    self.ctx.wait_all_futures(given, timeout, event_timeout)
                finally:
                    self.vc.check("the caller's list is left alone",
                                  given == fs)
        return self.both("a wait", real,
                         lambda: self.ref.wait(keys, timeout, event_timeout))

    def sleep(self, s):
        return self.both("a sleep", lambda: self.ctx.sleep(s),
                         lambda: self.ref.sleep(s))

    def same(self, what):
        vc, r = self.vc, self.ref
        vc.check("callbacks get each update once and in order, and none once "
                 "unsubscribed", self.log == r.log)
        vc.check("%s takes no longer than it must" % what,
                 abs(self.clock.now - r.now) < 1e-6)
        for k, f in enumerate(self.futures):
            d = r.done.get(k)
            vc.check("a future is done when its own response was seen",
                     f.done() == (d is not None))
            if d and f.done():
                if d[0] == "ok":
                    vc.check("it has its own result",
                             f.exception() is None and f.result() == d[1])
                else:
                    vc.check("it has its own error", f.exception() is d[1])
        un = [x.id for x in self.sent if isinstance(x, Unsubscribe)]
        vc.check("one Unsubscribe is sent for each subscription that ended",
                 un == [self.req[k].id for k in r.unsub])


class FutureResult:
    pass


def answers(vc, n):
    """a permutation of n with an outcome each"""
    left = list(range(n))
    out = []
    for i in range(n):
        k = vc.choice("next%d" % i, left) if len(left) > 1 else left[0]
        left.remove(k)
        out.append(k)
    return out


@harness("C07", functions=FNS, rand=300, max_paths=40000, budget=240,
         bounded="three futures, one callback with one nested wait",
         covers=["returned", "raised"])
def nested(vc):
    """every order of three answers around an update whose callback waits"""
    w = World(vc)
    for i in range(3):
        w.new("put")
    how = vc.choice("callback", ["wait", "trywait"])
    inner = vc.choice("inner", [[0], [2], [1, 2], [0, 2], [0, 1, 2]])
    sub = w.new("sub", cb=[(how, inner)])
    order = answers(vc, 3)
    place = vc.int("update after", 0, 2)
    t = 0
    for i, k in enumerate(order):
        if i == place:
            w.answer(sub, "update", "v", t)
        if vc.flag("err%d" % i):
            w.answer(k, "err", boom("error of %d", k), t)
        else:
            w.answer(k, "ok", "result of %d" % k, t)
    outer = vc.choice("outer", [[0], [0, 1], [1, 0], [0, 1, 2], [2, 1, 0],
                                [1, 1]])
    vc.cover(w.wait(outer)[0])
    w.wait([2])
    w.wait([0, 1, 2])


@harness("C07", functions=FNS, rand=4000, concrete_only=True,
         bounded="histories of up to 12 actions and 5 responses between "
         "them, seeded sample")
def histories(vc):
    w = World(vc)
    if vc.choice("unsubscribe answered late", [False, False, True]):
        w.defer()
    puts, subs = [], []
    t = 0.0
    for i in range(vc.int("actions", 1, 12)):
        a = vc.choice("action%d" % i, [
            "put", "post", "sub", "sub", "when", "wait", "wait", "wait",
            "sleep", "unsub", "unsub_all", "ignore"])
        if a in ("put", "post"):
            k = w.new(a)
            puts.append(k)
        elif a == "sub":
            cb = []
            for j in range(vc.int("does%d" % i, 0, 2)):
                what = vc.choice("do%d.%d" % (i, j), [
                    "wait", "trywait", "unsub", "raise", "sleep", "put"])
                if what == "unsub" and ("unsub", None) in cb:
                    continue
                arg = None
                if what in ("wait", "trywait"):
                    pend = [p for p in puts if p not in w.ref.done]
                    if not pend:
                        continue
                    arg = [vc.choice("on%d.%d" % (i, j), pend)]
                elif what == "sleep":
                    arg = 1.5
                elif what == "put":
                    arg = j
                cb.append((what, arg))
            if ("unsub", None) in cb and [x for x in cb if x[0] in (
                    "wait", "trywait", "sleep", "put")]:
                # it could be called again before it has unsubscribed
                cb.sort(key=lambda x: x[0] != "unsub")
            k = w.new("sub", cb=cb)
            subs.append(k)
        elif a == "when":
            c = vc.choice("when%d" % i, [
                (3,), (3, [5]), (0, [1]), ("", ["x"]), (lambda v: v == 3,),
                (above,)])
            k = w.new("when", cond=c)
            subs.append(k)
        elif a == "ignore":
            w.ignore()
        elif a == "unsub":
            on = [k for k in subs if k in w.ref.active]
            if on:
                w.unsubscribe(vc.choice("which%d" % i, on))
                w.same("unsubscribe")
        elif a == "unsub_all":
            w.unsubscribe_all()
            w.same("unsubscribe_all")
        else:
            # what arrives while we wait
            t = w.clock.now
            for j in range(vc.int("arrive%d" % i, 0, 5)):
                t += vc.choice("gap%d.%d" % (i, j), [0.0, 0.0, 1.0, 3.0])
                x = vc.choice("what%d.%d" % (i, j), [
                    "answer", "answer", "error", "update", "update", "update",
                    "stop"])
                if x == "stop":
                    w.stop(t)
                    continue
                if x == "update":
                    if subs:
                        k = vc.choice("sub%d.%d" % (i, j), subs)
                        if k not in w.ref.done and not [
                                e for e in w.ref.events if e[2] == k
                                and e[1] in ("ok", "err")]:
                            w.answer(k, "update", vc.choice(
                                "v%d.%d" % (i, j), [3, 0, 5, 4, "", 1]), t)
                    continue
                pend = [k for k in puts if k not in w.ref.done and not [
                    e for e in w.ref.events if e[2] == k]]
                if w.ref.defer:
                    pend += [k for k in w.ref.unsub if k not in w.ref.done
                             and not [e for e in w.ref.events if e[2] == k
                                      and e[1] == "ok"]]
                if pend:
                    k = vc.choice("ans%d.%d" % (i, j), pend)
                    if x == "error" and k in puts:
                        w.answer(k, "err", boom("error of %d", k), t)
                    else:
                        w.answer(k, "ok", None if k in subs else vc.choice(
                            "res%d.%d" % (i, j), ["r", 0, None]), t)
            if a == "sleep":
                w.sleep(vc.choice("sleep%d" % i, [0.5, 2.5]))
            else:
                keys = []
                for j in range(vc.int("waits%d" % i, 0, 3)):
                    if w.futures:
                        keys.append(vc.choice(
                            "on%d.%d" % (i, j), list(range(len(w.futures)))))
                style = vc.choice("style%d" % i, ["list", "single", "result"])
                timeout = vc.choice("timeout%d" % i, [None, 1.5, 4.5, 0.5])
                w.wait(keys, timeout, None if style == "result" else
                       vc.choice("event timeout%d" % i, [None, None, 2.5]),
                       style)
    for f in w.futures:
        pass


def above(v):
    """a condition of the user: satisfied, not satisfied or fails"""
    if v == 5:
        raise BadValueError("five")
    return v in (3, 4)


@harness("C07", functions=FNS[:2], rand=300, max_paths=4000,
         covers=["returned", "timeout", "event timeout"])
def timeouts(vc):
    """for all times (in ticks, so that sums are exact): an update of something else, then the answer"""
    now = [vc.int("now", 0, 1000)]
    t1, t2 = vc.int("first", 0, 100), vc.int("second", 0, 100)
    both = vc.flag("an update first")
    timeout = vc.int("timeout", 0, 100) if vc.flag("has timeout") else None
    event = vc.int("event", 0, 100) if vc.flag("has event timeout") else None
    resp = []
    gaps = [t1, t2] if both else [t2]
    start = now[0]

    class Q:
        def put(self, x):
            resp.append(x)

        def get(self, limit=None):
            if not gaps:
                raise Hang()
            if limit is None or gaps[0] <= limit:
                now[0] = now[0] + gaps.pop(0)
                return resp.pop(0)
            now[0] = now[0] + limit
            raise TimeoutError("nothing came")

    class Time:
        time = staticmethod(lambda: now[0])

    vc.stub(mod, "Queue", Q)
    vc.stub(mod, "time", Time)
    p = SomeProcess()
    ctx = Context(p)
    other = ctx.subscribe(["m", "x"], lambda v: None)
    f = ctx.put_async(["m", "y"], 1)
    if both:
        p.c.sent[0].callback(Update(p.c.sent[0].id, 5))
    p.c.sent[1].callback(Return(p.c.sent[1].id, 6))
    out = vc.call(ctx.wait_all_futures, [f], timeout, event)
    # when it must give up, if it must
    late = []
    done = start
    for g in ([t1, t2] if both else [t2]):
        if event is not None:
            late.append(g > event)
        done = done + g
    if timeout is not None:
        late.append(done - start > timeout)
    must = vc.Or(*late) if late else False
    if out.ok:
        vc.cover("returned")
        vc.check("returns only within its timeouts", vc.Not(must))
        vc.check("at the time of the answer", now[0] == done)
        vc.check("with the future done", f.done() and f.result() == 6)
    else:
        vc.cover("timeout" if timeout is not None else "event timeout")
        vc.check("raises a TimeoutError", out.raised(TimeoutError))
        vc.check("gives up only when a timeout passes", must)
        if timeout is not None:
            vc.check("not after its timeout", now[0] - start <= timeout)
        else:
            vc.check("not before its event timeout",
                     now[0] - start >= event)
        vc.check("the future is not done", not f.done())
    assert other is not None


@harness("C07", functions=[X + ":Context." + f for f in (
    "put", "post", "when_matches", "put_async", "post_async", "subscribe",
    "when_matches_async", "wait_all_futures", "block_view", "make_view",
    "_dispatch_request")] + ["malcolm.core.views:" + f for f in (
        "Attribute.put_value", "Attribute.put_value_async",
        "Attribute.subscribe_value", "Method.post", "Method.post_async",
        "Method._add_positional_args", "Block.put_attribute_values",
        "Block.put_attribute_values_async", "Block.when_value_matches",
        "Block.when_value_matches_async", "Block._make_async_method",
        "make_view")], rand=300, max_paths=20000, budget=200,
    covers=["done", "late"])
def calls(vc):
    """what is asked of a context or a view of a block is what is sent, and
    waited for as long as asked"""
    from checks.C02 import Opaque
    from checks.reqlib import World as Blocks
    from malcolm.compat import OrderedDict
    block_world = Blocks(vc)
    c = block_world.c
    sent, resp = [], []
    now = [0]
    gap = vc.int("gap", 0, 100)

    class Q:
        def put(self, x):
            resp.append(x)

        def get(self, limit=None):
            if not resp and limit is None:
                raise Hang()
            if resp and (limit is None or gap <= limit):
                now[0] = now[0] + gap
                return resp.pop(0)
            now[0] = now[0] + limit
            raise TimeoutError("nothing came")

    class Time:
        time = staticmethod(lambda: now[0])

    vc.stub(mod, "Queue", Q)
    vc.stub(mod, "time", Time)

    class Cothread:
        @staticmethod
        def Yield(*a):
            pass
        Callback = staticmethod(lambda f, *a: f(*a))
    vc.stub(mod, "cothread", Cothread)
    p = SomeProcess()
    p.c = c
    ctx = Context(p)
    v, w, bad = Opaque("v"), Opaque("w"), Opaque("bad")
    result = Opaque("result")
    fails = vc.flag("refused")
    err = Boom("refused")

    def handle(request):
        sent.append(request)
        if isinstance(request, Subscribe):
            resp.append(Update(request.id, bad if fails else v))
        elif isinstance(request, Unsubscribe):
            resp.append(Return(request.id))
        elif fails:
            resp.append(Error(request.id, err))
        else:
            resp.append(Return(request.id, result))
    c.handle_request = handle
    noise = 0
    if vc.flag("an update of something else"):
        noise = 1
        ctx.subscribe(["mri", "ro", "value"], lambda x: None)
        del sent[:]
    told = []
    if vc.flag("told of requests"):
        ctx.set_notify_dispatch_request(lambda r, x: told.append((r, x)), w)
        telling = True
    else:
        telling = False
    timeout = vc.int("timeout", 0, 300) if vc.flag("has timeout") else None
    event = vc.int("event", 0, 100) if vc.flag("has event timeout") else None
    limits = dict(timeout=timeout, event_timeout=event)
    op = vc.choice("op", [
        "put", "post", "post bare", "when", "view put", "view put async",
        "view call", "view post async", "view put many", "view put ordered",
        "view when", "view subscribe"])
    block = ctx.block_view("mri")
    want = []
    seen = []
    waits = 1
    if op == "put":
        out = vc.call(ctx.put, ["mri", "num", "value"], v, **limits)
        want = [(Put, ["mri", "num", "value"], v)]
    elif op == "post":
        out = vc.call(ctx.post, ["mri", "meth"], {"p": v}, **limits)
        want = [(Post, ["mri", "meth"], {"p": v})]
    elif op == "post bare":
        out = vc.call(ctx.post, ["mri", "romet"], **limits)
        want = [(Post, ["mri", "romet"], {})]
    elif op == "when":
        out = vc.call(ctx.when_matches, ["mri", "num", "value"], v, [bad],
                      **limits)
        want = [(Subscribe, ["mri", "num", "value"], None)]
        waits = 2
    elif op == "view put":
        limits["event_timeout"] = event = None
        out = vc.call(block.num.put_value, v, timeout=timeout)
        want = [(Put, ["mri", "num", "value"], v)]
    elif op == "view put async":
        limits = {}
        timeout = event = None
        f = block.num.put_value_async(v)
        vc.check("an asynchronous put does not wait", not f.done())
        out = vc.call(f.result)
        want = [(Put, ["mri", "num", "value"], v)]
    elif op in ("view call", "view post async"):
        timeout = event = None
        args, kw = vc.choice("args", [((), {"p": 1}), ((1,), {}),
                                      ((1, 2), {}), ((1,), {"r": 3}),
                                      ((1, 2, 3), {}), ((), {})])
        takes = dict(zip("pqr", args), **kw)
        if op == "view call":
            out = vc.call(block.meth, *args, **kw)
        else:
            how = vc.choice("how", ["meth_async", "post_async"])
            f = (block.meth_async if how == "meth_async"
                 else block.meth.post_async)(*args, **kw)
            vc.check("an asynchronous call does not wait", not f.done())
            out = vc.call(f.result)
        want = [(Post, ["mri", "meth"], takes)]
    elif op in ("view put many", "view put ordered"):
        if op == "view put many":
            params = {"text": w, "num": v}
            order = ["num", "text"]
        else:
            params = OrderedDict([("text", w), ("num", v)])
            order = ["text", "num"]
        out = vc.call(block.put_attribute_values, params, **limits)
        want = [(Put, ["mri", k, "value"], params[k]) for k in order]
        waits = 2
    elif op == "view when":
        out = vc.call(block.when_value_matches, "num", v, [bad], **limits)
        want = [(Subscribe, ["mri", "num", "value"], None)]
        waits = 2
    else:
        f = block.num.subscribe_value(lambda *a: seen.append(a), w, ctx)
        timeout, event = 100, None
        out = vc.call(ctx.sleep, 100)
        want = [(Subscribe, ["mri", "num", "value"], None)]
        vc.assume(gap < 50)
        vc.check("the callback gets the value and its own arguments",
                 out.ok and len(seen) == 1
                 and seen[0][:2] == (bad if fails else v, w)
                 and len(seen[0]) == 3 and seen[0][2].mri_list == ctx.mri_list)
        vc.check("and the subscription goes on", not f.done())
    reqs = [r for r in sent if not isinstance(r, Unsubscribe)]

    def same(r, kind, path, x):
        if not (type(r) is kind and list(r.path) == path):
            return False
        if kind is Put:
            return r.value is x
        if kind is Post:
            got = r.parameters or {}
            return set(got) == set(x) and all(got[k] is x[k] for k in x)
        return True
    vc.check("exactly what was asked for is sent (%s)" % op,
             len(reqs) == len(want) and all(
                 same(r, *x) for r, x in zip(reqs, want)))
    vc.check("whoever wants to know is told of each",
             [r for r, _ in told] == (reqs if telling else [])
             and all(x is w for _, x in told))
    if op == "view subscribe":
        return
    if fails:
        # the first answer is an error
        waits = 1
    waits += noise
    late = []
    if timeout is not None:
        late.append(gap * waits > timeout)
    if event is not None:
        late.append(gap > event)
    late = vc.Or(*late) if late else False
    if out.raised(TimeoutError):
        vc.cover("late")
        vc.check("gives up only when a timeout passes (%s)" % op, late)
        return
    vc.check("gives up when a timeout passes (%s)" % op, vc.Not(late))
    if want[0][0] is Subscribe and fails:
        vc.check("fails on a bad value", out.raised(BadValueError)
                 and len(sent) == 2 and isinstance(sent[1], Unsubscribe))
    elif want[0][0] is Subscribe:
        vc.check("returns when it matches", out.ok and len(sent) == 2
                 and isinstance(sent[1], Unsubscribe)
                 and sent[1].id == sent[0].id)
    elif fails:
        vc.check("fails with the error of the block (%s)" % op,
                 out.exc is err)
    else:
        vc.cover("done")
        vc.check("returns the result (%s)" % op, out.ok and (
            op.startswith("view put m") or op in ("view put", "view put ordered")
            or out.value is result))


@harness("C07", functions=[X + ":Context." + f for f in (
    "put_async", "subscribe", "wait_all_futures", "_service_futures",
    "_dispatch_request", "_get_next_id")], rand=300, max_paths=3000,
    covers=["returned", "failed", "waits on", "update"])
def ids(vc):
    """Whatever was asked before, an answer concludes the future that it is
    for and no other"""
    resp = []

    class Q:
        def put(self, x):
            resp.append(x)

        def get(self, limit=None):
            if not resp:
                raise TimeoutError("nothing came")
            return resp.pop(0)

    vc.stub(mod, "Queue", Q)
    p = SomeProcess()
    ctx = Context(p)
    n = vc.int("next id", 1)
    i = vc.int("earlier id", 1)
    vc.assume(i < n)
    for k in ("_next_id", "_futures", "_requests", "_subscriptions"):
        assert k in ctx.__dict__, "no %s to specify" % k
    got = []
    # any one of those that are not answered
    earlier = Future(ctx)
    sub = vc.flag("earlier is a subscription")
    ctx._next_id = n
    ctx._futures = FakeLookup(vc, [(i, earlier)])
    ctx._requests[earlier] = Subscribe(i, ["m", "x"]) if sub else Put(
        i, ["m", "x"], 1)
    ctx._subscriptions = FakeLookup(
        vc, [(i, (lambda v, *a: got.append((v, a)), ("arg",)))]
        if sub else [])
    new = ctx.put_async(["m", "y"], 2)
    vc.check("sent once", len(p.c.sent) == 1)
    sent = p.c.sent[0]
    vc.check("with a new id", sent.id == n)
    vc.check("the next one will be another", ctx._get_next_id() > n)
    what = vc.choice("arrives", ["Return", "Error", "Update"])
    error = ValueError("it failed")
    if what == "Update":
        vc.assume(sub)
        j = i
        sent.callback(Update(j, 7))
    else:
        j = vc.int("id", 1)
        vc.assume(vc.Or(j == i, j == n))
        sent.callback(Return(j, 7) if what == "Return" else Error(j, error))
    waits = vc.choice("waits for", [["new"], ["earlier"],
                                    ["earlier", "new"], ["new", "new"]])
    fs = {"new": (n, new), "earlier": (i, earlier)}
    out = vc.call(ctx.wait_all_futures, [fs[k][1] for k in waits], 1.0)
    left, failed = set(waits), False
    for k, (x, f) in fs.items():
        if what != "Update" and vc.fork(j == x):
            left.discard(k)
            vc.check("%s is concluded by its answer" % k, f.done())
            if not f.done():
                continue
            if what == "Return":
                vc.check("%s has its result" % k, f.result() == 7)
            else:
                failed = failed or k in waits
                vc.check("%s has its error" % k, f.exception() is error)
        else:
            vc.check("%s is not concluded by another answer" % k,
                     not f.done())
    if what == "Update":
        vc.cover("update")
        vc.check("the subscription gets its update once",
                 got == [(7, ("arg",))])
    else:
        vc.check("nobody gets an update", not got)
    if failed:
        vc.cover("failed")
        vc.check("the error is raised to who waits for it",
                 out.exc is error)
    elif left:
        vc.cover("waits on")
        vc.check("waits on for the others", out.raised(TimeoutError))
    else:
        vc.cover("returned")
        vc.check("returns when all have answers", out.ok)
