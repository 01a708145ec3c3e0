"""pvAccess: what a client is sent is the block, what it puts or calls is done.

The real BlockHandler (server), PvaClientComms and ProxyController (client) and
the real p4p values, joined by stand-ins for p4p's server and client."""
from pyvc.api import harness
from checks.blocklib import OPS, World, plain, strip
from checks.lib import FakeLookup, FakeProcess, FakeQueue, every_kind

import malcolm.modules.pva.controllers.pvaclientcomms as pc
import malcolm.modules.pva.controllers.pvaservercomms as ps
from malcolm.modules.pva.controllers.pvaconvert import (
    convert_dict_to_value, convert_value_to_dict)
from p4p import Type, Value
from p4p.nt import NTURI
from p4p.client.raw import Disconnected, RemoteError

from malcolm.core import (Alarm, Error, NumberMeta, Post, Put, Return,
                          StringMeta)
from malcolm.core.models import ChoiceMeta, MapMeta
from malcolm.modules.builtin.controllers import (
    BasicController, ProxyController)

S = "malcolm.modules.pva.controllers.pvaservercomms:"
K = "malcolm.modules.pva.controllers.pvaclientcomms:PvaClientComms."
V = "malcolm.modules.pva.controllers.pvaconvert:"
LEVEL = "exploration"
ASSUMPTIONS = [
    "p4p sends what is posted to every client, marks what was assigned as "
    "changed, and disconnects the clients of a PV that is closed, after "
    "which they connect again",
]


class FakePV:
    """p4p's SharedPV with one client"""

    def __init__(self, net):
        self.net, self.open_ = net, False
        self.handler = None

    def open(self, value):
        assert not self.open_, "open twice"
        self.open_ = True
        self.net.send(self, value, True)

    def isOpen(self):
        return self.open_

    def post(self, value):
        if not self.open_:
            raise RuntimeError("not open")
        self.net.send(self, value, False)

    def close(self, destroy=False, sync=False, timeout=None):
        if self.open_:
            self.open_ = False
            self.net.closed.append(self)


class FakeOp:
    def __init__(self, value, request=None):
        self.v, self.request, self.out = value, request or {}, []

    def value(self):
        return self.v

    def pvRequest(self):
        return self.request

    def done(self, value=None, error=None):
        self.out.append((value, error))


class Net:
    """p4p's client context, joined to the server's handlers"""

    def __init__(self):
        self.closed, self.clients, self.pvs = [], {}, {}
        self.hold, self.held = False, {}
        self.controller = None
        self.ops = []

    # server side
    def pv(self, name):
        if name not in self.pvs:
            mri, _, field = name.partition(".")
            pv = self.pvs[name] = FakePV(self)
            pv.handler = ps.BlockHandler(self.controller, field or None)
        return self.pvs[name]

    def send(self, pv, value, first):
        if self.hold and not first:
            _, marks = self.held.get(pv, (None, set()))
            self.held[pv] = value, marks | value.changedSet()
            return
        if first:
            self.held.pop(pv, None)
            for k in value.keys():
                value.mark(k)
        for cb in self.clients.get(pv, []):
            cb(value)

    def deliver(self):
        """what was held back arrives as one"""
        self.hold = False
        held, self.held = self.held, {}
        for pv, (value, marks) in held.items():
            if not pv.isOpen():
                continue
            value.unmark()
            for k in marks:
                value.mark(k)
            for cb in self.clients.get(pv, []):
                cb(value)

    def drain(self):
        """clients of closed PVs are disconnected, and connect again"""
        for _ in range(3):
            closed, self.closed = self.closed, []
            for pv in closed:
                for cb in self.clients.get(pv, []):
                    cb(Disconnected())
                pv.handler.onLastDisconnect(pv)
                pv.handler.onFirstConnect(pv)
        return not self.closed

    # client side
    def monitor(self, name, cb, notify_disconnect=False):
        pv = self.pv(name)
        first = pv not in self.clients
        self.clients.setdefault(pv, []).append(cb)
        assert first, "'FakePV' has one client"
        pv.handler.onFirstConnect(pv)
        return self

    def put(self, name, values, request=None):
        pv = self.pv(name)
        if not pv.isOpen():
            raise Disconnected()
        v = Value(pv.handler.value.type(), {})
        v.unmark()
        for k, x in values.items():
            v[k] = x
        op = FakeOp(v)
        self.ask(lambda: pv.handler.put(pv, op), op)

    def rpc(self, name, value, timeout=None, request=None):
        pv = self.pv(name)
        op = FakeOp(value, request)
        return self.ask(lambda: pv.handler.rpc(pv, op), op)

    def ask(self, f, op):
        self.ops.append(op)
        try:
            f()
        except Exception as e:
            # p4p answers with the exception of the handler
            op.done(error=str(e))
        value, error = op.out[0]
        if error is not None:
            raise RemoteError(error)
        return value

    def close(self):
        pass


class Rig:
    def __init__(self, vc):
        self.vc = vc
        self.net = Net()
        self.w = World(vc, BasicController)
        c = self.c = self.net.controller = self.w.c
        choice = ChoiceMeta("c", ["a", "b"]).create_attribute_model("a")
        c.add_block_field("choice", choice, choice.set_value, False)
        self.sp = FakeProcess()
        self.sp.controllers["mri"] = c
        c.process = self.sp
        vc.stub(pc, "Queue", FakeQueue)
        vc.stub(pc, "Context", lambda *a, **k: self.net)
        self.cp = FakeProcess()
        self.comms = pc.PvaClientComms("comms")
        self.comms.setup(self.cp)
        self.cp.controllers["comms"] = self.comms
        self.comms.init()
        self.proxy = ProxyController("mri", "comms")
        self.proxy.setup(self.cp)
        self.cp.controllers["mri"] = self.proxy
        self.proxy.client_comms = self.comms

    def sync(self):
        out = self.vc.call(self.comms.sync_proxy, "mri", self.proxy._block)
        self.vc.check("a proxy gets the contents of a block that is there",
                      out.ok)

    def op(self, k):
        b = self.c._block
        n = self.w.fresh()
        if k == "choices":
            b.choice.meta.set_choices([b.choice.value, "a", "c%d" % n])
        elif k == "health":
            b.health.set_value("h%d" % n, alarm=Alarm.major("m%d" % n))
        elif k == "block label":
            b.meta.set_label("block %d" % n)
            b.meta.set_tags(["tag%d" % n])
        elif k == "writeable meth":
            b.meth.meta.set_writeable(not b.meth.meta.writeable)
        else:
            self.w.op(k)

    def drain(self):
        self.vc.check("the connection settles", self.net.drain())

    def same(self, name):
        vc = self.vc
        a = strip(plain(self.c._block))
        b = strip(plain(self.proxy._block))
        for d in (a, b):
            d["health"].pop("meta", None)
            d["meta"]["fields"] = sorted(d["meta"]["fields"])
        if a != b and not vc.sym:
            vc.note(str([(k, a.get(k), b.get(k)) for k in set(a) | set(b)
                         if a.get(k) != b.get(k)])[:800])
        vc.check("%s: the proxy equals the remote block" % name, a == b)


ALL = OPS + ["choices", "health", "block label", "writeable meth"]
FNS = [S + "BlockHandler." + f for f in (
    "handle", "_create_initial_value", "_update_value", "onFirstConnect",
    "onLastDisconnect")] + [K + f for f in (
        "sync_proxy", "_regenerate_block", "_update_block",
        "_update_settable_fields")] + [V + f for f in (
            "convert_to_type_tuple_value", "convert_from_type_spec",
            "convert_dict_to_value", "convert_value_to_dict", "update_path")]


@harness("C20", functions=FNS, rand=100, max_paths=4000, budget=200,
         bounded="every pair of operations on the block, separately, squashed "
         "or arriving as one",
         covers=["squashed", "separate", "late"])
def two_changes(vc):
    r = Rig(vc)
    if vc.flag("changed before"):
        r.op("add extra")
        for k in ("element.label", "health", "block label", "num.alarm"):
            r.op(k)
    r.sync()
    r.drain()
    r.same("after connecting")
    a = vc.choice("first", ALL)
    b = vc.choice("second", ALL)
    how = vc.choice("how", ["squashed", "separate", "late"])
    vc.cover(how)
    if how == "squashed":
        with r.c.changes_squashed:
            r.op(a)
            r.op(b)
    elif how == "separate":
        r.op(a)
        r.drain()
        r.same("after a change")
        r.op(b)
    else:
        r.net.hold = True
        r.op(a)
        r.op(b)
        r.net.deliver()
    r.drain()
    r.same("after two changes")


def ask(c, request):
    out = []
    request.set_callback(out.append)
    c.handle_request(request)
    return out


class Boom(Exception):
    pass


def outcome(x):
    """a response as its caller sees it"""
    if isinstance(x, Error):
        return ["Error", x.id, str(x.message)]
    return [type(x).__name__, x.id, strip(plain(x))]


def with_functions(r, calls, how, unpacked, result):
    def fn(value=None, **params):
        calls.append((plain(value), plain(params)))
        if how == "fails":
            raise Boom("it failed %s" % value)
        if how == "fails any":
            raise every_kind(Boom)("it failed %s" % value)
        return result

    b = r.c._block
    r.c._write_functions = dict(r.c._write_functions)
    for f in ("num", "tab", "choice", "meth"):
        r.c._write_functions[f] = fn
    if unpacked:
        b.meth.meta.set_returns(MapMeta({"return": StringMeta("r")},
                                        ["return"]))
        b.meth.meta.set_tags(["method:return:unpacked"])
    elif result is not None:
        b.meth.meta.set_returns(MapMeta(
            {k: StringMeta(k) if isinstance(v, str) else
             NumberMeta("int32", k) for k, v in result.items()}))
    for f in ("num", "tab", "choice", "meth"):
        b[f].meta.set_writeable(how != "not writeable")


RESULTS = [(False, None), (True, "did it"), (True, ""),
           (False, {"a": "text", "n": 3}), (False, {"a": "text"})]


@harness("C20", functions=[K + "send_put", K + "send_post",
                           S + "BlockHandler.put", S + "BlockHandler.rpc",
                           V + "convert_to_type_tuple_value",
                           V + "convert_value_to_dict"],
         rand=100, max_paths=3000, budget=200,
         bounded="every kind of request through the proxy x target x outcome",
         covers=["Return", "Error"])
def requests(vc):
    r = Rig(vc)
    calls = []
    how = vc.choice("function", ["returns", "fails", "fails any",
                                 "not writeable"])
    unpacked, result = vc.choice("result", RESULTS)
    with_functions(r, calls, how, unpacked, result)
    r.sync()
    kind, path, val = vc.choice("request", [
        ("put", ["num", "value"], 12), ("put", ["num", "value"], "rubbish"),
        ("put", ["choice", "value"], "b"), ("put", ["choice", "value"], "z"),
        ("put", ["tab", "value"], {"name": ["a", "b"], "x": [1, 2],
                                    "y": [0, 1.5]}),
        ("put", ["tab", "value"], {"name": [], "x": [], "y": []}),
        ("put", ["tab", "value"], {"name": ["a", "b"]}),
        ("post", ["meth"], {"p": "a", "q": 1}), ("post", ["meth"], {"p": ""}),
        ("post", ["meth"], {"nope": "a"}), ("post", ["meth"], {}),
        ("post", ["num"], {}), ("put", ["nope", "value"], 1)])
    if kind == "put" and result is not None:
        return

    def make():
        if kind == "put":
            return Put(id=77, path=["mri"] + path, value=val)
        return Post(id=77, path=["mri"] + path, parameters=val)

    got = ask(r.proxy, make())
    r.drain()
    vc.check("the request is answered exactly once", len(got) == 1)
    vc.check("so is what was sent to the server",
             all(len(o.out) == 1 for o in r.net.ops))
    if not got:
        return
    got = outcome(got[0])
    vc.cover(got[0])
    vc.check("with its id", got[1] == 77)
    made = list(calls)
    vc.check("the function runs at most once", len(made) <= 1)
    del calls[:]
    want = ask(r.c, make())
    vc.check("the function runs as if asked of the block itself (%r)"
             % ((calls, made),), calls == made)
    want = outcome(want[0])
    vc.check("success and failure pass through (%r)" % (got,),
             got[0] == want[0])
    if want[0] == "Error":
        vc.check("the error of the server is seen",
                 not r.net.ops or want[2] in got[2])
    elif got[0] == want[0] and kind == "post":
        # pvAccess has no None, only structures without fields
        vc.check("the result of the server is seen (%r)" % ((got, want),),
                 got[2] == want[2] or not want[2]["value"]
                 and got[2] == dict(want[2], value={}) and not unpacked)
    r.drain()
    r.same("after a request")


def shown(value):
    """what a plain client has been sent"""
    return strip(plain(convert_value_to_dict(value)))


class Viewer:
    """a plain client of one channel, keeping what it has been sent"""

    def __init__(self, r, name):
        self.r, self.value, self.marks = r, None, set()
        r.net.monitor(name, self.got)

    def got(self, value):
        if isinstance(value, Exception):
            self.value = None
        elif self.value is None:
            self.value = Value(value.type(), value)
        else:
            self.marks = value.changedSet()
            for k in self.marks:
                self.value[k] = value[k]


@harness("C20", functions=FNS[:5] + [V + "update_path"], rand=100,
         max_paths=2000, budget=200,
         bounded="every channel of a block and of its fields x every pair of "
         "operations", covers=["field", "gone", "block"])
def channels(vc):
    r = Rig(vc)
    name = vc.choice("channel", ["mri", "mri.num", "mri.tab", "mri.meth",
                                 "mri.choice", "mri.health", "mri.extra",
                                 "mri.nope"])
    if name in ("mri", "mri.extra") and vc.flag("extra"):
        r.op("add extra")
    v = Viewer(r, name)
    _, _, field = name.partition(".")

    def there(when):
        b = r.c._block
        if field and field not in list(b):
            vc.cover("gone")
            vc.check("%s: a field that does not exist shows nothing" % when,
                     v.value is None or not list(v.value))
            return
        vc.cover("field" if field else "block")
        want = strip(plain(b[field] if field else b))
        vc.check("%s: the channel is connected" % when, v.value is not None)
        if v.value is None:
            return
        got = shown(v.value)
        if got != want:
            vc.note(str([(k, got.get(k), want.get(k))
                         for k in set(got) | set(want)
                         if got.get(k) != want.get(k)])[:600])
        vc.check("%s: it shows the field as it is" % when, got == want)
        if field == "tab":
            vc.check("%s: labelled as its columns" % when,
                     list(v.value["labels"]) == [
                         e.label or k for k, e in b.tab.meta.elements.items()])

    there("at first")
    for k, os in (("first", ALL + ["column label"]),
                  ("second", ["add extra", "remove extra", "column label",
                              "num.value", "replace num"])):
        o = vc.choice(k, os)
        if o == "column label":
            r.c._block.tab.meta.elements["x"].set_label(
                "X%d" % r.w.fresh())
        else:
            r.op(o)
        r.drain()
        there("after the %s change" % k)
        if o == "num.value" and v.value is not None and field in ("", "num"):
            vc.check("it is told of that change only (%r)" % (v.marks,),
                     all((x if field else x.partition("num.")[2])
                         .split(".")[0] in ("value", "timeStamp", "alarm")
                         for x in v.marks))


@harness("C20", functions=[S + "BlockHandler.put", S + "BlockHandler.rpc"],
         rand=60, max_paths=2000, budget=120,
         bounded="every kind of put and rpc from a plain client",
         covers=["done", "error"])
def plain_clients(vc):
    r = Rig(vc)
    calls = []
    how = vc.choice("function", ["returns", "fails", "fails any",
                                 "not writeable"])
    unpacked, result = vc.choice("result", RESULTS + [(True, 5)])
    with_functions(r, calls, how, unpacked, result)
    t = [("p", "s"), ("q", "i")]
    kind, chan, val, ok = vc.choice("request", [
        ("put", "mri", {"num.value": 4}, 4),
        ("put", "mri", {"choice.value": "b"}, "b"),
        ("put", "mri", {"tab.value.x": [3]}, {"name": ["a"], "x": [3],
                                             "y": [0.5]}),
        ("put", "mri", {"num.value": 4, "choice.value": "b"}, None),
        ("put", "mri", {"num.meta.label": "z"}, None),
        ("put", "mri", {"num.alarm.message": "z"}, None),
        ("put", "mri", {}, None),
        ("put", "mri.num", {"value": 4}, 4),
        ("put", "mri.num", {"meta.label": "z"}, None),
        ("put", "mri.meth", {"meta.label": "z"}, None),
        ("put", "mri.meta", {"label": "z"}, None),
        ("uri", "mri", "mri.meth", {"p": "a", "q": 1}),
        ("uri", "mri.meth", "mri.meth", {"p": "a", "q": 1}),
        ("uri", "mri.num", "mri.meth", {"p": "a", "q": 1}),
        ("uri", "mri", "other.meth", None),
        ("uri", "mri", "mri.num", None),
        ("uri", "mri", "mri.nope", None),
        ("rpc", "mri", "meth", {"p": "a", "q": 1}),
        ("rpc", "mri", "num", None),
        ("rpc", "mri", "nope", None),
        ("rpc", "mri", None, None),
        ("rpc", "mri.meth", None, {"p": "a", "q": 1}),
        ("rpc", "mri.num", None, None)])
    v = Viewer(r, chan)
    before = strip(plain(r.c._block))
    if kind == "put":
        if result is not None:
            return
        pv = r.net.pv(chan)
        out = vc.call(r.net.put, chan, {}) if not val else None
        if val:
            x = Value(pv.handler.value.type(), pv.handler.value)
            x.unmark()
            for k, y in val.items():
                x[k] = y
            op = FakeOp(x)
            out = vc.call(r.net.ask, lambda: pv.handler.put(pv, op), op)
    elif kind == "uri":
        u = NTURI(t).wrap(path=val, kws={"p": "a", "q": 1}, scheme="pva")
        out = vc.call(r.net.rpc, chan, u)
    else:
        x = Value(Type(t), {"p": "a", "q": 1})
        out = vc.call(r.net.rpc, chan, x, request={"method": val} if val
                      else {})
    r.drain()
    vc.check("it is answered exactly once",
             [len(o.out) for o in r.net.ops] == [1])
    good = ok is not None and how == "returns"
    vc.cover("done" if out.ok else "error")
    vc.check("it succeeds exactly when it can be done", out.ok == good)
    run = ok is not None and how != "not writeable"
    vc.check("the function runs once, with what was sent (%r)" % (calls,),
             [(x.pop("typeid") and x if isinstance(x, dict) else x, y)
              for x, y in plain(calls)] == ([] if not run else [
                 (ok, {}) if kind == "put" else (None, ok)]))
    if ok is not None and how.startswith("fails"):
        vc.check("the error says why", "it failed" in str(out.exc))
    if out.ok and kind != "put":
        got = plain(convert_value_to_dict(out.value))
        want = {"return": result} if unpacked else result or {}
        vc.check("the client gets the result (%r)" % ((got, want),),
                 got == want)
    now = strip(plain(r.c._block))
    if not run:
        vc.check("what is not done changes nothing", now == before)
    name = chan.partition(".")[2]
    vc.check("and the channel shows the block",
             shown(v.value) == (now[name] if name else now))


class FakeUri:
    """an NTURI of any scheme, path and query"""

    def __init__(self, scheme, path, query):
        self.scheme, self.path, self.query = scheme, path, query

    def getID(self):
        return "epics:nt/NTURI:1.0"


class FakeOwner:
    """a controller by contract: its block has one method, every request is
    answered exactly once"""

    def __init__(self, vc, mri, methods, answer):
        self.mri, self.methods, self.answer = mri, methods, answer
        self.log, self.asked = FakeLog(), []

    def block_view(self):
        return self.methods

    def handle_request(self, request):
        self.asked.append(request)
        request.callback(self.answer)
        return self

    def get(self):
        return None


class FakeLog:
    def debug(self, *args, **kwargs):
        pass


@harness("C20", functions=[S + "BlockHandler.rpc"], rand=60, covers=[
    "returned", "failed", "refused"],
    note="block names, paths, methods and schemes are any strings")
def rpc_by_uri(vc):
    r = World(vc, BasicController)
    meth = r.c.block_view().meth
    num = r.c.block_view().num
    mri, name = vc.str("mri"), vc.str("method")
    if vc.flag("unpacked"):
        r.c._block.meth.meta.set_tags(["method:return:unpacked"])
        unpacked = True
    else:
        unpacked = False
    result, params, sent = object(), {"p": "a"}, object()
    fails = vc.flag("fails")
    answer = Error(0, ValueError("it failed")) if fails else Return(0, result)
    is_method = vc.flag("is a method")
    c = FakeOwner(vc, mri, FakeLookup(vc, [(name, meth if is_method
                                            else num)]), answer)
    path, scheme = vc.str("path"), vc.str("scheme")
    h = ps.BlockHandler(c, None)
    query = object()
    made = []

    def to_dict(x):
        return params if x is query else {}

    def to_value(x):
        made.append(x)
        return sent

    vc.patch(ps, "convert_value_to_dict", to_dict)
    vc.patch(ps, "convert_dict_to_value", to_value)
    op = FakeOp(FakeUri(scheme, path, query))
    out = vc.call(h.rpc, None, op)
    good = vc.And(scheme == "pva", path == mri + "." + name, is_method)
    if not out.ok:
        vc.cover("refused")
        vc.check("what can be called is called", vc.Not(good))
        vc.check("what is refused is not done", not c.asked and not op.out)
        return
    vc.check("only a method of this block is called", good)
    vc.check("once", len(c.asked) == 1)
    vc.check("the one named", vc.And(c.asked[0].path[0] == mri,
                                     c.asked[0].path[1] == name,
                                     len(c.asked[0].path) == 2))
    vc.check("with the parameters sent", c.asked[0].parameters == params)
    vc.check("and answered once", len(op.out) == 1)
    value, error = op.out[0]
    if fails:
        vc.cover("failed")
        vc.check("with the error", value is None and "it failed" in error)
    else:
        vc.cover("returned")
        vc.check("with the result", error is None and value is sent
                 and len(made) == 1 and (
                     made[0] == {"return": result} if unpacked
                     else made[0] is result))


class FakeShared(FakePV):
    made = []

    def __init__(self, handler=None, options=None):
        FakePV.__init__(self, None)
        self.handler, self.shut = handler, []
        FakeShared.made.append(self)

    def close(self, destroy=False, sync=False, timeout=None):
        self.shut.append(destroy)


@harness("C20", functions=[S + "PvaServerComms." + f for f in (
    "testChannel", "_make_channel", "publish", "disconnect_pv_clients",
    "do_init", "do_disable")], rand=60, max_paths=3000, budget=120,
    bounded="two blocks, one name a part of the other, published, withdrawn "
    "and asked for in every order of 5 steps", covers=["again", "gone"])
def server(vc):
    log = []

    class FakeServer:
        def __init__(self, providers):
            log.append("start")

        def stop(self):
            log.append("stop")

    class FakeProvider:
        def __init__(self, name, handler):
            pass

    vc.stub(ps, "SharedPV", FakeShared)
    vc.stub(ps, "Server", FakeServer)
    vc.stub(ps, "DynamicProvider", FakeProvider)
    FakeShared.made = []
    p = FakeProcess()
    for mri in ("A:B", "A:B.C", "D"):
        c = BasicController(mri)
        c.setup(p)
        p.controllers[mri] = c
    s = ps.PvaServerComms("S")
    s.setup(p)
    s.init()
    vc.check("the server is started once", log == ["start"])
    pub, pvs = set(), {}
    names = ["A:B", "A:B.num", "A:B.C", "A:B.C.num", "D", "D.x", "no", "no.x"]

    def owner(n):
        if n in pub:
            return n, None
        m, _, f = n.rpartition(".")
        return (m, f) if m in pub else None

    def publish(*names):
        pub.clear()
        pub.update(names)
        s.publish(list(names))
        for key in list(pvs):
            if key[0] not in pub:
                vc.cover("gone")
                vc.check("clients of a withdrawn block are disconnected "
                         "for good", pvs.pop(key).shut == [True])
        vc.check("and nobody else", not any(x.shut for x in pvs.values()))

    publish(*vc.choice("published", [("A:B",), ("A:B", "D"),
                                     ("A:B", "A:B.C"), ()]))
    for i in range(2):
        n = vc.choice("asked %d" % i, names)
        who = owner(n)
        vc.check("a channel is there exactly when its block is published",
                 bool(s.testChannel(n)) == (who is not None))
        if who:
            pv = s._make_channel(n, "client")
            if who in pvs:
                vc.cover("again")
                vc.check("clients of one channel share it", pvs[who] is pv)
            else:
                vc.check("a channel of its own",
                         not any(x is pv for x in pvs.values())
                         and not pv.shut)
            pvs[who] = pv
            vc.check("for the block and the field asked for",
                     (pv.handler.controller.mri, pv.handler.field) == who)
        publish(*vc.choice("then %d" % i, [("A:B",), ("D",), (),
                                           ("A:B.C", "D"),
                                           ("A:B", "A:B.C", "D")]))
    s.disable()
    vc.check("the server is stopped", log == ["start", "stop"])
    vc.check("and everyone disconnected",
             all(x.shut == [True] for x in FakeShared.made))
