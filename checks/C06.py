"""A proxy follows the block it mirrors: whatever changes on the server is
seen on the proxy, whatever is asked of the proxy is answered by the server.

The real websocket handler (server) and the real WebsocketClientComms and
ProxyController (client) are joined message by message: what one writes is
what the other reads. Only tornado's sockets and the hops between the tornado
and cothread threads are stood in for."""
from pyvc.api import harness
from checks.blocklib import OPS, World, plain, strip
from checks.lib import FakeLookup, FakeProcess, FakeQueue, every_kind, fire

import malcolm.modules.web.controllers.httpservercomms as hs
import malcolm.modules.web.controllers.websocketclientcomms as wc
import malcolm.modules.web.parts.websocketserverpart as ws
from annotypes import Array

from malcolm.core import (Alarm, Context, Delta, Error, Update, Get, NumberMeta, Post, Put,
                          ProcessPublishHook,
                          ResponseError, Return, StringMeta, Subscribe,
                          TimeoutError, Unsubscribe)
from malcolm.core.models import ChoiceMeta, MapMeta, MethodMeta, MethodModel
from malcolm.modules.builtin.controllers import BasicController, ProxyController

W = "malcolm.modules.web.controllers.websocketclientcomms:WebsocketClientComms."
S = "malcolm.modules.web.parts.websocketserverpart:MalcWebSocketHandler."
M = "malcolm.core.models:"
P = "malcolm.modules.builtin.controllers.proxycontroller:ProxyController."
LEVEL = "exploration"
ASSUMPTIONS = [
    "tornado delivers the messages of a connection in order, without loss, "
    "until it closes; callbacks passed between the tornado and the cothread "
    "threads run in order",
    "the mirrored block has a scalar, a boolean, a choice, a table attribute "
    "and a method with nested metas; operations change any part of it",
]


class Now:
    @staticmethod
    def Callback(f, *a, **k):
        f(*a, **k)


class FakeConn:
    """The client's end of the connection"""

    def __init__(self, rig):
        self.rig = rig
        self.closed = False

    def write_message(self, message):
        self.rig.messages.append(message)
        assert isinstance(message, str)
        if self.rig.lost:
            raise RuntimeError("closed")
        self.rig.handler.on_message(message)

    def close(self):
        self.closed = True


class FakeRequest:
    remote_ip = "127.0.0.1"


class FakeRegistrar:
    def __init__(self, server):
        self.server = server

    def report(self, info):
        self.server.update_request_received(None, info)


class Rig:
    def __init__(self, vc, validators=()):
        self.vc = vc
        for m in (wc, hs, ws):
            vc.stub(m, "cothread", Now)
        vc.stub(wc.IOLoopHelper, "call", staticmethod(
            lambda f, *a, **k: f(*a, **k)))
        self.lost = self.stuck = False
        self.meanwhile = None

        class Waiter(FakeQueue):
            """waiting for what nobody will put"""

            def get(q, timeout=None):
                if not q.q and self.meanwhile:
                    self.meanwhile()
                if not q.q:
                    if self.meanwhile and timeout is not None:
                        raise TimeoutError("timed out")
                    self.stuck = True
                    raise RuntimeError("waits forever")
                return q.q.pop(0)

        vc.stub(wc, "Queue", Waiter)
        vc.stub(ws, "Queue", Waiter)
        self.hold = False
        self.held = []
        self.messages = []
        self.replies = []
        # server
        self.w = World(vc, BasicController)
        c = self.c = self.w.c
        choice = ChoiceMeta("c", ["a", "b"]).create_attribute_model("a")
        c.add_block_field("choice", choice, choice.set_value, False)
        self.sp = FakeProcess()
        self.sp.controllers["mri"] = c
        c.process = self.sp
        self.server = hs.HTTPServerComms("server")
        self.server.setup(self.sp)
        self.validators = validators
        self.accept()
        # client
        self.cp = FakeProcess()
        self.comms = wc.WebsocketClientComms("comms")
        self.comms.setup(self.cp)
        self.comms._conn = FakeConn(self)
        self.cp.controllers["comms"] = self.comms
        self.comms.init()
        self.proxy = ProxyController("mri", "comms")
        self.proxy.setup(self.cp)
        self.cp.controllers["mri"] = self.proxy
        self.proxy.client_comms = self.comms

    def accept(self):
        """a connection to the server"""
        h = self.handler = ws.MalcWebSocketHandler.__new__(
            ws.MalcWebSocketHandler)
        h.initialize(registrar=FakeRegistrar(self.server),
                     validators=self.validators)
        h.request = FakeRequest()
        h.write_message = self.to_client

    def reconnect(self, ops):
        """the connection is lost and made again, meanwhile things change"""
        from tornado.websocket import WebSocketClosedError

        def dead(message):
            raise WebSocketClosedError()

        self.handler.write_message = dead
        self.comms._conn = None
        self.comms._report_fault()
        for k in ops:
            self.op(k)
        self.accept()
        self.comms._conn = FakeConn(self)
        self.comms.reset()
        self.sync()

    def to_client(self, message):
        self.replies.append(message)
        if self.hold:
            self.held.append(message)
        else:
            self.comms.on_message(message)

    def deliver(self):
        self.hold = False
        while self.held:
            self.comms.on_message(self.held.pop(0))

    def sync(self):
        out = self.vc.call(self.comms.sync_proxy, "mri", self.proxy._block)
        self.vc.check("a proxy gets the contents of a block that is there",
                      out.ok and not self.stuck)

    def op(self, k):
        b = self.c._block
        if k == "choices":
            n = self.w.fresh()
            b.choice.meta.set_choices([b.choice.value, "a", "c%d" % n])
        elif k == "choice":
            n = self.w.fresh()
            b.choice.meta.set_choices(["x%d" % n, "a"])
            b.choice.set_value("x%d" % n)
            b.choice.meta.set_choices(["a", "x%d" % n])
        elif k == "health":
            n = self.w.fresh()
            b.health.set_value("h%d" % n, alarm=Alarm.major("m%d" % n))
        elif k == "block label":
            b.meta.set_label("block %d" % self.w.fresh())
            b.meta.set_description("described %d" % self.w.fresh())
            b.meta.set_tags(["tag%d" % self.w.fresh()])
            b.meta.set_writeable(not b.meta.writeable)
        elif k == "elements":
            b.tab.meta.elements["x"].set_label("x%d" % self.w.fresh())
        elif k == "replace meth":
            n = self.w.fresh()
            b.set_endpoint_data("meth", MethodModel(meta=MethodMeta(
                takes=MapMeta({"p": StringMeta("p%d" % n)}))))
        elif k == "writeable meth":
            b.meth.meta.set_writeable(not b.meth.meta.writeable)
        else:
            self.w.op(k)

    def same(self, name):
        """the proxy's block is the server's"""
        vc = self.vc
        a = strip(plain(self.c._block))
        b = strip(plain(self.proxy._block))
        for d in (a, b):
            # described locally
            d["health"].pop("meta", None)
            d["meta"]["fields"] = sorted(d["meta"]["fields"])
        if a != b and not vc.sym:
            vc.note(str([(k, a.get(k), b.get(k)) for k in set(a) | set(b)
                         if a.get(k) != b.get(k)])[:800])
        vc.check("%s: the proxy equals the remote block" % name, a == b)


ALL = OPS + ["choices", "choice", "health", "block label", "elements",
             "replace meth", "writeable meth"]
FNS = [W + "_handle_change", W + "_regenerate_block", W + "sync_proxy",
       W + "_handle_response", W + "on_message", W + "_send_request",
       S + "on_message", S + "on_response", S + "_on_response",
       M + "Model.apply_change", M + "AttributeModel.apply_change",
       M + "NTTable.apply_change", M + "BlockModel.set_endpoint_data",
       M + "BlockModel.remove_endpoint"]


@harness("C06", functions=FNS, rand=150, max_paths=4000, budget=200,
         bounded="every pair of operations on the mirrored block, separately, "
         "squashed, arriving late, or before and after a reconnection",
         covers=["squashed", "separate", "late", "reconnected"])
def two_changes(vc):
    r = Rig(vc)
    if vc.flag("changed before"):
        r.op("add extra")
        for k in ("element.label", "health", "block label", "num.alarm"):
            r.op(k)
    r.sync()
    r.same("after connecting")
    a = vc.choice("first", ALL)
    b = vc.choice("second", ALL)
    how = vc.choice("how", ["squashed", "separate", "late", "reconnected"])
    vc.cover(how)
    if how == "reconnected":
        r.reconnect([a])
        r.same("after connecting again")
        r.op(b)
    elif how == "squashed":
        with r.c.changes_squashed:
            r.op(a)
            r.op(b)
    elif how == "separate":
        r.op(a)
        r.same("after a change")
        r.op(b)
    else:
        r.hold = True
        r.op(a)
        r.op(b)
        r.deliver()
    r.same("after two changes")


@harness("C06", functions=FNS, concrete_only=True, rand=250,
         bounded="seeded random histories of up to 12 operations, squashed "
         "or late")
def history(vc):
    r = Rig(vc)
    r.sync()
    r.same("after connecting")
    for step in range(vc.choice("steps", range(1, 13))):
        kind = vc.choice("kind", ["op", "squash", "late", "reconnect"])
        if kind == "op":
            r.op(vc.choice("op", ALL))
        elif kind == "squash":
            with r.c.changes_squashed:
                for _ in range(vc.choice("n", [1, 2, 3, 4])):
                    r.op(vc.choice("op", ALL))
        elif kind == "late":
            r.hold = True
            for _ in range(vc.choice("n", [1, 2, 3, 4])):
                r.op(vc.choice("op", ALL))
            r.deliver()
        if kind == "reconnect":
            r.reconnect([vc.choice("op", ALL)
                         for _ in range(vc.choice("n", [0, 1, 2]))])
        r.same("history")


def ask(c, request):
    out = []
    request.set_callback(out.append)
    c.handle_request(request)
    return out


class Boom(Exception):
    pass


def outcome(x):
    """a response as its caller sees it"""
    if isinstance(x, Error):
        return ["Error", x.id, str(x.message)]
    return [type(x).__name__, x.id, strip(plain(x))]


@harness("C06", functions=[W + "send_put", W + "send_post",
                           W + "_send_request", W + "on_message",
                           W + "_report_fault",
                           S + "on_message", S + "on_response",
                           P + "get_put_function", P + "get_post_function",
                           P + "check_field_writeable",
                           P + "update_method_logs"],
         rand=100, max_paths=4000, budget=200,
         bounded="every kind of request through the proxy x target x outcome",
         covers=["Return", "Error"])
def requests(vc):
    r = Rig(vc)
    calls = []
    how = vc.choice("function", ["returns", "fails", "fails any",
                                 "not writeable",
                                 "disconnects", "disconnected",
                                 "forbidden"])

    def fn(value=None, **params):
        calls.append((value, params))
        if how == "fails":
            raise Boom("it failed %s" % value)
        if how == "fails any":
            raise every_kind(Boom)("it failed %s" % value)
        if how == "disconnects":
            # nothing the server answers now arrives
            r.handler.write_message = lambda m: None
            r.comms._conn = None
            r.comms._report_fault()
            r.lost = True
        return "did it"

    b = r.c._block
    r.c._write_functions = dict(r.c._write_functions)
    for f in ("num", "tab", "choice", "meth"):
        r.c._write_functions[f] = fn
    b.meth.meta.set_returns(MapMeta({"return": StringMeta("r")}, ["return"]))
    b.meth.meta.set_tags(["method:return:unpacked"])
    for f in ("num", "tab", "choice", "meth"):
        b[f].meta.set_writeable(how != "not writeable")
    r.sync()
    if how == "forbidden":
        r.handler._writeable = None
        r.handler._validators = [lambda a: False, lambda a: False]
    if how == "disconnected":
        r.comms._conn = None
        r.lost = True
    kind, path, val = vc.choice("request", [
        ("put", ["num", "value"], 12), ("put", ["num", "value"], "rubbish"),
        ("put", ["choice", "value"], "b"), ("put", ["choice", "value"], "z"),
        ("put", ["tab", "value"], {"name": ["a", "b"], "x": [1, 2],
                                    "y": [0, 1.5]}),
        ("put", ["tab", "value"], {"name": ["a", "b"]}),
        ("post", ["meth"], {"p": "a", "q": 1}),
        ("post", ["meth"], {"nope": "a"}), ("post", ["meth"], {}),
        ("post", ["num"], {}), ("put", ["nope", "value"], 1)])

    def make():
        if kind == "put":
            return Put(id=77, path=["mri"] + path, value=val)
        return Post(id=77, path=["mri"] + path, parameters=val)

    n = len(r.messages)
    got = ask(r.proxy, make())
    vc.check("nobody waits for an answer that will not come", not r.stuck)
    vc.check("the request is answered exactly once", len(got) == 1)
    if not got:
        return
    got = outcome(got[0])
    vc.cover(got[0])
    vc.check("with its id", got[1] == 77)
    made = list(calls)
    vc.check("the function runs at most once", len(made) <= 1)
    if how in ("disconnects", "disconnected"):
        if made or how == "disconnected":
            vc.check("a lost server is an error", got[0] == "Error")
        vc.check("nothing is left waiting for an answer",
                 not [x for x in r.comms._request_lookup.values()
                      if isinstance(x, (Put, Post))])
        return
    if how == "forbidden":
        vc.check("clients elsewhere may not change anything",
                 not made and got[0] == "Error")
        return
    vc.check("each request has one answer",
             len(r.comms._request_lookup) == 1)
    del calls[:]
    want = ask(r.c, make())
    vc.check("the function runs as if asked of the block itself",
             calls == made)
    want = outcome(want[0])
    vc.check("success and failure pass through", got[0] == want[0])
    if want[0] == "Error":
        # some are refused before they are sent
        vc.check("the error of the server is seen",
                 len(r.messages) == n or want[2] in got[2])
    else:
        vc.check("the value of the server is seen", got[2] == want[2])
    r.same("after a request")


class Loop:
    """tornado's side of a client: connecting takes until somebody waits"""

    def __init__(self, rig):
        self.rig = rig
        self.up = True
        self.gen = None
        self.connecting = False
        self.connects = 0

    def call(self, f, *a, **k):
        inner = getattr(getattr(f, "__func__", None), "__wrapped__", None)
        if inner is None:
            return f(*a, **k)
        # a coroutine: it runs up to the first thing it waits for
        assert not self.gen, "a second connection"
        self.gen = inner(f.__self__, *a, **k)
        next(self.gen)
        self.connecting = True

    def run(self):
        """what happens while others wait"""
        if not self.connecting:
            return
        self.connecting = False
        if self.up:
            self.connects += 1
            self.rig.accept()
            self.conn = FakeConn(self.rig)
            self.conn.read_message = lambda: None
            self.conn.close = self.close
            self.gen.send(self.conn)
        else:
            try:
                self.gen.throw(OSError("refused"))
            except OSError:
                pass
            self.gen = None

    def message(self, m):
        if self.gen:
            self.gen.send(m)

    def close(self):
        """either end closes the connection"""
        if self.gen:
            g, self.gen = self.gen, None
            try:
                g.send(None)
            except StopIteration:
                pass


@harness("C06", functions=[W + "recv_loop", W + "_start_client",
                           W + "_stop_client", W + "_report_fault",
                           W + "do_init", W + "do_reset", W + "do_disable",
                           W + "_send_request", W + "on_message"],
         rand=150, concrete_only=True,
         bounded="seeded histories of 8 losses, resets, disables and puts")
def connection(vc):
    """the client's connection: made by init and reset, closed by disable,
    and a fault while it is lost"""
    r = Rig(vc)
    comms = wc.WebsocketClientComms("comms")
    loop = Loop(r)
    vc.stub(wc.IOLoopHelper, "call", staticmethod(loop.call))
    vc.stub(wc, "websocket_connect", lambda *a, **k: None)
    r.meanwhile = loop.run
    r.comms = comms
    r.to_client = lambda m: loop.message(m)
    comms.setup(r.cp)
    r.proxy.client_comms = comms
    loop.up = vc.choice("server is up at first", [True, True, False])
    vc.call(comms.init)

    def state(when):
        want = "Ready" if connected else "Disabled" if disabled else "Fault"
        vc.check("the client is ready exactly while it is connected, and a "
                 "fault tells it is not (%s)" % when,
                 comms.state.value == want)
    connected, disabled = loop.up, False
    state("after init")
    value = 1000
    shown = []
    labels = {}
    r.sp.controllers["server"] = r.server

    class View:
        def __init__(self, mri):
            self.meta = r.sp.controllers[mri]._block.meta
            labels[mri] = self.meta.label
    r.sp.block_view = View
    synced = connected
    if synced:
        r.sync()
    for i in range(vc.choice("steps", range(1, 9))):
        op = vc.choice("op", ["reset", "close", "put", "put", "disable",
                              "down", "up", "change", "change", "sync",
                              "publish"])
        if op == "publish":
            shown = vc.choice("published", [[], ["mri"], ["mri", "server"],
                                            ["server", "mri"]])
            fire(r.server, ProcessPublishHook, published=Array[str](shown))
        elif op == "change":
            r.op(vc.choice("what", [k for k in ALL if "num" not in k]))
        elif op == "sync":
            if connected and not synced:
                r.sync()
                synced = True
        elif op in ("down", "up"):
            loop.up = op == "up"
            if op == "down" and connected:
                loop.close()
                connected = False
        elif op == "close" and connected:
            loop.close()
            connected = False
        elif op == "reset":
            if not connected:
                vc.call(comms.reset)
                connected, disabled = loop.up, False
        elif op == "disable" and not disabled:
            vc.call(comms.disable)
            connected, disabled = False, True
            vc.check("the connection is closed", loop.gen is None)
        elif op == "put":
            value += 1
            out = vc.call(comms.send_put, "mri", "num", value)
            vc.check("a put is done exactly if there is a connection, else "
                     "it is an error", out.ok == connected)
            vc.check("and is seen by the block", (
                r.c._block.num.value == value) == connected)
        state("after " + op)
        vc.check("nobody waits for ever", not r.stuck)
        vc.check("nothing is left waiting for an answer", not [
            x for x in comms._request_lookup.values()
            if isinstance(x, (Put, Post))])
        if not connected:
            vc.check("the block is not looked at through a lost connection",
                     not comms._request_lookup)
        else:
            t = comms.block_view().remoteBlocks.value
            vc.check("the client lists the blocks of the server",
                     list(t.mri) == shown and list(t.label) == [
                         labels.get(x) or x for x in shown])
            if synced:
                r.same("while connected, also again")


@harness("C06", functions=[S + "on_message", S + "on_response",
                           S + "_on_response"], rand=60, max_paths=2000,
         bounded="every kind of message a websocket client can send",
         covers=["Return", "Error", "Update", "Delta"])
def messages(vc):
    """the server answers every message of a websocket client, once, with its
    id; what it answers is what the controller answers"""
    import json
    r = Rig(vc)
    h = r.handler
    r.hold = True
    T = "malcolm:core/%s:1.0"
    kind, path, extra = vc.choice("message", [
        ("Get", ["mri", "num"], {}), ("Get", ["mri"], {}),
        ("Get", ["mri", "nope"], {}), ("Get", ["none"], {}),
        ("Get", [], {}), ("Get", [".", "blocks", "value"], {}),
        ("Put", ["mri", "num", "value"], {"value": 5}),
        ("Put", ["mri", "num", "value"], {"value": 5, "get": True}),
        ("Put", ["mri", "num", "value"], {"value": "x"}),
        ("Put", ["mri", "num", "value"], {"rubbish": 1}),
        ("Post", ["mri", "meth"], {"parameters": {"p": "a"}}),
        ("Post", ["mri", "meth"], {}),
        ("Subscribe", ["mri", "num"], {}),
        ("Subscribe", ["mri", "num"], {"delta": True}),
        ("Subscribe", ["none", "num"], {"delta": True}),
        ("Unsubscribe", None, {}), ("Nonsense", None, {}),
        (None, None, {})])
    id = vc.choice("id", [0, 1, 123456789012])
    d = {"id": id}
    if kind is not None:
        d["typeid"] = T % kind
    if path is not None:
        d["path"] = path
    d.update(extra)
    text = json.dumps(d)
    if kind is None:
        text = vc.choice("text", [text, "{}", "[]", "", "nonsense",
                                  '{"typeid": "malcolm:core/Get:1.0", '
                                  '"path": ["mri"]}'])
    if vc.flag("subscribed before"):
        h.on_message(json.dumps({"typeid": T % "Subscribe", "id": 55,
                                 "path": ["mri", "flag"]}))
    before = len(r.replies)
    h.on_message(text)
    vc.check("every message is answered exactly once",
             len(r.replies) == before + 1)
    if len(r.replies) != before + 1:
        return
    a = json.loads(r.replies[-1])
    typ = a["typeid"].split("/")[1].split(":")[0]
    vc.cover(typ)
    vc.check("the answer has the id of the request",
             a["id"] == (id if '"id"' in text else -1))
    good = {"Get": "Return", "Put": "Return", "Post": "Return",
            "Subscribe": "Delta" if extra.get("delta") else "Update"}
    bad = path in ([], ["none"], ["none", "num"], ["mri", "nope"]) or \
        extra in ({"value": "x"}, {"rubbish": 1}) or \
        kind in ("Unsubscribe", "Nonsense", None)
    vc.check("answered by what the request asked for, or an error",
             typ == ("Error" if bad else good[kind]))
    if kind == "Get" and not bad and path[0] == "mri":
        out = ask(r.c, Get(id=id, path=path))
        vc.check("the value is what the controller returns",
                 strip(a["value"]) == strip(plain(out[0].value)))
    # the connection still works
    h.on_message(json.dumps({"typeid": T % "Get", "id": 77,
                             "path": ["mri", "num", "value"]}))
    vc.check("the next message is answered too",
             json.loads(r.replies[-1])["id"] == 77
             and "value" in json.loads(r.replies[-1]))


@harness("C06", functions=[S + "_on_response", S + "on_response",
                           S + "on_message"], rand=40, max_paths=500,
         bounded="up to 25 subscriptions and requests of a client, ids used "
         "again", covers=["again", "odd result"])
def again(vc):
    """ids can be used again, and results that cannot be sent are errors"""
    import json
    T = "malcolm:core/%s:1.0"
    r = Rig(vc)
    h = r.handler
    r.hold = True

    def send(kind, id, **kw):
        n = len(r.replies)
        out = vc.call(h.on_message, json.dumps(dict(
            kw, typeid=T % kind, id=id)))
        vc.check("the message is handled (%r)" % (out.exc,),
                 out.ok and not r.stuck)
        got = [json.loads(x) for x in r.replies[n:]]
        vc.check("each message is answered once", len(got) == 1)
        vc.check("with its id", all(x["id"] == id for x in got))
        return got[0]["typeid"].split("/")[1].split(":")[0] if got else None

    delta = vc.flag("delta")
    id, doubled = vc.choice("id", [0, 3]), vc.flag("doubled")
    for i in range(vc.choice("times", [1, 2, 12])):
        vc.check("an id without a subscription can be subscribed with",
                 send("Subscribe", id, path=["mri", "num"], delta=delta)
                 == ("Delta" if delta else "Update"))
        n = len(r.replies)
        r.op("num.value")
        vc.check("a change is sent once", len(r.replies) == n + 1)
        if doubled:
            vc.check("one that has a subscription cannot",
                     send("Subscribe", id, path=["mri", "flag"]) == "Error")
        vc.check("unsubscribed", send("Unsubscribe", id) == "Return")
        n = len(r.replies)
        r.op("num.value")
        vc.check("nothing is sent after that", len(r.replies) == n)
        vc.cover("again")
    vc.check("not again", send("Unsubscribe", id) == "Error")
    # a method that returns what is not what it says
    r.c._write_functions = dict(r.c._write_functions)
    b = r.c._block
    odd = vc.choice("result", ["fine", b"bytes", {1, 2}, Any("thing")])
    r.c._write_functions["meth"] = lambda **k: odd
    b.meth.meta.set_returns(MapMeta({"return": StringMeta("r")}, ["return"]))
    b.meth.meta.set_tags(["method:return:unpacked"])
    b.meth.meta.set_writeable(True)
    for i in range(25):
        a = send("Post", 100 + i, path=["mri", "meth"],
                 parameters={"p": "a"})
        if odd == "fine":
            vc.check("the result is sent", a == "Return")
        else:
            vc.cover("odd result")


@harness("C06", functions=[S + "_on_response", S + "on_response",
                           S + "on_message"], rand=40, max_paths=500,
         bounded="a connection dying after any number of up to 25 updates of "
         "up to 3 subscriptions")
def dead_connection(vc):
    """a connection that died costs the blocks nothing: they stop sending"""
    import json
    from tornado.websocket import WebSocketClosedError
    r = Rig(vc)
    h = r.handler
    r.hold = True
    subs = vc.choice("subscriptions", [1, 2, 3])
    for i in range(subs):
        h.on_message(json.dumps({
            "typeid": "malcolm:core/Subscribe:1.0", "id": i, "delta": i == 1,
            "path": ["mri", "num"] + ["value"] * (i == 2)}))
    other = ask(r.c, Subscribe(id=1, path=["mri", "num", "value"]))
    n = vc.choice("updates", list(range(0, 9)))
    for _ in range(n):
        r.op("num.value")
    vc.check("every subscription gets every update",
             len(r.replies) == subs * (n + 1) and len(other) == n + 1)
    tried = []

    def dead(message):
        tried.append(message)
        raise WebSocketClosedError()

    h.write_message = dead
    for _ in range(20):
        r.op("num.value")
    # one update each, and the answers to the unsubscribes
    vc.check("nothing more is sent to a dead connection after the first try",
             len(tried) <= 2 * subs)
    vc.check("others still get every update", len(other) == n + 21)


@harness("C06", functions=[S + "on_message",
                           "malcolm.modules.web.parts.websocketserverpart:"
                           "get_ip_validator"], rand=60, max_paths=500,
         bounded="up to 3 interfaces with any addresses and masks of a menu",
         covers=["allowed", "forbidden"])
def subnets(vc):
    """with subnet validation only clients on a subnet of the host may change
    anything, all others may look"""
    import json
    import socket
    import struct

    def ip(s):
        return struct.unpack("!I", socket.inet_aton(s))[0]

    nets = [("127.0.0.1", "255.0.0.0"), ("172.23.1.5", "255.255.0.0"),
            ("10.0.0.129", "255.255.255.128"), ("192.168.4.1",
                                                "255.255.255.255")]
    n = vc.choice("interfaces", [1, 2, 3])
    ifs = {"if%d" % i: vc.choice("net%d" % i, nets) for i in range(n)}
    asked = []

    def info(s, sig, ifname):
        asked.append(ifname)
        addr, mask = ifs[ifname]
        return ip(addr if sig == ws.SIOCGIFADDR else mask)

    vc.stub(ws, "get_if_info", info)
    validators = [ws.get_ip_validator(i) for i in ifs]
    remote = vc.choice("client", ["127.0.0.1", "::1", "172.23.200.7",
                                  "172.24.1.5", "10.0.0.1", "10.0.0.130",
                                  "192.168.4.1", "192.168.4.2", "8.8.8.8"])
    r = Rig(vc, validators)
    r.hold = True
    r.handler.request.remote_ip = remote
    a = ip("127.0.0.1" if remote == "::1" else remote)
    ok = any(a & ip(m) == ip(x) & ip(m) for x, m in ifs.values())
    vc.cover("allowed" if ok else "forbidden")
    old = r.c._block.num.value
    for k in range(2):
        r.handler.on_message(json.dumps({
            "typeid": "malcolm:core/Get:1.0", "id": 4,
            "path": ["mri", "num", "value"]}))
        d = json.loads(r.replies[-1])
        vc.check("anyone may look", "value" in d and d["id"] == 4)
        r.handler.on_message(json.dumps({
            "typeid": "malcolm:core/Put:1.0", "id": 5, "value": 42 + k,
            "path": ["mri", "num", "value"]}))
        d = json.loads(r.replies[-1])
        vc.check("a put is answered with its id", d["id"] == 5)
        vc.check("only clients on our subnets may put",
                 (d["typeid"] == "malcolm:core/Return:1.0") == ok)
        vc.check("and what others put changes nothing",
                 r.c._block.num.value == (42 + k if ok else old))


class Sent:
    """A connection that sends, or cannot"""

    def __init__(self, fails):
        self.fails, self.sent = fails, []

    def write_message(self, message):
        if self.fails:
            raise OSError("closed")
        self.sent.append(message)


class Any:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name


@harness("C06", functions=[W + "_send_request", W + "on_message",
                           W + "_report_fault"],
         rand=200, max_paths=3000,
         covers=["sent", "not sent", "answered", "updated", "disconnected"])
def client_ids(vc):
    """Whatever requests were made before, each answer goes to the request
    that it is for"""
    vc.stub(wc, "cothread", Now)
    # messages are the requests and responses themselves
    vc.stub(wc, "json_encode", lambda x: ("request", x.id, x))
    vc.stub(wc, "json_decode", lambda x: x)
    vc.stub(wc, "deserialize_object", lambda x, *a: x)
    comms = wc.WebsocketClientComms("comms")
    comms.setup(FakeProcess())
    comms._conn = Sent(False)
    comms.init()
    n = vc.int("next id", 1)
    i = vc.int("earlier id", 1)
    vc.assume(i < n)
    # Any one of the requests that wait for an answer
    got = {"earlier": [], "new": []}
    earlier = Subscribe(path=["x"]) if vc.flag("earlier is a subscription") \
        else Put(path=["x"], value=1)
    earlier.id = i
    earlier.set_callback(got["earlier"].append)
    lookup = FakeLookup(vc, [(i, earlier)])
    fails = vc.choice("connection", ["up", "up", "fails", "none"])
    conn = Sent(fails == "fails")
    for k, v in (("_next_id", n), ("_request_lookup", lookup),
                 ("_conn", None if fails == "none" else conn)):
        assert k in comms.__dict__, "no %s to specify" % k
        vc.patch(comms, k, v)
    r = Post(path=["mri", "meth"]) if vc.flag("post") else Subscribe(
        path=["mri"])
    r.set_callback(got["new"].append)
    out = vc.call(comms._send_request, r)
    vc.check("sending never fails for the others", out.ok)
    vc.check("the id is new", r.id == n)
    vc.check("the next one is newer", comms._next_id > r.id)
    vc.check("the earlier request still waits",
             lookup.get(i) is earlier and not got["earlier"])
    if fails != "up":
        vc.cover("not sent")
        vc.check("a request that is not sent fails at once",
                 len(got["new"]) == 1 and isinstance(got["new"][0], Error)
                 and r not in lookup.values())
        if got["new"]:
            vc.check("with its id", got["new"][0].id == n)
    else:
        vc.cover("sent")
        vc.check("it is sent once with its id", len(conn.sent) == 1
                 and conn.sent[0][2] is r)
        vc.check("and nobody answers but the server", not got["new"]
                 and lookup.get(n) is r)
    # then something arrives
    del got["new"][:]
    waits = {"earlier": (i, earlier)}
    if fails == "up":
        waits["new"] = (n, r)
    what = vc.choice("arrives", ["Return", "Error", "Update", "Delta",
                                 "disconnect"])
    if what == "disconnect":
        vc.cover("disconnected")
        vc.call(comms._report_fault)
        for k, (x, _) in waits.items():
            vc.check("%s fails when the server is lost" % k,
                     len(got[k]) == 1 and isinstance(got[k][0], Error))
            if got[k]:
                vc.check("%s with its id" % k, got[k][0].id == x)
        vc.check("nothing waits any more", len(lookup) == 0)
        return
    j = vc.int("its id", 0)
    value = Any("value")
    resp = {"Return": lambda: Return(j, value),
            "Error": lambda: Error(j, Exception("it failed")),
            "Update": lambda: Update(j, value),
            "Delta": lambda: Delta(j, [])}[what]()
    out = vc.call(comms.on_message, resp)
    vc.check("no message stops the connection", out.ok)
    last = what in ("Return", "Error")
    for k, (x, req) in waits.items():
        if vc.fork(j == x):
            vc.cover("answered" if last else "updated")
            vc.check("%s gets what is for it, once" % k, len(got[k]) == 1
                     and got[k][0] is resp)
            vc.check("%s waits only until it is answered" % k,
                     (req in lookup.values()) != last)
        else:
            vc.check("%s gets nothing that is not for it" % k,
                     not got[k] and lookup.get(x) is req)
    if what == "Error":
        vc.check("an error can be raised by who asked", vc.Or(
            vc.And(*[j != x for x, _ in waits.values()]),
            isinstance(resp.message, ResponseError)
            and "it failed" in str(resp.message)))
