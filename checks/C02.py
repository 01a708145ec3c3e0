"""Every request is answered exactly once, with its own id."""
from pyvc.api import harness
from checks.reqlib import KINDS, PutFailed, World

from malcolm.core import (Delta, Error, Get, Post, Put, Request, Return,
                          Subscribe, Unsubscribe, Update)

C = "malcolm.core.controller"
R = "malcolm.core.request"
N = "malcolm.core.notifier"
ASSUMPTIONS = [
    "requests are handled one at a time (the controller's lock serializes "
    "the rest); the lock itself is trusted, what is checked is that it is "
    "free again after the request and while put and method functions run",
    "request ids and results are opaque objects here: what holds for them "
    "holds for every id and result, as the code can only pass them on",
]


class Opaque:
    """Stands for any id or result: all that can be done with it is to pass
    it on, compare it and print it"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name


PATHS = [["mri"], ["mri", "num"], ["mri", "num", "value"], ["mri", "ro"],
         ["mri", "meth"], ["mri", "romet"], ["mri", "missing"],
         ["mri", "num", "missing"], ["mri", "meta"], ["mri", "text"],
         ["mri", "choice"]]
VALUES = [None, 1, "a", "nonsense", {"p": "x"}, {"zz": 1}, [], 7.5]
FNS = [C + ":Controller." + f for f in (
    "handle_request", "_handle_request", "_handle_get", "_handle_put",
    "_handle_post", "check_field_writeable", "get_put_function",
    "get_post_function", "update_method_logs", "lock_released")] + [
    R + ":Request.return_response", R + ":Request.error_response",
    R + ":Subscribe.update_response", R + ":Subscribe.delta_response",
    N + ":Notifier.handle_subscribe", N + ":Notifier.handle_unsubscribe"]


def answered(vc, w, rid, kinds, n=0):
    vc.check("the request is answered exactly once", len(w.out) == n + 1)
    if len(w.out) == n + 1:
        r = w.out[-1]
        vc.check("with the id of the request", r.id is rid)
        vc.check("by a response of the right kind", type(r) in kinds)
    vc.check("the lock is free afterwards", w.lock.depth == 0)
    vc.check("put and method functions run with the lock free",
             all(d == 0 for d in w.put.depths + w.post.depths))


@harness("C02", functions=FNS, rand=400, max_paths=20000, budget=200,
         covers=["returned", "failed"])
def one_response(vc):
    w = World(vc, vc.choice("controller", ["plain", "stateful"]))
    kind = vc.choice("kind", ["get", "put", "post", "subscribe",
                              "unsubscribe"])
    rid = Opaque("id")
    outcome = vc.choice("outcome", ["none", "value"] + sorted(KINDS)) \
        if kind in ("put", "post") else "none"
    if outcome == "value":
        w.put.result = w.post.result = Opaque("result")
    elif outcome in KINDS:
        w.put.exc = w.post.exc = KINDS[outcome]("it failed")
    path = vc.choice("path", PATHS) if kind != "unsubscribe" else None
    kinds = (Return, Error)
    if kind == "get":
        req = Get(id=rid, path=path)
    elif kind == "put":
        req = Put(id=rid, path=path, value=vc.choice("value", VALUES),
                  get=vc.flag("get"))
    elif kind == "post":
        req = Post(id=rid, path=path, parameters=vc.choice(
            "parameters", [None, {}, {"p": "x"}, {"p": "x", "q": 2},
                           {"q": "nan"}, {"p": "x", "zz": 1}]))
    elif kind == "subscribe":
        delta = vc.flag("delta")
        req = Subscribe(id=rid, path=path, delta=delta)
        kinds = (Delta, Error) if delta else (Update, Error)
    else:
        req = Unsubscribe(id=rid)
    o = vc.call(w.send, req)
    vc.check("handling a request does not raise", o.ok)
    answered(vc, w, rid, kinds)
    if len(w.out) == 1 and isinstance(w.out[0], Error):
        vc.cover("failed")
        vc.check("an Error carries the exception",
                 isinstance(w.out[0].message, Exception))
        if w.put.calls or w.post.calls:
            if outcome in KINDS:
                vc.check("the exception of the function",
                         w.out[0].message is w.put.exc)
    else:
        vc.cover("returned")
        vc.check("a function that fails gives an Error",
                 not (outcome in KINDS and (w.put.calls or w.post.calls)))
    # the next request is not affected by the last one
    rid2 = Opaque("id2")
    o = vc.call(w.send, Get(id=rid2, path=["mri", "num", "value"]))
    vc.check("the next request does not raise", o.ok)
    answered(vc, w, rid2, (Return,), 1)


@harness("C02", functions=FNS, rand=100, max_paths=3000,
         covers=["nested"])
def nested(vc):
    """a request that arrives while a put or method function runs"""
    w = World(vc)
    a, b = Opaque("outer id"), Opaque("inner id")
    inner = vc.choice("inner", ["get", "put", "post", "subscribe"])
    fail = vc.flag("inner fails")
    seen = []

    def arrive(*args, **kw):
        if seen:
            return
        seen.append(1)
        vc.cover("nested")
        if inner == "get":
            q = Get(id=b, path=["mri", "missing" if fail else "num"])
        elif inner == "put":
            q = Put(id=b, path=["mri", "ro" if fail else "text"], value="x")
        elif inner == "post":
            q = Post(id=b, path=["mri", "meth"],
                     parameters={} if fail else {"p": "x"})
        else:
            q = Subscribe(id=b, path=["mri", "num"])
        w.send(q)
        vc.check("answered while the other is running",
                 len(w.out) == 1 and type(w.out[0]) is (
                     Error if inner != "subscribe" and (
                         fail or (w.put.exc and inner != "get")) else
                     Update if inner == "subscribe" else Return))
        if w.out:
            vc.check("inner id", w.out[0].id is b)
        vc.check("the lock is as it was", w.lock.depth == 0)

    w.put.then = w.post.then = arrive
    if vc.flag("outer fails"):
        w.put.exc = w.post.exc = PutFailed("it failed")
    if vc.flag("outer is a put"):
        req = Put(id=a, path=["mri", "num"], value=3, get=vc.flag("get"))
    else:
        req = Post(id=a, path=["mri", "meth"], parameters={"p": "y"})
    o = vc.call(w.send, req)
    vc.check("does not raise", o.ok)
    answered(vc, w, a, (Error,) if w.put.exc else (Return,), 1)


@harness("C02", functions=FNS, rand=50)
def not_a_request(vc):
    """Something that is not a known request is refused and leaves the lock"""
    w = World(vc)
    o = vc.call(w.c._handle_request, Request(id=Opaque("id")))
    vc.check("an unknown request is refused", not o.ok)
    vc.check("the lock is free", w.lock.depth == 0)
