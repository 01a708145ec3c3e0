"""A block with everything a request can be aimed at, and a recording client"""
from checks.lib import FakeProcess, controller, every_kind

from malcolm.core import (AbortedError, BooleanMeta, ChoiceMeta, Controller, NumberMeta,
                          StringMeta)
from malcolm.core.models import MapMeta, MethodMeta, MethodModel
from malcolm.core.tags import method_return_unpacked


class CountingLock:
    """stands in for the (recursive) lock, run by one thread"""
    depth = 0

    def acquire(self, *a, **k):
        self.depth += 1
        return True

    def release(self):
        assert self.depth > 0, "lock released but not held"
        self.depth -= 1

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


class PutFailed(Exception):
    pass


KINDS = {"raises": PutFailed, "raises any": every_kind(PutFailed),
         "raises os": OSError, "raises attribute": AttributeError,
         "raises stop": StopIteration, "raises aborted": AbortedError}


class Fake:
    """The functions behind the block: they record and do as they are told"""

    def __init__(self, lock):
        self.lock = lock
        self.calls = []
        self.depths = []
        self.result = None
        self.exc = None
        self.then = None

    def __call__(self, *a, **k):
        self.calls.append((a, k))
        self.depths.append(self.lock.depth)
        if self.then:
            self.then(*a, **k)
        if self.exc:
            raise self.exc
        return self.result


class World:
    def __init__(self, vc, kind="plain", returns="none"):
        import malcolm.core.controller as m
        self.lock = CountingLock()
        vc.stub(m, "RLock", lambda: self.lock)
        if kind == "plain":
            c = Controller("mri")
            c.setup(FakeProcess())
        else:
            c = controller(kind)
        self.c = c
        self.put = Fake(self.lock)
        self.post = Fake(self.lock)
        add = c.add_block_field
        self.attrs = {
            "num": NumberMeta("int32", "d").create_attribute_model(5),
            "text": StringMeta("d").create_attribute_model("t"),
            "choice": ChoiceMeta("d", ["a", "b"]).create_attribute_model("a"),
            "flag": BooleanMeta("d").create_attribute_model(False),
        }
        for k, v in self.attrs.items():
            add(k, v, self.put, False)
        self.ro = StringMeta("d").create_attribute_model("r")
        add("ro", self.ro, None, False)
        rets, tags = None, ()
        if returns == "unpacked":
            rets = MapMeta({"return": StringMeta("r")})
            tags = [method_return_unpacked()]
        elif returns == "map":
            rets = MapMeta({"u": StringMeta("u"), "v": NumberMeta("int32", "v")},
                           required=["u"])
        self.meth = MethodModel(meta=MethodMeta(
            takes=MapMeta({"p": StringMeta("p"), "q": NumberMeta("int32", "q"),
                           "r": BooleanMeta("r")}, required=["p"]),
            defaults={"q": 3}, returns=rets, tags=tags))
        add("meth", self.meth, self.post, False)
        self.romet = MethodModel(meta=MethodMeta())
        add("romet", self.romet, None, False)
        self.out = []
        self.raised = []

    def send(self, request):
        request.set_callback(self.out.append)
        return self.c.handle_request(request)
