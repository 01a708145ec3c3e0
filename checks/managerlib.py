"""A real manager of two child blocks, on a stand-in process."""
import os
import shutil
import tempfile
from enum import Enum

from annotypes import Anno, add_call_types

from checks.lib import FakeProcess
from malcolm.core import (BooleanMeta, ChoiceMeta, NumberArrayMeta,
                          NumberMeta, Part, PartRegistrar, Port,
                          StringArrayMeta, StringMeta, TableMeta, config_tag)
from malcolm.modules.builtin.controllers import (BasicController,
                                                 ManagerController)
from malcolm.modules.builtin.parts import ChildPart
from malcolm.modules.builtin.util import ExportTable, LayoutTable


class Mode(Enum):
    SLOW = "slow"
    FAST = "fast"


with Anno("a string"):
    AStr = str
with Anno("a number"):
    AInt = int

VALUES = {
    "num": [1, 2, 0, -5], "real": [0.5, 1.25, 0.0], "text": ["a", "", "b"],
    "flag": [False, True], "choice": ["x", "y"],
    "mode": [Mode.SLOW, Mode.FAST],
    "nums": [[1, 2], [], [5], [5, 5, 5], [1, 3]],
    "strs": [["a"], [], ["a", "b"], ["b"]],
    "tab": [{"n": ["a"], "x": [1]}, {"n": [], "x": []},
            {"n": ["a", "a", "b"], "x": [1, 1, 1]}, {"n": ["a"], "x": [2]}],
    "second": [7, 8], "other": [1, 2]}


def metas():
    c = [config_tag()]
    return {
        "num": NumberMeta("int32", tags=[config_tag(2)]), "real": NumberMeta(tags=c),
        "text": StringMeta(tags=c), "flag": BooleanMeta(tags=c),
        "choice": ChoiceMeta("c", ["x", "y"], tags=c),
        "mode": ChoiceMeta("m", list(Mode), tags=c),
        "nums": NumberArrayMeta("int32", tags=c),
        "strs": StringArrayMeta(tags=c),
        "tab": TableMeta("t", tags=c, elements={
            "n": StringArrayMeta("n"), "x": NumberArrayMeta("int32", "x")}),
        "second": NumberMeta("int32", tags=[config_tag(1)]),
        "other": NumberMeta("int32")}


class Source(Part):
    """publishes attributes of every kind, records what is put"""

    def setup(self, registrar: PartRegistrar) -> None:
        super().setup(registrar)
        self.puts = []
        self.attrs = {}
        for k, meta in metas().items():
            a = self.attrs[k] = meta.create_attribute_model(VALUES[k][0])
            registrar.add_attribute_model(k, a, self.setter(k, a))
        self.calls = []
        registrar.add_method_model(self.act, "act")

    def setter(self, k, a):
        def set(value):
            self.puts.append(k)
            a.set_value(value)
        return set

    @add_call_types
    def act(self, p: AStr, q: AInt = 3) -> AStr:
        self.calls.append((p, q))
        return "%s%s" % (p, q)


class Own(Part):
    def setup(self, registrar: PartRegistrar) -> None:
        super().setup(registrar)
        self.attr = StringMeta("own", tags=[config_tag()]) \
            .create_attribute_model("mine")
        registrar.add_attribute_model("own", self.attr, self.attr.set_value)


class FakeSubprocess:
    @staticmethod
    def call(*a, **k):
        return 0


class Scratch:
    """a directory of ours, removed afterwards"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="pyvc_designs_")

    def __enter__(self):
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


class Rig:
    def __init__(self, vc, config, fields=None, design=""):
        import malcolm.modules.builtin.controllers.managercontroller as m
        vc.stub(m, "subprocess", FakeSubprocess)
        self.vc = vc
        self.p = FakeProcess()
        self.children = {}
        self.sources = {}
        for n in ("A", "B"):
            c = BasicController("child" + n)
            s = Source("src")
            c.add_part(s)
            c.setup(self.p)
            self.p.controllers["child" + n] = c
            self.children[n], self.sources[n] = c, s
        self.m = m = ManagerController("mri", config, initial_design=design)
        self.own = Own("own")
        m.add_part(self.own)
        for n in ("A", "B"):
            m.add_part(ChildPart(n, "child" + n, initial_visibility=True,
                                 stateful=False))
        self.p.controllers["mri"] = m
        m.setup(self.p)
        m.init()

    def put(self, field, value):
        """as a user of the block would, the error if it fails"""
        from malcolm.core import Error, Put
        out = []
        r = Put(id=1, path=["mri", field, "value"], value=value)
        r.set_callback(out.append)
        self.m.handle_request(r)
        assert len(out) == 1
        return out[0].message if isinstance(out[0], Error) else None

    def post(self, method, **params):
        from malcolm.core import Error, Post
        out = []
        r = Post(id=1, path=["mri", method], parameters=params)
        r.set_callback(out.append)
        self.m.handle_request(r)
        assert len(out) == 1
        return out[0]

    def change(self, part, field, value):
        self.sources[part].attrs[field].set_value(value)

    def snapshot(self):
        from checks.blocklib import plain, strip
        d = {}
        for n, s in self.sources.items():
            for k, a in s.attrs.items():
                if k != "other":
                    d[n, k] = strip(plain(a)["value"])
        for name, mri, x, y, vis in self.m.layout.value.rows():
            d["layout", name] = (float(x), float(y), bool(vis))
        d["exports"] = [list(r) for r in self.m.exports.value.rows()]
        d["own"] = self.own.attr.value
        return d


class Nested:
    """a manager of a manager of a block"""

    def __init__(self, vc, config, design="", mid_design=""):
        import malcolm.modules.builtin.controllers.managercontroller as mod
        vc.stub(mod, "subprocess", FakeSubprocess)
        self.p = p = FakeProcess()
        self.leaf = BasicController("leaf")
        self.src = Source("src")
        self.leaf.add_part(self.src)
        self.mid = ManagerController("mid", config,
                                     initial_design=mid_design)
        self.mid.add_part(ChildPart("L", "leaf", initial_visibility=True,
                                    stateful=False))
        self.top = ManagerController("top", config, initial_design=design)
        self.top.add_part(ChildPart("M", "mid", initial_visibility=True))
        for c in (self.leaf, self.mid, self.top):
            p.controllers[c.mri] = c
            c.setup(p)
        self.mid.init()
        self.top.init()

    def put(self, c, field, value):
        from malcolm.core import Error, Put
        out = []
        r = Put(id=1, path=[c.mri, field, "value"], value=value)
        r.set_callback(out.append)
        c.handle_request(r)
        assert len(out) == 1
        return out[0].message if isinstance(out[0], Error) else None

    def save(self, c, name):
        from malcolm.core import Error, Post
        out = []
        r = Post(id=1, path=[c.mri, "save"], parameters={"designName": name})
        r.set_callback(out.append)
        c.handle_request(r)
        assert len(out) == 1
        return out[0].message if isinstance(out[0], Error) else None

    def snapshot(self):
        from checks.blocklib import plain, strip
        d = {}
        for c in (self.mid, self.top):
            d[c.mri, "exports"] = [list(r) for r in c.exports.value.rows()]
            d[c.mri, "design"] = c.design.value
            d[c.mri, "fields"] = sorted(c._block.meta.fields)
        for k, a in self.src.attrs.items():
            if k != "other":
                d[k] = strip(plain(a)["value"])
        return d
