"""A real block with fields of every kind, and operations changing any of it."""
import json

from annotypes import json_encode

from checks.lib import FakeProcess

from malcolm.core import (Alarm, BooleanMeta, Controller, Error, Get,
                          NumberMeta, StringMeta, TableMeta)
from malcolm.core.models import (MethodMeta, MethodModel, MapMeta,
                                 NumberArrayMeta, StringArrayMeta)


def plain(x):
    """serialized form, as a client gets it"""
    return json.loads(json_encode(x))


def strip(x):
    """field order is not part of the content"""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items()}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


def build(cls=Controller):
    c = cls("mri")
    c.setup(FakeProcess())
    num = NumberMeta("int32", "a number").create_attribute_model(1)
    c.add_block_field("num", num, num.set_value, False)
    flag = BooleanMeta("a flag").create_attribute_model(False)
    c.add_block_field("flag", flag, None, False)
    tm = TableMeta("a table", elements={
        "name": StringArrayMeta("name"), "x": NumberArrayMeta("int32", "x"),
        "y": NumberArrayMeta("float64", "y")})
    tab = tm.create_attribute_model(tm.validate(
        {"name": ["a"], "x": [1], "y": [0.5]}))
    c.add_block_field("tab", tab, tab.set_value, False)
    meth = MethodModel(meta=MethodMeta(takes=MapMeta({
        "p": StringMeta("p"), "q": NumberMeta("int32", "q")})))
    c.add_block_field("meth", meth, lambda **k: None, False)
    return c


PATHS = [[], ["num"], ["num", "value"], ["num", "alarm"],
         ["num", "alarm", "severity"], ["num", "meta"],
         ["num", "meta", "label"], ["num", "meta", "display", "limitLow"],
         ["tab"], ["tab", "value"], ["tab", "value", "x"],
         ["meth", "meta", "takes", "elements"],
         ["meth", "meta", "takes", "elements", "p"],
         ["meth", "meta", "takes", "elements", "p", "label"],
         ["meta"], ["meta", "fields"], ["extra"], ["extra", "value"],
         ["flag", "meta", "writeable"]]


class World:
    def __init__(self, vc, cls=Controller):
        self.vc = vc
        self.c = build(cls)
        self.n = 100

    def fresh(self):
        self.n += 1
        return self.n

    def op(self, k):
        b = self.c._block
        n = self.fresh()
        if k == "num.value":
            b.num.set_value(n)
        elif k == "num.value+alarm":
            b.num.set_value(n, alarm=Alarm.major("m%d" % n))
        elif k == "num.value same alarm":
            b.num.set_value(n, alarm=b.num.alarm)
        elif k == "num.alarm":
            b.num.set_alarm(Alarm.invalid("i%d" % n))
        elif k == "num.meta.label":
            b.num.meta.set_label("label%d" % n)
        elif k == "num.meta":
            b.num.set_meta(NumberMeta("int32", "new meta %d" % n,
                                      label="l%d" % n))
        elif k == "num.display":
            b.num.meta.display.set_limitLow(n)
        elif k == "tab.column":
            v = b.tab.value
            b.tab.set_value(b.tab.meta.table_cls(
                name=v["name"], x=b.tab.meta.elements["x"].validate(
                    [n + i for i in range(len(v["name"]))]), y=v["y"]))
        elif k == "tab.columns":
            v = b.tab.value
            b.tab.set_value(b.tab.meta.table_cls(
                name=v["name"], x=b.tab.meta.elements["x"].validate(
                    [n - i for i in range(len(v["name"]))]),
                y=b.tab.meta.elements["y"].validate([n + 0.25] * len(v["x"]))))
        elif k == "tab.value":
            b.tab.set_value({"name": ["t%d" % n, "u"], "x": [n, n + 1],
                             "y": [n + 0.5, 0]})
        elif k == "meth.took":
            b.meth.set_took()
        elif k == "takes.elements":
            b.meth.meta.takes.set_elements(
                {"p": StringMeta("p %d" % n, label="P%d" % n),
                 "q": NumberMeta("int32", "q")})
        elif k == "element.label":
            b.meth.meta.takes.elements["p"].set_label("L%d" % n)
        elif k == "flag.writeable":
            b.flag.meta.set_writeable(not b.flag.meta.writeable)
        elif k == "add extra":
            b.set_endpoint_data(
                "extra", StringMeta("e").create_attribute_model("e%d" % n))
        elif k == "remove extra":
            if "extra" in list(b):
                b.remove_endpoint("extra")
        elif k == "replace num":
            b.set_endpoint_data(
                "num", NumberMeta("int32", "other").create_attribute_model(n))
        else:
            raise KeyError(k)

    def get(self, path):
        """what a Get of the path would return (None if there is nothing)"""
        out = []
        r = Get(id=1, path=["mri"] + path)
        r.set_callback(out.append)
        self.c.handle_request(r)
        if isinstance(out[0], Error):
            return None
        return strip(plain(out[0].value))


OPS = ["num.value", "num.value+alarm",
       "num.value same alarm", "num.alarm", "num.meta.label",
       "num.meta", "num.display", "tab.column",
       "tab.columns", "tab.value", "meth.took",
       "takes.elements", "element.label", "flag.writeable", "add extra",
       "remove extra", "replace num"]
