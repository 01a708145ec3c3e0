"""Exports and layout: a manager shows the fields of its children it was asked
to, as they are."""
from pyvc.api import harness
from checks.blocklib import plain, strip
from checks.lib import FakeProcess
from checks.managerlib import (AStr, Mode, Rig, Scratch, Source, VALUES,
                               FakeSubprocess)

from malcolm.core import (Alarm, Error, Get, NumberMeta, Part, PartRegistrar,
                          Port, Post, Put, Return, StringMeta, config_tag)
from malcolm.modules.builtin.controllers import (BasicController,
                                                 ManagerController)
from malcolm.modules.builtin.parts import ChildPart
from malcolm.modules.builtin.util import ExportTable, LayoutTable

MC = "malcolm.modules.builtin.controllers.managercontroller:ManagerController."
CP = "malcolm.modules.builtin.parts.childpart:ChildPart."
LEVEL = "exploration"
ASSUMPTIONS = [
    "a manager of two child blocks with attributes of every kind and methods; "
    "hooks and requests run one after the other",
    "the label, tags and writeable flag of an exported field are the "
    "manager's own",
]
FNS = [MC + "set_exports", MC + "set_layout", MC + "update_exportable",
       MC + "update_block_endpoints", MC + "_get_current_part_fields",
       MC + "_make_export_field", CP + "update_part_exportable",
       CP + "on_layout"]
OWN = ["meta", "health", "state", "disable", "reset", "mri", "layout",
       "design", "exports", "modified", "save", "own"]


def ask(c, request):
    out = []
    request.set_callback(out.append)
    c.handle_request(request)
    assert len(out) == 1
    return out[0]


def get(c, *path):
    r = ask(c, Get(id=1, path=[c.mri] + list(path)))
    return None if isinstance(r, Error) else strip(plain(r.value))


def content(field):
    """what must be the same in an export"""
    if field is None:
        return None
    f = dict(field)
    f["meta"] = {k: v for k, v in f["meta"].items()
                 if k not in ("label", "tags", "writeable")}
    return f


def logless(field):
    """a call through the export is logged there too"""
    return field and {k: v for k, v in field.items()
                      if k not in ("took", "returned")}


def fields_of(c):
    return get(c, "meta", "fields")


def check_exports(vc, m, children, when, own=OWN):
    """the block has its own fields and the exported ones, and these are as
    in the children"""
    layout = {r[0]: bool(r[4]) for r in m.layout.value.rows()}
    expect = {}
    for source, export in m.exports.value.rows():
        part, field = source.rsplit(".", 1)
        child = children[part]
        if layout[part] and field in fields_of(child):
            expect[export or field] = (child, field)
    have = fields_of(m)
    vc.check("%s: the block has its own fields and the exported ones" % when,
             sorted(have + ["meta"]) == sorted(own + list(expect)))
    for name, (child, field) in expect.items():
        a, b = content(get(m, name)), content(get(child, field))
        if b and "took" in b:
            a, b = logless(a), logless(b)
        if a != b:
            vc.note((name, a, b))
        vc.check("%s: an export is as the field of the child" % when, a == b)


TABLES = [
    ExportTable([], []),
    ExportTable(["A.num"], ["aNum"]),
    ExportTable(["A.num", "B.num"], ["num", "bNum"]),
    ExportTable(["A.tab", "A.act", "B.mode"], ["table", "go", "bMode"]),
    ExportTable(["B.nums", "B.act", "A.other"], ["nums", "act", "x"]),
    ExportTable(["B.num", "A.num"], ["num", "aNum"]),
]


def step(vc, r, i):
    k = vc.choice("step%d" % i, [
        "none", "value", "alarm", "meta", "table", "hide A", "show A",
        "hide B", "show B", "remove num", "add num", "replace num",
        "exports", "exports 2", "no exports", "put", "post"])
    a = r.children["A"]
    b = r.children["B"]
    n = 100 + i
    attr = r.sources["A"].attrs["num"]
    if k == "value":
        r.change("A", "num", n)
        r.change("B", "mode", Mode.FAST)
        r.change("B", "nums", [n])
    elif k == "alarm":
        attr.set_value(n, alarm=Alarm.major("bad %d" % i))
        attr.set_alarm(Alarm.major("bad %d" % i))
        r.sources["B"].attrs["mode"].set_alarm(Alarm.invalid("who knows"))
    elif k == "meta":
        attr.meta.set_description("now %d" % i)
        attr.meta.display.set_limitHigh(n)
        r.sources["A"].attrs["tab"].meta.set_description("other")
        r.sources["B"].attrs["nums"].meta.set_tags(["widget:table"])
    elif k == "table":
        r.change("A", "tab", {"n": ["new", "t"], "x": [n, i]})
    elif k in ("hide A", "show A", "hide B", "show B"):
        r.put("layout", LayoutTable([k[-1]], [""], [i], [0],
                                    [k.startswith("show")]))
    elif k == "remove num":
        if "num" in fields_of(a):
            a._block.remove_endpoint("num")
    elif k == "add num":
        if "num" not in fields_of(a):
            new = NumberMeta("int32", "new", tags=[config_tag()]) \
                .create_attribute_model(n)
            r.sources["A"].attrs["num"] = new
            a.add_block_field("num", new, new.set_value, False)
    elif k == "replace num":
        with a.changes_squashed:
            if "num" in fields_of(a):
                a._block.remove_endpoint("num")
            new = NumberMeta("int32", "newer", tags=[config_tag()]) \
                .create_attribute_model(n)
            r.sources["A"].attrs["num"] = new
            a.add_block_field("num", new, new.set_value, False)
    elif k in ("exports", "exports 2", "no exports"):
        t = {"exports": TABLES[2], "exports 2": TABLES[3],
             "no exports": TABLES[0]}[k]
        err = r.put("exports", t)
        # a source that has gone cannot be exported
        ok = all(s.split(".")[1] in fields_of(r.children[s[0]])
                 for s, _ in t.rows())
        vc.check("exports can be set", (err is None) == ok)
    elif k == "put":
        for e in set(fields_of(r.m)) - set(OWN):
            if e in ("aNum", "num", "bNum"):
                r.put(e, n)
    elif k == "post":
        if "go" in fields_of(r.m):
            r.post("go", p="p", q=i)


@harness("C16", functions=FNS, rand=60, max_paths=6000, budget=300,
         bounded="any of 6 export tables, then any two of 17 changes",
         covers=["exported"])
def mirror(vc):
    with Scratch() as d:
        r = Rig(vc, d)
        err = r.put("exports", vc.choice("exports", TABLES))
        vc.check("exports can be set", err is None)
        vc.cover("exported")
        check_exports(vc, r.m, r.children, "at first")
        for i in (1, 2):
            step(vc, r, i)
            check_exports(vc, r.m, r.children, "after %d" % i)


@harness("C16", functions=FNS, rand=120, concrete_only=True,
         bounded="seeded random histories of up to 10 changes")
def mirror_history(vc):
    with Scratch() as d:
        r = Rig(vc, d)
        r.put("exports", vc.choice("exports", TABLES))
        for i in range(1, vc.choice("steps", range(1, 11))):
            step(vc, r, i)
            check_exports(vc, r.m, r.children, "history")


@harness("C16", functions=[MC + "_make_export_field"], rand=30,
         max_paths=2000,
         bounded="values and arguments of a menu, valid and invalid",
         covers=["put", "refused", "posted", "post refused"])
def forwarded(vc):
    """what is put to or called on an export reaches the child, and only it,
    and the answer is the child's"""
    with Scratch() as d:
        r, q = Rig(vc, d), Rig(vc, d)       # q: asked directly
        t = ExportTable(["A.num", "A.tab", "A.choice", "A.act", "A.other",
                         "A.mode"], ["num", "table", "c", "go", "o", "m"])
        vc.check("exports can be set", r.put("exports", t) is None)
        names = {(e or s[2:]): s[2:] for s, e in t.rows()}
        if vc.flag("put"):
            e = vc.choice("field", ["num", "table", "c", "o", "m"])
            v = vc.choice("value", [
                0, 5, -1, "y", "nope", None, "fast", "FAST",
                {"n": ["q"], "x": [3]}, {"n": ["q"], "x": []},
                {"n": [], "x": []}, [], 2.5])
            a = ask(r.m, Put(id=1, path=["mri", e, "value"], value=v))
            b = ask(q.children["A"], Put(id=1, path=["childA", names[e],
                                                     "value"], value=v))
            vc.cover("put" if isinstance(b, Return) else "refused")
        else:
            kw = vc.choice("arguments", [
                {"p": "a"}, {"p": "a", "q": 0}, {"p": "", "q": -7}, {},
                {"q": 1}, {"p": "a", "z": 1}, {"p": 5}, {"p": "a", "q": "x"}])
            a = ask(r.m, Post(id=1, path=["mri", "go"], parameters=kw))
            b = ask(q.children["A"], Post(id=1, path=["childA", "act"],
                                          parameters=kw))
            vc.cover("posted" if isinstance(b, Return) else "post refused")
            vc.check("the child's method is called once with the arguments",
                     r.sources["A"].calls == q.sources["A"].calls)
        vc.check("the answer is an error when the child's is",
                 type(a) is type(b))
        if isinstance(b, Return):
            vc.check("the answer is the child's",
                     plain(a.value) == plain(b.value))
        for n in ("A", "B"):
            for k in VALUES:
                vc.check("the child ends up as if asked directly",
                         plain(r.sources[n].attrs[k].value) ==
                         plain(q.sources[n].attrs[k].value))
        vc.check("nothing else is called", not r.sources["B"].calls)
        check_exports(vc, r.m, r.children, "after a request")


@harness("C16", functions=FNS, rand=60, max_paths=3000,
         bounded="two exports with any of 16 names each",
         covers=["set", "refused"])
def names(vc):
    """exports never replace the fields of the block, or each other"""
    pool = ["", "x", "num", "own", "state", "layout", "health", "meta",
            "save", "exports", "camelCase", "no_camel", "1x", "X", "a b",
            "disable"]
    with Scratch() as d:
        r = Rig(vc, d)
        before = {f: get(r.m, f) for f in OWN if f not in
                  ("exports", "modified", "meta")}
        t = ExportTable(["A.num", vc.choice("second", ["B.num", "B.act",
                                                       "B.text"])],
                        [vc.choice("name", pool), vc.choice("other", pool)])
        err = r.put("exports", t)
        if err:
            vc.cover("refused")
            want = [e or s[2:] for s, e in t.rows()]
            import re
            vc.check("good names are not refused",
                     len(set(want)) < 2 or set(want) & set(OWN) or
                     any(not re.match("^[a-z][a-zA-Z0-9]*$", e)
                         for e in t.export))
            vc.check("refused exports are not shown",
                     list(r.m.exports.value.source) == [])
        else:
            vc.cover("set")
        check_exports(vc, r.m, r.children, "after setting exports")
        for f, was in before.items():
            vc.check("the block's own fields stay", get(r.m, f) == was)
        vc.check("the block stays usable",
                 r.put("exports", ExportTable(["A.num"], ["n"])) is None and
                 r.put("exports", ExportTable([], [])) is None and
                 r.put("own", "still") is None and
                 r.own.attr.value == "still")
        check_exports(vc, r.m, r.children, "after removing exports")


class Wired(Part):
    """a block with a source and two sinks"""
    port = Port.INT32

    def setup(self, registrar: PartRegistrar) -> None:
        super().setup(registrar)
        self.attrs = {}
        tag = [Port.INT32.source_port_tag("%s.OUT" % self.name)]
        self.attrs["out"] = StringMeta("o", tags=tag) \
            .create_attribute_model("")
        registrar.add_attribute_model("out", self.attrs["out"])
        tag = [Port.BOOL.source_port_tag("%s.FLAG" % self.name)]
        self.attrs["flagOut"] = StringMeta("o", tags=tag) \
            .create_attribute_model("")
        registrar.add_attribute_model("flagOut", self.attrs["flagOut"])
        for n, p in (("inp", Port.INT32), ("flag", Port.BOOL)):
            a = StringMeta("i", tags=[p.sink_port_tag("ZERO"), config_tag()]) \
                .create_attribute_model("ZERO")
            self.attrs[n] = a
            registrar.add_attribute_model(n, a, a.set_value)


PARTS = ["A", "B", "C"]


class WiredRig:
    def __init__(self, vc, config, initial, wires):
        import malcolm.modules.builtin.controllers.managercontroller as m
        vc.stub(m, "subprocess", FakeSubprocess)
        self.p = FakeProcess()
        self.src = {}
        self.m = ManagerController("mri", config)
        for n in PARTS:
            c = BasicController("child" + n)
            self.src[n] = s = Wired(n)
            c.add_part(s)
            c.setup(self.p)
            self.p.controllers["child" + n] = c
            for k, v in wires.get(n, {}).items():
                s.attrs[k].set_value(v)
            self.m.add_part(ChildPart(n, "child" + n, stateful=False,
                                      initial_visibility=initial[n]))
        self.p.controllers["mri"] = self.m
        self.m.setup(self.p)
        self.m.init()

    def wiring(self):
        return {n: {k: s.attrs[k].value for k in ("inp", "flag")}
                for n, s in self.src.items()}

    def shown(self):
        return {r[0]: bool(r[4]) for r in self.m.layout.value.rows()}

    def put(self, table):
        return ask(self.m, Put(id=1, path=["mri", "layout", "value"],
                               value=table))


INPS = ["ZERO", "A.OUT", "B.OUT", "C.OUT", "elsewhere", "A.FLAG"]
FLAGS = ["ZERO", "A.FLAG", "B.FLAG", "C.FLAG"]


def wires(vc, parts):
    return {n: {"inp": vc.choice("%s.inp" % n, INPS),
                "flag": vc.choice("%s.flag" % n, FLAGS)} for n in parts}


def connected(ws):
    """pairs of sink part, source part"""
    out = set()
    for n, w in ws.items():
        for k, suffix in (("inp", ".OUT"), ("flag", ".FLAG")):
            v = w.get(k, "ZERO")
            if v.endswith(suffix) and v[0] in PARTS:
                out.add((n, k, v[0]))
    return out


LFNS = [MC + "set_layout", CP + "on_layout", CP + "sever_sink_ports",
        CP + "calculate_part_visibility", CP + "_source_port_lookup",
        CP + "_get_flowgraph_ports"]


@harness("C16", functions=LFNS, rand=60, max_paths=5000, budget=200,
         bounded="three blocks, the sinks of two wired to anything",
         covers=["shown", "hidden"])
def initially(vc):
    """without a layout exactly what is wired to another block is shown"""
    with Scratch() as d:
        given = {n: vc.choice("given " + n, [None, True, False])
                 for n in ("A",)}
        given["B"] = given["C"] = None
        ws = wires(vc, ["A", "B"])
        r = WiredRig(vc, d, given, ws)
        used = {x for s, _, o in connected(ws) for x in (s, o)}
        want = {n: given[n] if given[n] is not None else n in used
                for n in PARTS}
        shown = r.shown()
        vc.cover("shown" if any(shown.values()) else "hidden")
        vc.check("what is wired to another block is shown", shown == want)
        vc.check("and the wires stay",
                 r.wiring()["A"] == ws["A"] and r.wiring()["B"] == ws["B"])


def hide(vc, r, i):
    """put a layout, return what should have become of the wires"""
    now = dict(r.shown())
    full = vc.flag("full table%d" % i)
    names = PARTS if full else [vc.choice("row%d" % i, PARTS)]
    new = {}
    for n in names:
        new[n] = vc.flag("%s shown%d" % (n, i))
    before = r.wiring()
    ans = r.put(LayoutTable(list(new), [""] * len(new),
                            [float(ord(n)) + i for n in new],
                            [i] * len(new), list(new.values())))
    vc.check("a layout can be set", isinstance(ans, Return))
    gone = {n for n, v in new.items() if now[n] and not v}
    want = {n: dict(w) for n, w in before.items()}
    for n in gone:
        want[n] = {"inp": "ZERO", "flag": "ZERO"}
    for n, k, o in connected(before):
        if o in gone:
            want[n][k] = "ZERO"
    vc.check("what is asked for is shown",
             r.shown() == dict(now, **new))
    after = r.wiring()
    stay = {n for n, v in now.items() if not v} - {n for n in new if new[n]}
    for n in PARTS:
        for k in ("inp", "flag"):
            ok = after[n][k] == want[n][k]
            if n in stay or any((n, k, o) in connected(before)
                                for o in stay):
                # whether what was hidden already is disconnected is open
                ok = ok or after[n][k] == "ZERO"
            vc.check("a hidden block is disconnected, the others stay wired",
                     ok)
    rows = {x[0]: x for x in r.m.layout.value.rows()}
    for n in new:
        vc.check("blocks are where they were put",
                 rows[n][2] == float(ord(n)) + i and rows[n][3] == i and
                 rows[n][1] == "child" + n)
    vc.cover("hidden" if gone else "nothing hidden")


@harness("C16", functions=LFNS, rand=80, max_paths=6000, budget=300,
         bounded="three blocks wired in any way before or after the start, "
         "then any layout", covers=["hidden", "nothing hidden"])
def hidden(vc):
    with Scratch() as d:
        ws = wires(vc, ["A"])
        late = vc.flag("wired later")
        r = WiredRig(vc, d, dict.fromkeys(PARTS, True), {} if late else ws)
        if late:
            for n, w in ws.items():
                for k, v in w.items():
                    r.src[n].attrs[k].set_value(v)
        hide(vc, r, 1)


@harness("C16", functions=LFNS, rand=150, concrete_only=True,
         bounded="seeded random histories of up to 6 layouts and wirings of "
         "three blocks")
def layout_history(vc):
    with Scratch() as d:
        r = WiredRig(vc, d, {n: vc.choice("given " + n, [None, True, False])
                             for n in PARTS}, wires(vc, PARTS))
        for i in range(vc.choice("steps", range(1, 7))):
            for n in PARTS:
                if vc.flag("wire %s" % n):
                    for k, v in wires(vc, [n])[n].items():
                        r.src[n].attrs[k].set_value(v)
            hide(vc, r, i)
