"""Designs: what is saved is what is loaded, and modified says whether the
block still is as it was saved or loaded."""
import json
import os

from pyvc.api import harness
from checks.managerlib import (Mode, Nested, Rig, Scratch, VALUES, metas)

from malcolm.core import Error
from malcolm.modules.builtin.infos import PartModifiedInfo
from malcolm.modules.builtin.parts import ChildPart
from malcolm.modules.builtin.util import ExportTable, LayoutTable

MC = "malcolm.modules.builtin.controllers.managercontroller:ManagerController."
CP = "malcolm.modules.builtin.parts.childpart:ChildPart."
LEVEL = "exploration"
ASSUMPTIONS = [
    "a manager of two child blocks with attributes of every kind; hooks and "
    "requests run one after the other",
    "the filesystem keeps what was written, and replaces files atomically",
]
CONFIG = [k for k in VALUES if k != "other"]
FNS = [MC + "do_save", MC + "do_load", MC + "_mark_clean",
       MC + "_set_layout_names", MC + "_validated_config_filename",
       MC + "set_design", MC + "set_layout", MC + "set_exports",
       MC + "update_modified", CP + "on_load", CP + "on_save",
       CP + "update_part_modified", CP + "send_modified_info_if_not_equal",
       CP + "update_part_exportable"]


def scramble(r, k):
    """make the block something else"""
    for n in ("A", "B"):
        for f in CONFIG:
            v = VALUES[f]
            r.change(n, f, v[k % len(v)])
    r.put("own", "own%d" % k)
    r.put("layout", LayoutTable(["A", "B"], ["", ""], [k, 1.5 * k],
                                [2.5, k], [True, k % 2 == 0]))
    err = r.put("exports", [ExportTable([], []),
                      ExportTable(["A.num", "B.text"], ["aNum", "text"]),
                      ExportTable(["A.tab"], ["table"])][k % 3])
    r.vc.check("exports can be set", err is None)


@harness("C15", functions=FNS, rand=40, max_paths=3000, budget=250,
         bounded="every pair of values of every kind of attribute, two "
         "layouts and exports",
         covers=["saved", "loaded"])
def save_load(vc):
    with Scratch() as d:
        r = Rig(vc, d)
        k = vc.choice("saved as", [0, 1, 2])
        scramble(r, k)
        f = vc.choice("field", CONFIG)
        v = vc.choice("value", VALUES[f])
        r.change("A", f, v)
        out = r.post("save", designName="one")
        vc.check("a design can be saved", not isinstance(out, Error))
        vc.check("and the block is Ready", r.m.state.value == "Ready")
        vc.cover("saved")
        saved = r.snapshot()
        vc.check("a saved design is the current one",
                 r.m.design.value == "one" and
                 "one" in r.m.design.meta.choices)
        vc.check("and not modified", r.m.modified.value is False)
        # then somebody changes it
        scramble(r, vc.choice("changed to", [0, 1, 2, 3]))
        r.change("A", f, vc.choice("then", VALUES[f]))
        err = r.put("design", "one")
        vc.check("a saved design can be loaded",
                 err is None and r.m.state.value == "Ready")
        for s in r.sources.values():
            vc.check("fields of a later iteration are loaded later",
                     "num" not in s.puts or s.puts[-1] == "num")
        vc.cover("loaded")
        vc.check("loading restores what was saved", r.snapshot() == saved)
        vc.check("a loaded design is not modified",
                 r.m.modified.value is False)


def differs(r, saved):
    now = r.snapshot()
    bad = []
    for n in ("A", "B"):
        if now["layout", n][2] != saved["layout", n][2]:
            bad.append("layout changed")
        if now["layout", n][2]:
            bad += ["%s.%s" % (n, f) for f in CONFIG
                    if now[n, f] != saved[n, f]]
    if now["exports"] != saved["exports"]:
        bad.append("exports changed")
    return bad


def check_modified(vc, r, saved, name):
    bad = differs(r, saved)
    m = r.m.modified
    vc.check("%s: modified says whether anything differs from the design"
             % name, m.value == bool(bad))
    if not bad and m.value:
        vc.note(m.alarm.message)
    if bad and m.value:
        said = sorted({x.split(".value")[0]
                       for x in m.alarm.message.split("\n")})
        vc.check("%s: and what" % name, said == sorted(set(bad)))
        now = r.snapshot()
        for line in m.alarm.message.split("\n"):
            k = tuple(line.split(".")[:2])
            if k in now and k[1] in ("num", "text", "flag"):
                vc.check("%s: and how" % name, repr(now[k]) in line and
                         repr(saved[k]) in line)
        vc.check("%s: with an alarm" % name, not m.alarm.is_ok())
    elif not m.value:
        vc.check("%s: without an alarm" % name, m.alarm.is_ok())


@harness("C15", functions=FNS, rand=30, max_paths=4000, budget=250,
         bounded="any two of the changes of a menu before and two after a "
         "save or load", covers=["save", "load"])
def modified(vc):
    def change(i):
        k = vc.choice("change%d" % i, ["none", "A.num", "A.num back",
                                       "A.nums", "A.tab", "B.mode",
                                       "B hidden", "B shown", "swapped",
                                       "exports",
                                       "no exports"])
        if k == "A.num":
            r.change("A", "num", 2)
        elif k == "A.num back":
            r.change("A", "num", 1)
        elif k == "A.nums":
            r.change("A", "nums", [5, 5])
        elif k == "A.tab":
            r.change("A", "tab", {"n": ["q"], "x": [3]})
        elif k == "B.mode":
            r.change("B", "mode", Mode.FAST)
        elif k in ("B hidden", "B shown"):
            r.put("layout", LayoutTable(["B"], [""], [0], [0],
                                        [k == "B shown"]))
        elif k == "swapped":
            r.put("layout", LayoutTable(["A", "B"], ["", ""], [0, 0], [0, 0],
                                        [False, True]))
        elif k == "exports":
            r.put("exports", ExportTable(["A.num"], ["aNum"]))
        elif k == "no exports":
            r.put("exports", ExportTable([], []))

    with Scratch() as d:
        r = Rig(vc, d)
        first = r.snapshot()
        check_modified(vc, r, first, "initially")
        r.post("save", designName="zero")
        change(1)
        check_modified(vc, r, first, "after a change")
        how = vc.choice("then", ["save", "load"])
        vc.cover(how)
        if how == "save":
            r.post("save", designName="one")
        else:
            vc.check("loading works", r.put("design", "zero") is None)
        saved = r.snapshot()
        check_modified(vc, r, saved, "after " + how)
        change(2)
        check_modified(vc, r, saved, "after %s and a change" % how)
        change(3)
        check_modified(vc, r, saved, "after %s and two changes" % how)


@harness("C15", functions=FNS, concrete_only=True, rand=60,
         bounded="seeded random histories of up to 10 changes, saves and "
         "loads of up to 4 designs")
def history(vc):
    with Scratch() as d:
        r = Rig(vc, d)
        designs = {}
        saved = r.snapshot()
        for i in range(vc.choice("steps", range(1, 11))):
            k = vc.choice("step", ["change", "change", "change", "layout",
                                   "exports", "own", "save", "load"])
            if k == "change":
                f = vc.choice("field", CONFIG)
                r.change(vc.choice("part", ["A", "B"]), f,
                         vc.choice("value", VALUES[f]))
            elif k == "layout":
                r.put("layout", LayoutTable(
                    ["A", "B"], ["", ""], [vc.choice("x", [0.0, 5.5]), 1],
                    [2, 3], [vc.flag("A visible"), vc.flag("B visible")]))
            elif k == "exports":
                r.put("exports", vc.choice("exports", [
                    ExportTable([], []), ExportTable(["A.num"], ["aNum"]),
                    ExportTable(["A.num", "B.act"], ["num", "go"])]))
            elif k == "own":
                r.put("own", vc.choice("own", ["mine", "yours", ""]))
            elif k == "save":
                n = vc.choice("name", ["a", "b", "c.d", "e f"])
                out = r.post("save", designName=n)
                vc.check("designs can be saved", not isinstance(out, Error))
                saved = designs[n] = r.snapshot()
            elif designs:
                n = vc.choice("which", sorted(designs))
                vc.check("designs can be loaded", r.put("design", n) is None)
                vc.check("what was saved is loaded",
                         r.snapshot() == designs[n])
                saved = designs[n]
            check_modified(vc, r, saved, "history")
            vc.check("the designs are offered",
                     list(r.m.design.meta.choices) == [""] + sorted(designs))
        # a new process finds them
        for n in sorted(designs):
            q = Rig(vc, d, design=n)
            vc.check("a design is there after a restart",
                     q.m.state.value == "Ready" and
                     q.m.design.value == n and q.snapshot() == designs[n])


class FakeFile:
    """a disk that fills up"""

    def __init__(self, f, allowed, hit):
        self.f, self.allowed, self.hit = f, allowed, hit

    def __getattr__(self, name):
        return getattr(self.f, name)

    def write(self, text):
        self.f.write(text[:self.allowed])
        self.f.flush()
        self.allowed -= len(text)
        if self.allowed < 0:
            self.allowed = 0
            self.hit.append(text)
            raise OSError("disk full")
        return len(text)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()


@harness("C15", functions=[MC + "do_save", MC + "do_load"], rand=20,
         max_paths=500, bounded="a save failing at any of the points of a "
         "menu, then a restart", covers=["failed", "saved"])
def failed_save(vc):
    """a save that fails part way leaves the design saved before"""
    import builtins
    import malcolm.modules.builtin.controllers.managercontroller as mod
    with Scratch() as d:
        r = Rig(vc, d)
        r.post("save", designName="one")
        before = r.snapshot()
        scramble(r, vc.choice("changed to", [1, 2]))
        after = r.snapshot()
        where = vc.choice("fails", ["writing 0", "writing 1", "writing 100",
                                    "replacing", "a part", "no"])

        def opened(name, mode="r", *a, **k):
            f = builtins.open(name, mode, *a, **k)
            if "w" in mode and where.startswith("writing"):
                return FakeFile(f, int(where.split()[1]), hit)
            return f

        hit = []
        mod.open = opened
        vc.at_exit(lambda: mod.__dict__.pop("open", None))
        if where == "replacing":
            def fail(*a, **k):
                hit.append(a)
                raise OSError("cannot")
            for n in ("rename", "replace"):
                vc.stub(mod.os, n, fail)
        elif where == "a part":
            def fail(*a, **k):
                hit.append(a)
                raise OSError("cannot")
            part = r.m.parts["B"]
            for k, v in list(part.hooked.items()):
                if k.__name__ == "SaveHook":
                    part.hooked[k] = (fail, v[1])
        out = r.post("save", designName="one")
        failed = isinstance(out, Error)
        vc.cover("failed" if failed else "saved")
        vc.check("a save that fails says so", failed == bool(hit))
        if failed:
            vc.check("and is in Fault", r.m.state.value == "Fault")
        vc.cleanup()
        where = "no"
        q = Rig(vc, d, design="one")
        vc.check("after a restart one of the designs is there, whole",
                 q.m.state.value == "Ready" and
                 q.snapshot() == (before if failed else after))


@harness("C15", functions=[MC + "do_save", MC + "_validated_config_filename",
                           MC + "_set_layout_names", MC + "save"], rand=40,
         max_paths=200, bounded="30 design names",
         covers=["saved", "refused"])
def names(vc):
    """a design is saved in the directory of the block, under its name"""
    name = vc.choice("name", [
        "a", "", "a b", "a.b", "..", ".", "x.json", "../other/a", "/a/b",
        "sub/a", "template_x", "a/../../b", "ünï", "-", "a\\b", "nul"])
    with Scratch() as d:
        os.mkdir(os.path.join(d, "other"))
        with open(os.path.join(d, "other", "a.json"), "w") as f:
            f.write("not ours")
        r = Rig(vc, d)
        listed = list(r.m.design.meta.choices)

        def files():
            return {os.path.join(p, f): open(os.path.join(p, f)).read()
                    for p, _, fs in os.walk(d) for f in fs}

        before = files()
        out = r.post("save", designName=name)
        now = files()
        new = [os.path.relpath(k, d) for k in now if now[k] != before.get(k)]
        vc.check("nothing is removed", set(before) <= set(now))
        if isinstance(out, Error):
            vc.cover("refused")
            vc.check("a refused save writes nothing", not new)
            vc.check("plain names are not refused", name in (
                "", "template_x") or "/" in name)
            return
        vc.cover("saved")
        vc.check("one file of this block is written",
                 len(new) == 1 and os.path.dirname(new[0]) == "mri")
        vc.check("the design has the name", r.m.design.value == name)
        saved = r.snapshot()
        r.change("A", "num", -5)
        vc.check("and can be loaded by it",
                 r.put("design", name) is None and r.snapshot() == saved)
        q = Rig(vc, d)
        stem = new[0][4:-5]
        vc.check("it is offered after a restart",
                 stem in q.m.design.meta.choices)
        q.change("A", "num", -5)
        vc.check("and loads", q.put("design", stem) is None
                 and q.snapshot() == saved)


@harness("C15", functions=FNS, rand=30, max_paths=3000, budget=200,
         bounded="a manager of a manager: any of the designs of a menu saved "
         "on both levels, any change, then loaded or restarted",
         covers=["loaded", "restarted"])
def nested(vc):
    """what is exported may itself be an export of a loaded design"""
    with Scratch() as d:
        r = Nested(vc, d)
        r.src.attrs["num"].set_value(2)
        vc.check("saved", r.save(r.mid, "plain") is None)
        vc.check("exported", r.put(r.mid, "exports", ExportTable(
            ["L.num"], ["foo"])) is None)
        r.src.attrs["num"].set_value(-5)
        vc.check("saved", r.save(r.mid, "exporting") is None)
        vc.check("saved", r.save(r.top, "nothing") is None)
        vc.check("exported", r.put(r.top, "exports", ExportTable(
            ["M.foo"], ["bar"])) is None)
        vc.check("saved", r.save(r.top, "all") is None)
        shots = {"all": r.snapshot()}
        if vc.flag("saved without the field"):
            vc.check("loaded", r.put(r.mid, "design", "plain") is None)
            vc.check("saved", r.save(r.top, "without") is None)
            shots["without"] = r.snapshot()
        vc.check("loaded", r.put(r.top, "design", "nothing") is None)
        shots["nothing"] = r.snapshot()
        for i in (1, 2):
            k = vc.choice("then%d" % i, ["none", "value", "mid plain",
                                         "mid exporting", "no exports",
                                         "load"])
            if k == "value":
                r.src.attrs["num"].set_value(7)
            elif k == "mid plain":
                vc.check("loaded", r.put(r.mid, "design", "plain") is None)
            elif k == "mid exporting":
                vc.check("loaded",
                         r.put(r.mid, "design", "exporting") is None)
            elif k == "no exports":
                r.put(r.top, "exports", ExportTable([], []))
            elif k == "load":
                r.put(r.top, "design", "all")
        which = vc.choice("load", sorted(shots))
        if vc.flag("restart"):
            mid = vc.choice("mid starts with", ["", "plain", "exporting"])
            r = Nested(vc, d, design=which, mid_design=mid)
            vc.check("a design can be loaded at the start whatever the "
                     "children are", r.top.state.value == "Ready")
            # children keep their own designs at the start
            vc.check("and children keep theirs", r.mid.design.value == mid)
            if mid != shots[which]["mid", "design"]:
                vc.check("which shows", r.top.modified.value is True)
            vc.cover("restarted")
        else:
            vc.cover("loaded")
        vc.check("a design can be loaded",
                 r.put(r.top, "design", which) is None)
        vc.check("and is ready", r.top.state.value == "Ready")
        now, was = r.snapshot(), shots[which]
        if r.mid.modified.value:
            # of a manager only the name of its design is saved
            now, was = [{k: v for k, v in x.items() if isinstance(k, tuple)}
                        for x in (now, was)]
        vc.check("loading restores what was saved on every level",
                 now == was)


@harness("C15", functions=FNS, rand=30, max_paths=3000,
         bounded="a field of a child removed and added again, with any two "
         "values before, between and after", covers=["gone", "back"])
def fields_come_and_go(vc):
    """what is saved is tracked again when a field comes back"""
    from malcolm.core import NumberMeta, config_tag
    vals = [1, 2]
    with Scratch() as d:
        r = Rig(vc, d)
        child, src = r.children["A"], r.sources["A"]
        r.change("A", "num", vc.choice("saved", vals))
        r.post("save", designName="one")
        saved = src.attrs["num"].value

        def expect(when, there):
            v = src.attrs["num"].value
            bad = there and v != saved
            vc.check("modified says whether the field differs, " + when,
                     r.m.modified.value == bool(bad))
            if bad:
                vc.check("and how, " + when, r.m.modified.alarm.message ==
                         "A.num.value = %s not %s" % (v, saved))

        r.change("A", "num", vc.choice("before", vals))
        expect("before", True)
        for i in range(vc.choice("times", [1, 2])):
            old = src.attrs["num"]
            squashed = vc.flag("at once%d" % i)
            if not squashed:
                child._block.remove_endpoint("num")
                vc.cover("gone")
                expect("while it is gone", False)
                old.set_value(7)
            new = NumberMeta("int32", "n", tags=[config_tag()]) \
                .create_attribute_model(vc.choice("back as%d" % i, vals))
            src.attrs["num"] = new
            with child.changes_squashed:
                if squashed:
                    child._block.remove_endpoint("num")
                child.add_block_field("num", new, new.set_value, False)
            vc.cover("back")
            expect("when it is back", True)
            r.change("A", "num", vc.choice("then%d" % i, vals))
            expect("and changed", True)
        err = r.put("design", "one")
        vc.check("the design can be loaded", err is None)
        vc.check("and restores the field", src.attrs["num"].value == saved)
        expect("after loading", True)


@harness("C15", functions=[MC + "do_save", MC + "do_load"], max_paths=50,
         rand=3, bounded="the same field exported twice")
def exported_twice(vc):
    with Scratch() as d:
        r = Rig(vc, d)
        err = r.put("exports", ExportTable(["A.num", "A.num"], ["x", "y"]))
        if err:
            return
        r.post("save", designName="one")
        saved = r.snapshot()
        vc.check("other exports can be set", r.put(
            "exports", ExportTable([], [])) is None)
        vc.check("the design can be loaded", r.put("design", "one") is None)
        vc.check("both exports of the same field are restored",
                 r.snapshot() == saved)


class Reports:
    def __init__(self):
        self.infos = []

    def report(self, info):
        if isinstance(info, PartModifiedInfo):
            self.infos.append(dict(info.modified))


@harness("C15", functions=[
    "malcolm.modules.builtin.parts.childpart:ChildPart."
    "send_modified_info_if_not_equal",
    "malcolm.modules.builtin.parts.childpart:values_differ"],
    rand=200, covers=["modified", "as saved", "never saved"])
def modified_step(vc):
    """Whatever a field was saved as and was told to be before, after it
    changes the part tells of it exactly if it now differs from what was
    saved, and of all others as before"""
    part = ChildPart("part", "mri")
    part.registrar = reg = Reports()
    kind = vc.choice("kind", ["int", "str", "bool"])

    def some(name):
        if kind == "int":
            return vc.int(name)
        if kind == "bool":
            return vc.bool(name)
        return vc.choice(name, ["", "a", "b", "a b"])

    saved, values = some("saved"), [some("before"), some("now")]
    was_saved = vc.flag("saved at all")
    part.saved_structure = {"f": saved} if was_saved else {}
    others = {"g": "part.g.value = 1 not 2"} if vc.flag("other") else {}
    part.modified_messages.update(others)
    shown = dict(others)
    for v in values:
        n = len(reg.infos)
        part.send_modified_info_if_not_equal("f", v)
        vc.check("told at most once", len(reg.infos) <= n + 1)
        if len(reg.infos) > n:
            shown = reg.infos[-1]
        vc.check("others as before",
                 {k: m for k, m in shown.items() if k != "f"} == others)
        if not was_saved:
            vc.cover("never saved")
            vc.check("a field that was never saved is modified",
                     "f" in shown)
        elif vc.fork(v == saved):
            vc.cover("as saved")
            vc.check("a field that is as saved is not modified",
                     "f" not in shown)
        else:
            vc.cover("modified")
            vc.check("a field that is not as saved is modified",
                     "f" in shown)
        if "f" in shown:
            vc.check("named", "part.f" in shown["f"])
