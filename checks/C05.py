"""Metas: a value that is accepted is of the declared type, is the one that was
given, and stays the same when validated again or sent to a client and back."""
import json
import math
from enum import Enum

import numpy as np
from annotypes import Array, deserialize_object, json_decode, json_encode

from pyvc.api import harness

from malcolm.core import (Alarm, AlarmSeverity, AlarmStatus, BooleanArrayMeta,
                          BooleanMeta, ChoiceArrayMeta, ChoiceMeta,
                          NumberArrayMeta, NumberMeta, StringArrayMeta,
                          StringMeta, Table, TableMeta, TimeStamp)
from malcolm.core.models import (BlockMeta, BlockModel, Display, MapMeta,
                                 MethodMeta, MethodModel, MethodLog)

M = "malcolm.core.models:"
LEVEL = "exploration"
ASSUMPTIONS = [
    "numpy's casts of single values and json are trusted; floats given to "
    "integer types are truncated, integers beyond a type's limits wrap (the "
    "repository's tests require it), numbers beyond float32 become infinite",
]
INTS = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64",
        "uint64"]
FLOATS = ["float32", "float64"]


def bounds(dtype):
    i = np.iinfo(dtype)
    return int(i.min), int(i.max)


class Colour(Enum):
    RED = "red"
    GREEN = "green"
    BLUE = "blue"


def same(a, b):
    """equal, with nan equal to itself, of the same type"""
    if type(a) is not type(b):
        return False
    if isinstance(a, Table):
        return list(a.call_types) == list(b.call_types) and all(
            same(a[k], b[k]) for k in a.call_types)
    if a.__class__ is Array:
        if a.typ is not b.typ or len(a) != len(b):
            return False
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, np.floating)) and math.isnan(a):
        return math.isnan(b)
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def round_trip(v):
    """what a client gets, and would send back"""
    return json_decode(json_encode({"v": v}))["v"]


def stable(vc, meta, got):
    again = vc.call(meta.validate, got)
    vc.check("validating again changes nothing",
             again.ok and same(again.value, got))
    back = vc.call(meta.validate, round_trip(got))
    vc.check("the value survives being sent and put back",
             back.ok and same(back.value, got))
    clone = deserialize_object(json_decode(json_encode(meta)))
    vc.check("a client's meta is the same", type(clone) is type(meta)
             and json_encode(clone) == json_encode(meta))
    there = vc.call(clone.validate, round_trip(got))
    vc.check("a client's meta accepts the value", there.ok and
             json_encode(there.value) == json_encode(got))


NUMBERS = [0, 1, -1, 7, True, False, 0.0, 0.5, -0.5, 3.999, -3.999, 1e300,
           -1e300, float("nan"), float("inf"), -float("inf"), 2 ** 70,
           "12", "-3", "1.5", "nan", "0x10", "", "rubbish", " 4 ", "300",
           np.int8(-5), np.uint64(2 ** 64 - 1), np.float32(2.5),
           np.float64(-7.25), np.array(5), None, [], [1], [1, 2], (3,), {},
           {"a": 1}, np.array([1, 2]), np.array([4]), object, b"5"]


def number_menu(dtype):
    vals = list(NUMBERS)
    for d in INTS:
        lo, hi = bounds(d)
        vals += [lo, lo - 1, hi, hi + 1, hi // 2, float(lo), float(hi) * 2]
    return vals


def number_of(v):
    """the number a value stands for, None if it is not one"""
    if v is None:
        return 0
    if isinstance(v, (list, tuple, dict, type)):
        return None
    if isinstance(v, np.ndarray) and v.size != 1:
        return None
    try:
        if isinstance(v, (str, bytes)):
            try:
                return int(v)
            except ValueError:
                return float(v)
        return v.item() if hasattr(v, "item") else v
    except Exception:
        return None


def fits(dtype, num, got):
    """integers wrap (a negative bit pattern is given to unsigned types),
    nothing else is changed"""
    d = int(got) - int(num)
    return d == 0 if isinstance(num, float) else \
        d % 2 ** (8 * np.dtype(dtype).itemsize) == 0


def check_number(vc, dtype, v, out):
    num = number_of(v)
    if out.ok:
        got = out.value
        vc.check("accepted numbers are of the declared type",
                 isinstance(got, getattr(np, dtype)))
        vc.check("only numbers are accepted", num is not None)
        if num is None:
            return
        if dtype in FLOATS:
            f = float(num) if abs(num) < 1e308 or not isinstance(
                num, int) else math.inf
            want = np.dtype(dtype).type(f)
            vc.check("the number is the one given",
                     got == want or (math.isnan(got) and math.isnan(want)))
        else:
            vc.check("the number is the one given, without its fraction",
                     math.isfinite(num) and fits(dtype, num, got))
    elif num is not None and not isinstance(v, (str, np.ndarray)):
        if dtype in FLOATS:
            vc.check("every number is accepted as a float", False)
        else:
            lo, hi = bounds(dtype)
            vc.check("numbers in range are accepted",
                     not (math.isfinite(num) and lo <= int(num) <= hi))


@harness("C05", functions=[M + "NumberMeta.validate",
                           M + "NumberMeta.set_dtype"], rand=40,
         max_paths=4000, bounded="every number type x 80 values of every "
         "kind, with the limits of every type", covers=["accepted", "refused"])
def numbers(vc):
    dtype = vc.choice("dtype", INTS + FLOATS)
    v = vc.choice("value", number_menu(dtype))
    meta = NumberMeta(dtype, "d", label="l")
    out = vc.call(meta.validate, v)
    vc.cover("accepted" if out.ok else "refused")
    check_number(vc, dtype, v, out)
    if out.ok:
        stable(vc, meta, out.value)


@harness("C05", functions=[M + "NumberMeta.validate", M + "to_np_array"],
         rand=2000, concrete_only=True,
         bounded="seeded random integers and floats")
def random_numbers(vc):
    dtype = vc.choice("dtype", INTS + FLOATS)
    kind = vc.choice("kind", ["int", "real"])
    e = vc.int("bits", 1, 70)
    v = vc.int("i", -2 ** e, 2 ** e) if kind == "int" else \
        vc.real("r", -2.0 ** e, 2.0 ** e)
    meta = NumberMeta(dtype)
    out = vc.call(meta.validate, v)
    check_number(vc, dtype, v, out)
    if out.ok:
        stable(vc, meta, out.value)
    am = NumberArrayMeta(dtype)
    arr = vc.call(am.validate, [v])
    vc.check("an array takes the numbers a scalar takes",
             arr.ok == out.ok and (not arr.ok or same(
                 arr.value.seq[0], out.value)))


SCALARS = [None, "", "a", "red", "RED", "green", "False", "false", "0", "no",
           "NO", "No", "FALSE", "True", "yes", "off", 0, 1, 2, 3, -1, True,
           False, 0.0, 1.0, 0.5, Colour.RED, Colour.BLUE, np.bool_(True),
           np.bool_(False), np.int32(1), [], ["a"], {}, {"a": 1}, "é☃", b"x", " a ", "only",
           "line\nline", "x" * 300]
FALSE = ["0", "False", "false", "FALSE", "No", "no", "NO"]


@harness("C05", functions=[M + "BooleanMeta.validate",
                           M + "StringMeta.validate",
                           M + "ChoiceMeta.validate",
                           M + "ChoiceMeta.set_choices"], rand=60,
         max_paths=4000, bounded="every scalar meta x 40 values of every kind",
         covers=["accepted", "refused"])
def scalars(vc):
    kind = vc.choice("meta", ["bool", "str", "choice", "enum", "none",
                              "rechosen", "single"])
    v = vc.choice("value", SCALARS)
    choices = ["a", "red", "b"]
    if kind == "bool":
        meta = BooleanMeta("d")
    elif kind == "str":
        meta = StringMeta("d")
    elif kind == "choice":
        meta = ChoiceMeta("d", choices)
    elif kind == "single":
        choices = ["only"]
        meta = ChoiceMeta("d", choices)
    elif kind == "enum":
        choices = list(Colour)
        meta = ChoiceMeta("d", choices)
        # metas of other types must not interfere
        ChoiceMeta("e", ["p", "q"])
    elif kind == "none":
        choices = []
        meta = ChoiceMeta("d", choices)
    else:
        meta = ChoiceMeta("d", ["red", "0", "x"])
        meta.validate("x")
        choices = ["a", "b"]
        meta.set_choices(choices)
    out = vc.call(meta.validate, v)
    vc.cover("accepted" if out.ok else "refused")
    got = out.value if out.ok else None
    if kind == "bool":
        if out.ok:
            vc.check("booleans are bools", type(got) is bool)
            vc.check("the strings that mean no are False",
                     got == (bool(v) and not (isinstance(v, str)
                                              and v in FALSE)))
        else:
            vc.check("only what cannot be looked up is refused",
                     isinstance(v, (list, dict)))
    elif kind == "str":
        vc.check("everything has a string", out.ok and type(got) is str)
        vc.check("the string is the one given", got == (
            "" if v is None else v if isinstance(v, str) else str(v)))
    else:
        if choices and v is None:
            vc.check("the first choice is the default",
                     out.ok and got == choices[0])
        elif not choices:
            vc.check("without choices the default is empty",
                     out.ok == (v in (None, "")) and (not out.ok or got == ""))
        elif out.ok:
            vc.check("a valid choice is one of the choices", got in choices)
            ok = got == v or (isinstance(got, Enum) and got.value == v)
            try:
                ok = ok or choices[int(v)] == got and v == int(v)
            except (TypeError, ValueError, IndexError):
                pass
            vc.check("it is the choice that was named", ok)
        else:
            names = [c.value if isinstance(c, Enum) else c for c in choices]
            vc.check("choices are not refused",
                     not any(v is c for c in choices)
                     and not (isinstance(v, str) and v in names))
    if out.ok:
        if kind == "enum":
            again = meta.validate(round_trip(got))
            vc.check("an enum survives being sent", again is got)
            vc.check("validating again changes nothing",
                     meta.validate(got) is got)
        else:
            stable(vc, meta, got)


ARRAYS = [None, [], (), [1], [1, 2, 3], (4, 5), [1.5, -2.5], [0.0], [True],
          [True, False], ["1", "2"], ["a"], ["a", "b", "a"], ["a", "zz"],
          ["False", "true"], ("b",), "a", "ab", "5", 5, 5.5, True, [None],
          [300], [-1], [2 ** 31], [2 ** 40, 1], [2 ** 70], [float("nan"), 1],
          [float("inf")], np.array([1, 2]), np.array([1, 2], np.int32),
          np.array([1, 2], np.uint8), np.array([1.5, 2.5]),
          np.array([True, False]), np.array([1.5], np.float32),
          np.array([], np.int32), np.array(["a", "b"]), np.int32(4),
          Array[int]([1, 2]), Array[str](["a", "b"]), Array[str](),
          Array[float]([1.5]), Array[int](np.array([3, 4])),
          Array[np.int32](np.array([300, -4], np.int32)),
          Array[bool](np.array([True])), {}, {"a": 1}, range(3),
          [Colour.RED], ["red", "blue"], [0, 2], [[1, 2]], ["a", 1]]


def elements(v):
    """the elements given, None if it is no array"""
    if v is None:
        return []
    if isinstance(v, (str, int, float, np.generic)):
        return [v]
    if isinstance(v, (dict,)):
        return None
    return list(v)


@harness("C05", functions=[M + "NumberArrayMeta.validate",
                           M + "BooleanArrayMeta.validate",
                           M + "StringArrayMeta.validate",
                           M + "ChoiceArrayMeta.validate",
                           M + "to_np_array"], rand=80,
         max_paths=4000, bounded="every array meta x 50 values of every kind",
         covers=["accepted", "refused"])
def arrays(vc):
    kind = vc.choice("meta", INTS + FLOATS + ["bool", "str", "choice",
                                              "enum"])
    v = vc.choice("value", ARRAYS)
    if kind in INTS + FLOATS:
        meta = NumberArrayMeta(kind)
        typ = {"float64": float, "int64": int}.get(kind, getattr(np, kind))
    elif kind == "bool":
        meta, typ = BooleanArrayMeta("d"), bool
    elif kind == "str":
        meta, typ = StringArrayMeta("d"), str
    elif kind == "choice":
        meta, typ = ChoiceArrayMeta("d", ["a", "b", "red"]), str
    else:
        meta, typ = ChoiceArrayMeta("d", list(Colour)), Colour
    vc.assume(v != [[1, 2]] if isinstance(v, list) else True)
    out = vc.call(meta.validate, v)
    vc.cover("accepted" if out.ok else "refused")
    if not out.ok:
        vc.check("arrays have a default", v is not None)
        if kind == "str":
            vc.check("strings are not refused", not (
                isinstance(v, (list, tuple)) and
                all(isinstance(x, str) for x in v)))
        if kind in FLOATS:
            vc.check("numbers are not refused", not (
                isinstance(v, (list, tuple)) and all(
                    isinstance(x, (int, float)) for x in v)))
        return
    got = out.value
    vc.check("accepted arrays are Arrays of the declared type",
             got.__class__ is Array and got.typ is typ)
    given = elements(v)
    # anything has a truth value, and dicts iterate over their keys
    vc.check("only arrays or elements are accepted",
             given is not None or kind not in INTS + FLOATS)
    if given is None:
        return
    vc.check("no element is lost or added", len(got) == len(given))
    if kind in INTS + FLOATS:
        vc.check("the elements are in an array of the right dtype",
                 got.seq.dtype == np.dtype(kind)
                 if len(got) or hasattr(got.seq, "dtype") else True)
        ok = True
        for a, b in zip(given, got):
            n = number_of(math.nan if a is None else a)
            if n is None:
                ok = False
            elif kind in FLOATS:
                w = np.dtype(kind).type(n)
                ok = ok and (b == w or (math.isnan(b) and math.isnan(w)))
            else:
                ok = ok and math.isfinite(n) and fits(kind, n, b)
        vc.check("the elements are the ones given", ok)
    elif kind == "bool":
        vc.check("the elements are the ones given", all(
            bool(b) == bool(a) for a, b in zip(given, got)
            if not isinstance(a, str)))
    elif kind == "str":
        vc.check("the elements are the ones given",
                 [str(x) for x in given] == list(got)
                 and all(isinstance(x, str) for x in got))
    else:
        ch = list(meta.choices)
        vc.check("every element is one of the choices",
                 all(b in ch for b in got))
        vc.check("the elements are the ones named", all(
            b == a or getattr(b, "value", b) == a
            or (not isinstance(a, (str, Enum)) and (a is None and b == ch[0]
                or a is not None and ch[int(a)] == b))
            for a, b in zip(given, got)))
    if kind == "enum":
        vc.check("enums survive being sent",
                 list(meta.validate(round_trip(got))) == list(got))
    else:
        stable(vc, meta, got)


COLS = {"n": ["a", "b"], "i": [1, 2], "f": [0.5, 2], "b": [True, False]}


class Typed(Table):
    pass


def table_meta(custom):
    els = {"n": StringArrayMeta("n"), "i": NumberArrayMeta("int32", "i"),
           "f": NumberArrayMeta("float64", "f"), "b": BooleanArrayMeta("b")}
    return TableMeta("d", elements=els)


@harness("C05", functions=[M + "TableMeta.validate",
                           M + "TableMeta.set_elements",
                           M + "TableMeta.set_table_cls",
                           "malcolm.core.table:Table.validate_column_lengths",
                           "malcolm.core.table:Table.from_rows",
                           "malcolm.core.table:Table.rows"],
         rand=60, max_paths=6000, covers=["accepted", "refused"],
         bounded="tables of 4 columns: each column right, missing, default, "
         "of another length, of a wrong type; extra columns; any row count "
         "up to 3")
def tables(vc):
    meta = table_meta(False)
    rows = vc.choice("rows", [0, 1, 3])
    full = {"n": ["x%d" % i for i in range(rows)],
            "i": [i - 1 for i in range(rows)],
            "f": [i / 4.0 for i in range(rows)],
            "b": [i == 1 for i in range(rows)]}
    value, state = {}, {}
    for k in full:
        s = state[k] = vc.choice("column " + k, ["good", "missing", "longer",
                                                 "None", "wrong"])
        if s == "good":
            value[k] = full[k]
        elif s == "longer":
            value[k] = full[k] + full[k][:1] + [{"n": "z", "i": 9, "f": 9.5,
                                                 "b": False}[k]]
        elif s == "None":
            value[k] = None
        elif s == "wrong":
            value[k] = {"n": [1], "i": ["x"], "f": ["x"],
                        "b": [True] * 7}[k]
    if vc.flag("extra"):
        value["extra"] = [1] * rows
        state["extra"] = "extra"
    if vc.flag("typeid"):
        value["typeid"] = "malcolm:core/Table:1.0"
    given = value
    if set(state.values()) <= {"good", "longer", "wrong"}:
        how = vc.choice("given as", ["dict", "its table", "raw", "another"])
        if how != "dict":
            # a table object, which may hold what the metas refuse
            cls = meta.table_cls if how != "another" else TableMeta(
                "o", elements={k: StringArrayMeta(k) for k in "bfin"}
            ).table_cls
            types = {"n": str, "i": int, "f": float, "b": bool}
            given = cls(**{k: Array[types[k]](value[k]) if how == "its table"
                           and state[k] != "wrong" else value[k]
                           for k in full})
    out = vc.call(meta.validate, given)
    vc.cover("accepted" if out.ok else "refused")
    lens = {len(value[k] or ()) for k in full if k in value}
    wrong = [k for k, s in state.items() if s in ("missing", "extra")
             or (s == "wrong" and k != "b")]
    good = not wrong and len(lens) == 1
    vc.check("a table is accepted exactly when every column is there, has "
             "the right type and the same length", out.ok == good)
    if not out.ok:
        return
    got = out.value
    vc.check("it is of the meta's class", type(got) is meta.table_cls)
    for k in full:
        vc.check("columns are what was given",
                 got[k].__class__ is Array and list(got[k]) == list(
                     value[k] or ()))
    stable(vc, meta, got)
    rs = list(got.rows())
    vc.check("its rows are the columns", len(rs) == lens.pop() and all(
        rs[i] == [got[k][i] for k in full] == got[i]
        for i in range(len(rs))))
    if rs:
        t = type(got).from_rows(rs)
        back = vc.call(meta.validate, t)
        vc.check("a table made of its rows is the same",
                 back.ok and same(back.value, got))


@harness("C05", functions=[M + "MapMeta.validate", M + "MapMeta.set_elements",
                           M + "MapMeta.set_required",
                           M + "MethodMeta.set_defaults"], rand=60,
         max_paths=6000, covers=["accepted", "refused"],
         bounded="maps of 3 elements, any of them required and given, wrong "
         "or unknown")
def maps(vc):
    els = {"a": NumberMeta("int32"), "b": StringMeta(), "c": BooleanMeta()}
    required = [k for k in els if vc.flag("required " + k)]
    meta = MapMeta(dict(els), required)
    given = {}
    bad = False
    vals = {"a": (0, "rubbish"), "b": ("x", None), "c": (False, [])}
    for k in ("c", "a", "b"):
        s = vc.choice("given " + k, ["no", "good", "other"])
        if s == "good":
            given[k] = vals[k][0]
        elif s == "other":
            given[k] = vals[k][1]
            bad = bad or k in ("a", "c")
    unknown = vc.flag("unknown")
    if unknown:
        given["zz"] = 1
    add = vc.flag("add missing")
    out = vc.call(meta.validate, dict(given) or None, add)
    vc.cover("accepted" if out.ok else "refused")
    missing = [k for k in required if k not in given]
    vc.check("exactly known, valid and complete parameters are accepted",
             out.ok == (not bad and not unknown and (add or not missing)))
    if not out.ok:
        return
    want = [k for k in els if k in given or add]
    vc.check("in the order of the elements, no more and no less",
             list(out.value) == want)
    for k, v in out.value.items():
        vc.check("each is validated", same(v, els[k].validate(given.get(k))))
    if not add:
        md = MethodMeta(meta, given)
        vc.check("defaults are kept as validated",
                 same(dict(md.defaults), {k: out.value[k] for k in given}))


def attr(kind):
    if kind == "num":
        return NumberMeta("int32").create_attribute_model(3)
    if kind == "str":
        return StringMeta().create_attribute_model("s")
    if kind == "choice":
        return ChoiceMeta("d", ["a", "b"]).create_attribute_model("b")
    if kind == "bool":
        return BooleanMeta().create_attribute_model(True)
    if kind == "nums":
        return NumberArrayMeta("uint8").create_attribute_model([1, 2])
    if kind == "strs":
        return StringArrayMeta().create_attribute_model(["a"])
    return table_meta(False).create_attribute_model(COLS)


@harness("C05", functions=[M + "AttributeModel.set_value",
                           M + "AttributeModel.set_value_alarm_ts",
                           M + "AttributeModel.set_alarm",
                           M + "AttributeModel.set_timeStamp",
                           M + "NTTable.set_value_alarm_ts"], rand=60,
         max_paths=6000, covers=["set", "refused"],
         bounded="an attribute of every meta, any of 30 values, alarm and "
         "timestamp given or not")
def attributes(vc):
    kind = vc.choice("meta", ["num", "str", "choice", "bool", "nums", "strs",
                              "table"])
    a = attr(kind)
    a.set_alarm(Alarm.major("before"))
    a.set_timeStamp(TimeStamp(5, 6))
    old = (a.value, a.alarm, a.timeStamp)
    v = vc.choice("value", [None, 5, -1, 2 ** 40, "a", "b", "zz", [1], [300],
                            ["a", "b"], [], True, 1.5, COLS, {}, {"n": ["q"]},
                            dict(COLS, i=[1]), dict(COLS, i=[3, 4])])
    how = vc.choice("how", ["plain", "alarm", "ts", "both", "dicts",
                            "no alarm"])
    al, ts = Alarm.invalid("now"), TimeStamp(100, 200)
    k = {}
    if how in ("alarm", "both"):
        k["alarm"] = al
    if how in ("ts", "both"):
        k["ts"] = ts
    if how == "dicts":
        k = dict(alarm=al.to_dict(), ts=ts.to_dict())
    if how == "no alarm":
        k = dict(set_alarm_ts=False)
    want = vc.call(a.meta.validate, v)
    out = vc.call(a.set_value, v, **k)
    vc.cover("set" if out.ok else "refused")
    vc.check("exactly valid values can be set", out.ok == want.ok)
    if not out.ok:
        vc.check("a refused value leaves everything as it was",
                 a.value is old[0] and a.alarm is old[1]
                 and a.timeStamp is old[2])
        return
    vc.check("the value is the validated one",
             same(a.value, want.value) and same(out.value, want.value))
    if how == "no alarm":
        vc.check("alarm and time are left", a.alarm is old[1]
                 and a.timeStamp is old[2])
        return
    vc.check("the alarm is the one given, or none", a.alarm == (
        al if "alarm" in k else Alarm.ok))
    if "ts" in k:
        vc.check("the time is the one given",
                 a.timeStamp.to_dict() == ts.to_dict())
    else:
        vc.check("the time is now", a.timeStamp.secondsPastEpoch > 10 ** 9)


class Any_:
    """Stands for any value: it can only be passed on"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name


@harness("C05", functions=[M + "AttributeModel.set_value",
                           M + "AttributeModel.set_value_alarm_ts",
                           M + "AttributeModel.set_alarm",
                           M + "AttributeModel.set_timeStamp",
                           M + "AttributeModel.apply_change",
                           M + "Model.set_endpoint_data"], rand=300,
         max_paths=4000, covers=["set", "refused"],
         note="any value, validation replaced by its contract: it gives some "
         "value or refuses")
def attribute_frame(vc):
    kind = vc.choice("meta", ["num", "str", "choice", "bool", "nums", "strs"])
    a = attr(kind)
    a.set_alarm(Alarm.major("before"))
    a.set_timeStamp(TimeStamp(5, 6))
    old = (a.value, a.alarm, a.timeStamp)
    given, valid = Any_("given"), Any_("validated")
    error = vc.choice("refused by", [None, ValueError, AssertionError,
                                     TypeError, KeyError, OverflowError])
    asked = []

    def validate(value):
        asked.append(value)
        if error:
            raise error("no")
        return valid
    vc.patch(type(a.meta), "validate", lambda self, v: validate(v))
    al = vc.choice("alarm", ["none", "alarm", "dict", "same", "wrong"])
    ts = vc.choice("time", ["none", "time", "dict", "wrong"])
    alarms = dict(none=None, alarm=Alarm.invalid("now"), same=old[1],
                  dict=Alarm.invalid("now").to_dict(), wrong=TimeStamp(3, 4))
    times = dict(none=None, time=TimeStamp(100, 200), wrong=Alarm.ok,
                 dict=TimeStamp(100, 200).to_dict())
    k = {}
    if al != "none":
        k["alarm"] = alarms[al]
    if ts != "none":
        k["ts"] = times[ts]
    how = vc.choice("how", ["set_value", "without", "apply_change"])
    if how == "set_value":
        out = vc.call(a.set_value, given, **k)
    elif how == "without":
        out = vc.call(a.set_value, given, set_alarm_ts=False, **k)
    else:
        out = vc.call(a.apply_change, ["value"], given)
    bad = error or (how == "set_value" and "wrong" in (al, ts))
    vc.check("what was given is what is validated",
             all(x is given for x in asked) and (asked or not out.ok))
    vc.check("refused exactly when value, alarm or time cannot be",
             out.ok == (not bad))
    if not out.ok:
        vc.cover("refused")
        vc.check("a refused value leaves everything as it was",
                 a.value is old[0] and a.alarm is old[1]
                 and a.timeStamp is old[2])
        return
    vc.cover("set")
    vc.check("the value is the validated one", a.value is valid)
    if how != "set_value":
        vc.check("alarm and time are left",
                 a.alarm is old[1] and a.timeStamp is old[2])
        return
    want = {"none": Alarm.ok, "same": old[1]}.get(al, alarms["alarm"])
    vc.check("the alarm is the one given, or none", a.alarm == want)
    if ts == "none":
        vc.check("the time is now", a.timeStamp.secondsPastEpoch > 10 ** 9)
    else:
        vc.check("the time is the one given",
                 a.timeStamp.to_dict() == times["time"].to_dict())


def structures():
    yield Alarm.ok
    for s in AlarmSeverity:
        for t in AlarmStatus:
            yield Alarm(s, t, "message %s" % s)
    yield TimeStamp()
    yield TimeStamp.zero
    yield TimeStamp(2 ** 40, 999999999, np.int32(7))
    yield Display(1.5, 2.5, "d", 3, "mm")
    for m in (NumberMeta("uint16", "d", ["t"], True, "l",
                         Display(units="s")), StringMeta("d", ["a", "b"]),
              BooleanMeta("b", writeable=True), ChoiceMeta("c", ["x", ""]),
              ChoiceMeta("c", list(Colour)), ChoiceMeta("c"),
              NumberArrayMeta("float32", "n"), BooleanArrayMeta("b"),
              StringArrayMeta("s"), ChoiceArrayMeta("c", ["q"]),
              table_meta(False)):
        yield m
        yield m.create_attribute_model()
    yield attr("table")
    yield attr("nums")
    mm = MapMeta({"a": NumberMeta("int32"), "b": StringMeta()}, ["a"])
    yield mm
    meth = MethodMeta(mm, {"a": 4}, "m", ["t"], True, "l",
                      MapMeta({"r": BooleanMeta()}, ["r"]))
    yield meth
    yield MethodModel(meta=meth)
    yield MethodMeta(MapMeta({"a": NumberMeta("int32"), "b": StringMeta(),
                              "c": BooleanMeta()}),
                     {"a": 0, "b": "", "c": False})
    yield MethodModel(MethodLog({"a": 5}, ["a"], Alarm.major("x"),
                                TimeStamp(4, 5)), meta=meth)
    yield BlockMeta("d", ["t"], False, "l", ["f"])


@harness("C05", functions=[M + "Meta.__init__", M + "NumberMeta.__init__",
                           M + "ChoiceMeta.__init__", M + "TableMeta.__init__",
                           M + "MethodMeta.__init__",
                           M + "MethodModel.__init__",
                           M + "AttributeModel.__init__",
                           M + "Display.__init__", "malcolm.core.alarm:"
                           "Alarm.__init__", "malcolm.core.timestamp:"
                           "TimeStamp.__init__"], rand=30, max_paths=500,
         bounded="one or more of every structure that is sent to clients")
def structures_survive(vc):
    s = vc.choice("structure", list(structures()))
    text = json_encode(s)
    back = vc.call(deserialize_object, json_decode(text))
    vc.check("a structure that is sent can be read back", back.ok)
    if not back.ok:
        return
    vc.check("as the same class", type(back.value) is type(s))
    vc.check("with the same content", json_encode(back.value) == text)
    vc.check("and no field is lost",
             [k for k in json.loads(text) if k != "typeid"]
             == list(s.call_types))


@harness("C05", functions=["malcolm.core.timestamp:TimeStamp.to_time",
                           "malcolm.core.timestamp:TimeStamp.__init__"],
         rand=300, concrete_only=True, bounded="seeded random times")
def time_of(vc):
    import malcolm.core.timestamp as mod

    class FakeTime:
        now = 0.0

        @staticmethod
        def time():
            return FakeTime.now

    FakeTime.now = vc.real("now", 0, 4e9)
    vc.stub(mod, "time", FakeTime)
    t = TimeStamp()
    vc.check("a timestamp is the time it was made",
             abs(t.to_time() - FakeTime.now) < 1e-6)
    vc.check("with nanoseconds of a second",
             0 <= t.nanoseconds < 10 ** 9)


@harness("C05", functions=["malcolm.core.table:Table.__eq__",
                           "malcolm.core.table:Table.__ne__"], rand=40,
         max_paths=4000, covers=["equal", "different"],
         bounded="pairs of tables of up to 3 rows, of number, string and "
         "boolean columns")
def tables_equal(vc):
    """tables are equal exactly when all their columns are"""
    tm = TableMeta("t", elements={
        "s": StringArrayMeta("s"), "n": NumberArrayMeta("float64", "n"),
        "b": BooleanArrayMeta("b")})
    cols = {"s": [[], ["a"], ["a", "a"], ["a", "b", "c"]],
            "n": [[], [1], [1, 1], [1, 2, 3]],
            "b": [[], [True], [True, True], [True, False, True]]}
    raw = []
    for i in (0, 1):
        n = vc.choice("rows%d" % i, range(4))
        raw.append({k: list(v[n]) for k, v in cols.items()})
    k = vc.choice("changed", ["", "s", "n", "b"])
    if k and raw[1][k]:
        raw[1][k][-1] = {"s": "z", "n": 9, "b": False}[k]
    a, b = [tm.validate(r) for r in raw]
    want = raw[0] == raw[1]
    vc.cover("equal" if want else "different")
    vc.check("equality is of all the columns",
             (a == b) is want and (a != b) is (not want) and
             (b == a) is want)
    vc.check("a table is not something else", a != raw[0] and a != None)  # noqa
