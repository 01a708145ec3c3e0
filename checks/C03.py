"""Only valid requests reach the functions of a block."""
import json

from annotypes import json_encode

from pyvc.api import harness
from checks.C02 import Opaque
from checks.reqlib import KINDS, World

from malcolm.core import AlarmSeverity, Error, Get, Post, Put, Return
from malcolm.core.models import MethodLog

C = "malcolm.core.controller"
M = "malcolm.core.models"
ASSUMPTIONS = [
    "the values tried are one representative of each way in which the "
    "validate() of the metas treats a value (the metas themselves: C05); "
    "function results are opaque",
]
PUT_FNS = [C + ":Controller._handle_put",
           C + ":Controller.check_field_writeable",
           C + ":Controller.get_put_function",
           "malcolm.modules.builtin.controllers.statefulcontroller:"
           "StatefulController.check_field_writeable"]
POST_FNS = [C + ":Controller._handle_post",
            C + ":Controller.update_method_logs",
            C + ":Controller.get_post_function", M + ":MapMeta.validate",
            M + ":MethodModel.set_took", M + ":MethodModel.set_returned"]
BAD = object()
VALUES = {
    "num": [(7, 7), ("12", 12), (None, 0), ("nonsense", BAD), ({}, BAD),
            (-3, -3)],
    "text": [("x", "x"), (None, ""), (5, "5"), ("", "")],
    "choice": [("a", "a"), ("b", "b"), (1, "b"), (None, "a"), ("c", BAD),
               (2, BAD)],
    "flag": [(True, True), ("no", False), (0, False), ("False", False),
             ("yes", True), (None, False)],
}


def content(w):
    return json.loads(json_encode(w.c._block))


@harness("C03", functions=PUT_FNS, rand=400, max_paths=20000, budget=200,
         covers=["done", "refused", "failed"])
def put(vc):
    w = World(vc, vc.choice("controller", ["plain", "stateful"]))
    target = vc.choice("target", list(VALUES) + [
        "ro", "meth", "romet", "missing", "meta"])
    value, want = vc.choice("value", VALUES.get(target, VALUES["text"]))
    writeable = vc.flag("writeable")
    if target in VALUES:
        w.attrs[target].meta.set_writeable(writeable)
    get = vc.flag("get")
    long_path = vc.flag("with .value")
    outcome = vc.choice("outcome", ["sets", "none", "value", "raises",
                                    "raises any",
                                    "zero", "empty", "false"])
    res = {"zero": 0, "empty": "", "false": False}.get(
        outcome, Opaque("result"))
    if outcome in ("value", "zero", "empty", "false"):
        outcome = "value"
        w.put.result = res
    elif outcome in KINDS:
        w.put.exc = KINDS[outcome]("it failed")
        outcome = "raises"
    elif outcome == "sets" and target in VALUES:
        w.put.then = w.attrs[target].set_value
    before = content(w)
    w.send(Put(id=1, path=["mri", target] + ["value"] * long_path,
               value=value, get=get))
    ok = target in VALUES and writeable and want is not BAD
    if not ok:
        vc.cover("refused")
        vc.check("a refused Put reaches no function",
                 w.put.calls == [] and w.post.calls == [])
        vc.check("a refused Put is answered by an Error",
                 [type(x) for x in w.out] == [Error])
        vc.check("a refused Put changes nothing", content(w) == before)
        return
    vc.check("the function is called once with the validated value alone",
             len(w.put.calls) == 1 and w.put.calls[0] == ((want,), {})
             and w.post.calls == [])
    if w.put.calls:
        vc.check("the value has the attribute's type",
                 type(w.put.calls[0][0][0])
                 is type(w.attrs[target].value))
    if outcome == "raises":
        vc.cover("failed")
        vc.check("a failed Put is answered by its Error",
                 [type(x) for x in w.out] == [Error]
                 and w.out[0].message is w.put.exc)
        vc.check("a failed Put changes nothing by itself",
                 content(w) == before)
        return
    vc.cover("done")
    vc.check("an accepted Put is answered by a Return",
             [type(x) for x in w.out] == [Return])
    if not w.out:
        return
    v = w.out[0].value
    if not get:
        vc.check("without get, nothing is returned", v is None)
    elif outcome == "value":
        vc.check("with get, the result of the function", v is res)
    else:
        vc.check("with get and no result, the current value",
                 v == w.attrs[target].value)
    if outcome != "sets":
        vc.check("nothing but the function changes the block",
                 content(w) == before)
    else:
        vc.check("the attribute has the value",
                 w.attrs[target].value == want)


PARAMS = [
    (None, BAD), ({}, BAD), ({"p": "x"}, {"p": "x"}),
    ({"p": None}, {"p": ""}),
    ({"q": 2, "p": 4}, {"p": "4", "q": 2}),
    ({"p": "x", "q": "nonsense"}, BAD), ({"q": 1, "r": True}, BAD),
    ({"p": "x", "zz": 1}, BAD), ({"zz": 1}, BAD),
    ({"r": "no", "p": "x"}, {"p": "x", "r": False}),
    ({"p": "x", "q": 1, "r": 1}, {"p": "x", "q": 1, "r": True}),
]
DEFAULTS = {"p": "", "q": 0, "r": False}


@harness("C03", functions=POST_FNS, rand=400, max_paths=20000, budget=200,
         covers=["done", "refused", "failed"])
def post(vc):
    returns = vc.choice("returns", ["none", "unpacked", "map"])
    w = World(vc, vc.choice("controller", ["plain", "stateful"]), returns)
    target = vc.choice("target", ["meth", "romet", "num", "missing", "meta"])
    writeable = vc.flag("writeable")
    w.meth.meta.set_writeable(writeable)
    params, want = vc.choice("params", PARAMS)
    outcome = vc.choice("outcome", ["none", "value", "raises", "more",
                                    "raises any",
                                    "zero", "empty"])
    falsy = outcome in ("zero", "empty")
    if falsy and returns != "unpacked":
        vc.assume(False)
    ret_value, ret_present = {}, []
    bad_result = False
    if outcome in KINDS:
        w.post.exc = KINDS[outcome]("it failed")
        outcome = "raises"
        ret_value = {"none": {}, "unpacked": {"return": ""},
                     "map": {"u": "", "v": 0}}[returns]
    elif returns == "unpacked":
        ret_present = ["return"]
        w.post.result = {"none": None, "value": "res", "more": 12,
                         "zero": 0, "empty": ""}[outcome]
        ret_value = {"return": {"none": "", "value": "res",
                                "more": "12", "zero": "0",
                                "empty": ""}[outcome]}
    elif returns == "map":
        w.post.result = {"none": None, "value": {"u": "U"},
                         "more": {"v": 4, "u": "U"}}[outcome]
        ret_present = {"none": [], "value": ["u"],
                       "more": ["u", "v"]}[outcome]
        ret_value = {"none": {"u": "", "v": 0}, "value": {"u": "U", "v": 0},
                     "more": {"u": "U", "v": 4}}[outcome]
    elif outcome == "value":
        w.post.result = {}
    elif outcome == "more":
        # result that does not fit the description of the method
        w.post.result = {"extra": 1}
        bad_result = True
    before = content(w)
    w.send(Post(id=1, path=["mri", target], parameters=params))
    ok = target == "meth" and writeable and want is not BAD
    if not ok:
        vc.cover("refused")
        vc.check("a refused Post reaches no function",
                 w.put.calls == [] and w.post.calls == [])
        vc.check("a refused Post is answered by an Error",
                 [type(x) for x in w.out] == [Error])
        vc.check("a refused Post changes nothing", content(w) == before)
        return
    vc.check("the function is called once with the validated arguments",
             len(w.post.calls) == 1 and w.post.calls[0] == ((), dict(want))
             and w.put.calls == [])
    if bad_result:
        vc.check("a result that does not fit is an Error",
                 [type(x) for x in w.out] == [Error])
        return
    took, returned = w.meth.took, w.meth.returned
    vc.check("took: the arguments, the rest by default",
             dict(took.value) == dict(DEFAULTS, **want))
    vc.check("took: which were given",
             list(took.present) == [k for k in "pqr" if k in want])
    vc.check("took: in the order of the description",
             list(took.value) == ["p", "q", "r"])
    vc.check("returned: the value", dict(returned.value) == ret_value)
    vc.check("returned: which were given",
             list(returned.present) == ret_present)
    vc.check("took before returned", json.loads(json_encode(
        took.timeStamp))["secondsPastEpoch"] > 0)
    if outcome == "raises":
        vc.cover("failed")
        vc.check("the alarm tells of the failure",
                 returned.alarm.severity == AlarmSeverity.MAJOR_ALARM
                 and "it failed" in returned.alarm.message)
        vc.check("a failed Post is answered by its Error",
                 [type(x) for x in w.out] == [Error]
                 and w.out[0].message is w.post.exc)
    else:
        vc.cover("done")
        vc.check("no alarm", returned.alarm.severity
                 == AlarmSeverity.NO_ALARM)
        vc.check("the result is returned",
                 [type(x) for x in w.out] == [Return]
                 and w.out[0].value is w.post.result)


@harness("C03", functions=[C + ":Controller._handle_get"], rand=60,
         covers=["there", "missing"])
def get(vc):
    w = World(vc)
    path = vc.choice("path", [
        [], ["num"], ["num", "value"], ["num", "meta"], ["num", "meta", "dtype"],
        ["num", "missing"], ["missing"], ["meth"], ["meth", "meta"],
        ["meth", "meta", "takes"], ["meta", "fields"], ["num", "value", "x"],
        ["num", "alarm", "severity"], ["meth", "meta", "takes", "zz"]])
    d = content(w)
    before = content(w)
    try:
        for p in path:
            d = d[p]
    except (KeyError, TypeError):
        d = BAD
    w.send(Get(id=1, path=["mri"] + path))
    if d is BAD:
        vc.cover("missing")
        vc.check("a Get of what is not there is an Error",
                 [type(x) for x in w.out] == [Error])
    else:
        vc.cover("there")
        vc.check("a Get returns what is there",
                 [type(x) for x in w.out] == [Return]
                 and json.loads(json_encode(w.out[0].value)) == d)
    vc.check("a Get changes nothing and calls nothing",
             content(w) == before and not w.put.calls and not w.post.calls)
