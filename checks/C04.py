"""Subscriptions: the copy a subscriber builds equals the block."""
from pyvc.api import harness
from checks.blocklib import OPS, PATHS, World, plain, strip

from malcolm.core import Delta, Error, Return, Update
from malcolm.core import Subscribe, Unsubscribe
from malcolm.core.notifier import Notifier, NotifierNode

N = "malcolm.core.notifier"
LEVEL = "exploration"
ASSUMPTIONS = [
    "the block under test has a scalar, a boolean, a table attribute and a "
    "method with nested metas; operations change any part of it",
    "callbacks do not raise",
]


class Sub:
    """A client that keeps a copy from the responses it gets"""

    def __init__(self, world, path, delta, id):
        self.world, self.path, self.id = world, path, id
        self.responses = []
        self.copy = None
        self.bad = []
        r = Subscribe(id=id, path=["mri"] + path, delta=delta)
        r.set_callback(self.on)
        self.delta = delta
        self.request = r
        world.c.handle_request(r)

    def on(self, response):
        self.responses.append(response)
        if response.id != self.id:
            self.bad.append("wrong id")
        if isinstance(response, Update) and not self.delta:
            self.copy = strip(plain(response.value))
        elif isinstance(response, Delta) and self.delta:
            for change in response.changes:
                path = list(change[0])
                val = strip(plain(change[1])) if len(change) == 2 else None
                if not path:
                    self.copy = val
                    continue
                d = self.copy
                try:
                    for p in path[:-1]:
                        d = d[p]
                    if len(change) == 2:
                        d[path[-1]] = val
                    else:
                        d.pop(path[-1], None)
                except (KeyError, TypeError) as e:
                    self.bad.append("delta does not apply: %s" % path)
        elif not isinstance(response, Return):
            self.bad.append("unexpected %s" % type(response).__name__)


def sent(w, s, name, op, before, n):
    """one message for each change of what is subscribed to, none for a change
    of another field"""
    vc = w.vc
    got = len(s.responses) - n
    if w.get(s.path) != before:
        vc.check("%s: a change is sent exactly once" % name, got == 1)
    elif s.path and not op.startswith(("add", "remove", "replace")) \
            and not op.startswith((s.path[0], {"meth": "takes"}.get(
                s.path[0], "-"), {"meth": "element"}.get(s.path[0], "-"))):
        vc.check("%s: nothing is sent for a change of another field" % name,
                 got == 0)
    else:
        vc.check("%s: at most one message for one change" % name, got <= 1)


def consistent(w, s, name):
    vc = w.vc
    vc.check("%s: copy equals what a Get returns" % name,
             s.copy == w.get(s.path))
    vc.check("%s: responses carry the id and apply" % name, not s.bad)
    if s.copy is not None and not s.path:
        vc.check("%s: the block lists its fields" % name,
                 sorted(s.copy["meta"]["fields"]) == sorted(
                     k for k in s.copy if k not in ("typeid", "meta")))


FNS = [N + ":Notifier.handle_subscribe", N + ":Notifier.handle_unsubscribe",
       N + ":Notifier.__exit__", N + ":NotifierNode.notify_changes",
       N + ":NotifierNode._add_child_change", N + ":NotifierNode._update_data",
       N + ":NotifierNode.handle_subscribe",
       N + ":NotifierNode.handle_unsubscribe", N + ":freeze",
       "malcolm.core.models:Model.set_endpoint_data",
       "malcolm.core.models:AttributeModel.set_value_alarm_ts",
       "malcolm.core.models:NTTable.set_value_alarm_ts",
       "malcolm.core.models:BlockModel.set_endpoint_data",
       "malcolm.core.models:BlockModel.remove_endpoint",
       "malcolm.core.models:Model.set_notifier_path"]


@harness("C04", functions=FNS, rand=250, max_paths=9000, budget=200,
         bounded="every subscription path x update/delta x pair of "
         "operations on the block, squashed or not",
         covers=["squashed", "separate"])
def two_changes(vc):
    w = World(vc)
    path = vc.choice("path", PATHS)
    delta = vc.flag("delta")
    s = Sub(w, path, delta, 7)
    vc.check("a subscription is answered at once", len(s.responses) == 1)
    consistent(w, s, "initially")
    a = vc.choice("first", OPS)
    b = vc.choice("second", OPS)
    n = len(s.responses)
    if vc.flag("squash"):
        vc.cover("squashed")
        with w.c.changes_squashed:
            w.op(a)
            vc.check("nothing is sent while changes are squashed",
                     len(s.responses) == n)
            w.op(b)
        vc.check("squashed changes arrive as at most one response",
                 len(s.responses) <= n + 1)
        consistent(w, s, "after squashed changes")
    else:
        vc.cover("separate")
        before = w.get(path)
        w.op(a)
        consistent(w, s, "after a change")
        sent(w, s, "after a change", a, before, n)
        before, n = w.get(path), len(s.responses)
        w.op(b)
        consistent(w, s, "after two changes")
        sent(w, s, "after two changes", b, before, n)


@harness("C04", functions=FNS, rand=100, max_paths=3000,
         bounded="every path of the block, two subscribers")
def unsubscribing(vc):
    w = World(vc)
    path = vc.choice("path", PATHS)
    delta = vc.flag("delta")
    other = vc.choice("other", PATHS)
    # ids are only unique for one client
    s = Sub(w, path, delta, 7)
    o = Sub(w, other, vc.flag("other delta"), vc.choice("other id", [7, 8]))
    n, m = len(s.responses), len(o.responses)

    def unsub(cb, id):
        u = Unsubscribe(id=id)
        u.set_callback(cb)
        w.c.handle_request(u)

    what = vc.choice("what", ["unknown", "once", "twice"])
    if what == "unknown":
        out = []
        unsub(out.append, 7)
        unsub(out.append, 9)
        vc.check("unknown unsubscribes are answered by Errors",
                 [type(x) for x in out] == [Error] * 2
                 and [x.id for x in out] == [7, 9])
        w.op("replace num")
        w.op("tab.value")
        consistent(w, s, "after an unknown unsubscribe")
        return
    unsub(s.on, 7)
    vc.check("unsubscribing is answered by one Return with its id",
             len(s.responses) == n + 1 and isinstance(s.responses[-1], Return)
             and s.responses[-1].id == 7)
    if what == "twice":
        r = s.responses
        s.bad, k = [], len(r)
        out = []
        s_on, s.on = s.on, None
        u = Unsubscribe(id=7)
        u.set_callback(s_on)
        w.c.handle_request(u)
        vc.check("a second unsubscribe is answered by an Error",
                 len(r) == k + 1 and isinstance(r[-1], Error))
    n = len(s.responses)
    for op in ["num.value", "tab.value", "element.label", "add extra",
               "replace num", "flag.writeable"]:
        w.op(op)
    vc.check("nothing is sent after unsubscribing", len(s.responses) == n)
    consistent(w, o, "the other subscriber")


@harness("C04", functions=FNS, concrete_only=True, rand=400,
         bounded="seeded random histories: up to 5 subscribers, 14 "
         "operations, nested squashing, unsubscribing")
def history(vc):
    w = World(vc)
    subs = [Sub(w, vc.choice("path", PATHS), vc.flag("delta"), 10 + i)
            for i in range(vc.choice("subscribers", [1, 2, 3, 4, 5]))]
    gone = []
    for step in range(vc.choice("steps", range(1, 15))):
        kind = vc.choice("kind", ["op", "op", "op", "squash", "nested",
                                  "unsubscribe", "subscribe"])
        if kind == "op":
            w.op(vc.choice("op", OPS))
        elif kind == "squash":
            with w.c.changes_squashed:
                for _ in range(vc.choice("n", [1, 2, 3])):
                    w.op(vc.choice("op", OPS))
        elif kind == "nested":
            with w.c.changes_squashed:
                w.op(vc.choice("op", OPS))
                with w.c.changes_squashed:
                    w.op(vc.choice("op", OPS))
                w.op(vc.choice("op", OPS))
        elif kind == "subscribe":
            subs.append(Sub(w, vc.choice("path", PATHS), vc.flag("delta"),
                            100 + step))
        elif subs:
            s = vc.choice("which", subs)
            subs.remove(s)
            n = len(s.responses)
            u = Unsubscribe(id=s.id)
            u.set_callback(s.on)
            w.c.handle_request(u)
            vc.check("unsubscribing is answered by one Return",
                     len(s.responses) == n + 1
                     and isinstance(s.responses[-1], Return))
            gone.append((s, len(s.responses)))
        for s in subs:
            consistent(w, s, "history")
        for s, n in gone:
            vc.check("nothing is sent after unsubscribing",
                     len(s.responses) == n)


# --- one node of the tree, whatever is below it -----------------------------
# The tree of subscriptions is verified node by node: what is below a child is
# known only by its contract (it is handed requests, changes and its data, and
# returns responses), so depth, data and number of subscribers are unbounded.

class Tail:
    """Any path below the first name"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<any path %s>" % self.n


class FakePath:
    """A path that starts with name: all that can be done is to take the name
    off"""

    def __init__(self, name, tail):
        self.name, self.tail = name, tail

    def __bool__(self):
        return True

    def __getitem__(self, i):
        if i == 0:
            return self.name
        if isinstance(i, slice) and (i.start, i.stop, i.step) == (
                1, None, None):
            return self.tail
        raise AssertionError("'FakePath' is only known by its first name")


class Thing:
    """Data that can only be passed on"""

    def __init__(self, name, **children):
        self._name = name
        self.__dict__.update(children)

    def __repr__(self):
        return "<%s>" % self._name


class FakeChild:
    """A node below: its contract"""

    def __init__(self, data=None, busy=True):
        self.data, self.calls = data, []
        self.children = {"x": None} if busy else {}
        self.update_requests, self.delta_requests = [], []
        self.out = Thing("responses")

    def note(self, *call):
        self.calls.append(call)
        return [self.out]

    def handle_subscribe(self, request, path):
        return self.note("subscribe", request, path)

    def handle_unsubscribe(self, request, path):
        self.children = dict(self.left)
        return self.note("unsubscribe", request, path)

    def notify_changes(self, changes, data=None):
        return self.note("notify", [list(c) for c in changes], data)


class FakeRequest:
    """A subscription"""

    def __init__(self, delta):
        self.delta = delta

    def update_response(self, value):
        return ("update", self, value)

    def delta_response(self, changes):
        return ("delta", self, [list(c) for c in changes])

    def return_response(self, value=None):
        return ("return", self, value)


def some_data(vc, name):
    """(data, what it holds for a, b): an object or a mapping, any of its
    children there or not"""
    kids = {k: Thing("%s of %s" % (k, name)) for k in "ab"
            if vc.flag("%s has %s" % (name, k))}
    if vc.flag("%s is a mapping" % name):
        return dict(kids), kids
    return Thing(name, **kids), kids


def same(x, y):
    """the same data, frozen or not"""
    if isinstance(x, dict) and isinstance(y, dict):
        return list(x) == list(y) and all(x[k] is y[k] for k in x)
    return x is y


def some_node(vc, kids="ab"):
    data, holds = some_data(vc, "data")
    node = NotifierNode(data)
    # one of them stands for any number of them
    node.update_requests = [FakeRequest(False)
                            for _ in range(vc.choice("updates", [0, 1]))]
    node.delta_requests = [FakeRequest(True)
                           for _ in range(vc.choice("deltas", [0, 1]))]
    for k in kids:
        if vc.flag("child " + k):
            node.children[k] = FakeChild(holds.get(k))
    return node, data, holds


def requests(node):
    return list(node.update_requests), list(node.delta_requests)


@harness("C04", functions=[N + ":NotifierNode.handle_subscribe",
                           N + ":NotifierNode.handle_unsubscribe",
                           N + ":get_child_data", N + ":freeze"],
         rand=150, max_paths=3000, covers=["here", "below", "new child"])
def node_subscribe(vc):
    node, data, holds = some_node(vc)
    made = []
    real = NotifierNode.handle_subscribe

    def below(self, request, path):
        made.append((self, request, path))
        return [("below",)]

    vc.patch(NotifierNode, "handle_subscribe", below)
    r = FakeRequest(vc.flag("delta"))
    before, kids = requests(node), dict(node.children)
    if vc.flag("here"):
        vc.cover("here")
        out = real(node, r, [])
        vc.check("the first response is all of the data", len(out) == 1
                 and out[0][0] == ("delta" if r.delta else "update")
                 and out[0][1] is r)
        if len(out) == 1:
            got = out[0][2]
            vc.check("as the node holds it", len(got) == 1 and list(
                got[0][0]) == [] and same(got[0][1], data)
                if r.delta else same(got, data))
        u, d = before
        vc.check("and it is added to those of its kind", requests(node) == (
            (u, d + [r]) if r.delta else (u + [r], d)))
        vc.check("nothing else changes", node.children == kids)
        out = node.handle_unsubscribe(r, [])
        vc.check("a Return when it ends", out == [("return", r, None)])
        vc.check("and only it is taken away",
                 requests(node) == before and node.children == kids)
        return
    name = vc.choice("name", ["a", "b"])
    tail = Tail(1)
    out = real(node, r, FakePath(name, tail))
    vc.check("the subscriptions here stay", requests(node) == before)
    vc.check("the other children too", all(
        node.children.get(k) is kids.get(k) for k in "ab" if k != name)
        and set(node.children) == set(kids) | {name})
    if name in kids:
        vc.cover("below")
        c = kids[name]
        vc.check("it is handed down", c.calls == [("subscribe", r, tail)]
                 and out == [c.out] and not made
                 and node.children[name] is c)
    else:
        vc.cover("new child")
        vc.check("a node is made for it", len(made) == 1
                 and made[0] == (node.children[name], r, tail)
                 and out == [("below",)])
        c = node.children[name]
        vc.check("with the data that it has", c.data is holds.get(name)
                 and c.parent is node and requests(c) == ([], [])
                 and c.children == {})


@harness("C04", functions=[N + ":NotifierNode.handle_unsubscribe"],
         rand=60, max_paths=3000, covers=["kept", "dropped"])
def node_unsubscribe(vc):
    node, data, holds = some_node(vc, "a")
    name = "b"
    c = FakeChild(holds.get(name))
    node.children[name] = c
    c.left = {"x": None} if vc.flag("has nodes below") else {}
    if vc.flag("has updates"):
        c.update_requests = [FakeRequest(False)]
    if vc.flag("has deltas"):
        c.delta_requests = [FakeRequest(True)]
    used = bool(c.left or c.update_requests or c.delta_requests)
    before, kids, r, tail = requests(node), dict(node.children), FakeRequest(
        vc.flag("delta")), Tail(1)
    out = node.handle_unsubscribe(r, FakePath(name, tail))
    vc.check("it is handed down", c.calls == [("unsubscribe", r, tail)]
             and out == [c.out])
    vc.cover("kept" if used else "dropped")
    vc.check("a child with subscriptions stays",
             not used or node.children == kids)
    vc.check("the other children and subscriptions stay",
             requests(node) == before and all(
                 node.children.get(k) is kids[k] for k in kids if k != name))
    vc.check("and the data", node.data is data)


def some_change(vc, n):
    """-> (change, path name or None, tail, whole?, data, holds)"""
    where = vc.choice("change %d" % n, ["a", "b", "elsewhere", "here"])
    gone = vc.flag("deleted %d" % n)
    if where == "here":
        new, holds = (None, {}) if gone else some_data(vc, "new%d" % n)
        change = [[]] if gone else [[], new]
    else:
        new, holds = (None if gone else Thing("value %d" % n)), {}
        p = FakePath(where, Tail(n))
        change = [p] if gone else [p, new]
    return change, where, gone, new, holds


def contribution(change, where, gone, new, holds, k):
    """what a change of the node is for its child k, or None"""
    if where == "here":
        return [[], holds[k]] if k in holds else [[]]
    if where == k:
        return [change[0].tail] if gone else [change[0].tail, new]


def same_change(got, want):
    return len(got) == len(want) and all(
        (a == b == []) or a is b for a, b in zip(got, want))


@harness("C04", functions=[N + ":NotifierNode._add_child_change",
                           N + ":NotifierNode._update_data",
                           N + ":get_child_data"], rand=100,
         max_paths=6000, covers=["a", "b", "elsewhere", "here"])
def node_change(vc):
    """one more change, after any number of them"""
    data, holds = some_data(vc, "data")
    node = NotifierNode(data)
    changes = {}
    for k in "ab":
        if vc.flag("child " + k):
            node.children[k] = FakeChild(holds.get(k))
            if vc.flag("%s changed before" % k):
                changes[k] = [Thing("changes of %s before" % k)]
    before = {k: list(v) for k, v in changes.items()}
    kids = dict(node.children)
    c = some_change(vc, 1)
    change, where, gone, new, held = c
    vc.cover(where)
    given = list(change)
    node._add_child_change(change, changes)
    vc.check("the change stays as it is", same_change(change, given))
    vc.check("a change of all of it is its data from now on",
             node.data is (new if where == "here" else data))
    vc.check("the nodes below stay", node.children == kids)
    vc.check("only nodes that there are get changes",
             set(changes) <= set(kids))
    for k in kids:
        want = contribution(*c, k)
        had, got = before.get(k, []), changes.get(k, [])
        n = len(had)
        vc.check("what changed before comes first", got[:n] == had)
        if want is None:
            vc.check("nothing for a node that it is not for", len(got) == n)
        else:
            vc.check("then what this change is for it", len(got) == n + 1
                     and same_change(got[-1], want))


@harness("C04", functions=[N + ":NotifierNode.notify_changes",
                           N + ":NotifierNode._add_child_change",
                           N + ":NotifierNode._update_data"], rand=400,
         concrete_only=True, covers=["changed", "nothing"],
         bounded="one node with up to 4 changes at once, any data and "
         "anything below (seeded sample)")
def node_notify(vc):
    node, data, holds = some_node(vc)
    cs = [some_change(vc, i) for i in range(vc.choice(
        "changes", [0, 1, 1, 2, 3, 4]))]
    # what the node holds afterwards is what its parent says, if it does
    now, held = data, holds
    for c in cs:
        if c[1] == "here":
            now, held = c[3], c[4]
    given = None
    if vc.flag("data from the parent"):
        given, held = some_data(vc, "given")
        now = given
    kids = dict(node.children)
    before = requests(node)
    out = node.notify_changes([list(c[0]) for c in cs], given)
    vc.cover("changed" if cs else "nothing")
    vc.check("what it holds is what it should", node.data is now)
    vc.check("subscriptions stay", requests(node) == before
             and node.children == kids)
    want = [("update", r) for r in before[0]] + [
        ("delta", r) for r in before[1]]
    mine = [x for x in out if isinstance(x, tuple)]
    vc.check("every subscriber here is told once", sorted(
        (x[0], id(x[1])) for x in mine) == sorted(
            (k, id(r)) for k, r in want))
    for kind, r, v in mine:
        if kind == "update":
            vc.check("of all the data", same(v, now))
        else:
            vc.check("of all of the changes in order", len(v) == len(
                cs) and all(
                len(x) == len(c[0]) and (x[0] is c[0][0] or x[0] == [])
                and (len(x) == 1 or same(x[1], c[3]))
                for x, c in zip(v, cs)))
    for k, c in kids.items():
        want = [w for w in (contribution(*x, k) for x in cs)
                if w is not None]
        if not want:
            vc.check("a child that did not change is not told",
                     not c.calls)
            continue
        vc.check("a child that did is told once", len(c.calls) == 1
                 and out.count(c.out) == 1)
        if len(c.calls) == 1:
            what, got, d = c.calls[0]
            vc.check("of its changes in order", len(got) == len(want) and all(
                same_change(g, w) for g, w in zip(got, want)))
            vc.check("with what it holds now", d is held.get(k))


class FakeLock:
    def __init__(self):
        self.depth = 0

    def acquire(self, *a):
        self.depth += 1

    def release(self):
        self.depth -= 1

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


class FakeTree:
    def __init__(self, lock, out, fails):
        self.lock, self.got, self.out, self.fails = lock, [], out, fails

    def notify_changes(self, changes, data=None):
        self.got.append((list(changes), self.lock.depth))
        if self.fails:
            raise ValueError("cannot be notified")
        return list(self.out)


@harness("C04", functions=[N + ":Notifier.__enter__", N + ":Notifier.__exit__",
                           N + ":Notifier.add_squashed_change",
                           N + ":Notifier.add_squashed_delete",
                           N + ":Notifier._callback_responses"],
         rand=100, max_paths=2000, covers=["outermost", "nested"])
def squashing(vc):
    """Changes are squashed at any depth, after any others"""
    lock, called = FakeLock(), []

    def cb(r):
        called.append((r, lock.depth))

    out = [(cb, Thing("response %d" % i))
           for i in range(vc.choice("responses", [0, 1, 2]))]
    n = Notifier("mri", lock, Thing("block"))
    tree = FakeTree(lock, out, False)
    depth = vc.int("depth", 0)
    earlier = [Thing("changes before")] if vc.flag("changed before") else []
    vc.assume(vc.Or(depth >= 1, not earlier))
    for k, v in (("_tree", tree), ("_squashed_count", depth),
                 ("_squashed_changes", list(earlier))):
        assert k in n.__dict__, "no %s to specify" % k
        vc.patch(n, k, v)
    held = lock.depth
    path, value = ["mri", Thing("field"), Thing("more")], Thing("value")
    kind = vc.choice("kind", ["none", "change", "delete"])
    with n.changes_squashed:
        vc.check("the lock is held while changing", lock.depth == held + 1)
        if kind == "change":
            n.add_squashed_change(path, value)
        elif kind == "delete":
            n.add_squashed_delete(path)
        vc.check("nothing is sent while changing",
                 not called and not tree.got)
    mine = {"none": [], "change": [[path[1:], value]],
            "delete": [[path[1:]]]}[kind]
    vc.check("the lock is free afterwards", lock.depth == held)
    if vc.fork(depth == 0):
        vc.cover("outermost")
        vc.check("the tree is told once of all changes in order, with the "
                 "lock held", tree.got == [(earlier + mine, held + 1)]
                 or not earlier + mine + tree.got)
        vc.check("responses are called in order with the lock free",
                 called == [(r, held) for _, r in out if tree.got])
        del tree.got[:], called[:]
        with n.changes_squashed:
            pass
        vc.check("a change is sent once", all(not x for x, _ in tree.got))
    else:
        vc.cover("nested")
        vc.check("nothing is sent until the outermost ends",
                 not tree.got and not called)
        vc.check("as deep as before", n._squashed_count == depth)
        n._squashed_count = 1
        lock.acquire()
        n.__exit__()
        vc.check("which sends them", tree.got == [(earlier + mine, held + 1)]
                 or not earlier + mine + tree.got)
