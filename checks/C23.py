"""PandA client: each request gets the response to it."""
import queue
import threading

from pyvc.api import harness

from malcolm.modules.pandablocks.pandablocksclient import PandABlocksClient

K = "malcolm.modules.pandablocks.pandablocksclient:PandABlocksClient."
FNS = [K + f for f in ("start", "stop", "send", "recv", "send_recv",
                       "_send_loop", "_get_lines", "_respond", "_recv_loop",
                       "set_fields", "set_table", "get_field")]
LEVEL = "exploration"
ASSUMPTIONS = [
    "the socket delivers the bytes sent in order, in pieces of any size; the "
    "server answers each command once, in order",
    "run with real threads and queues; the results must not depend on how "
    "they are scheduled, and this is sampled",
]


class Spawn:
    def __init__(self, f, args=()):
        self.t = threading.Thread(target=self.go, args=(f,), daemon=True)
        self.failed = None
        self.t.start()

    def go(self, f):
        try:
            f()
        except Exception as e:
            self.failed = e

    def wait(self, timeout=5):
        self.t.join(timeout)


class Server:
    """A PandA: answers whole commands in order"""

    def __init__(self, answer, hold=0, sizes=(4096,)):
        self.answer, self.hold, self.sizes = answer, hold, list(sizes)
        self.rx = b""
        self.tx = b""
        self.commands = []
        self.cv = threading.Condition()
        self.open = True
        self.n = 0

    # what the client sees of it
    def connect(self, where):
        pass

    def sendall(self, data):
        with self.cv:
            self.rx += data
            while b"\n" in self.rx:
                line, rest = self.rx.split(b"\n", 1)
                if line.endswith(b"<") and b"=" not in line:
                    if b"\n\n" not in self.rx:
                        break
                    line, rest = self.rx.split(b"\n\n", 1)
                self.rx = rest
                self.commands.append(line.decode("utf-8"))
                self.tx += self.answer(self.commands[-1]).encode("utf-8")
            self.cv.notify_all()

    send = sendall

    def recv(self, n, *flags):
        with self.cv:
            while self.open and (not self.tx
                                 or len(self.commands) < self.hold):
                self.cv.wait(5)
                if not self.cv:
                    break
            size = self.sizes[self.n % len(self.sizes)]
            self.n += 1
            k = max(1, min(n, size))
            out, self.tx = self.tx[:k], self.tx[k:]
            return out

    def shutdown(self, how):
        with self.cv:
            self.open = False
            self.cv.notify_all()

    def close(self):
        self.shutdown(0)


class Client:
    def __init__(self, server):
        self.server = server
        self.c = PandABlocksClient("h", 1)
        self.c.start(spawn=lambda f, *a: Spawn(f), socket_cls=lambda: server)

    def __enter__(self):
        return self.c

    def __exit__(self, *a):
        with self.server.cv:
            self.server.tx = b""
        self.server.shutdown(0)
        try:
            self.c.stop()
        except Exception:
            pass


# what a PandA says, and what the caller must get
ANSWERS = [
    ("OK =%d\n", lambda i: "OK =%d" % i),
    ("OK\n", lambda i: "OK"),
    ("OK =\n", lambda i: "OK ="),
    ("ERR No such field %d\n", lambda i: ValueError),
    ("!A%d\n!B%d\n.\n", lambda i: ["A%d" % i, "B%d" % i]),
    (".\n", lambda i: []),
    ("!\n!.\n!!x\n!ERR y %d\n!OK =1\n.\n",
     lambda i: ["", ".", "!x", "ERR y %d" % i, "OK =1"]),
    ("OK =\u00b5m \u20ac %d\n", lambda i: "OK =\u00b5m \u20ac %d" % i),
    ("!\u00e9t\u00e9 %d\n.\n", lambda i: ["\u00e9t\u00e9 %d" % i]),
    ("OK =. ! ERR %d\n", lambda i: "OK =. ! ERR %d" % i),
    ("OK =" + "x" * 5000 + "%d\n", lambda i: "OK =" + "x" * 5000 + str(i)),
]


def fill(text, i):
    return text.replace("%d", str(i))


@harness("C23", functions=FNS, rand=350, concrete_only=True,
         bounded="up to 8 requests at a time, seeded sample")
def pairing(vc):
    n = vc.int("requests", 1, 8)
    kinds = [vc.choice("answer%d" % i, ANSWERS) for i in range(n)]
    sizes = [vc.choice("size%d" % i, [1, 2, 3, 5, 7, 16, 100, 4096])
             for i in range(vc.int("sizes", 1, 3))]
    if max(sizes) < 16 and any(len(k[0]) > 1000 for k in kinds):
        sizes.append(500)

    def answer(cmd):
        i = int(cmd.split(".F")[1].rstrip("?"))
        return fill(kinds[i][0], i)
    hold = vc.choice("answered", ["at once", "when all were sent"])
    bad = vc.choice("cannot be sent", [None, None, 0, n // 2])
    srv = Server(answer, n if hold != "at once" else 0, sizes)
    with Client(srv) as c:
        qs = []
        for i in range(n):
            if i == bad:
                c.send("B.F\udc80?\n")
            qs.append(c.send("B.F%d?\n" % i))
        order = list(range(n))
        if vc.flag("read backwards"):
            order.reverse()
        for i in order:
            want = kinds[i][1](i)
            try:
                got = c.recv(qs[i], timeout=8)
            except queue.Empty:
                got = "nothing"
            except Exception as e:
                got = e
            if want is ValueError:
                vc.check("a refusal is raised to whoever asked",
                         type(got) is ValueError and str(got)
                         == "ERR No such field %d" % i)
            else:
                vc.check("each request gets the response to it",
                         got == want)
    vc.check("all was sent, in order, and nothing else",
             srv.commands == ["B.F%d?" % i for i in range(n)])


@harness("C23", functions=FNS, rand=1, max_paths=4000, budget=120,
         bounded="three responses of 40 bytes split in every two places")
def pieces(vc):
    """one stream of responses, cut anywhere"""
    texts = ["OK =\u00b5m\n", "!a\n!\u20ac\n.\n", "ERR no\n", "OK =1\n"]
    total = len("".join(texts).encode("utf-8"))
    a = vc.choice("first", list(range(1, total)))
    b = vc.choice("second", [1, 2, 4, total])
    it = iter(texts)
    srv = Server(lambda cmd: next(it), 4, [a, b, total])
    with Client(srv) as c:
        qs = [c.send("X%d?\n" % i) for i in range(4)]
        got = []
        for q in qs:
            try:
                got.append(c.recv(q, timeout=8))
            except Exception as e:
                got.append(type(e).__name__ + str(e))
    vc.check("the same responses wherever they are cut", got == [
        "OK =\u00b5m", ["a", "\u20ac"], "ValueErrorERR no", "OK =1"])


@harness("C23", functions=FNS, rand=150, concrete_only=True,
         bounded="seeded sample of histories of 6 writes and reads")
def writing(vc):
    """what is written is what was asked for, and answered to the asker"""
    store, tables = {}, {}

    def answer(cmd):
        if "<" in cmd.split("\n")[0] and "=" not in cmd.split("\n")[0]:
            lines = cmd.split("\n")
            if lines[0].startswith("BAD"):
                return "ERR bad table\n"
            tables[lines[0][:-1]] = lines[1:]
            return "OK\n"
        if cmd.endswith("?") and "=" not in cmd:
            f = cmd[:-1]
            return "OK =%s\n" % store[f] if f in store else "ERR none\n"
        f, v = cmd.split("=", 1)
        if f.startswith("BAD"):
            return "ERR bad value\n"
        store[f] = v
        return "OK\n"
    srv = Server(answer, 0, [vc.choice("size", [1, 3, 4096])])
    want, wt = {}, {}
    with Client(srv) as c:
        for i in range(6):
            what = vc.choice("do%d" % i, ["set", "set many", "get", "table",
                                          "missing", "bad", "bad table",
                                          "lines"])
            f = vc.choice("field%d" % i, ["A", "B1", "C"])
            v = vc.choice("value%d" % i, ["1", "", "x=y", "a b", "\u00b5m",
                                          5, 1.5, "0?", "t<"])
            if what == "set":
                out = vc.call(c.set_field, "BLK", f, v)
                want["BLK." + f] = str(v)
                vc.check("a value is set", out.ok)
            elif what == "set many":
                out = vc.call(c.set_fields, {"BLK.A": v, "BLK.C": "z%d" % i})
                want.update({"BLK.A": str(v), "BLK.C": "z%d" % i})
                vc.check("values are set", out.ok)
            elif what == "get" and "BLK." + f in want:
                out = vc.call(c.get_field, "BLK", f)
                vc.check("a value is read back",
                         out.ok and out.value == want["BLK." + f])
            elif what == "missing":
                out = vc.call(c.get_field, "BLK", "nope")
                vc.check("a missing field is refused",
                         out.raised(ValueError))
            elif what == "bad":
                out = vc.call(c.set_fields, {"BAD.X": v, "BLK.B1": "ok"})
                want["BLK.B1"] = "ok"
                vc.check("a refused value is an error",
                         out.raised(ValueError))
            elif what == "lines":
                out = vc.call(c.set_fields, {"BLK.A": "a%d" % i,
                                             "BLK.B1": "b\nBLK.C=7"})
                vc.check("a value of many lines is refused, nothing is set",
                         not out.ok)
            elif what == "table":
                rows = [vc.int("n%d" % i, 0, 2 ** 32 - 1)] * vc.int(
                    "rows%d" % i, 0, 3)
                out = vc.call(c.set_table, "BLK", f, rows)
                wt["BLK." + f] = [str(r) for r in rows]
                vc.check("a table is set", out.ok)
            elif what == "bad table":
                out = vc.call(c.set_table, "BAD", f, [1, 2])
                vc.check("a refused table is an error", not out.ok)
            vc.check("values are as asked", store == want)
            vc.check("tables are as asked", tables == wt)


TYPES = [("param", "uint"), ("param", "enum"), ("bit_mux", ""),
         ("pos_mux", ""), ("bit_out", ""), ("ext_out", "bits"),
         ("ext_out", "timestamp"), ("table", ""), ("read", "enum"),
         ("write", "action"), ("time", "")]


@harness("C23", functions=FNS[:9] + [K + f for f in (
    "get_blocks_data", "_get_block_numbers", "parameterized_send",
    "get_table_fields", "get_pcap_bits_fields", "get_changes")], rand=120,
    concrete_only=True, bounded="up to 3 blocks of up to 4 fields, seeded "
    "sample")
def reading(vc):
    """what a PandA says about itself is what callers are told"""
    blocks = {}
    for b in ["TTLIN", "PCAP", "A"][:vc.int("blocks", 0, 3)]:
        fields = {}
        names = ["Z", "VAL", "F1", "OUT"][:vc.int("fields " + b, 0, 4)]
        idx = vc.choice("order " + b, [[0, 1, 2, 3], [3, 1, 2, 0],
                                       [7, 6, 5, 4]])
        for i, f in enumerate(names):
            fields[f] = (idx[i], vc.choice("type %s %s" % (b, f), TYPES))
        blocks[b] = (vc.int("number " + b, 1, 12), fields)

    def multi(lines):
        return "".join("!%s\n" % x for x in lines) + ".\n"
    changes, want_changes, tables = [], [], {}
    for i in range(vc.int("changes", 0, 4)):
        k = vc.choice("change%d" % i, ["value", "empty", "table", "error",
                                       "odd", "equals"])
        f = "B.F%d" % i
        if k == "value":
            changes.append(f + "=%d" % i)
            want_changes.append((f, str(i)))
        elif k == "empty":
            changes.append(f + "=")
            want_changes.append((f, ""))
        elif k == "equals":
            changes.append(f + "=a=b<")
            want_changes.append((f, "a=b<"))
        elif k == "table":
            changes.append(f + "<")
            want_changes.append((f, None))
            tables[f] = ["%d" % x for x in range(i)]
        elif k == "error":
            changes.append(f + " (error)")
            want_changes.append((f, Exception))
        else:
            changes.append("odd line")
    tf = [("31:16", "REPEATS", []), ("3:0", "TRIG", ["enum"]),
          ("47:32", "POS", ["int"]), ("48:48", "OUT", ["uint"])]
    tf = tf[:vc.int("table fields", 0, 4)]

    def answer(cmd):
        if cmd == "*BLOCKS?":
            return multi("%s %d" % (b, v[0]) for b, v in blocks.items())
        if cmd == "*CHANGES?":
            return multi(changes)
        if cmd.startswith("*DESC."):
            return "OK =desc of %s\n" % cmd[6:-1]
        if cmd.startswith("*ENUMS."):
            return multi(["e1 " + cmd[7:-1], "e2"])
        if cmd.endswith(".*?"):
            return multi("%s %d %s %s" % (f, i, t[0], t[1])
                         for f, (i, t) in blocks[cmd[:-3]][1].items())
        if cmd.endswith(".FIELDS?"):
            return multi("%s    %s %s" % (b, n, " ".join(x))
                         for b, n, x in tf)
        if cmd.endswith(".BITS?"):
            return multi(["bit of " + cmd[:-6], ""])
        if cmd[:-1] in tables:
            return multi(tables[cmd[:-1]])
        return "ERR what is %s\n" % cmd
    srv = Server(answer, 0, [vc.choice("size", [5, 64, 4096])])
    with Client(srv) as c:
        got = c.get_blocks_data()
        vc.check("all the blocks, by name", list(got) == sorted(blocks))
        for b, d in got.items():
            number, fields = blocks[b]
            vc.check("a block's number and description",
                     d.number == number and d.description
                     == "desc of " + b)
            vc.check("its fields in the order of their index",
                     list(d.fields) == sorted(
                         fields, key=lambda f: fields[f][0]))
            for f, x in d.fields.items():
                t, s = fields[f][1]
                vc.check("a field's types and description",
                         (x.field_type, x.field_subtype, x.description)
                         == (t, s, "desc of %s.%s" % (b, f)))
                name = "%s.%s" % (b, f)
                labels = []
                if t in ("bit_mux", "pos_mux") or s == "enum":
                    labels = ["e1 " + name, "e2"]
                elif t == "ext_out":
                    labels = ["e1 " + name + ".CAPTURE", "e2"]
                vc.check("a field's labels", x.labels == labels)
        if "PCAP" in blocks:
            bits = c.get_pcap_bits_fields()
            want = {"PCAP.%s.CAPTURE" % f: ["bit of PCAP." + f, ""]
                    for f, (i, t) in blocks["PCAP"][1].items()
                    if t == ("ext_out", "bits")}
            vc.check("the bits of the bit fields", dict(bits) == want)
        t = c.get_table_fields("SEQ", "TABLE")
        want = [(n, (int(b.split(":")[0]), int(b.split(":")[1]),
                     "desc of SEQ.TABLE[]." + n,
                     ["e1 SEQ.TABLE[]." + n, "e2"] if "enum" in x else None,
                     "int" in x)) for b, n, x in tf]
        vc.check("the fields of a table", [
            (n, tuple(getattr(d, a, "none") for a in (
                "bits_hi", "bits_lo", "description", "labels", "signed")))
            for n, d in t.items()] == want)
        err = vc.flag("include errors")
        ch = list(c.get_changes(include_errors=err))
        want = [x for x in want_changes if err or x[1] is not Exception]
        want += [(f, tables[f]) for f, v in want_changes if v is None]
        vc.check("the changes, then the tables that changed", ch == want)


class FakeSocket:
    def connect(self, where):
        pass


@harness("C23", functions=[K + "_recv_loop", K + "_respond", K + "send"],
         rand=300, covers=["value", "error", "list", "more of a list"])
def each_line(vc):
    """Whatever was received before, the next line is handled as what it is
    of, and what follows is of the next request"""
    c = PandABlocksClient("h", 1)
    loops = []
    c.start(spawn=lambda f, *a: loops.append(f), socket_cls=FakeSocket)
    assert "_response_queues" in c.__dict__ and hasattr(c, "_get_lines"), \
        "nothing to specify"
    first, second = queue.Queue(), queue.Queue()
    c._response_queues.put(first)
    c._response_queues.put(second)
    collecting = vc.flag("in a list")
    before = [object()] if collecting else []
    line = vc.str("line", ["OK", "OK =1", "OK =ERR", "ERR", "ERR no", ".",
                           "!", "!.", "!ERR", "!!", "!a b", "", "..", "E"])
    if collecting:
        # all that there can be in a list
        vc.assume(vc.Or(line == ".", line.startswith("!")))

    def lines():
        # any number of lines of a list before
        if collecting:
            for k in ("_completed_response_lines", "_is_multiline"):
                assert k in c.__dict__, "no %s to specify" % k
            c._completed_response_lines = list(before)
            c._is_multiline = True
        yield line
        if vc.fork(line.startswith("!")):
            yield "."
        yield "OK =next"

    vc.patch(c, "_get_lines", lines)
    loop = [f for f in loops if "recv" in getattr(f, "__name__", "")]
    assert len(loop) == 1, "no loop to specify"
    out = vc.call(loop[0])
    vc.check("received (%r)" % (out.exc,), out.ok)
    vc.check("the first request gets one response", first.qsize() == 1)
    vc.check("what follows is for the next one", second.qsize() == 1
             and second.queue[0] == "OK =next")
    if first.qsize() != 1:
        return
    got = first.queue[0]
    if vc.fork(line.startswith("ERR")):
        vc.cover("error")
        vc.check("an error is one", isinstance(got, ValueError)
                 and (got.args[-1] is line or got.args[-1] == line))
    elif vc.fork(line == "."):
        vc.cover("list")
        vc.check("the end of a list gives all of it", isinstance(got, list)
                 and len(got) == len(before)
                 and all(a is b for a, b in zip(got, before)))
    elif vc.fork(line.startswith("!")):
        vc.cover("more of a list")
        vc.check("a line of a list is added to it", isinstance(got, list)
                 and len(got) == len(before) + 1
                 and all(a is b for a, b in zip(got, before)))
        if isinstance(got, list) and got:
            vc.check("as it is", "!" + got[-1] == line)
    else:
        vc.cover("value")
        vc.check("a value is given as it is", got == line)
