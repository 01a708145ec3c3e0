"""PandA sequencer tables: the pulse train is preserved."""
import math

from pyvc.api import harness
from pyvc.rt import LoopContract
from checks import pmaclib
from checks.C10 import joined, make_generator
from checks.lib import fire as fire_hook

from malcolm.modules.ADPandABlocks import doublebuffer as db
from malcolm.modules.ADPandABlocks.parts import (
    PandASeqTriggerPart, pandaseqtriggerpart as seqpart)
from malcolm.modules.ADPandABlocks.util import (
    DatasetPositionsTable, SequencerRow, SequencerTable)
from malcolm.modules.builtin.util import ExportTable, LayoutTable
from malcolm.modules.pmac.util import cs_axis_mapping, profile_between_points
from malcolm.modules.scanning.hooks import (
    AbortHook, ConfigureHook, PauseHook, PostRunArmedHook, PreRunHook,
    ReportStatusHook, RunHook, SeekHook)
from malcolm.modules.scanning.infos import MotionTrigger

M = "malcolm.modules.ADPandABlocks.doublebuffer"
DELAY = 6          # ticks lost at each table switch
MAXROWS = 4096     # rows a SEQ block holds
MAXREP = 4096      # repeats a row may carry
TICK = db.TICK     # seconds per tick

ASSUMPTIONS = [
    "row fields are unbounded integers; tick counts of the hardware (uint32) "
    "are not checked for overflow",
    "finite-sum algebra of pyvc.seqs.SymList.psum (prefix sums of slices, "
    "stores and concatenations)",
    "floats are treated as reals",
    "time2 of every row is at least the 6 tick switch delay (precondition)",
    "SequencerTable.from_rows keeps the rows (contract of C06)",
]

F = SequencerRow._fields
DUR = {"dur": lambda r: r.repeats * (r.time1 + r.time2),
       "pulses": lambda r: r.repeats}


def rows_input(vc, name, minlen=0, maxlen=12, maxn=None):
    fields = []
    for f in F:
        lo, hi = {"repeats": (1, MAXREP), "trigger": (0, 20),
                  "position": (None, None), "time1": (0, None),
                  "time2": (DELAY, None)}.get(f, (0, 1))
        fields.append((f, "int", lo, hi))
    return vc.reclist(name, fields, ctor=SequencerRow, weights=DUR,
                      minlen=minlen, maxlen=maxlen, maxn=maxn)


def psum(vc, rows, w, i=None):
    if hasattr(rows, "psum"):
        return rows.psum(w, i)
    rows = rows if i is None else rows[:i]
    r = 0
    for x in rows:
        r = r + DUR[w](x)
    return r


def dup(vc, rows):
    return rows.copy() if hasattr(rows, "copy") else list(rows)


def same_row(vc, a, b, skip=()):
    return vc.And(*[getattr(a, f) == getattr(b, f) for f in F if f not in skip])


class DurInv(LoopContract):
    """_calculate_duration: partial sum equals the prefix sum"""

    def inv(self, st):
        acc = [k for k, v in st.entry.items()
               if not isinstance(v, bool) and isinstance(v, (int, float))]
        # the accumulator is the only number alive at entry
        if len(acc) != 1:
            raise KeyError("accumulator")
        rows = st.seq
        return [("accumulator is the duration of the rows seen so far",
                 st.L[acc[0]] == rows.psum("dur", st.i))]


@harness("C11", functions=[M + ":SequencerRows._calculate_duration",
                           M + ":SequencerRows.__init__",
                           M + ":SequencerRows.duration"],
         loops={(M, "SequencerRows._calculate_duration", 0): DurInv()})
def calculate_duration(vc):
    rows = rows_input(vc, "rows")
    s = db.SequencerRows(rows)
    vc.check("duration of rows is the sum of repeats*(time1+time2) ticks",
             vc.close(s.duration, psum(vc, rows, "dur") * TICK))
    vc.check("rows are those given", vc.len(s.as_tuples()) == vc.len(rows))


def stub_duration(vc):
    """callers are checked against the contract of _calculate_duration"""
    if vc.sym:
        vc.stub(db.SequencerRows, "_calculate_duration",
                staticmethod(lambda rows: psum(vc, rows, "dur")))


def bsum(vc, s):
    """ticks recorded by a SequencerRows, from its public duration"""
    return s.duration


@harness("C11", functions=[M + ":SequencerRows.add_seq_entry",
                           M + ":SequencerRows._seq_row"], rand=400,
         covers=["several rows", "zero count"])
def add_seq_entry(vc):
    stub_duration(vc)
    rows = rows_input(vc, "rows", minlen=1, maxlen=3)
    old = dup(vc, rows)
    n0, d0, p0 = vc.len(rows), psum(vc, rows, "dur"), psum(vc, rows, "pulses")
    s = db.SequencerRows(rows)
    count = vc.int("count", 0, None if vc.sym else 60000)
    trig = vc.int("trigger", 0, 20)
    pos = vc.int("position")
    half = vc.int("half_duration", 0)
    live, dead = vc.int("live", 0, 1), vc.int("dead", 0, 1)
    trim = vc.int("trim", 0)
    s.add_seq_entry(count=count, trigger=trig, position=pos,
                    half_duration=half, live=live, dead=dead, trim=trim)
    new = s.as_tuples()
    n1 = vc.len(new)
    if vc.sym:
        if vc.fork(count > 2 * MAXREP):
            vc.cover("several rows")
        if vc.fork(count == 0):
            vc.cover("zero count")
    vc.check("existing rows are left as they were", vc.forall(
        n0, lambda i: same_row(vc, vc.at(new, i), vc.at(old, i))))
    vc.check("repeats of the added rows add up to count",
             psum(vc, new, "pulses") == p0 + count)
    vc.check("total duration grows by count*(2*half-trim)", vc.And(
        psum(vc, new, "dur") == d0 + count * (2 * half - trim),
        vc.close(s.duration, psum(vc, new, "dur") * TICK)))

    def row_ok(k):
        r = vc.at(new, n0 + k)
        return vc.And(
            vc.Or(vc.And(r.repeats >= 1, r.repeats <= MAXREP),
                  vc.And(r.repeats == 0, count == 0, n1 == n0 + 1)),
            r.trigger == trig, r.position == pos, r.time1 == half,
            r.time2 == half - trim, r.outa1 == live, r.outb1 == dead,
            *[getattr(r, f) == 0 for f in F
              if f[:3] == "out" and f not in ("outa1", "outb1")])
    vc.check("each added row carries the given settings and 1..4096 repeats",
             vc.And(n1 > n0, vc.forall(n1 - n0, row_ok)))


@harness("C11", functions=[M + ":SequencerRows.extend",
                           M + ":SequencerRows.__len__"])
def extend(vc):
    stub_duration(vc)
    ra = rows_input(vc, "a", maxlen=4)
    rb = rows_input(vc, "b", maxlen=4)
    oa, ob = dup(vc, ra), dup(vc, rb)
    na, nb = vc.len(ra), vc.len(rb)
    a, b = db.SequencerRows(ra), db.SequencerRows(rb)
    a.extend(b)
    new, nbt = a.as_tuples(), b.as_tuples()
    vc.check("length adds up", vc.And(vc.len(new) == na + nb,
                                      vc.len(nbt) == nb))
    vc.check("first rows kept", vc.forall(na, lambda i: same_row(
        vc, vc.at(new, i), vc.at(oa, i))))
    vc.check("second rows appended in order", vc.forall(nb, lambda i: same_row(
        vc, vc.at(new, na + i), vc.at(ob, i))))
    vc.check("argument unchanged", vc.forall(nb, lambda i: same_row(
        vc, vc.at(nbt, i), vc.at(ob, i))))
    vc.check("durations add up", vc.And(
        vc.close(a.duration, (psum(vc, oa, "dur") + psum(vc, ob, "dur")) * TICK),
        vc.close(b.duration, psum(vc, ob, "dur") * TICK)))


@harness("C11", functions=[M + ":SequencerRows.split"],
         rand=1500, covers=["whole", "part", "short"])
def split(vc):
    stub_duration(vc)
    rows = rows_input(vc, "rows", minlen=1, maxlen=6)
    # the last row may be a continuous loop
    n0 = vc.len(rows)
    cont = vc.flag("continuous")
    if cont:
        rows[-1] = rows[-1]._replace(repeats=0)
    old = dup(vc, rows)
    d0, p0 = psum(vc, rows, "dur"), psum(vc, rows, "pulses")
    s = db.SequencerRows(rows)
    count = vc.int("count", 1, None if vc.sym else 8)
    rem = s.split(count)
    a, b = s.as_tuples(), rem.as_tuples()
    na, nb = vc.len(a), vc.len(b)
    whole = vc.And(cont, n0 <= count)     # nothing may follow a loop
    if vc.sym:
        if vc.fork(vc.And(n0 == count, nb == 0)):
            vc.cover("whole")
        if vc.fork(n0 < count):
            vc.cover("short")
        elif vc.fork(nb > 1):
            vc.cover("part")
    vc.check("at least one and no more than count rows are kept",
             vc.And(na >= 1, na <= count))
    vc.check("no pulse is lost or repeated by a split",
             psum(vc, a, "pulses") + psum(vc, b, "pulses") == p0)
    vc.check("durations add up, less the switch delay",
             psum(vc, a, "dur") + psum(vc, b, "dur")
             == d0 - vc.If(whole, 0, DELAY))
    vc.check("recorded duration is the duration of the rows", vc.And(
        vc.close(s.duration, psum(vc, a, "dur") * TICK),
        vc.close(rem.duration, psum(vc, b, "dur") * TICK)))
    last = vc.at(a, -1)
    vc.check("last kept row runs once so the switch delay is taken once",
             vc.Or(whole, last.repeats == 1))

    # kept rows then remainder rows are the old rows in order; the boundary
    # row may be divided in two
    vc.check("rows before the boundary are unchanged", vc.forall(
        na, lambda i: vc.Or(i >= na - 2,
                            same_row(vc, vc.at(a, i), vc.at(old, i)))))
    off = n0 - nb       # remainder row k comes from old row off + k

    def rest(k):
        return vc.And(
            same_row(vc, vc.at(b, k), vc.at(old, off + k), skip=("repeats",)),
            vc.Or(k == 0, vc.at(b, k).repeats == vc.at(old, off + k).repeats))
    vc.check("remainder rows are the old rows in order", vc.And(
        nb <= n0, vc.forall(nb, rest)))
    bound = vc.at(old, vc.If(n0 < count, n0, count) - 1)
    vc.check("boundary row keeps its settings",
             same_row(vc, last, bound, skip=("repeats", "time2")))
    vc.check("second phase of the boundary row is shortened by the delay",
             last.time2 == bound.time2 - vc.If(whole, 0, DELAY))
    vc.check("remainder rows keep 1..4096 repeats", vc.forall(
        nb, lambda k: vc.Or(
            vc.And(vc.at(b, k).repeats >= 1, vc.at(b, k).repeats <= MAXREP),
            vc.And(cont, k == nb - 1, vc.at(b, k).repeats == 0))))
    # a divided row appears on both sides with the repeats shared out
    prev = vc.at(a, -2) if vc.fork(na >= 2) else None
    if prev is not None:
        vc.check("row before the boundary is its old row, or the divided one",
                 vc.Or(vc.And(na <= n0, same_row(vc, prev, vc.at(old, na - 2))),
                       vc.And(nb == 0, same_row(vc, prev, vc.at(old, na - 2),
                                                skip=("repeats",)))))


# ---- the table generator ----
class Ghost:
    pass


def arb_rows(vc_holder, name):
    vc = vc_holder
    return rows_input(vc, name)


def tables_of(vc, chunks):
    return db.DoubleBuffer._get_tables(chunks)


def make_tables_loops():
    G = Ghost()

    def arb():
        vc = G.vc
        r = db.SequencerRows(rows_input(vc, "acc"))
        return r

    def total(rows, w):
        return psum(G.vc, rows.as_tuples(), w)

    def find(L):
        """the accumulator: the SequencerRows alive at loop entry"""
        c = [k for k, v in L.items() if isinstance(v, db.SequencerRows)]
        return c

    class Outer(LoopContract):
        havoc = {"rows": arb, "remainder": "keep"}

        def modifies(self, st):
            vc = G.vc
            G.out_p, G.out_d = vc.int("out_p", 0), vc.int("out_d")
            G.nt = vc.int("nt", 0)

        def inv(self, st):
            vc = G.vc
            rows = st.L["rows"]
            return [
                ("buffered rows fit one table",
                 vc.len(rows.as_tuples()) <= MAXROWS),
                ("pulses in = pulses out + buffered",
                 G.inp(st.i) == G.out_p + total(rows, "pulses")),
                ("ticks in = ticks out + buffered + switch delays",
                 G.ind(st.i) == G.out_d + total(rows, "dur") + DELAY * G.nt),
                ("recorded duration", rows.duration
                 == total(rows, "dur") * TICK),
            ]

        def begin(self, st):
            G.i = st.i

    class Inner(LoopContract):
        kind = "while"
        havoc = {"rows": arb, "remainder": arb}

        def begin(self, st):
            rows = st.L["rows"]
            G.tp = G.out_p + total(rows, "pulses")
            G.td = G.out_d + total(rows, "dur") + DELAY * G.nt

        def modifies(self, st):
            vc = G.vc
            G.out_p, G.out_d = vc.int("out_p", 0), vc.int("out_d")
            G.nt = vc.int("nt", 0)

        def inv(self, st):
            vc = G.vc
            rows = st.L["rows"]
            return [
                ("there is something to write", vc.len(rows.as_tuples()) >= 1),
                ("pulses conserved", G.out_p + total(rows, "pulses") == G.tp),
                ("ticks conserved", G.out_d + total(rows, "dur")
                 + DELAY * G.nt == G.td),
                ("recorded duration", rows.duration
                 == total(rows, "dur") * TICK),
            ]
    return G, {(M, "DoubleBuffer._get_tables", 0): Outer(),
               (M, "DoubleBuffer._get_tables", 1): Inner()}


G, TLOOPS = make_tables_loops()


@harness("C11", functions=[M + ":DoubleBuffer._get_tables",
                           M + ":SequencerRows.get_table"],
         loops=TLOOPS, rand=0, covers=["table written", "end"],
         note="symbolic only; the concrete counterpart is double_buffer")
def tables(vc):
    if not vc.sym:
        return
    from pyvc.seqs import Mapped
    import z3
    stub_duration(vc)
    G.vc = vc
    n = vc.int("nchunks", 0)
    P = z3.Function("Pin", z3.IntSort(), z3.IntSort())
    D = z3.Function("Din", z3.IntSort(), z3.IntSort())
    mk, lift = vc.v.mk, vc.v.lift
    vc.assume(mk(P(0) == 0))
    vc.assume(mk(D(0) == 0))
    G.inp = lambda i: mk(P(lift(i)))
    G.ind = lambda i: mk(D(lift(i)))
    G.out_p = G.out_d = G.nt = 0
    G.pend = None

    def chunk(i):
        rows = rows_input(vc, "chunk")
        vc.eng.add(lift(G.inp(i + 1)) == lift(G.inp(i) + psum(vc, rows, "pulses")))
        vc.eng.add(lift(G.ind(i + 1)) == lift(G.ind(i) + psum(vc, rows, "dur")))
        return db.SequencerRows(rows)

    # contract of split (proved above) used by the generator
    def split_contract(self, count):
        old = self.as_tuples()
        vc.check("split: called with at least one row and count >= 1",
                 vc.And(vc.len(old) >= 1, count >= 1))
        p, d = psum(vc, old, "pulses"), psum(vc, old, "dur")
        n0 = vc.len(old)
        a, b = rows_input(vc, "kept", minlen=1), rows_input(vc, "rem")
        vc.assume(vc.len(a) <= count)
        vc.assume(vc.len(a) <= n0 + 1)
        vc.assume(vc.len(b) <= n0)
        vc.assume(psum(vc, a, "pulses") + psum(vc, b, "pulses") == p)
        vc.assume(psum(vc, a, "dur") + psum(vc, b, "dur") == d - DELAY)
        tmp = db.SequencerRows(a)
        self.__dict__.update(tmp.__dict__)
        G.nt = G.nt + 1
        return db.SequencerRows(b)
    vc.stub(db.SequencerRows, "split", split_contract)

    class Tab:
        def __init__(self, rows):
            self.rows = rows

    vc.patch(SequencerTable, "from_rows",
             classmethod(lambda cls, rows: Tab(dup(vc, rows))))
    for t in db.DoubleBuffer._get_tables(Mapped(n, chunk)):
        G.out_p = G.out_p + psum(vc, t.rows, "pulses")
        G.out_d = G.out_d + psum(vc, t.rows, "dur")
        vc.cover("table written")
        vc.check("a table holds 1..4096 rows", vc.And(
            vc.len(t.rows) >= 1, vc.len(t.rows) <= MAXROWS))
    vc.cover("end")
    vc.check("every pulse put in comes out exactly once",
             G.out_p == G.inp(n))
    vc.check("every tick comes out, less one switch delay per switched table",
             G.out_d + DELAY * G.nt == G.ind(n))


# ---- the whole double buffer, through its public interface ----
class FakeFuture:
    def __init__(self, attr, sub):
        self.attr, self.sub = attr, sub


class FakeAttr:
    def __init__(self, log, name, value=None):
        self.log, self.name, self.value = log, name, value
        self.subs = []

    def put_value(self, v, *a, **k):
        self.log.append((self.name, v))
        self.value = v

    def subscribe_value(self, fn, *args):
        fut = FakeFuture(self, (fn, args))
        self.subs.append((fn, args))
        # the first update is the value now
        fn(self.value, *args)
        return fut


class FakeSeq:
    def __init__(self, log, name, repeats=1, prescale=0):
        self.table = FakeAttr(log, name + ".table")
        self.repeats = FakeAttr(log, name + ".repeats", repeats)
        self.prescale = FakeAttr(log, name + ".prescale", prescale)
        self.active = FakeAttr(log, name + ".active", False)
        self.label = FakeAttr(log, name + ".label", name)


class FakeContext:
    def __init__(self):
        self.unsubscribed = []

    def unsubscribe(self, f):
        self.unsubscribed.append(f)
        if f.sub in f.attr.subs:
            f.attr.subs.remove(f.sub)


def expand(rows):
    """run-length form of the pulse train: identical neighbours merged"""
    out = []
    for r in rows:
        body = tuple(r)[1:]
        if out and out[-1][1] == body and r[0] and out[-1][0]:
            out[-1][0] += r[0]
        else:
            out.append([r[0], body])
    return out


def chunks_of_rows(vc):
    nch = vc.int("nchunks", 1, 9)
    chunks, allrows = [], []
    for c in range(nch):
        big = vc.choice("size", [0, 1, 2, 3, 40, 1000, 4095, 4096, 4097, 9000])
        reps = vc.int("reps", 1, 4096)
        t = vc.choice("ticks", [6, 7, 1250, 10 ** 6, 2 * 10 ** 8])
        last0 = c == nch - 1 and vc.bool("cont")
        rows = []
        for k in range(big):
            rows.append(SequencerRow(reps if k % 7 == 0 else 1, "T%d" % (k % 5),
                                     c * 10000 + k, t, 1, 0, 0, 0, 0, 0, t,
                                     0, 0, 0, 0, 0, 0))
        if last0:
            rows.append(SequencerRow(0, "Immediate", 0, t, 0, 1, 0, 0, 0, 0, t,
                                     0, 0, 0, 0, 0, 0))
        chunks.append(rows)
        allrows += rows
    return chunks, allrows


@harness("C11", functions=[M + ":DoubleBuffer.configure",
                           M + ":DoubleBuffer.run",
                           M + ":DoubleBuffer._seq_active_handler",
                           M + ":DoubleBuffer.clean_up"],
         rand=120, concrete_only=True,
         bounded="concrete runs: up to 9 chunks of up to 9000 rows")
def double_buffer(vc):
    if vc.sym:
        return
    log = []
    ctx = FakeContext()
    a, b = [FakeSeq(log, n, vc.choice("repeats", [0, 1, 1, 2]),
                    vc.choice("prescale", [0, 0, 1])) for n in ("seqA", "seqB")]
    buf = db.DoubleBuffer(ctx, a, b)
    seqs = {"seqA": a, "seqB": b}
    nwritten = lambda: sum(1 for n, _ in log if n.endswith(".table"))

    def fire(s, v):
        s.active.value = v
        for fn, args in list(s.active.subs):
            fn(v, *args)

    def hardware(limit):
        """alternates between the two tables; updates may be repeated"""
        k = 0
        while k < nwritten() and k < limit:
            s = seqs["seqA" if k % 2 == 0 else "seqB"]
            other = seqs["seqB" if k % 2 == 0 else "seqA"]
            for v in (True, False):
                for _ in range(vc.choice("updates", [1, 1, 1, 2, 3])
                               if k < 6 else 1):
                    fire(s, v)
                if k < 6 and vc.flag("other update"):
                    fire(other, other.active.value)
            k += 1

    if vc.flag("used before"):
        # a scan that ended or was stopped part way
        chunks, _ = chunks_of_rows(vc)
        buf.configure(iter([db.SequencerRows(list(r)) for r in chunks]))
        buf.run()
        n = vc.int("stopped after", 0, 5)
        if a.active.subs:
            hardware(n)
        if vc.flag("stopped while active"):
            fire(seqs["seqA" if n % 2 == 0 else "seqB"], True)
        if vc.flag("cleaned up"):
            buf.clean_up()
            vc.check("nothing stays subscribed after a scan",
                     not a.active.subs and not b.active.subs)
        a.active.value = b.active.value = False
        del log[:]
    chunks, allrows = chunks_of_rows(vc)
    buf.configure(iter([db.SequencerRows(list(r)) for r in chunks]))
    buf.run()
    vc.check("each subscription ends at most once",
             len(set(map(id, ctx.unsubscribed))) == len(ctx.unsubscribed))
    vc.check("each sequencer is subscribed to at most once",
             len(a.active.subs) == len(b.active.subs) <= 1)
    double = bool(a.active.subs)
    if double:
        hardware(200)
    tabs = [(n, t) for n, t in log if n.endswith(".table")]
    vc.check("tables go to the two sequencers in turn",
             all(n.startswith("seqA" if i % 2 == 0 else "seqB")
                 for i, (n, t) in enumerate(tabs)))
    got = []
    okrows = True
    for i, (n, t) in enumerate(tabs):
        rows = [SequencerRow(*r) for r in t.rows()]
        okrows = okrows and 1 <= len(rows) <= MAXROWS
        got.append(rows)
    vc.check("a table holds 1..4096 rows", okrows or not allrows)
    # undo the switch delay on the last row of each table that was switched
    flat = []
    exp_rows = expand(allrows)
    for i, rows in enumerate(got):
        rows = list(rows)
        flat.append(rows)
    res = []
    for rows in flat:
        for j, r in enumerate(rows):
            res.append((r, j == len(rows) - 1))
    # compare run-length trains, allowing time2 to be 6 short on last rows
    want = [[n, body] for n, body in exp_rows]
    ok = True
    wi = 0
    left = want[0][0] if want else 0
    short = 0
    for r, is_last in res:
        if wi >= len(want):
            ok = False
            break
        body = tuple(r)[1:]
        wb = want[wi][1]
        i2 = F.index("time2") - 1
        if body != wb:
            bb = list(body)
            if is_last and r[0] == 1:
                bb[i2] += DELAY
                short += 1
            if tuple(bb) != wb:
                ok = False
                break
        if want[wi][0] == 0:
            ok = ok and r[0] == 0
            wi += 1
        else:
            if r[0] == 0 or r[0] > left:
                ok = False
                break
            left -= r[0]
            if left == 0:
                wi += 1
        if left == 0 and wi < len(want):
            left = want[wi][0]
    vc.check("the pulse train written is the pulse train asked for",
             ok and wi == len(want))
    vc.check("at most one switch delay per table", short <= len(tabs))
    if not double:
        vc.check("single table scans are written once", len(tabs) <= 1)
    else:
        vc.check("more than one table means table repeats of 1",
                 a.repeats.value == 1 and b.repeats.value == 1
                 and a.prescale.value == 0 and b.prescale.value == 0)


# ---- the pulses of a scan, from its generator to the tables ----
SQ = "malcolm.modules.ADPandABlocks.parts.pandaseqtriggerpart"
UM = "malcolm.modules.pmac.util"


class Seq(FakeSeq):
    def __init__(self, log, name, **inputs):
        FakeSeq.__init__(self, log, name)
        self.inputs = {k: pmaclib.FakeVal(v) for k, v in inputs.items()}

    def __getitem__(self, name):
        return self.inputs[name]


class Panda:
    def __init__(self, names, scales, offsets, log):
        self.exports = pmaclib.FakeVal(ExportTable(
            ["SEQ2.table", "SRGATE1.forceRst", "SEQ1.table",
             "SRGATE1.forceSet"],
            ["seqTableB", "seqReset", "seqTableA", "seqSetEnable"]))
        self.layout = pmaclib.FakeVal(LayoutTable(
            ["SEQ2", "PCAP", "SEQ1"], ["P:SEQ2", "P:PCAP", "P:SEQ1"],
            [0.0] * 3, [0.0] * 3, [True] * 3))
        n = len(names)
        self.positions = pmaclib.FakeVal(DatasetPositionsTable(
            name=["COUNTER1.OUT"] + ["INENC%d.VAL" % i for i in range(n)],
            value=[0.0] * (n + 1), units=[""] * (n + 1),
            scale=[7.0] + list(scales), offset=[9.0] + list(offsets),
            capture=["No"] * (n + 1),
            datasetName=["I0"] + list(names),
            datasetType=["monitor"] + ["position"] * n))
        self.log = log

    def seqSetEnable(self):
        self.log.append(("enable", None))

    def seqReset(self):
        self.log.append(("reset", None))


class SeqContext(pmaclib.FakeContext):
    def unsubscribe(self, f):
        if f.sub in f.attr.subs:
            f.attr.subs.remove(f.sub)


class Child:
    def __init__(self, row_trigger):
        self.panda = pmaclib.FakeVal("PANDA")
        self.pmac = pmaclib.FakeVal("PMAC")
        self.rowTrigger = pmaclib.FakeVal(row_trigger)


def position_at(start, times, velocities, t):
    """where an axis is at a time, given when it has which velocity"""
    at = start
    for i in range(1, len(times)):
        t0, t1 = times[i - 1], times[i]
        v0, v1 = velocities[i - 1], velocities[i]
        if t <= t1:
            if t1 == t0:
                return at
            v = v0 + (v1 - v0) * (t - t0) / (t1 - t0)
            return at + (t - t0) * (v0 + v) / 2
        at += (t1 - t0) * (v0 + v1) / 2
    return at


class Played:
    """the rows as the sequencers run them, one repeat at a time"""

    def __init__(self, rows):
        self.rows = rows
        self.i, self.n = 0, 0

    def next(self):
        if self.i >= len(self.rows):
            return None
        r = self.rows[self.i]
        self.n += 1
        if self.n >= r.repeats:
            self.i, self.n = self.i + 1, 0
        return r


@harness("C11", functions=[SQ + ":SeqTriggers." + x for x in (
    "_what_moves_most", "_how_long_moving_wrong_way", "_get_row_indices",
    "_create_immediate_rows", "_create_triggered_rows",
    "_overlapping_points_range", "get_rows")] + [
    SQ + ":_get_blocks"] + [SQ + ":PandASeqTriggerPart." + x for x in (
        "setup", "on_report_status", "setup_pcomp_dicts", "on_configure",
        "on_pre_run", "on_run", "on_abort", "reset_seq", "post_inner_scan")],
    rand=900, concrete_only=True, covers=["gated", "compared", "timed",
                                          "batches", "other axis slower"],
    bounded="concrete scans of up to 200 steps, cut into batches of 1 to 300 "
    "points, from any step to any other")
def steps(vc):
    log = []
    mode = vc.choice("row trigger", ["Motion Controller", "Position Compare"])
    g = make_generator(vc, True)
    batch = vc.choice("batch", [1, 2, 3, 7, 20, 300])
    vc.stub(seqpart, "BATCH_SIZE", batch)
    # each step may have its own duration and delay
    times = vc.choice("durations", ["same", "same", "same", "alternating",
                                    "rows"])
    delays = vc.choice("delays", ["same", "same", "alternating"])
    inner = g.dimensions[-1].size
    get_points = g.get_points

    def points(start, finish):
        p = get_points(start, finish)
        for i in range(start, finish):
            if times == "alternating" and i % 2:
                p.duration[i - start] *= 3
            if times == "rows" and i // inner % 2:
                p.duration[i - start] *= 2
            if delays == "alternating":
                p.delay_after[i - start] = 3.0 if i % 2 else 0.0
        return p
    g.get_points = points
    axes = [a for a in g.axes if a in ("x", "y")]
    seen = [a for a in axes if vc.choice("sees " + a, [True, True, False])]
    if not seen:
        seen = list(axes)
    scales = [vc.choice("scale " + a, [0.001, -0.0005, 1e-5]) for a in seen]
    offsets = [vc.choice("offset " + a, [0.0, 0.25, -3.0]) for a in seen]
    motors = {}
    for i, a in enumerate(axes):
        vel = vc.choice("velocity " + a, [1.0, 10.0, 100.0])
        motors[a] = pmaclib.FakeMotor(
            cs="CS1," + "AB"[i], max_velocity=vel,
            accel_time=vc.choice("acceleration " + a, [0.1, 0.5, 2.0]))
    brick = pmaclib.FakeBrick(sorted(motors))
    panda = Panda(seen, scales, offsets, log)
    suffs = vc.choice("inputs", ["abc", "bca", "cab"])
    inputs = {"pos" + s: "ZERO" for s in "abc"}
    for s, i in zip(suffs, range(len(seen))):
        inputs["pos" + s] = "INENC%d.VAL" % i
    inputs["bita"] = "TTLIN1.VAL"
    a, b = Seq(log, "seqA", **inputs), Seq(log, "seqB", **inputs)
    blocks = {"M:" + k: m for k, m in motors.items()}
    blocks.update({"PMAC": brick, "PANDA": panda, "P:SEQ1": a, "P:SEQ2": b,
                   "SEQ": Child(mode)})
    ctx = SeqContext(blocks)
    part = PandASeqTriggerPart("seq", "SEQ")
    gap = vc.choice("gap", [None, None, 0.01, 0.5])
    info = pmaclib.infos(None, gap, 0.002)
    trig = fire_hook(part, ReportStatusHook, context=ctx)
    vc.check("the rows are asked of the motion controller if they are "
             "triggered by it", trig.trigger == (
                 MotionTrigger.NONE if mode == "Position Compare"
                 else MotionTrigger.ROW_GATE))

    def configure(hook, start, stop):
        r = vc.call(fire_hook, part, hook, context=ctx, completed_steps=start,
                    steps_to_do=stop - start, part_info=info, generator=g,
                    axesToMove=axes)
        return r

    size = g.size
    if vc.flag("seek"):
        r = configure(ConfigureHook, 0, size)
        if vc.flag("run before"):
            fire_hook(part, PreRunHook, context=ctx)
            fire_hook(part, RunHook, context=ctx)
        fire_hook(part, vc.choice("stopped by", [AbortHook, PauseHook]),
                  context=ctx)
        vc.check("the sequencers are reset when stopped",
                 log[-1] == ("reset", None))
        vc.check("and no longer listened to",
                 not a.active.subs and not b.active.subs)
        hook = vc.choice("then", [SeekHook, PostRunArmedHook, ConfigureHook])
        a.active.value = b.active.value = False
    else:
        hook = ConfigureHook
    start = vc.choice("start", [0, 0, 0, size // 2, size // 3])
    stop = vc.choice("stop", [size, size, max(start + 1, size * 3 // 4)])
    del log[:]
    r = configure(hook, start, stop)
    pts = [get_point(points, i, size) for i in range(start, stop)]
    moving = bool(axes)
    firsts = [i for i in range(len(pts))
              if i == 0 or not joint(pts[i - 1], pts[i], axes)]
    scale = dict(zip(seen, scales))
    offset = dict(zip(seen, offsets))

    def counts(axis, x):
        return int(round((x - offset[axis]) / scale[axis]))
    if mode == "Position Compare" and moving:
        vc.assume(all(any(counts(x, pts[i].positions[x])
                          != counts(x, pts[i].lower[x]) for x in seen)
                      for i in firsts))
    # scans of library math that the motion controller cannot do either
    if moving:
        full = cs_axis_mapping(ctx, brick.layout.value, axes)
        turns = {}
        for i in firsts[1:]:
            t = vc.call(profile_between_points, full, pts[i - 1], pts[i],
                        max(gap or 0.002, pts[i - 1].delay_after), 0.002)
            vc.assume(t.ok)
            turns[i] = t.value
            if mode == "Position Compare":
                # an axis that turns round inside the step gives no position
                # to start it at
                most = max(seen, key=lambda x: abs(
                    counts(x, pts[i].positions[x])
                    - counts(x, pts[i].lower[x])))
                vc.assume(t.value[1][most][-1] * (
                    pts[i].positions[most] - pts[i].lower[most]) > 0)
    vc.check("configured", r.ok)
    fire_hook(part, PreRunHook, context=ctx)
    n = log.count(("enable", None))
    vc.check("enabled before the motors start, if they trigger it, and only "
             "then", n == (1 if moving else 0))
    fire_hook(part, RunHook, context=ctx)
    vc.check("enabled once", log.count(("enable", None)) == 1)
    k = 0
    while a.active.subs and k < 300:
        s = (a, b)[k % 2]
        for v in (True, False):
            s.active.value = v
            for fn, args in list(s.active.subs):
                fn(v, *args)
        k += 1
    rows = []
    i2 = F.index("time2")
    for name, t in log:
        if name.endswith(".table"):
            rows += [SequencerRow(*x) for x in t.rows()]
    play = Played(rows)
    TOL = 14   # ticks: rounding to even and the switch to another table

    def ticks(row):
        return row.time1 + row.time2

    def live(row):
        return row.outa1 == 1 and row.outb1 == 0 and row.outa2 == 0 \
            and row.outb2 == 0

    def dead(row):
        return row.outa1 == 0 and row.outb1 == 1 and row.outa2 == 0 \
            and row.outb2 == 0
    for i, p in enumerate(pts):
        row = play.next()
        if moving and i in firsts:
            axis = None
            if mode == "Position Compare":
                vc.cover("compared")
                blind = None
                if i:
                    vc.check("dead when a row has ended", row is not None
                             and dead(row) and str_of(row.trigger)
                             == "Immediate")
                    blind = ticks(row) * TICK
                    row = play.next()
                check_compare(vc, row, p, seen, suffs, counts)
                if i:
                    check_blind(vc, row, pts[i - 1], p, seen, suffs, counts,
                                scale, offset, turns[i], blind)
            else:
                vc.cover("gated")
                if i:
                    vc.check("dead when the row before has ended",
                             row is not None and dead(row)
                             and str_of(row.trigger) == "BITA=0")
                    row = play.next()
                vc.check("a row starts when told to", row is not None
                         and str_of(row.trigger) == "BITA=1")
        else:
            vc.cover("timed")
            vc.check("a step follows the one before", row is not None
                     and str_of(row.trigger) == "Immediate")
        vc.check("each step is live once", row is not None and live(row))
        vc.check("each step lasts its duration",
                 abs(ticks(row) - p.duration / TICK) <= TOL)
    if len(pts) > batch:
        vc.cover("batches")
    row = play.next()
    vc.check("dead at the end", row is not None and dead(row)
             and str_of(row.trigger) == "Immediate")
    vc.check("and then nothing until reset", play.i == len(rows) - 1
             and rows[-1].repeats == 0 and not any(
                 getattr(rows[-1], "out%s%d" % (x, j))
                 for x in "abcdef" for j in (1, 2)))


def str_of(trigger):
    return getattr(trigger, "value", trigger)


def get_point(points, i, size):
    if size == 1:
        return points(0, 1)[0]
    return points(i - 1, i + 1)[1] if i else points(0, 2)[0]


def joint(p, q, axes):
    return p.delay_after == 0 and all(
        p.upper[x] == q.lower[x] for x in p.upper)


def compared(row, seen, suffs):
    """the axis and direction that a row is triggered by"""
    t = str_of(row.trigger)
    for s, x in zip(suffs, seen):
        if t.startswith("POS" + s.upper()):
            return x, t == "POS%s>=POSITION" % s.upper()
    return None, None


def check_compare(vc, row, p, seen, suffs, counts):
    x, up = compared(row, seen, suffs)
    vc.check("a row starts at a position of an axis it moves", x is not None)
    moves = {s: counts(s, p.positions[s]) - counts(s, p.lower[s])
             for s in seen}
    vc.check("of the one that moves most",
             abs(moves[x]) == max(map(abs, moves.values())))
    vc.check("in the direction it moves", up == (moves[x] > 0))
    vc.check("at the lower bound", row.position == counts(x, p.lower[x]))


def check_blind(vc, row, last, p, seen, suffs, counts, scale, offset, turn,
                blind):
    x, up = compared(row, seen, suffs)
    times, velocities = turn[0][x], turn[1][x]
    total = times[-1]
    vc.check("not blind when the next row starts", blind <= total + 1e-6)
    if any(turn[0][y][-1] > 0 and y not in seen for y in turn[0]):
        vc.cover("other axis slower")
    for k in range(1, 200):
        t = blind + 1e-6 + (total - blind) * k / 200.0
        if t >= total - 1e-6:
            break
        at = position_at(last.upper[x], times, velocities, t)
        at = (at - offset[x]) / scale[x]
        early = at >= row.position + 1.5 if up else at <= row.position - 1.5
        vc.check("no row is started while the motors turn around", not early)
