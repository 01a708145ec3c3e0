"""PandA tables: rows of fields and the words sent to the box."""
from collections import OrderedDict

from pyvc.api import harness

from malcolm.core import TableMeta
import malcolm.modules.pandablocks.parts.pandatablepart as pt
from malcolm.modules.pandablocks.pandablocksclient import TableFieldData

M = "malcolm.modules.pandablocks.parts.pandatablepart"
ASSUMPTIONS = [
    "numpy acts element by element (contract pyvc/npsym.py, result types "
    "taken from numpy itself); two rows stand for any number of rows",
    "TableMeta.validate keeps columns of the right type (C05)",
    "the fields of a row do not overlap (what the box reports)",
]
FNS = [M + ":PandATablePart.__init__", M + ":PandATablePart.list_from_table",
       M + ":PandATablePart.table_from_list", M + ":get_nbits_mask",
       M + ":get_column_index", M + ":get_dtype"]
LABELS = ["Off", "On", "Both"]


class Client:
    def __init__(self, fields):
        self.fields = fields
        self.tables = []

    def get_table_fields(self, block, field):
        return OrderedDict(self.fields)

    def set_table(self, block, field, values):
        self.tables.append((block, field, values))


class Col:
    """An Array around a numpy array"""

    def __init__(self, seq):
        self.seq = seq

    def __len__(self):
        return len(self.seq)

    def __iter__(self):
        return iter(self.seq)

    def __getitem__(self, i):
        return self.seq[i]


def layout(vc):
    """The field looked at, one next to it in the same word and one in
    another word"""
    word = vc.choice("word", [0, 1])
    lo = vc.choice("lo", range(32))
    hi = vc.choice("hi", range(lo, 32))
    kind = vc.choice("kind", ["uint", "int"])
    b = 32 * word
    fields = [("ABLE", TableFieldData(b + hi, b + lo, "d", None,
                                      kind == "int"))]
    # the widest gap left in that word
    if not vc.flag("neighbour"):
        pass
    elif 31 - hi >= lo and hi < 31:
        fields.append(("NEXT", TableFieldData(b + 31, b + hi + 1, "d", None,
                                              False)))
    elif lo > 0:
        fields.append(("NEXT", TableFieldData(b + lo - 1, b, "d", None,
                                              True)))
    if vc.flag("another word"):
        o = 32 * (1 - word)
        fields.insert(0, ("OTHER_WORD", TableFieldData(
            o + 31, o, "d", None, True)))
    return fields


def make(vc, fields):
    client = Client(fields)
    part = pt.PandATablePart(client, TableMeta("d"), "BLOCK", "TABLE")
    names = dict(zip(part.field_data, fields))
    return part, client, [(n, part.field_data[n]) for n in part.field_data]


def span(f):
    n = f.bits_hi - f.bits_lo + 1
    if n == 1:
        return n, 0, 1
    if f.signed:
        return n, -2 ** (n - 1), 2 ** (n - 1) - 1
    return n, 0, 2 ** n - 1


def ops(vc):
    """expressions over the inputs, symbolic or not"""
    if not vc.sym:
        class O:
            put = staticmethod(lambda v, n, sh: (int(v) & (2 ** n - 1)) << sh)
            orr = staticmethod(lambda a, b: a | b)
            eq = staticmethod(lambda a, b: int(a) == int(b))

            @staticmethod
            def take(w, n, sh, signed):
                v = (w >> sh) & (2 ** n - 1)
                return v - 2 ** n if signed and v >> (n - 1) else v
        return O
    import z3
    from pyvc.npsym import BV, expr
    from pyvc.values import mk

    class S:
        put = staticmethod(lambda v, n, sh: BV(
            (v.e & z3.BitVecVal(2 ** n - 1, 64)) << sh))
        orr = staticmethod(lambda a, b: BV(expr(a) | expr(b)))
        eq = staticmethod(lambda a, b: mk(expr(a) == expr(b)))

        @staticmethod
        def take(w, n, sh, signed):
            bits = z3.Extract(sh + n - 1, sh, w.e)
            return BV((z3.SignExt if signed else z3.ZeroExt)(64 - n, bits))
    return S


def dtype(f):
    n = span(f)[0]
    if n == 1:
        return "bool"
    for b in (8, 16, 32):
        if n <= b:
            return ("int" if f.signed else "uint") + str(b)


ROWS = 2


def use_np(vc):
    if vc.sym:
        from pyvc.npsym import Np
        vc.patch(pt, "np", Np())


@harness("C12", functions=FNS, rand=400, max_paths=12000, budget=400,
         timeout_ms=20000)
def pack(vc):
    fields = layout(vc)
    part, client, fs = make(vc, fields)
    use_np(vc)
    o = ops(vc)
    vals = {n: [vc.bv("%s%d" % (n, i), *span(f)[1:]) for i in range(ROWS)]
            for n, f in fs}
    if vc.sym:
        from pyvc.npsym import Arr
        table = {n: Col(Arr([v.e for v in vals[n]], dtype(f)))
                 for n, f in fs}
        for n, f in fs:
            if span(f)[0] > 1:
                vc.check("a column holds every value of its field",
                         part.meta.elements[n].dtype == dtype(f))
    else:
        table = part.meta.validate({n: [
            bool(x) if span(f)[0] == 1 else x for x in vals[n]]
            for n, f in fs})
    words = max(f.bits_hi for _, f in fs) // 32 + 1
    if vc.sym or not vc.flag("through set_field"):
        got = vc.call(part.list_from_table, table)
        vc.check("the rows can be put in words", got.ok)
        if not got.ok:
            return
        out = list(got.value)
    else:
        got = vc.call(part.set_field, table)
        vc.check("the rows can be put in words", got.ok)
        if not got.ok:
            return
        vc.check("one table sent to the right field",
                 [x[:2] for x in client.tables] == [("BLOCK", "TABLE")])
        out = list(client.tables[0][2])
    vc.check("so many words for each row", len(out) == ROWS * words)
    if len(out) != ROWS * words:
        return
    for i in range(ROWS):
        for w in range(words):
            want = 0
            for n, f in fs:
                if f.bits_lo // 32 == w:
                    want = o.orr(want, o.put(vals[n][i], span(f)[0],
                                             f.bits_lo % 32))
            vc.check("each word holds the bits of its fields, nothing else",
                     o.eq(out[i * words + w], want))


@harness("C12", functions=FNS, rand=400, max_paths=12000, budget=400,
         timeout_ms=20000)
def unpack(vc):
    fields = layout(vc)
    part, client, fs = make(vc, fields)
    use_np(vc)
    o = ops(vc)
    words = max(f.bits_hi for _, f in fs) // 32 + 1
    ints = [vc.bv("w%d" % i, 0, 2 ** 32 - 1) for i in range(ROWS * words)]
    if vc.sym:
        vc.patch(part.meta, "validate", lambda t: t)
        got = vc.call(part.table_from_list, list(ints))
    else:
        got = vc.call(part.table_from_list, [str(x) for x in ints])
    vc.check("the words can be read as rows", got.ok)
    if not got.ok:
        return
    table = got.value
    for n, f in fs:
        col = getattr(table, n)
        vals = list(col)
        vc.check("one value for each row", len(vals) == ROWS)
        nb, lo, hi = span(f)
        dt = col.dtype if vc.sym else col.seq.dtype
        vc.check("of the type of the column", str(dt) == dtype(f))
        for i in range(min(ROWS, len(vals))):
            w = ints[i * words + f.bits_lo // 32]
            vc.check("each value is its bits of the word",
                     o.eq(vals[i], o.take(w, nb, f.bits_lo % 32,
                                          f.signed and nb > 1)))


@harness("C12", functions=FNS, rand=300, max_paths=2000)
def choices(vc):
    """fields with labels"""
    lo = vc.choice("lo", [0, 1, 7, 16, 30, 32, 48, 62])
    other = vc.flag("other")
    fields = [("TRIG", TableFieldData(lo + 1, lo, "d", LABELS, False))]
    if other:
        b = lo // 32 * 32
        a = (b, lo - 1) if lo % 32 > 2 else (lo + 2, b + 31)
        fields.append(("REST", TableFieldData(a[1], a[0], "d", None, False)))
    part, client, fs = make(vc, fields)
    picks = [vc.choice("pick%d" % i, [0, 1, 2]) for i in range(ROWS)]
    rest = fs[1][1] if other else None
    vals = {"trig": [LABELS[p] for p in picks]}
    if other:
        vals["rest"] = [span(rest)[2], 1]
    table = part.meta.validate(vals)
    out = [int(x) for x in part.list_from_table(table)]
    words = max(f.bits_hi for _, f in fs) // 32 + 1
    for i in range(ROWS):
        want = picks[i] << lo % 32
        if other:
            want |= vals["rest"][i] << rest.bits_lo % 32
        vc.check("the word of the field", out[i * words + lo // 32] == want)
    back = part.table_from_list([str(x) for x in out])
    vc.check("read back the same", back == table)


@harness("C12", functions=FNS, rand=10)
def no_fields(vc):
    """a box that describes no fields has one signed word in each row"""
    part, client, fs = make(vc, [])
    table = part.meta.validate({"value": [1, -1, -2 ** 31, 2 ** 31 - 1]})
    out = [int(x) for x in part.list_from_table(table)]
    vc.check("words", out == [1, 2 ** 32 - 1, 2 ** 31, 2 ** 31 - 1])
    vc.check("back", part.table_from_list([str(x) for x in out]) == table)
