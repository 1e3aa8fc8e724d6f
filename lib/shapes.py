"""Symbolic initial values (with their class invariants) and contracts used by
several rules.  Types are looked up by path, fields by type."""
import lin as L
from lin import Lin, ZERO, ONE, le, lt, eq, ne, neg, conj
import engine as E
from engine import Agg, Ref, Seq, BoolV, SymV, Top, Arr, ARR, BOUND, OPT, NONE, some, UNIT, mk_P, norm_segs
import models as M

IB = "meerkat::store::indexing_buffer::"
BITMAP, PRIM, BIN, BOOLB = IB + "Bitmap", IB + "PrimitiveBuffer", IB + "BinaryBuffer", IB + "BoolBuffer"
VEC = "alloc::vec::Vec"


class Shape(Exception):
    """the declaration is not one the rule knows how to describe"""


INSTANCE = None     # when set: name -> number or None, for runs on exact instances


def atom(name, lo=0, hi=None):
    k = INSTANCE(name) if INSTANCE is not None else None
    if k is not None:
        return Lin.const(k)
    a = ("s", name)
    BOUND[a] = (lo, hi)
    return Lin.atom(a)


# ------------------------------------------------------- Bitmap as bit sequence
def bits_value(segs):
    return Agg("adt", BITMAP, 0, None, (Seq(segs),), ("bits",))


def sym_bits(name, length, total=None):
    """an arbitrary bitmap of the given length; total = number of set bits"""
    if total is None:
        total = atom("ones(%s)" % name)
    ARR[name] = Arr(length, "bits", ("bool",), total=total)
    return bits_value([("S", name, ZERO, length)])


def bits_of(v):
    if isinstance(v, Agg) and v.path == BITMAP and len(v.fields) == 1 and isinstance(v.fields[0], Seq):
        return v.fields[0]
    return None


def seg_ones(s):
    """number of set bits of a segment"""
    if s[0] == "S":
        return mk_P(s[1], s[3]) - mk_P(s[1], s[2])
    if s[0] == "E":
        b = s[1]
        if isinstance(b, BoolV):
            if b.lin is not None:
                return b.lin
            if b.c == L.T:
                return ONE
            if b.c == L.F:
                return ZERO
    if s[0] == "F" and isinstance(s[1], BoolV):
        if s[1].c == L.T:
            return s[2]
        if s[1].c == L.F:
            return ZERO
    return None


def ones(q):
    t = ZERO
    for s in q.segs:
        n = seg_ones(s)
        if n is None:
            return None
        t = t + n
    return t


def abstract_bitmap(eng, term, ty):
    n = Lin.atom(("len", term))
    name = ("bits", term)
    if name not in ARR:
        tot = atom("ones(%s)" % (str(term)[:40],))
        ARR[name] = Arr(n, "bits", ("bool",), total=tot)
    return bits_value([("S", name, ZERO, n)])


def _bm(eng, st, v):
    r = M.rref(eng, st, v)
    if r is None:
        return None, None
    return r, bits_of(eng.read(st, r.root, r.steps))


def _set(eng, st, r, segs):
    eng.write(st, r.root, r.steps, bits_value(segs))


def c_new(eng, st, args, call):
    return [(st, bits_value([]))]


def c_append(eng, st, args, call):
    r, q = _bm(eng, st, args[0])
    if q is None:
        return None
    b = args[1]
    if isinstance(b, BoolV) and b.lin is None:
        x = eng.bool_lin(st, b)
        if x is None:
            out = []
            for v, c in ((E.TRUE, b.c), (E.FALSE, neg(b.c))):
                for s in eng.assume(st.copy(), c):
                    _set(eng, s, r, list(q.segs) + [("E", v)])
                    out.append((s, UNIT))
            return out
        b = E.TRUE if x == ONE else E.FALSE if x == ZERO else BoolV(b.c, x)
    _set(eng, st, r, list(q.segs) + [("E", b)])
    return [(st, UNIT)]


def c_len(eng, st, args, call):
    r, q = _bm(eng, st, args[0])
    if q is None:
        return None
    return [(st, q.len())]


def c_is_set(eng, st, args, call):
    r, q = _bm(eng, st, args[0])
    if q is None:
        return None
    i = eng.as_lin(st, args[1])
    return [(s, eng.elem(s, q, i)) for s in M.panic(eng, st, conj(le(ZERO, i), lt(i, q.len())), "bitmap index", call)]


def c_clear(eng, st, args, call):
    r, q = _bm(eng, st, args[0])
    if q is None:
        return None
    _set(eng, st, r, [])
    return [(st, UNIT)]


BITMAP_CONTRACT = {BITMAP + "::new": c_new, BITMAP + "::with_capacity": c_new, BITMAP + "::append": c_append,
                   BITMAP + "::len": c_len, BITMAP + "::is_set": c_is_set, BITMAP + "::clear": c_clear}


def engine(P, contracts=None, bitmap=True, budget=400000):
    c = dict(BITMAP_CONTRACT) if bitmap else {}
    c.update(contracts or {})
    a = {BITMAP: abstract_bitmap} if bitmap else {}
    return E.Engine(P, c, a, budget)


# --------------------------------------------------------------- struct fields
def fields(P, path, env=None):
    a = P.adts.get(path)
    if a is None or a["kind"] != "struct":
        raise Shape("struct %s not found" % path)
    return [(n, P.rty(t, env or {})) for n, t, _ in a["variants"][0]["fields"]]


def kind(t):
    if t[0] == "adt" and t[1] == VEC:
        return ("vec", t[2][0])
    if t[0] == "adt" and t[1] == OPT and t[2][0][0] == "adt" and t[2][0][1] == BITMAP:
        return ("optbits",)
    if t[0] == "adt" and t[1] == BITMAP:
        return ("bits",)
    return t


def build(P, path, env, by):
    """Agg of struct `path`; by: kind -> value (each used once)"""
    out, names = [], []
    by = dict(by)
    for n, t in fields(P, path, env):
        k = kind(t)
        if k not in by:
            raise Shape("%s.%s: a field of this type is not expected" % (path, n))
        out.append(by.pop(k))
        names.append(n)
    if by:
        raise Shape("%s: missing fields %s" % (path, list(by)))
    return Agg("adt", path, 0, None, out, names)


def parts(P, v, env):
    """kind -> value of a struct value"""
    if not isinstance(v, Agg):
        return None
    r = {}
    for (n, t), x in zip(fields(P, v.path, env), v.fields):
        r[kind(t)] = x
    return r


INT64 = ("int", "i64")


class Buf:
    """a symbolic column buffer: rows R, values N, validity bits"""

    def __init__(self, P, path, name, nullable, elem=INT64, n=None):
        self.path, self.name, self.nullable, self.elem = path, name, nullable, elem
        self.n = n if n is not None else atom("n_" + name)
        self.env = {}
        if path == PRIM:
            gens = P.adts[path]["generics"] if path in P.adts else ["T"]
            self.env = dict(zip(gens, [elem]))
        self.rows = atom("rows_" + name) if nullable else self.n
        self.bits = None
        val = NONE
        if nullable:
            self.bits = sym_bits("bits_" + name, self.rows, self.n)
            val = some(self.bits)
        self.cons = [(-self.n, False), (self.n - self.rows, False)]
        if path == PRIM:
            ARR["v_" + name] = Arr(self.n, "plain", elem)
            by = {("vec", elem): Seq([("S", "v_" + name, ZERO, self.n)]), ("optbits",): val}
        elif path == BIN:
            self.d = atom("bytes_" + name)
            self.cons.append((-self.d, False))
            self.cons.append((self.d - (2 ** 32 - 1), False))
            # no values: no bytes
            ARR["o_" + name] = Arr(self.n + 1, "mono", ("int", "u32"), first=ZERO, last=self.d)
            ARR["d_" + name] = Arr(self.d, "plain", ("int", "u8"))
            by = {("vec", ("int", "u8")): Seq([("S", "d_" + name, ZERO, self.d)]),
                  ("vec", ("int", "u32")): Seq([("S", "o_" + name, ZERO, self.n + 1)]), ("optbits",): val}
        elif path == BOOLB:
            self.rows = atom("rows_" + name) if nullable else self.n
            by = {("bits",): sym_bits("vals_" + name, self.n), ("optbits",): val, ("int", "usize"): self.rows}
        self.by = by
        self.value = build(P, path, self.env, by)

    def off(self, i):
        return E.mk_sel("o_" + self.name, i)


class Part(Buf):
    """a buffer holding the items lo..hi of a common stream of column data (rows, values, bytes)"""

    def __init__(self, P, stream, name, first):
        path, elem, nullable = stream.path, stream.elem, stream.nullable
        self.path, self.name, self.nullable, self.elem = path, name, nullable, elem
        self.stream = stream
        self.env = stream.env
        self.n = atom("n_" + name)
        self.rows = atom("rows_" + name) if nullable else self.n
        self.first = first                       # previous part or None
        self.n0 = first.n0 + first.n if first else ZERO
        self.r0 = first.r0 + first.rows if first else ZERO
        self.cons = [(-self.n, False), (self.n - self.rows, False)]

    def finish(self, P):
        """once the stream's totals are known"""
        n0, n1, r0, r1 = self.n0, self.n0 + self.n, self.r0, self.r0 + self.rows
        val = NONE
        if self.nullable:
            self.bits = bits_value([("S", "bits", r0, r1)])
            val = some(self.bits)
        if self.path == PRIM:
            by = {("vec", self.elem): Seq([("S", "v", n0, n1)]), ("optbits",): val}
        else:
            o = lambda i: E.mk_sel("o", i)
            self.d0, self.d1 = o(n0), o(n1)
            self.d = self.d1 - self.d0
            j = ("s", "j@" + self.name)
            offs = [("L", j, o(n0 + Lin.atom(j)) - self.d0, ZERO, self.n + 1)]
            by = {("vec", ("int", "u8")): Seq([("S", "d", self.d0, self.d1)]), ("vec", ("int", "u32")): Seq(offs), ("optbits",): val}
        self.value = build(P, self.path, self.env, by)


class Stream:
    """column data in stream order, cut into consecutive buffers"""

    def __init__(self, P, path, nullable, elem, names):
        self.path, self.nullable, self.elem = path, nullable, elem
        self.env = {}
        if path == PRIM:
            gens = P.adts[path]["generics"] if path in P.adts else ["T"]
            self.env = dict(zip(gens, [elem]))
        self.parts = []
        for nm in names:
            self.parts.append(Part(P, self, nm, self.parts[-1] if self.parts else None))
        last = self.parts[-1]
        self.n, self.rows = last.n0 + last.n, last.r0 + last.rows
        self.cons = [c for p in self.parts for c in p.cons]
        if nullable:
            ARR["bits"] = Arr(self.rows, "bits", ("bool",), total=self.n)
            for p in self.parts[:-1]:
                x = mk_P("bits", p.r0 + p.rows) - p.n0 - p.n
                self.cons.append((x, True))
        if path == PRIM:
            ARR["v"] = Arr(self.n, "plain", elem)
        else:
            self.d = atom("bytes")
            ARR["o"] = Arr(self.n + 1, "mono", ("int", "u32"), first=ZERO, last=self.d)
            ARR["d"] = Arr(self.d, "plain", ("int", "u8"))
        for p in self.parts:
            p.finish(P)


def call(eng, st, path, args, env=None):
    b = eng.prog.bodies.get(path)
    if b is None:
        raise Shape("function %s not found" % path)
    g = eng.prog.body_generics(b)
    return eng.call_body(st, b, args, dict(zip(g, [env[k] for k in env])) if env and g else {}, 0)
