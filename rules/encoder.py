"""E01-E04, E09: the raw block encoders.

One abstract run of encode() and of flush() per encoder, element type and
nullability, from an arbitrary state of the encoder's class (pending values
smaller than a block, arbitrary left-overs in the scratch buffers) and an
arbitrary input buffer.  The sink is a stand-in that decodes what it is handed
and keeps ghost counters (values and rows emitted so far); the loop summaries
of the engine relate these to the program's own positions, so that each block
is judged for every iteration at once."""
import lin as L
from lin import Lin, ZERO, ONE, le, lt, eq, ne, neg, conj
import engine as E
import models as M
import shapes as S
from engine import State, Ref, BoolV, Seq, Agg, SymV, Top, TRUE, FALSE, BOUND, UNIT, seg_len
from ob import Ob
from core import parallel
from rules.buffers import guarded, same, SMALL, DATA

ENC = "meerkat::store::encoding::"
PRIMENC, BINENC = ENC + "raw::primitive_enc::Encoder", ENC + "raw::binary_enc::Encoder"
RLE, OFF = ENC + "bitmap_rle::Encoder", ENC + "offsets::OffsetEncoder"
U8 = ("int", "u8")
SELF, BUF, SINK = ("self",), ("buf",), ("sink",)
GPOS, GROW, GBLK, GFAIL = ("ghost", "values"), ("ghost", "rows"), ("ghost", "blocks"), ("ghost", "failed")
U32MAX = 2 ** 32 - 1
BIGROWS = 2 ** 40


# ------------------------------------------------------------------ contracts
def rle_value(bits, out):
    return Agg("adt", RLE, 0, None, (Seq(bits), Seq(out)), ("bits", "out"))


def rle_of(eng, st, v):
    r = M.rref(eng, st, v)
    if r is None:
        return None, None
    x = eng.read(st, r.root, r.steps)
    if isinstance(x, Agg) and x.path == RLE and len(x.fields) == 2 and all(isinstance(f, Seq) for f in x.fields):
        return r, x
    return r, None


def rle_new(eng, st, args, call):
    return [(st, rle_value([], []))]


def rle_clear(eng, st, args, call):
    r, x = rle_of(eng, st, args[0])
    if x is None:
        return None
    eng.write(st, r.root, r.steps, rle_value([], []))
    return [(st, UNIT)]


def rle_put(eng, st, args, call):
    r, x = rle_of(eng, st, args[0])
    if x is None:
        return None
    b = args[1]
    alts = [(st, b)]
    if isinstance(b, BoolV) and b.lin is None:
        v = eng.bool_lin(st, b)
        if v is None:
            alts = [(s, c) for c, k in ((TRUE, b.c), (FALSE, neg(b.c))) for s in eng.assume(st.copy(), k)]
        else:
            alts = [(st, TRUE if v == ONE else FALSE if v == ZERO else BoolV(b.c, v))]
    out = []
    for s, b in alts:
        eng.write(s, r.root, r.steps, rle_value(list(x.fields[0].segs) + [("E", b)], x.fields[1].segs))
        out.append((s, UNIT))
    return out


def rle_flush(eng, st, args, call):
    r, x = rle_of(eng, st, args[0])
    if x is None:
        return None
    n = eng.fresh_int("rle_len", 0)
    bits, o = x.fields
    seg = ("X", "rle", tuple(bits.segs), n) if not o.segs else ("X", "rle-again", (tuple(o.segs), tuple(bits.segs)), n)
    eng.write(st, r.root, r.steps, rle_value(bits.segs, [seg]))
    return [(st, UNIT)]


def rle_values(eng, st, args, call):
    r, x = rle_of(eng, st, args[0])
    if x is None:
        return None
    return [(st, Ref(r.root, r.steps + (("f", 1, "abs"),), ZERO, x.fields[1].len()))]


def put_varint(eng, st, args, call):
    r, q = M.vec(eng, st, args[0])
    if r is None or not isinstance(q, Seq):
        return None
    v = eng.as_lin(st, args[1])
    n = eng.fresh_int("varint_len", 1, 10)
    M.set_vec(eng, st, r, list(M.flat(eng, st, q)) + [("X", "varint", v, n)])
    return [(st, UNIT)]


def encode_varint(eng, st, args, call):
    r = M.rref(eng, st, args[1])
    if r is None:
        return None
    v = eng.as_lin(st, args[0])
    n = eng.fresh_int("varint_len", 1, 10)
    m = eng.slice_len(st, r)
    lo = r.lo if r.lo is not None else ZERO
    out = []
    for s in M.panic(eng, st, le(n, m), "varint buffer too small", call):
        M.write_range(eng, s, Ref(r.root, r.steps, lo, lo + n, True), [("X", "varint", v, n)])
        out.append((s, n))
    return out


def offsets_encode(eng, st, args, call):
    rs, src = M.vec(eng, st, args[1])
    rd, dst = M.vec(eng, st, args[2])
    if not (isinstance(src, Seq) and isinstance(dst, Seq)):
        return None
    n = eng.fresh_int("packed_len", 1)
    M.set_vec(eng, st, rd, list(M.flat(eng, st, dst)) + [("X", "packed", tuple(M.flat(eng, st, src)), n)])
    M.set_vec(eng, st, rs, [("X", "padded", tuple(src.segs), eng.fresh_int("padded_len", 0))])
    return [(st, UNIT)]


def offsets_new(eng, st, args, call):
    return [(st, SymV(("packer",), ("adt", OFF, ())))]


def sink_write(eng, st, args, call):
    return [(st, Agg("fut", "sinkwrite", 0, None, (args[1], args[2])))]


CONTRACTS = {RLE + "::new": rle_new, RLE + "::clear": rle_clear, RLE + "::put": rle_put, RLE + "::flush": rle_flush,
             RLE + "::encoded_values": rle_values,
             ENC + "varint::Encoder::put_varint": put_varint, ENC + "varint::encode_varint": encode_varint,
             OFF + "::encode": offsets_encode, OFF + "::new": offsets_new,
             ENC + "BlockSink::write_block": sink_write}


# ------------------------------------------------------------------- the model
class Run:
    """one encoder in an arbitrary state"""

    def __init__(self, ctx, prop, path, nullable, elem=("int", "i64"), flush=False):
        self.ctx, self.prop, self.path, self.nullable, self.flush = ctx, prop, path, nullable, flush
        P = self.P = ctx.P
        self.bin = path == BINENC
        bpath = S.BIN if self.bin else S.PRIM
        self.elem = elem
        self.es = 1 if self.bin else M.elem_size(elem)
        self.eng = eng = S.engine(P, CONTRACTS)
        eng.abstract[RLE] = lambda e, t, ty: rle_value([("X", "stale", t, e.fresh_int("n"))], [("X", "stale", t, e.fresh_int("n"))])
        self.stream = t = S.Stream(P, bpath, nullable, elem, ["rem"] if flush else ["rem", "buf"])
        self.rem, self.buf = t.parts[0], (None if flush else t.parts[1])
        r, b = self.rem, self.buf
        self.min = S.atom("block_size")
        self.n0 = S.atom("rows_before", 0, U32MAX)
        st = State({}, tuple(t.cons) + ((ONE - self.min, False), (self.min - SMALL, False)))
        cons = [(t.rows - BIGROWS, False), (self.bytes_of(r) - self.min + 1, False)]
        if self.bin:
            cons.append((t.d - DATA, False))
        if prop != "E04":
            # running out of row ids is E04's business
            cons.append((self.n0 + t.rows - U32MAX, False))
        st.cons += tuple(cons)
        by = {("adt", bpath, () if self.bin else (elem,)): r.value,
              ("vec", U8): Seq([("X", "stale", "encoded", S.atom("stale_bytes"))]),
              ("adt", RLE, ()): rle_value([("X", "stale", "bits", S.atom("stale_bits"))], [("X", "stale", "rle", S.atom("stale_rle", 1))]),
              ("int", "u64" if self.bin else "usize"): self.min, ("int", "u32"): self.n0}
        if self.bin:
            by[("vec", ("int", "u32"))] = Seq([("X", "stale", "lengths", S.atom("stale_lengths"))])
            by[("adt", OFF, ())] = SymV(("packer",), ("adt", OFF, ()))
        self.env = {} if self.bin else dict(zip(P.adts[path]["generics"] if path in P.adts else ["T"], [elem]))
        st.mem[SELF] = S.build(P, path, self.env, by)
        if b is not None:
            st.mem[BUF] = b.value
        st.mem[SINK] = SymV(("sink",), None)
        for g in (GPOS, GROW, GBLK, GFAIL):
            st.mem[g] = ZERO
        self.st = st
        # the streams of values and rows
        self.nvals, self.nrows = t.n, t.rows
        if nullable:
            self.rowseq = Seq([("S", "bits", ZERO, t.rows)])
        if not self.bin:
            self.valseq = Seq([("S", "v", ZERO, t.n)])
        else:
            self.valseq = Seq([("S", "d", ZERO, t.d)])
            i = ("s", "i@len")
            self.lenseq = Seq([("L", i, E.mk_sel("o", Lin.atom(i) + 1) - E.mk_sel("o", Lin.atom(i)), ZERO, t.n)])
        self.where = "<%s as BlockEncoder>::%s" % (path, "flush" if flush else "encode")
        self.ob = Ob(ctx, eng, self.where)
        self.tag = "%s encoder of %s values" % ("binary" if self.bin else "primitive", "nullable" if nullable else "non-null")
        eng.hooks["poll"] = self.poll

    def bytes_of(self, q):
        return q.d if self.bin else q.n.scale(self.es)

    def off(self, st, g):
        """byte position of value g of the stream; None if undetermined"""
        return E.mk_sel("o", g) if self.bin else g.scale(self.es)

    # ---------------------------------------------------------------- reporting
    def need(self, prop, st, rule, cond, msg, vals=()):
        if self.eng.quiet:
            return True
        if prop != self.prop:
            return True
        t = "flush" if self.flush else "encode"
        return self.ob.need(st, rule, cond, msg, vals, self.where, key="%s@%s::%s" % (rule, self.path.replace(ENC, ""), t))

    # ----------------------------------------------------------------- the sink
    def poll(self, eng, st, v, fr, span):
        if v.path != "sinkwrite":
            return None
        bad = st.copy()
        bad.note("%s: the sink fails" % span)
        bad.mem[GFAIL] = ONE
        s = st.copy()
        s.note("%s: a block is handed to the sink" % span)
        res = self.block(s, v, span)
        return [(x, E.ok(UNIT)) for x in res] + [(bad, E.err(SymV(("sinkerror",), None)))]

    def block(self, st, v, span):
        """decode a block; -> successor states"""
        eng = self.eng
        r = M.rref(eng, st, v.fields[1])
        segs = [x for x in E.norm_segs(eng.slice_segs(st, r)) if not eng.ent_eq(st, seg_len(x), ZERO)] if r is not None else [("U", "data", ZERO)]
        q = Seq(segs)
        row = eng.as_lin(st, v.fields[0])
        # header
        body = segs
        head = segs[0] if segs and segs[0][0] == "X" and segs[0][1] == "varint" else None
        self.need("E03", st, "starts-with-length", head is not None, lambda: "%s: a block does not start with the varint data length but is %r" % (self.tag, q), [q])
        if head is not None:
            body = segs[1:]
        # validity at the end
        bits = None
        if body and body[-1][0] == "X" and body[-1][1] == "rle":
            bits = list(body[-1][2])
            body = body[:-1]
        if self.nullable:
            self.need("E03", st, "ends-with-validity", bits is not None, lambda: "%s: a block does not end with its encoded validity but is %r" % (self.tag, q), [q])
            self.need("E02", st, "ends-with-validity", bits is not None, lambda: "%s: a block carries no validity of its own: %r" % (self.tag, q), [q])
        else:
            self.need("E03", st, "ends-with-validity", bits is None, lambda: "%s: a block carries validity although the column is not nullable: %r" % (self.tag, q), [q])
        lens = None
        if self.bin:
            if body and body[-1][0] == "X" and body[-1][1] == "packed":
                lens = list(body[-1][2])
                body = body[:-1]
            self.need("E03", st, "packed-lengths", lens is not None, lambda: "%s: the packed item lengths do not follow the data: %r" % (self.tag, q), [q])
        data, vals, clean = ZERO, [], True
        for x in body:
            data = data + seg_len(x)
            if self.bin:
                vals.append(x)
                clean = clean and x[0] in ("S", "E", "F", "L")
            elif x[0] == "X" and x[1] == "bytes":
                vals += list(x[2][0])
            else:
                clean = False
        self.need("E03", st, "only-data", clean, lambda: "%s: something other than the values' bytes lies between the parts of a block: %r" % (self.tag, q), [q])
        if head is not None:
            self.need("E03", st, "data-length", isinstance(head[2], Lin) and eng.ent_eq(st, head[2], data),
                      lambda: "%s: the data length says %r but %r bytes of data follow" % (self.tag, head[2], data), [q])
        # values
        pos, row0 = st.mem[GPOS], st.mem[GROW]
        if not (isinstance(pos, Lin) and isinstance(row0, Lin)):
            self.lost(st)
            return [st]
        if self.bin:
            n = ZERO
            for x in lens or []:
                n = n + seg_len(x)
        else:
            n = Seq(vals).len()
        st.mem[GBLK] = st.mem[GBLK] + 1
        nrow = n
        if self.nullable:
            nrow = Seq(bits or []).len()
        self.need("E01", st, "values-in-order", le(pos + n, self.nvals), lambda: "%s: a block holds more values (%r) than are left" % (self.tag, n), [q, pos, n])
        if self.bin:
            self.need("E03", st, "packed-lengths", le(pos + n, self.nvals), lambda: "%s: %r lengths are packed, more than there are items" % (self.tag, n), [q, pos, n])
        okv = eng.ent_le(st, pos + n, self.nvals)
        if okv:
            o0, o1 = self.off(st, pos), self.off(st, pos + n)
            if not self.bin:
                want = eng.sub(st, self.valseq, pos, pos + n)
                good = eng.seq_eq(st, vals, want)
                self.need("E01", st, "values-in-order", good, lambda: "%s: a block holds %r where the next values are %r" % (self.tag, Seq(vals), Seq(want)), [Seq(vals), pos])
            else:
                want = eng.sub(st, self.lenseq, pos, pos + n)
                good = eng.seq_eq(st, lens or [], want)
                self.need("E01", st, "lengths-in-order", good, lambda: "%s: the item lengths of a block are %r where the next ones are %r" % (self.tag, Seq(lens or []), Seq(want)), [Seq(lens or []), pos])
                self.need("E03", st, "packed-lengths", good, lambda: "%s: the packed lengths are those of %r, not those of the items of the block: %r" % (self.tag, Seq(lens or []), Seq(want)), [Seq(lens or []), pos])
                if o0 is not None and o1 is not None:
                    w2 = eng.sub(st, self.valseq, o0, o1)
                    self.need("E01", st, "values-in-order", eng.seq_eq(st, vals, w2), lambda: "%s: a block holds the bytes %r where the next values are %r" % (self.tag, Seq(vals), Seq(w2)), [Seq(vals), pos])
                else:
                    self.need("E01", st, "values-in-order", False, lambda: "%s: the position %r of a block is not known" % (self.tag, pos), [pos, Top("position")])
            if not self.flush and o0 is not None and o1 is not None:
                self.need("E09", st, "block-size", le(self.min, o1 - o0), lambda: "%s: a block of %r bytes is emitted, smaller than the block size" % (self.tag, o1 - o0), [q, pos])
                for s2 in eng.assume(st.copy(), le(ONE, n)):
                    o2 = self.off(s2, pos + n - 1)
                    if o2 is not None:
                        self.need("E09", s2, "no-excess", lt(o2 - o0, self.min), lambda: "%s: a block would already be large enough without its last value (%r bytes)" % (self.tag, o2 - o0), [q, pos])
        # validity
        if self.nullable and bits is not None:
            okr = eng.ent_le(st, row0 + nrow, self.nrows)
            want = eng.sub(st, self.rowseq, row0, row0 + nrow) if okr else []
            self.need("E02", st, "validity-in-order", okr and eng.seq_eq(st, bits, want),
                      lambda: "%s: a block has the validity %r where the next rows are %r" % (self.tag, Seq(bits), Seq(want)), [Seq(bits), row0])
            c = S.ones(Seq(bits))
            self.need("E02", st, "validity-count", c is not None and eng.ent_eq(st, c, n), lambda: "%s: the validity of a block marks %r values but it holds %r" % (self.tag, c, n), [Seq(bits), n])
        # label
        self.need("E04", st, "row-id", eq(row, self.n0 + row0 + nrow - 1), lambda: "%s: a block whose last row is %r is labelled %r" % (self.tag, self.n0 + row0 + nrow - 1, row), [row, row0, nrow])
        self.need("E04", st, "row-id-fits", le(row, Lin.const(U32MAX)), lambda: "%s: the row id %r may exceed its type and wrap" % (self.tag, row), [row])
        st.mem[GPOS], st.mem[GROW] = pos + n, row0 + nrow
        return [st]

    def lost(self, st):
        for p in ("E01", "E02", "E03", "E04", "E09"):
            self.need(p, st, "tracking", False, "%s: the number of values emitted so far could not be bounded" % self.tag, [Top("loop summary")])

    # ------------------------------------------------------------------- driver
    def go(self):
        eng, ctx, st = self.eng, self.ctx, self.st
        name = "flush" if self.flush else "encode"
        path = "<%s as %sBlockEncoder>::%s" % (self.path, ENC, name)
        args = [Ref(SELF, (), None, None, True)] + ([] if self.flush else [Ref(BUF)]) + [Ref(SINK, (), None, None, True)]
        if ctx.need(path) is None:
            return
        if self.prop == "E01":
            self.ob.no_panic("panics")
        ctx.note("abstract calls")
        n = 0
        for s, v in S.call(eng, st, path, args, self.env or None):
            for s2, r in eng.poll(s, v, None, "?"):
                self.exit(s2, r)
                n += 1
        ctx.functions |= eng.analysed
        ctx.note("paths", n)
        ctx.note("loops", eng.loops)
        self.need(self.prop, st, "returns", n > 0, "%s never returns" % name)

    def exit(self, st, r):
        eng = self.eng
        if isinstance(r, Agg) and r.path == E.RES and r.variant == 1:
            return
        f = st.mem[GFAIL]
        fine = isinstance(f, Lin) and eng.ent_eq(st, f, ZERO)
        self.need("W03", st, "failure-reported", fine, lambda: "%s: %s reports success although a block could not be written" % (self.tag, "flush" if self.flush else "encode"), [f])
        if not fine or self.prop == "W03":
            # the other properties are not about failed writes
            return
        pos, row = st.mem[GPOS], st.mem[GROW]
        if not (isinstance(pos, Lin) and isinstance(row, Lin)):
            return self.lost(st)
        enc = st.mem[SELF]
        pt = S.parts(self.P, enc, self.env) or {}
        rk = ("adt", S.BIN if self.bin else S.PRIM, () if self.bin else (self.elem,))
        rem = pt.get(rk)
        rp = S.parts(self.P, rem, self.rem.env) if isinstance(rem, Agg) else None
        if rp is None:
            return self.need(self.prop, st, "pending", False, "%s: the pending values are %r" % (self.tag, rem), [rem] if rem is not None else [])
        q = rp[("vec", U8)] if self.bin else rp[("vec", self.elem)]
        if self.flush:
            self.need("E01", st, "flush-empties", eq(pos, self.nvals), lambda: "%s: after a flush %r of %r values have been emitted" % (self.tag, pos, self.nvals), [pos])
            if self.nullable:
                self.need("E02", st, "flush-empties", eq(row, self.nrows), lambda: "%s: after a flush %r of %r rows have been emitted" % (self.tag, row, self.nrows), [row])
            empty = isinstance(q, Seq) and eng.ent_eq(st, q.len(), ZERO)
            self.need("E01", st, "nothing-pending", empty, lambda: "%s: after a flush %r is still pending" % (self.tag, q), [q])
            if self.bin:
                o = rp[("vec", ("int", "u32"))]
                self.need("E01", st, "nothing-pending", isinstance(o, Seq) and eng.ent_eq(st, o.len(), ONE), lambda: "%s: after a flush the offsets are %r" % (self.tag, o), [o])
            if self.nullable:
                b = rp[("optbits",)]
                b = S.bits_of(b.fields[0]) if isinstance(b, Agg) and b.fields else None
                self.need("E02", st, "nothing-pending", b is not None and eng.ent_eq(st, b.len(), ZERO), lambda: "%s: after a flush the rows %r are still pending" % (self.tag, b), [b])
        else:
            o0 = self.off(st, pos)
            if not self.bin:
                want = eng.sub(st, self.valseq, pos, self.nvals)
                self.need("E01", st, "pending-values", isinstance(q, Seq) and eng.seq_eq(st, q.segs, want), lambda: "%s: %r is pending where %r has not been emitted" % (self.tag, q, Seq(want)), [q, pos])
            elif o0 is not None:
                want = eng.sub(st, self.valseq, o0, self.stream.d)
                self.need("E01", st, "pending-values", isinstance(q, Seq) and eng.seq_eq(st, q.segs, want), lambda: "%s: %r is pending where %r has not been emitted" % (self.tag, q, Seq(want)), [q, pos])
                o = rp[("vec", ("int", "u32"))]
                i = ("s", "i@off")
                full = Seq([("L", i, E.mk_sel("o", Lin.atom(i)) - o0, ZERO, self.nvals + 1)])
                w2 = eng.sub(st, full, pos, self.nvals + 1)
                self.need("E01", st, "pending-values", isinstance(o, Seq) and eng.seq_eq(st, o.segs, w2), lambda: "%s: the pending offsets are %r, expected %r" % (self.tag, o, Seq(w2)), [o, pos])
            else:
                self.need("E01", st, "pending-values", False, "%s: position not known" % self.tag, [Top("position")])
            if self.nullable:
                b = rp[("optbits",)]
                b = S.bits_of(b.fields[0]) if isinstance(b, Agg) and b.fields else None
                want = eng.sub(st, self.rowseq, row, self.nrows)
                self.need("E02", st, "pending-validity", b is not None and eng.seq_eq(st, b.segs, want), lambda: "%s: the pending rows are %r where %r have not been emitted" % (self.tag, b, Seq(want)), [b, row])
            ln = q.len().scale(self.es) if isinstance(q, Seq) else Top("?")
            self.need("E09", st, "pending-smaller", isinstance(q, Seq) and eng.entails(st, lt(ln, self.min)), lambda: "%s: %r bytes stay pending, which is not less than a block" % (self.tag, ln), [q])
        rows = pt.get(("int", "u32"))
        self.need("E04", st, "row-count", isinstance(rows, Lin) and eng.ent_eq(st, rows, self.n0 + row), lambda: "%s: the row counter is %r after %r rows were written" % (self.tag, rows, self.n0 + row), [rows, row])
        for k, w in ((("int", "u64" if self.bin else "usize"), self.min),):
            g = pt.get(k)
            self.need("E09", st, "size-kept", isinstance(g, Lin) and eng.ent_eq(st, g, w), lambda: "%s: the block size changes to %r" % (self.tag, g), [g])


RULES = {
    "E01": "values emitted + values pending = values ingested, in order, for every state and input (ghost position carried through the loop summaries)",
    "E02": "validity bits of each block = the next rows, exactly as many set bits as values; rows emitted + rows pending = rows ingested",
    "E03": "a block is varint(data length) ++ data ++ [packed lengths] ++ [encoded validity], whatever the scratch buffers held before",
    "E04": "row id of a block = rows emitted before encode + rows up to and including the block - 1, and provably fits",
    "E09": "a block emitted by encode holds at least the block size, not without its last value; what stays pending is smaller",
}


def rule(prop):
    def f(ctx):
        ctx.rule(RULES[prop])
        jobs = []
        for path in (BINENC, PRIMENC):
            for nullable in (True, False):
                elems = [("int", "i64")] if path == BINENC or (ctx.tier == "quick" and not nullable) else [("int", "i64"), ("int", "i32")]
                for el in elems:
                    for fl in (False, True):
                        if fl and prop == "E09":
                            continue
                        jobs.append(lambda c, a=(path, nullable, el, fl): guarded(c, a[0], lambda: Run(c, prop, *a).go()))
            jobs.append(lambda c, p=path: guarded(c, p, lambda: fresh(c, prop, p)))
        parallel(ctx, jobs)
    return f


def failing_sink(ctx):
    """W03's share of the encoders"""
    jobs = []
    for path in (BINENC, PRIMENC):
        for nullable in (True, False):
            for fl in (False, True):
                jobs.append(lambda c, a=(path, nullable, ("int", "i64"), fl): guarded(c, a[0], lambda: Run(c, "W03", *a).go()))
    return jobs


def fresh(ctx, prop, path):
    """the initial state is in the class: nothing pending, no rows written"""
    P = ctx.P
    w = path + "::new"
    if ctx.need(w) is None:
        return
    isbin = path == BINENC
    for nullable in (False, True):
        eng = S.engine(P, CONTRACTS)
        env = {} if isbin else {"T": ("int", "i64")}
        size = S.atom("block_size")
        ob = Ob(ctx, eng, w)
        outs = S.call(eng, State({}, ((ONE - size, False), (size - SMALL, False))), w, [size, TRUE if nullable else FALSE], env or None)
        ctx.functions |= eng.analysed
        for s, v in outs:
            pt = S.parts(P, v, env)
            rk = ("adt", S.BIN if isbin else S.PRIM, () if isbin else (("int", "i64"),))
            rp = S.parts(P, pt[rk], env)
            q = rp[("vec", U8)] if isbin else rp[("vec", ("int", "i64"))]
            if prop == "E01":
                ob.need(s, "initially-empty", isinstance(q, Seq) and eng.ent_eq(s, q.len(), ZERO), "a new encoder has values pending", [q], w)
            if prop == "E02":
                b = rp[("optbits",)]
                good = isinstance(b, Agg) and b.variant == (1 if nullable else 0) and (not nullable or eng.ent_eq(s, S.bits_of(b.fields[0]).len(), ZERO))
                ob.need(s, "initially-empty", good, "a new encoder tracks validity other than its nullability says: %r" % (b,), [b], w)
            if prop == "E04":
                ob.need(s, "initially-zero", isinstance(pt[("int", "u32")], Lin) and eng.ent_eq(s, pt[("int", "u32")], ZERO), "a new encoder has written rows: %r" % (pt[("int", "u32")],), [], w)
            if prop == "E09":
                g = pt[("int", "u64" if isbin else "usize")]
                ob.need(s, "size-kept", isinstance(g, Lin) and eng.ent_eq(s, g, size), "the block size of a new encoder is %r" % (g,), [g], w)
        if not outs:
            ob.need(State({}, ()), "returns", False, "new never returns", [], w)
