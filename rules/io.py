"""W01-W06, W08: the segment writer and the files under it.

The public operations are run abstractly from an arbitrary state of their
class (any file contents, any position, any index entries, any metadata so
far) over ghost files (rules/world.py) in which every operation may fail.
Which of a segment's two files is the data file is not taken from names: it is
the one that carries the data signature after SegmentWriter::new."""
import lin as L
from lin import Lin, ZERO, ONE, le, lt, eq, neg, conj
import engine as E
import models as M
import shapes as S
from engine import State, Ref, BoolV, Seq, Agg, SymV, Top, TRUE, FALSE, UNIT, ARR, Arr, RES, OPT, seg_len
from ob import Ob
from core import parallel, softly
from rules.buffers import guarded, SMALL
from rules import world as W

ST = "meerkat::store::"
WRITER = ST + "io::default_block_writer::Writer"
SEGW, COLW = ST + "segment_writer::SegmentWriter", ST + "segment_writer::ColumnWriter"
SINKI, BIDX = ST + "block_sink::BlockSinkImpl", ST + "block_index::BlockIndex"
SINKW = "<%s as %sencoding::BlockSink>::write_block" % (SINKI, ST)
META = ST + "segment_metadata::"
U64, U32 = ("int", "u64"), ("int", "u32")
DATA_SIG, INDEX_SIG = b"MEERKAT_DATA1", b"MEERKAT_IDX1"
SELF = ("self",)
BIG = 2 ** 50


def sym_seq(name, n, elem=("int", "u8")):
    ARR[name] = Arr(n, "plain", elem)
    return Seq([("S", name, ZERO, n)])


def const_seq(b):
    return [("S", ("const", tuple(b)), ZERO, Lin.const(len(b)))]


def get(v, name):
    if isinstance(v, Agg) and name in (v.names or ()):
        return v.fields[v.names.index(name)]
    return None


class Io:
    def __init__(self, ctx, prop, contracts=None):
        self.ctx, self.prop, self.P = ctx, prop, ctx.P
        self.eng = W.engine(ctx.P, contracts)
        self.ob = Ob(ctx, self.eng)
        if prop == "W03":
            self.ob.no_panic("failure-panics", when=W.failed)
        else:
            self.ob.no_panic("panics", when=lambda s: not W.failed(s))

    def need(self, prop, st, rule, cond, msg, where, vals=(), key=None):
        if self.eng.quiet or prop != self.prop:
            return True
        return self.ob.need(st, rule, cond, msg, vals, where, key=key or "%s@%s" % (rule, where.replace(ST, "").replace(" ", "")))

    def run(self, st, path, args, what=None, env=None):
        """call (and await) a function; judge W03 on every path"""
        eng, ctx = self.eng, self.ctx
        if ctx.need(path) is None:
            return []
        ctx.note("abstract calls")
        out = []
        for s, v in S.call(eng, st.copy(), path, args, env):
            if self.is_future(s, v):
                out += eng.poll(s, v, None, "?")
            else:
                out.append((s, v))
        ctx.functions |= eng.analysed
        ctx.note("paths", len(out))
        if out or not eng.dropped:
            self.need(self.prop, st, "returns", len(out) > 0, "%s never returns" % path, path)
        for s, r in out:
            if W.failed(s):
                bad = isinstance(r, Agg) and r.path == RES and r.variant == 1
                self.need("W03", s, "failure-reported", bad, lambda: "%s fails but %s returns %r" % (W.failed(s), path, r), path, [r] if not isinstance(r, Agg) else [])
            elif isinstance(r, Agg) and r.path == RES and self.prop == "W03":
                ctx.ok("failure-reported", path)
            elif getattr(ctx, "false_errors", False) and isinstance(r, Agg) and r.path == RES and not self.excused(s, r):
                self.need(self.prop, s, "false-error", r.variant == 0, lambda: "%s returns an error though no operation has failed" % path.replace(ST, ""), path, [])
        return out

    def excused(self, st, r):
        """errors that are not failures: an encoding the factory rejects"""
        return r.variant == 1 and "unsupported" in repr(r.fields[0])

    def is_future(self, st, v):
        for _ in range(6):
            if isinstance(v, Ref):
                v = self.eng.read(st, v.root, v.steps)
        return isinstance(v, Agg) and v.kind in ("coroutine", "fut")

    def good(self, outs):
        """the paths that report success, with what they return"""
        for s, r in outs:
            if isinstance(r, Agg) and r.path == RES:
                if r.variant == 0 and not W.failed(s):
                    yield s, r.fields[0]
            elif not W.failed(s):
                yield s, r

    # -------------------------------------------------------------- writers
    def writer(self, st, k, q, dirty=FALSE, unsynced=FALSE):
        """an arbitrary writer whose file holds q"""
        while len(W.files(st)) <= k:
            W.add_file(st, SymV(("path", len(W.files(st)))), Seq(), W.TFILE)
        W.put(st, ("file", k), content=q, dirty=dirty, unsynced=unsynced)
        h = SymV(("handle", ("file", k)), ("adt", W.TFILE, ()))
        return S.build(self.P, WRITER, {}, {("adt", W.TFILE, ()): h, U64: q.len()})

    def pos(self, st, ref, where):
        """what pos() says"""
        r = S.call(self.eng, st.copy(), WRITER + "::pos", [ref])
        return r[0][1] if len(r) == 1 else Top("pos")

    def one_file(self, name="old"):
        n = S.atom("written", 0, BIG)
        q = sym_seq(name, n)
        st = State({}, ())
        w = self.writer(st, 0, q, TRUE, TRUE)
        st.mem[SELF] = w
        return st, q

    def w_new(self):
        eng = self.eng
        p = WRITER + "::new"
        for s, v in self.good(self.run(State({}, ()), p, [SymV(("the path",), None)])):
            fs = W.files(s)
            h = self.find_handle(s, v)
            self.need("W01", s, "opens-a-file", h is not None, lambda: "a new writer holds %r" % (v,), p, [v])
            if h is None:
                continue
            q = W.content(s, h)
            self.need("W01", s, "starts-empty", isinstance(q, Seq) and eng.ent_eq(s, q.len(), ZERO) and not self.over(q), lambda: "a new file starts with %r" % (q,), p, [q])
            s.mem[("w",)] = v
            x = self.pos(s, Ref(("w",)), p)
            self.need("W01", s, "starts-at-zero", isinstance(x, Lin) and eng.ent_eq(s, x, ZERO), lambda: "the position of a new writer is %r" % (x,), p, [x])
            path = s.mem[h].fields[0]
            self.need("W01", s, "path", M.val(eng, s, path) == SymV(("the path",)), lambda: "the file created is %r, not the one asked for" % (path,), p, [path])

    def over(self, q):
        return any(x[0] == "X" and x[1] == "overwritten" for x in q.segs)

    def find_handle(self, st, v):
        out = []

        def go(v, d=0):
            if d > 6:
                return
            if isinstance(v, Ref):
                v = M.val(self.eng, st, v)
            if isinstance(v, SymV) and v.term[0] == "handle":
                out.append(v.term[1])
            if isinstance(v, Agg):
                for f in v.fields:
                    go(f, d + 1)
        go(v)
        return out[0] if len(set(out)) == 1 else None

    def w_ops(self):
        eng = self.eng
        me = Ref(SELF, (), None, None, True)
        for m in ("write_block", "flush", "sync"):
            st, q = self.one_file()
            p = WRITER + "::" + m
            n = S.atom("block_len", 0, BIG)
            st.mem[("block",)] = blk = sym_seq("block", n)
            args = [me] + ([Ref(("block",), (), ZERO, n)] if m == "write_block" else [])
            p0 = self.pos(st, me, p)
            self.need("W01", st, "position", isinstance(p0, Lin) and eng.ent_eq(st, p0, q.len()), lambda: "pos() is %r where %r bytes were written" % (p0, q.len()), WRITER + "::pos", [p0])
            for s, r in self.good(self.run(st, p, args)):
                k = ("file", 0)
                c = W.content(s, k)
                new = list(blk.segs) if m == "write_block" else []
                want = list(q.segs) + new
                self.need("W01", s, "whole-block" if new else "adds-nothing", isinstance(c, Seq) and eng.seq_eq(s, M.flat(eng, s, c), want), lambda: "after %s the file holds %r, expected %r" % (m, c, Seq(want)), p, [c])
                x = self.pos(s, me, p)
                y = Seq(want).len()
                self.need("W01", s, "position", isinstance(x, Lin) and eng.ent_eq(s, x, y), lambda: "after %s the position is %r where the file holds %r bytes" % (m, x, y), p, [x])
                d, u = W.flags(s, k)
                if m == "flush":
                    self.need("W05", s, "flushes", d == FALSE, "flush() reports success with writes still unconfirmed", p)
                if m == "sync":
                    self.need("W05", s, "syncs", u == FALSE, "sync() reports success without having synced the file", p)
                    self.need("W05", s, "confirms", d == FALSE, "sync() reports success although a pending write may have failed: tokio reports that only at the next write or flush", p)
                    self.need("W03", s, "confirms", d == FALSE, "sync() reports success although a pending write may have failed: tokio reports that only at the next write or flush", p)

    # ---------------------------------------------------------------- index
    def index_value(self, tag, n):
        """an arbitrary block index of n entries; (value, entries) with entries as (row, offset) sequences"""
        fs = S.fields(self.P, BIDX)
        vecs = [(f, t) for f, t in fs if t[0] == "adt" and t[1] == S.VEC]
        if len(fs) == 2 and {t[2][0] for _, t in vecs} == {U64, U32}:
            vals = [sym_seq("%s_%s" % (tag, "row" if t[2][0] == U32 else "end"), n, t[2][0]) for _, t in vecs]
            return Agg("adt", BIDX, 0, None, vals, [f for f, _ in fs])
        if len(fs) == 1 and vecs:
            return Agg("adt", BIDX, 0, None, [sym_seq("%s_entry" % tag, n, vecs[0][1][2][0])], [fs[0][0]])
        raise S.Shape("%s: not a list of row ids and offsets" % BIDX)

    def entries_added(self, st, before, after):
        """[(row, offset)] that `after` has beyond `before`, None if it is not an extension"""
        eng = self.eng
        if not (isinstance(after, Agg) and after.path == BIDX and len(after.fields) == len(before.fields)):
            return None
        cols = []
        for b, a in zip(before.fields, after.fields):
            if not isinstance(a, Seq):
                return None
            segs = list(M.flat(eng, st, a))
            r = eng.cut(st, segs, b.len())
            if r is None or not eng.seq_eq(st, list(r[0]), list(b.segs)):
                return None
            rest = [x for x in r[1] if not eng.ent_eq(st, seg_len(x), ZERO)]
            if any(x[0] != "E" and not eng.ent_eq(st, seg_len(x), ONE) for x in rest):
                return None
            cols.append([eng.seg_elem(x, ZERO) for x in rest])
        if len(cols) == 2:
            if len(cols[0]) != len(cols[1]):
                return None
            fs = S.fields(self.P, BIDX)
            ri = [i for i, (f, t) in enumerate(fs) if t[2][0] == U32][0]
            return list(zip(cols[ri], cols[1 - ri]))
        out = []
        for e in cols[0]:
            if not isinstance(e, Agg) or len(e.fields) != 2:
                return None
            out.append(e.fields)
        return out

    def sink(self, st, q, n):
        """BlockSinkImpl over file 0 (holding q) and an index of n entries"""
        st.mem[("w", 0)] = self.writer(st, 0, q, TRUE, TRUE)
        st.mem[("idx",)] = self.index_value("old", n)
        by = {("adt", WRITER, ()): Ref(("w", 0), (), None, None, True), ("adt", BIDX, ()): Ref(("idx",), (), None, None, True)}
        out, names = [], []
        for f, t in S.fields(self.P, SINKI):
            t2 = t[1] if t[0] == "ref" else t
            if t2 not in by:
                raise S.Shape("%s.%s: a field of this type is not expected" % (SINKI, f))
            out.append(by.pop(t2))
            names.append(f)
        if by:
            raise S.Shape("%s: fields missing" % SINKI)
        return Agg("adt", SINKI, 0, None, out, names)

    def w_sink(self):
        eng = self.eng
        st = State({}, ())
        n = S.atom("entries", 0, SMALL)
        q = sym_seq("old", S.atom("written", 0, BIG))
        st.mem[SELF] = self.sink(st, q, n)
        before = st.mem[("idx",)]
        bl = S.atom("block_len", 0, BIG)
        st.mem[("block",)] = blk = sym_seq("block", bl)
        row = S.atom("row", 0, 2 ** 32 - 1)
        for s, r in self.run(st, SINKW, [Ref(SELF, (), None, None, True), row, Ref(("block",), (), ZERO, bl)]):
            after = s.mem[("idx",)]
            add = self.entries_added(s, before, after)
            isok = isinstance(r, Agg) and r.path == RES and r.variant == 0
            if W.failed(s):
                self.need("W02", s, "no-entry-on-failure", add == [], lambda: "the write fails but the block index becomes %r" % (after,), SINKW, [after])
                continue
            if not isok:
                continue
            c = W.content(s, ("file", 0))
            want = list(q.segs) + list(blk.segs)
            self.need("W02", s, "written-first", isinstance(c, Seq) and eng.seq_eq(s, M.flat(eng, s, c), want), lambda: "success is reported with %r in the file, expected %r" % (c, Seq(want)), SINKW, [c])
            self.need("W02", s, "one-entry", add is not None and len(add) == 1, lambda: "a block was written but the block index becomes %r" % (after,), SINKW, [after])
            if add and len(add) == 1:
                a, b = add[0]
                end = q.len() + bl
                ok = isinstance(a, Lin) and isinstance(b, Lin) and eng.ent_eq(s, a, row) and eng.ent_eq(s, b, end)
                if not ok and len(after.fields) == 1:
                    # which of the two is the row is the declaration's business
                    ok = isinstance(a, Lin) and isinstance(b, Lin) and eng.ent_eq(s, b, row) and eng.ent_eq(s, a, end)
                self.need("W02", s, "entry", ok, lambda: "the entry says row %r, end %r; the block ends with row %r at %r" % (a, b, row, end), SINKW, [a, b])

    def w_index(self):
        """clear() empties; flush() writes the entries where the layout says"""
        eng = self.eng
        n = S.atom("entries", 1, SMALL)
        st = State({}, ())
        st.mem[SELF] = self.index_value("old", n)
        me = Ref(SELF, (), None, None, True)
        for s, _ in self.run(st, BIDX + "::clear", [me]):
            v = s.mem[SELF]
            empty = isinstance(v, Agg) and all(isinstance(f, Seq) and eng.ent_eq(s, f.len(), ZERO) for f in v.fields)
            self.need("W02", s, "clear", empty, lambda: "after clear() the index holds %r" % (v,), BIDX + "::clear", [v])
        q = sym_seq("old", S.atom("written", 13, BIG))
        st.mem[("w", 0)] = self.writer(st, 0, q, TRUE, TRUE)
        p = BIDX + "::flush"
        for s, v in self.good(self.run(st, p, [me, Ref(("w", 0), (), None, None, True)])):
            c = W.content(s, ("file", 0))
            r = get(v, "range")
            r = r.fields[0] if isinstance(r, Agg) and r.variant == 1 and r.fields else None
            a, b = get(r, "start"), get(r, "end")
            ok = isinstance(c, Seq) and isinstance(a, Lin) and isinstance(b, Lin) and eng.ent_eq(s, a, q.len()) and eng.ent_eq(s, b, c.len()) and eng.entails(s, lt(a, b))
            self.need("W02", s, "index-recorded", ok, lambda: "an index of %r entries is said to lie at %r..%r of a file that had %r bytes before and has %r now" % (n, a, b, q.len(), c.len() if isinstance(c, Seq) else c), p, [v, c])


# ------------------------------------------------------------------- segments
def enc_new(eng, st, args, call):
    """the factory: an encoder of which nothing is known but that it implements the trait"""
    s = st.copy()
    root = ("encoder",)
    s.mem[root] = SymV(("encoder",), None)
    W.event(s, "factory", *args)
    st.note("%s: the encoding is rejected" % call.span)
    return [(s, E.ok(Ref(root, (), None, None, True))), (st, E.err(SymV(("unsupported",))))]


def trait_fut(name):
    def f(eng, st, args, call):
        return [(st, W.fut(name, *args))]
    return f


def idx_index(eng, st, args, call):
    s = st.copy()
    W.event(s, "index", args[1])
    return [(s, E.ok(UNIT)), (W.fail(st, "indexing a buffer", call.span), W.ioerr("index"))]


SEG_CONTRACTS = {ST + "encoding::new_binary_encoder": enc_new,
                 ST + "encoding::BlockEncoder::encode": trait_fut("encode"), ST + "encoding::BlockEncoder::flush": trait_fut("encflush"),
                 ST + "index::ColumnIndex::flush": trait_fut("idxflush"), ST + "index::ColumnIndex::index": idx_index}


class Seg(Io):
    def __init__(self, ctx, prop, index_flush=False):
        c = dict(SEG_CONTRACTS)
        if index_flush:
            # what BlockIndex::flush itself does is judged by w_index; here: when it is called, and with what
            c[BIDX + "::flush"] = trait_fut("bidxflush")
        super().__init__(ctx, prop, c)
        self.eng.hooks["poll2"] = self.foreign

    def foreign(self, eng, st, v, fr, span):
        """an encoder or a column index: may write a block through the sink or writer it is given, or fail"""
        n = v.path
        if n in ("encode", "encflush"):
            sink = v.fields[-1]
            res = SymV(("encoder layout",)) if n == "encflush" else UNIT
            s0 = st.copy()
            W.event(s0, n, *v.fields[1:])
            out = [(s0, E.ok(res)), (W.fail(st, "the encoder", span), E.err(SymV(("encoder error",))))]
            s = st.copy()
            W.event(s, n, *v.fields[1:])
            i = len([e for e in W.events(s) if e.path == n])
            ln = S.atom("%s_block_%d" % (n, i), 1, BIG)
            root = ("block", n, i)
            s.mem[root] = sym_seq("%s_block_%d" % (n, i), ln)
            row = S.atom("%s_row_%d" % (n, i), 0, 2 ** 32 - 1)
            for s2, f in S.call(eng, s, SINKW, [sink, row, Ref(root, (), ZERO, ln)]):
                for s3, r in eng.poll(s2, f, None, span):
                    if isinstance(r, Agg) and r.path == RES and r.variant == 0:
                        out.append((s3, E.ok(res)))
                    else:
                        out.append((s3, E.err(SymV(("encoder error",)))))
            return out
        if n in ("idxflush", "bidxflush"):
            w = v.fields[-1]
            s = st.copy()
            what = "column_index" if n == "idxflush" else "block_index"
            W.event(s, n, *([M.val(eng, st, v.fields[0])] if n == "bidxflush" else []))
            ln = S.atom(what + "_len", 1, BIG)
            root = ("block", n)
            s.mem[root] = sym_seq(what, ln)
            out = [(W.fail(st, "the %s" % what.replace("_", " "), span), E.err(SymV(("index error",))))]
            for s2, f in S.call(eng, s, WRITER + "::write_block", [w, Ref(root, (), ZERO, ln)]):
                for s3, r in eng.poll(s2, f, None, span):
                    if isinstance(r, Agg) and r.path == RES and r.variant == 0:
                        out.append((s3, E.ok(SymV((what.replace("_", " ") + " layout",)))))
                    else:
                        out.append((s3, E.err(SymV(("index error",)))))
            return out
        return None

    # ------------------------------------------------------------- new
    def info(self):
        return self.eng.expand(SymV(("info",), ("adt", ST + "segment_writer::SegmentInfo", ())))

    def created(self):
        """successful states of SegmentWriter::new with the roles of the files"""
        eng = self.eng
        p = SEGW + "::new"
        info = self.info()
        if info is None:
            raise S.Shape("SegmentInfo")
        res = []
        for s, v in self.good(self.run(State({}, ()), p, [SymV(("base path",), None), info])):
            role = {}
            for k in W.files(s):
                c = W.content(s, k)
                for nm, sig in (("data", DATA_SIG), ("index", INDEX_SIG)):
                    if isinstance(c, Seq) and eng.seq_eq(s, M.flat(eng, s, c), const_seq(sig)):
                        role.setdefault(nm, []).append(k)
            good = len(role.get("data", [])) == 1 and len(role.get("index", [])) == 1 and len(W.files(s)) == 2
            self.need("W04", s, "signatures", good, lambda: "after new() the files hold %s" % [W.content(s, k) for k in W.files(s)], p, [W.content(s, k) for k in W.files(s)])
            if not good:
                continue
            res.append((s, v, role["data"][0], role["index"][0], info))
        return res

    def check_new(self):
        eng = self.eng
        p = SEGW + "::new"
        for s, v, dk, ik, info in self.created():
            self.names(s, dk, ik, info, p)
            m = [f for f in v.fields if isinstance(f, Agg) and f.path == META + "Metadata"]
            sm = get(m[0], "segment_meta") if len(m) == 1 else None
            sm = sm.fields[0] if isinstance(sm, Agg) and sm.variant == 1 and sm.fields else None
            if not isinstance(sm, Agg):
                self.need("W06", s, "segment-meta", False, lambda: "the new segment's metadata is %r" % (m,), p, m)
                continue
            for n in ("database_name", "table_name", "shard_id", "num_rows"):
                a, b = get(sm, n), get(info, n)
                self.need("W06", s, "segment-" + n, eng.val_eq(s, a, b), lambda: "the metadata's %s is %r, declared was %r" % (n, a, b), p, [a])
            a = get(sm, "segment_id")
            self.need("W06", s, "segment-id", self.is_id(s, a, info), lambda: "the metadata's segment id is %r" % (a,), p, [a])
            for f in ("columns_meta",):
                x = get(sm, f)
                self.need("W06", s, "no-columns-yet", isinstance(x, Agg) and x.kind == "map" and x.fields == (SymV(("emptymap",)),), lambda: "a new segment lists the columns %r" % (x,), p, [x])

    def is_id(self, st, a, info):
        """the 16 bytes of the segment id"""
        if not isinstance(a, Seq):
            return False
        segs = [x for x in M.flat(self.eng, st, a) if not self.eng.ent_eq(st, seg_len(x), ZERO)]
        idt = self.eng.term(st, get(info, "segment_id"))
        if len(segs) == 1 and segs[0][0] == "X" and segs[0][1] == "be":
            # as_u128() in big-endian order is the same 16 bytes
            x, w = segs[0][2]
            return w == 16 and isinstance(x, Lin) and x == Lin.atom(("v", ("call", "uuid::Uuid::as_u128", idt)))
        if len(segs) != 1 or segs[0][0] != "S" or not (self.eng.ent_eq(st, segs[0][2], ZERO) and self.eng.ent_eq(st, segs[0][3], Lin.const(16))):
            return False
        t = segs[0][1]
        while isinstance(t, tuple) and t and t[0] in ("*", "fld"):
            t = t[1]
        return isinstance(t, tuple) and len(t) == 3 and t[0] == "call" and t[1] in ("uuid::Uuid::as_bytes", "uuid::Uuid::into_bytes") and t[2] == idt

    def names(self, s, dk, ik, info, p):
        pass

    # ---------------------------------------------------- an arbitrary segment
    def segment(self):
        """states with an arbitrary open segment at SELF: [(state, data file, index file, info)]"""
        eng, P = self.eng, self.P
        out = []
        for s, v, dk, ik, info in self.created():
            if not (isinstance(v, Agg) and v.path == SEGW):
                raise S.Shape("SegmentWriter::new does not return a SegmentWriter")
            s.mem.pop(W.EVENTS, None)
            fs = []
            for f, x in zip(v.names, v.fields):
                if isinstance(x, Agg) and x.path == WRITER:
                    k = self.find_handle(s, x)
                    sig = DATA_SIG if k == dk else INDEX_SIG
                    nm = "data" if k == dk else "index"
                    q = Seq(const_seq(sig) + list(sym_seq("more_" + nm, S.atom("more_" + nm, 0, BIG)).segs))
                    x = self.writer(s, k[1], q, TRUE, TRUE)
                elif isinstance(x, Agg) and x.path == BIDX:
                    x = self.index_value("stale", S.atom("stale_entries", 0, SMALL))
                elif isinstance(x, Agg) and x.path == META + "Metadata":
                    x = self.old_columns(x)
                fs.append(x)
            s.mem[SELF] = Agg("adt", SEGW, 0, None, fs, v.names)
            out.append((s, dk, ik, info))
        return out

    def old_columns(self, m):
        """the metadata with arbitrary columns recorded so far"""
        fs = []
        for n, x in zip(m.names, m.fields):
            if isinstance(x, Agg) and x.kind == "map":
                x = Agg("map", None, 0, None, (SymV(("columns so far", n)),))
            elif isinstance(x, Agg) and x.path == OPT and x.fields and isinstance(x.fields[0], Agg):
                x = E.some(self.old_columns(x.fields[0])) if x.fields[0].names else x
            fs.append(x)
        return Agg(m.kind, m.path, m.variant, m.vname, fs, m.names, m.env)

    def metadata(self, st):
        for f in st.mem[SELF].fields:
            if isinstance(f, Agg) and f.path == META + "Metadata":
                return f
        return None

    def close(self):
        eng = self.eng
        p = SEGW + "::close"
        for st, dk, ik, info in self.segment():
            q, d0 = W.content(st, ik), W.content(st, dk)
            m0 = self.metadata(st)
            for s, r in self.good(self.run(st, p, [Ref(SELF, (), None, None, True)])):
                c, d = W.content(s, ik), W.content(s, dk)
                rest = None
                if isinstance(c, Seq):
                    x = eng.cut(s, list(M.flat(eng, s, c)), q.len())
                    if x is not None and eng.seq_eq(s, list(x[0]), list(q.segs)):
                        rest = eng.wholes(s, x[1])
                good = rest is not None and len(rest) == 2 and rest[0][0] == "X" and rest[0][1] == "encoded" and rest[1][0] == "X" and rest[1][1] == "le"
                self.need("W04", s, "footer", good, lambda: "close() appends %s to the index file, expected the metadata and the 8-byte little-endian position of it" % (Seq(rest) if rest is not None else c), p, [c])
                if good:
                    x, w = rest[1][2]
                    self.need("W04", s, "footer-position", w == 8 and eng.ent_eq(s, x, q.len()), lambda: "the footer says %r in %d bytes, the metadata starts at %r" % (x, w, q.len()), p, [x])
                    m = rest[0][2][0]
                    self.need("W04", s, "metadata", eng.val_eq(s, m, m0), lambda: "what is written is %r, not the segment's metadata %r" % (m, m0), p, [m])
                    self.need("W06", s, "metadata", eng.val_eq(s, m, m0), lambda: "what is written is %r, not the segment's metadata %r" % (m, m0), p, [m])
                    sm = get(m, "segment_meta")
                    sm = sm.fields[0] if isinstance(sm, Agg) and sm.fields else None
                    for n in ("compressed_size", "uncompressed_size"):
                        y = get(sm, n)
                        self.need("W06", s, "figure", not (isinstance(y, Lin) and y.is_const()), lambda: "the segment's %s is always %r" % (n, y), p, [], key="figure@SegmentWriter::close:%s" % n)
                self.need("W04", s, "data-untouched", isinstance(d, Seq) and eng.seq_eq(s, M.flat(eng, s, d), list(d0.segs)), lambda: "close() leaves %r in the data file" % (d,), p, [d])
                for k, nm in ((dk, "data"), (ik, "index")):
                    self.need("W05", s, "close-flushes", W.flags(s, k)[0] == FALSE, "close() reports success but writes to the %s file are not flushed" % nm, p, key="close-flushes@%s" % nm)

    def sync(self):
        p = SEGW + "::sync"
        for st, dk, ik, info in self.segment():
            b = self.P.bodies.get(p)
            byval = b is not None and self.P.rty(b["locals"][1][0])[0] != "ref"
            for s, r in self.good(self.run(st, p, [st.mem[SELF] if byval else Ref(SELF, (), None, None, True)])):
                for k, nm in ((dk, "data"), (ik, "index")):
                    d, u = W.flags(s, k)
                    self.need("W05", s, "sync-syncs", u == FALSE, "sync() reports success but the %s file is not synced" % nm, p, key="sync-syncs@%s" % nm)
                    self.need("W05", s, "sync-confirms", d == FALSE, "sync() reports success but a pending write to the %s file may have failed" % nm, p, key="sync-confirms@%s" % nm)

    # -------------------------------------------------------------- columns
    def colinfo(self):
        return self.eng.expand(SymV(("column",), ("adt", ST + "segment_writer::ColumnInfo", ())))

    def pinned(self, st, v):
        """v with the enum variants this path has chosen"""
        if isinstance(v, SymV):
            for t, vi in st.pin:
                if t == v.term:
                    return Agg("adt", v.ty[1], vi, self.eng.vname(v.ty, vi))
        return v

    def number(self, st, v):
        """the numbers by which an enum value may be recorded"""
        v = self.pinned(st, v)
        if isinstance(v, Agg):
            return [self.eng.discr_at(st, ("x",), (), v)[0][1]]
        if isinstance(v, SymV):
            a = ("v", ("into", v.term))
            E.BOUND.setdefault(a, (-2 ** 31, 2 ** 31 - 1))
            return [Lin.atom(a)]
        return []

    def column(self, indexed):
        """[(state, data, index, column info)] with an arbitrary open column writer at ("col",)"""
        eng = self.eng
        p = SEGW + "::new_binary_column_writer"
        out = []
        for st, dk, ik, info in self.segment():
            ci = self.colinfo()
            if ci is None:
                raise S.Shape("ColumnInfo")
            for s, v in self.good(self.run(st, p, [Ref(SELF, (), None, None, True), ci])):
                if not (isinstance(v, Agg) and v.path == COLW):
                    raise S.Shape("new_binary_column_writer does not return a ColumnWriter")
                if not indexed:
                    self.opened(st, s, v, ci, dk, ik, p)
                fs, n = list(v.fields), 0
                for i, (f, t) in enumerate(S.fields(self.P, COLW, {"B": ("adt", S.BIN, ())})):
                    if t[0] == "adt" and t[1] == OPT and "ColumnIndex" in str(t):
                        n += 1
                        if indexed:
                            s.mem[("colindex",)] = SymV(("colindex",), None)
                            fs[i] = E.some(Ref(("colindex",), (), None, None, True))
                if indexed and n != 1:
                    raise S.Shape("ColumnWriter: no optional column index")
                s.mem[("col",)] = Agg("adt", COLW, 0, None, fs, v.names)
                out.append((s, dk, ik, ci))
        return out

    def open_column(self):
        self.column(False)

    def opened(self, st, s, v, ci, dk, ik, p):
        """what new_binary_column_writer has set up"""
        eng = self.eng
        ev = [e for e in W.events(s) if e.path == "factory"]
        self.need("W06", s, "encoder-asked-for", len(ev) == 1 and eng.val_eq(s, self.pinned(s, ev[0].fields[0]), self.pinned(s, get(ci, "encoding"))) and eng.val_eq(s, ev[0].fields[2], get(ci, "nullable")),
                  lambda: "the encoder is made by %r for the column %r" % (ev, ci), p, [])
        if len(ev) == 1:
            a, n = ev[0].fields[0], ev[0].fields[1]
            self.need("W09", s, "block-size", isinstance(n, Lin) and eng.ent_eq(s, n, Lin.const(1 << 17)), lambda: "the encoder is asked for blocks of %r bytes, documented are 128 KiB" % (n,), p, [n])
            self.need("W09", s, "encoding", eng.val_eq(s, self.pinned(s, a), self.pinned(s, get(ci, "encoding"))), lambda: "the encoder is made for the encoding %r, declared is %r" % (self.pinned(s, a), self.pinned(s, get(ci, "encoding"))), p, [])
            self.need("W09", s, "nullable", eng.val_eq(s, ev[0].fields[2], get(ci, "nullable")), lambda: "the encoder is made for nullable=%r, declared is %r" % (ev[0].fields[2], get(ci, "nullable")), p, [])
        self.need("W09", s, "one-encoder", len(ev) == 1, lambda: "a new column makes %d encoders" % len(ev), p, [])
        idx = [f for f in s.mem[SELF].fields if isinstance(f, Agg) and f.path == BIDX]
        empty = len(idx) == 1 and all(isinstance(f, Seq) and eng.ent_eq(s, f.len(), ZERO) for f in idx[0].fields)
        self.need("W02", s, "starts-empty", empty, lambda: "a new column starts with the block index %r" % (idx,), p, idx)
        it = get(ci, "index_type")
        none = [f for f, (n, t) in zip(v.fields, S.fields(self.P, COLW, {"B": ("adt", S.BIN, ())})) if t[0] == "adt" and t[1] == OPT and "ColumnIndex" in str(t)]
        x = self.pinned(s, it)
        asked = not (isinstance(x, Agg) and x.vname == "NoIndex")
        built = len(none) == 1 and isinstance(none[0], Agg) and none[0].variant == 1
        self.need("W06", s, "index-built", not asked or built, lambda: "a column asking for an index of type %r gets none, though its metadata will name one" % (x,), p, [])

    def frames(self, st, k, q, what):
        """the blocks appended to file k beyond q, by name; None if it is not an extension"""
        eng = self.eng
        c = W.content(st, k)
        if not isinstance(c, Seq):
            return None
        x = eng.cut(st, list(M.flat(eng, st, c)), q.len())
        if x is None or not eng.seq_eq(st, list(x[0]), list(q.segs)):
            return None
        out = []
        for y in x[1]:
            if eng.ent_eq(st, seg_len(y), ZERO):
                continue
            if y[0] == "S" and isinstance(y[1], str) and eng.ent_eq(st, y[2], ZERO) and y[1] in ARR and eng.ent_eq(st, y[3], ARR[y[1]].length):
                out.append(y[1])
            else:
                out.append("?" + E.repr_seg(y))
        return out

    def write(self):
        eng = self.eng
        p = COLW + "::write"
        for indexed in (False, True):
            for st, dk, ik, ci in self.column(indexed):
                st.mem.pop(W.EVENTS, None)
                st.mem[("thebuf",)] = SymV(("thebuf",), ("adt", S.BIN, ()))
                d0, i0 = W.content(st, dk), W.content(st, ik)
                buf = Ref(("thebuf",))
                for s, r in self.good(self.run(st, p, [Ref(("col",), (), None, None, True), buf])):
                    ev = W.events(s)
                    enc = [e for e in ev if e.path == "encode"]
                    self.need("W08", s, "encoder-sees-buffer", len(enc) == 1 and self.same(s, enc[0].fields[0], buf), lambda: "one write hands %s to the encoder" % (list(enc),), p, [])
                    ix = [e for e in ev if e.path == "index"]
                    self.need("W08", s, "index-sees-buffer", (len(ix) == 1 and self.same(s, ix[0].fields[0], buf)) if indexed else not ix, lambda: "one write of a column %s an index hands %s to it" % ("with" if indexed else "without", list(ix)), p, [])
                    a, b = self.frames(s, dk, d0, p), self.frames(s, ik, i0, p)
                    self.need("W08", s, "blocks-to-data-file", a is not None and all(x.startswith("encode_block") for x in a) and b == [], lambda: "a write adds %s to the data file and %s to the index file" % (a, b), p, [W.content(s, dk), W.content(s, ik)])

    def same(self, st, a, ref):
        r = M.rref(self.eng, st, a)
        return r is not None and r.root == ref.root and r.steps == ref.steps

    def colclose(self):
        eng = self.eng
        p = COLW + "::close"
        for indexed in (False, True):
            for st, dk, ik, ci in self.column(indexed):
                st.mem.pop(W.EVENTS, None)
                d0, i0 = W.content(st, dk), W.content(st, ik)
                m0 = self.metadata(st)
                for s, r in self.good(self.run(st, p, [Ref(("col",), (), None, None, True)])):
                    self.closed(s, ci, dk, ik, d0, i0, m0, indexed, p)

    def closed(self, s, ci, dk, ik, d0, i0, m0, indexed, p):
        eng = self.eng
        ev = [e.path for e in W.events(s)]
        self.need("W08", s, "flushes-encoder", ev.count("encflush") == 1, lambda: "closing a column flushes the encoder %d times" % ev.count("encflush"), p)
        self.need("W08", s, "flushes-index", ev.count("idxflush") == (1 if indexed else 0), lambda: "closing a column flushes its index %d times" % ev.count("idxflush"), p)
        a, b = self.frames(s, dk, d0, p), self.frames(s, ik, i0, p)
        self.need("W08", s, "blocks-to-data-file", a is not None and all(x.startswith("encflush_block") for x in a), lambda: "closing a column adds %s to the data file" % (a,), p, [W.content(s, dk)])
        self.need("W08", s, "index-to-index-file", b is not None and all(x in ("column_index", "block_index") or x.startswith("?") for x in b) and b.count("column_index") == (1 if indexed else 0) and not any("_block" in x for x in b),
                  lambda: "closing a column adds %s to the index file" % (b,), p, [W.content(s, ik)])
        if BIDX + "::flush" in self.P.bodies:
            fl = [e for e in W.events(s) if e.path == "bidxflush"]
            now = [f for f in s.mem[SELF].fields if isinstance(f, Agg) and f.path == BIDX]
            self.need("W02", s, "index-flushed", len(fl) == 1 and b is not None and b.count("block_index") == 1, lambda: "closing a column writes its block index %d times, and to the index file %s" % (len(fl), b), p, [W.content(s, ik)])
            if len(fl) == 1 and len(now) == 1:
                x = fl[0].fields[0]
                self.need("W02", s, "index-complete", eng.val_eq(s, x, now[0]), lambda: "the block index is written as %r, but by the end of close() it is %r" % (x, now[0]), p, [x, now[0]])
        # metadata
        m = self.metadata(s)
        sm = get(m, "segment_meta")
        sm = sm.fields[0] if isinstance(sm, Agg) and sm.variant == 1 and sm.fields else None
        name = get(ci, "name")
        ent = {}
        for n, x in (("columns_meta", get(sm, "columns_meta")), ("columns_layout", get(m, "columns_layout"))):
            x = W.as_map(x)
            good = x is not None and len(x.fields) == 2 and x.fields[0] == SymV(("columns so far", n))
            self.need("W06", s, "one-entry-" + n, good, lambda: "closing a column makes %s %r" % (n, x), p, [x] if x is not None else [])
            if not good:
                continue
            k, v = x.fields[1].fields
            k = M.val(eng, s, k)
            self.need("W06", s, "filed-under-name", eng.val_eq(s, k, name), lambda: "the column's entry of %s is filed under %r" % (n, k), p, [k], key="filed-under-name@%s" % n)
            ent[n] = M.val(eng, s, v)
        # everything else stays
        if isinstance(m, Agg) and isinstance(m0, Agg) and isinstance(sm, Agg):
            sm0 = get(m0, "segment_meta").fields[0]
            for n in ("segment_id", "database_name", "table_name", "shard_id", "num_rows"):
                self.need("W06", s, "segment-kept", eng.val_eq(s, get(sm, n), get(sm0, n)), lambda: "closing a column changes the segment's %s to %r" % (n, get(sm, n)), p, [get(sm, n)])
        c = ent.get("columns_meta")
        if c is not None:
            self.need("W06", s, "column-name", eng.val_eq(s, M.val(eng, s, get(c, "name")), name), lambda: "the column's recorded name is %r" % (get(c, "name"),), p, [get(c, "name")])
            x = get(c, "nullable")
            self.need("W06", s, "column-nullable", eng.val_eq(s, x, get(ci, "nullable")), lambda: "the recorded nullability is %r" % (x,), p, [x])
            for n in ("column_type", "encoding", "index_type"):
                x = get(c, n)
                self.need("W06", s, "column-" + n, isinstance(x, Lin) and any(eng.ent_eq(s, x, y) for y in self.number(s, get(ci, n))), lambda: "the recorded %s is %r, declared was %r" % (n, x, get(ci, n)), p, [x])
            for n in ("num_values", "num_nulls", "compressed_size", "uncompressed_size"):
                x = get(c, n)
                self.need("W06", s, "figure", not (isinstance(x, Lin) and x.is_const()), lambda: "a column's %s is always %r" % (n, x), p, [], key="figure@ColumnWriter::close:%s" % n)
        l = ent.get("columns_layout")
        if l is not None:
            x = get(l, "encoder_layout")
            self.need("W06", s, "encoder-layout", x == E.some(SymV(("encoder layout",))), lambda: "the recorded encoder layout is %r, not what the encoder returned" % (x,), p, [x])
            x = get(l, "column_index_layout")
            want = E.some(SymV(("column index layout",))) if indexed else E.NONE
            self.need("W06", s, "index-layout", x == want or (not indexed and isinstance(x, Agg) and x.variant == 1 and getattr(x.fields[0], "vname", "") == "NoIndex"), lambda: "the recorded column index layout is %r" % (x,), p, [x])
            x = get(l, "block_index_layout")
            want = E.some(SymV(("block index layout",)))
            self.need("W06", s, "block-index-layout", x == want if BIDX + "::flush" in self.P.bodies else isinstance(x, Agg) and x.path == OPT and x.variant == 1, lambda: "the recorded block index layout is %r" % (x,), p, [x])


RULES = {
    "W01": "pos() and the file's contents advance by exactly the block; new files are empty; flush and sync add nothing",
    "W02": "entry (row id, end position) exactly for each block written; index empty at the start of a column; the index is written where the layout says",
    "W03": "on every path on which some operation failed, the result is an error; every future made is awaited",
    "W04": "signatures first; close appends encoded metadata ++ le64(its position) to the index file only",
    "W05": "no unconfirmed write on either file after close; nothing unconfirmed or unsynced after sync",
    "W06": "segment and column entries equal the declarations, filed under the column's name; the layouts are those the encoder and indexes returned",
    "W09": "the one encoder of a new column is made for the declared encoding and nullability and blocks of 128 KiB",
    "W08": "each buffer goes once to the encoder and the index; encoder flushed once at close; blocks go to the data file, index data to the index file",
}
STEPS = {
    "W01": ("w_new", "w_ops"), "W02": ("w_sink", "w_index", "write", "colclose"), "W03": ("w_new", "w_ops", "w_sink", "w_index", "close", "sync", "write", "colclose"),
    "W04": ("close",), "W05": ("w_ops", "close", "sync"), "W06": ("check_new", "close", "colclose"), "W08": ("write", "colclose"), "W09": ("open_column",),
}


def rule(prop):
    def f(ctx):
        ctx.rule(RULES[prop])
        def job(m):
            def g(c):
                guarded(c, m, lambda: getattr(Seg(c, prop, m == "colclose"), m)())
            return lambda c: softly(c, g, [W.exactly(i, g) for i in W.SIZES])
        jobs = [job(m) for m in STEPS[prop]]
        if prop == "W03":
            from rules import reader, encoder, awaits
            jobs += [reader.job(prop, m) for m in ("r_new", "read")]
            jobs += encoder.failing_sink(ctx)
            jobs.append(awaits.check)
        parallel(ctx, jobs)
    return f
