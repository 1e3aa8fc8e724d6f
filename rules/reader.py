"""R01, R02: reading blocks back.

The reader is run over a ghost file (rules/world.py).  A batch read is a stream
pipeline: the source must walk the requests front to back, every stage must
keep one item per request and their order, and the stages' closures are run
abstractly on an arbitrary request to see which bytes and which tag come out."""
import lin as L
from lin import Lin, ZERO, ONE, le, lt, eq, neg, conj
import engine as E
import models as M
import shapes as S
from engine import State, Ref, BoolV, Seq, Agg, SymV, Top, TRUE, FALSE, UNIT, ARR, Arr, RES, OPT, NONE, seg_len
from core import softly
from rules.io import Io, ST, BIG, get
from rules.buffers import guarded
from rules import world as W

READER = ST + "io::unix_disk_block_reader::Reader"
RB = "<%s as %sio::BlockReader>::" % (READER, ST)
OP, RANGE = ST + "io::ReadOp", ST + "io::BlockRange"
SE = "futures_util::stream::stream::StreamExt::"
TE = "futures_util::stream::try_stream::TryStreamExt::"

ONE_TO_ONE = ("map", "then", "boxed", "boxed_local", "fuse", "inspect", "buffered", "by_ref", "peekable", "left_stream", "right_stream", "enumerate", "filter_map")
TRY_ONE = ("map_ok", "map_err", "and_then", "or_else", "into_stream", "inspect_ok", "inspect_err", "err_into")
LOSSY = {"buffer_unordered": "results come in completion order", "filter": "requests are filtered", "take": "only some requests are answered",
         "skip": "requests are skipped", "take_while": "answers stop early", "skip_while": "requests are skipped", "step_by": "requests are skipped",
         "flatten_unordered": "results come in completion order", "flat_map_unordered": "results come in completion order", "take_until": "answers stop early",
         "try_buffer_unordered": "results come in completion order", "try_filter": "requests are filtered", "try_take_while": "answers stop early",
         "try_skip_while": "requests are skipped", "chunks": "results are grouped", "ready_chunks": "results are grouped", "cycle": "requests repeat",
         "chain": "further results follow"}
MESSING = ("sort", "sort_by", "sort_by_key", "sort_by_cached_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "reverse", "rotate_left", "rotate_right", "swap")


def stream(src, stages=()):
    return Agg("stream", None, 0, None, (src,) + tuple(stages))


def st_iter(eng, st, args, call):
    i = M.as_iter(eng, st, args[0])
    return [(st, stream(i if i is not None else Top("iterator")))]


def stage(name):
    def f(eng, st, args, call):
        v = args[0]
        if isinstance(v, Ref):
            v = M.val(eng, st, v)
        if not (isinstance(v, Agg) and v.kind == "stream"):
            return None
        return [(st, stream(v.fields[0], v.fields[1:] + (Agg("stage", name, 0, call.span, tuple(args[1:])),)))]
    return f


def collect(eng, st, args, call):
    t = call.dest_ty
    if t is None or t[0] != "adt" or "futures_ordered::FuturesOrdered" not in t[1] and "futures_unordered::FuturesUnordered" not in t[1]:
        return None
    i = M.as_iter(eng, st, args[0])
    if i is None:
        return None
    n = "poll" if "FuturesOrdered" in t[1] else "buffer_unordered"
    return [(st, stream(i, (Agg("stage", n, 0, call.span, ()),)))]


def mess(eng, st, args, call):
    r = M.rref(eng, st, args[0])
    if r is None:
        return None
    q = eng.read(st, r.root, r.steps)
    if not isinstance(q, Seq):
        return None
    eng.write(st, r.root, r.steps, Seq([("X", "reordered", (call.span,), q.len())]))
    return [(st, UNIT)]


def drop_some(eng, st, args, call):
    """elements leave a vector: those that stay are no longer the requests"""
    r = M.rref(eng, st, args[0])
    q = eng.read(st, r.root, r.steps) if r is not None else None
    if not isinstance(q, Seq):
        return None
    # how many stay is not known, only that fewer may
    n = eng.fresh_int("remaining", 0)
    out = []
    for s in eng.assume(st.copy(), le(n, q.len())):
        eng.write(s, r.root, r.steps, Seq([("X", "fewer", (call.span,), n)]))
        out.append((s, UNIT))
    return out


def box_pin(eng, st, args, call):
    return [(st, args[0])] if isinstance(args[0], Agg) and args[0].kind == "stream" else None


CONTRACTS = {"futures_util::stream::iter::iter": st_iter, "core::iter::traits::iterator::Iterator::collect": collect, "alloc::boxed::Box::pin": box_pin}
for _n in ONE_TO_ONE + tuple(LOSSY):
    CONTRACTS[SE + _n] = stage(_n)
for _n in TRY_ONE + tuple(LOSSY) + ("try_buffered",):
    CONTRACTS[TE + _n] = stage(_n)
for _n in MESSING:
    for _p in ("slice::", "alloc::slice::", "core::slice::", "alloc::slice::<impl [T]>::"):
        CONTRACTS[_p + _n] = mess


for _n in ("dedup", "dedup_by", "dedup_by_key", "retain", "retain_mut"):
    CONTRACTS["alloc::vec::Vec::" + _n] = drop_some


class Lossy(Exception):
    pass


class Unknown(Exception):
    pass


class Rd(Io):
    def __init__(self, ctx, prop):
        super().__init__(ctx, prop, CONTRACTS)
        if prop == "R02":
            # requests are arbitrary here, also those whose range is upside down: only what becomes of them in a blocking task counts
            ass = self.eng.hooks["assert"]
            self.eng.hooks["assert"] = lambda e, *a: ass(e, *a) if e.tasks else None

    def opened(self):
        """states with an open reader at ("rd",)"""
        eng, p = self.eng, READER + "::new"
        for s, v in self.good(self.run(State({}, ()), p, [SymV(("the path",), None)])):
            h = self.find_handle(s, v)
            self.need("R01", s, "opens-a-file", h is not None, lambda: "a new reader holds %r" % (v,), p, [v])
            if h is None:
                continue
            path = M.val(eng, s, s.mem[h].fields[0])
            self.need("R01", s, "path", self.names_path(s, path), lambda: "the file opened is %r, not the one asked for" % (path,), p, [path])
            s.mem[("rd",)] = v
            for k in W.files(s):
                W.share(s, k)
            yield s, h

    def names_path(self, st, v):
        """the path given, through conversions that keep it"""
        t = v.term if isinstance(v, SymV) else None
        while isinstance(t, tuple) and len(t) == 3 and t[0] == "call":
            t = t[2]
        while isinstance(t, tuple) and len(t) == 2 and t[0] in ("*", "&"):
            t = t[1]
        return t == ("the path",)

    def r_new(self):
        for s, h in self.opened():
            q = W.content(s, h)
            for s2, x in S.call(self.eng, s.copy(), RB + "len", [Ref(("rd",))]):
                self.need("R01", s2, "length", isinstance(x, Lin) and self.eng.ent_eq(s2, x, q.len()), lambda: "len() is %r where the opened file has %r bytes" % (x, q.len()), RB + "len", [x])

    def read(self):
        eng, p = self.eng, RB + "read_block"
        a, b = S.atom("start", 0, BIG), S.atom("end", 0, BIG)
        for s0, h in self.opened():
            q = W.content(s0, h)
            # behind the end of the file an error is the answer
            self.excused = lambda s, r: r.variant == 1 and not self.eng.entails(s, le(b, q.len()))
            rng = Agg("adt", RANGE, 0, None, self.ordered(RANGE, start=a, end=b), [f for f, _ in S.fields(self.P, RANGE)])
            for s1 in [y for x in eng.assume(s0, le(a, b)) for y in eng.assume(x.copy(), le(b, q.len())) + eng.assume(x, lt(q.len(), b))]:
                for s, v in self.good(self.run(s1, p, [Ref(("rd",)), rng])):
                    self.bytes(s, "R01", v, q, a, b, p)

    def ordered(self, path, **kw):
        names = [f for f, _ in S.fields(self.P, path)]
        if sorted(names) != sorted(kw):
            raise S.Shape("%s: fields %s expected" % (path, sorted(kw)))
        return [kw[n] for n in names]

    def bytes(self, s, prop, v, q, a, b, p):
        eng = self.eng
        if isinstance(v, Ref):
            v = M.val(eng, s, v)
        segs = M.flat(eng, s, v) if isinstance(v, Seq) else None
        n = v.len() if segs is not None else None
        self.need(prop, s, "all-bytes", n is not None and eng.ent_eq(s, n, b - a), lambda: "a read of %r..%r returns %r bytes" % (a, b, n), p, [n] if n is not None else [])
        want = eng.sub(s, q, a, b) if eng.entails(s, le(b, q.len())) else None
        self.need(prop, s, "range-exists", want is not None, lambda: "success is reported for %r..%r of a file of %r bytes" % (a, b, q.len()), p, [v])
        if want is not None:
            self.need(prop, s, "those-bytes", segs is not None and eng.seq_eq(s, segs, want), lambda: "a read of %r..%r returns %r" % (a, b, v), p, [v])

    # ---------------------------------------------------------------- batches
    def batch(self):
        eng, p = self.eng, RB + "read_blocks"
        if self.ctx.need(p) is None:
            return
        n = S.atom("requests", 0, 2 ** 32)
        ARR["ops"] = Arr(n, "plain", ("adt", OP, ()))
        for s0, h in self.opened():
            eng.hooks["keep"] = None
            outs = S.call(eng, s0.copy(), p, [Ref(("rd",)), Seq([("S", "ops", ZERO, n)])])
            self.ctx.functions |= eng.analysed
            if outs or not eng.dropped:
                self.need("R02", s0, "returns", len(outs) > 0, "read_blocks never returns", p)
            for s, v in outs:
                if isinstance(v, Ref):
                    v = M.val(eng, s, v)
                if not (isinstance(v, Agg) and v.kind == "stream"):
                    self.ctx.unsure("pipeline", p, "what is returned is not a recognised stream pipeline: %r" % (v,))
                    continue
                self.pipeline(s, v, h, n, p)

    def pipeline(self, s, v, h, n, p):
        eng = self.eng
        k = S.atom("k", 0, 2 ** 32)
        src, stages = v.fields[0], list(v.fields[1:])
        for g in stages:
            self.ctx.note("pipeline stages")
            if g.path in LOSSY and not self.harmless(s, g, n):
                self.need("R02", s, "one-result-per-request", False, "%s: %s(): %s" % (g.vname, g.path, LOSSY[g.path]), p, key="one-result-per-request@%s" % g.path)
                return
            if g.path in ("buffered", "try_buffered"):
                x = eng.as_lin(s, g.fields[0]) if g.fields else None
                self.need("R02", s, "buffered", x is not None and eng.entails(s, le(ONE, x)), lambda: "buffered(%r) never starts a read" % (x,), p, [x] if x is not None else [])
        try:
            i, = [self.at(s, src, k, n)]
        except Lossy as e:
            # whatever the condition that leads here was: a pipeline fed from rearranged requests is never right
            self.ctx.bad("one-result-per-request", p, "the requests are not walked front to back: %s" % e, path=s.path(), key="one-result-per-request@source")
            return
        except Unknown as e:
            self.ctx.unsure("pipeline", p, "the source of the stream is not recognised: %s" % e)
            return
        stages = [g for g in stages if g.path not in LOSSY]
        # the closures stay where they are, so that state they keep is seen
        for j, g in enumerate(stages):
            for x, f in enumerate(g.fields):
                if isinstance(f, Agg) and f.kind == "closure":
                    s.mem[("stage", j, x)] = f
        keep = {r: s.mem[r] for r in s.mem if r[0] == "stage"}
        for s1 in eng.assume(s.copy(), lt(k, n)):
            self.one(s1, i, stages, h, k, p, keep)

    def harmless(self, s, g, n):
        eng = self.eng
        x = eng.as_lin(s, g.fields[0]) if g.fields and not isinstance(g.fields[0], Agg) else None
        return (g.path == "take" and x is not None and eng.entails(s, le(n, x))) or (g.path == "skip" and x == ZERO)

    def at(self, s, i, k, n):
        """the source iterator when it has yielded k items"""
        eng = self.eng
        if not (isinstance(i, Agg) and i.kind == "it"):
            raise Unknown(repr(i))
        f = i.fields
        if i.path in ("owned", "slice"):
            q = eng.read(s, f[0].root, f[0].steps)
            if not isinstance(q, Seq):
                raise Unknown(repr(q))
            whole = eng.seq_eq(s, list(M.flat(eng, s, q)), [("S", "ops", ZERO, n)])
            if not whole or not eng.ent_eq(s, f[0].lo, ZERO) or not eng.ent_eq(s, f[0].hi, n) or not eng.ent_eq(s, f[1], ZERO):
                messed = any(g[0] == "X" and g[1] in ("reordered", "fewer") for g in M.flat(eng, s, q))
                if self.eng.taint(s, set()) and not messed:
                    raise Unknown("%r" % (q,))
                raise Lossy("%r" % (q,))
            return M.it(i.path, f[0], k)
        if i.path in ("map", "filtermap"):
            return M.it(i.path, self.at(s, f[0], k, n), f[1])
        if i.path in ("copied", "cloned"):
            return M.it(i.path, self.at(s, f[0], k, n))
        if i.path == "enumerate":
            return M.it(i.path, self.at(s, f[0], k, n), f[1] + k)
        if i.path == "rangefrom":
            return M.it(i.path, f[0] + k)
        if i.path == "zip":
            return M.it(i.path, self.at(s, f[0], k, n), self.at(s, f[1], k, n))
        if i.path == "range":
            if eng.ent_eq(s, f[1] - f[0], n):
                return M.it(i.path, f[0] + k, f[1])
            raise Lossy("a range of %r" % (f[1] - f[0],))
        if i.path == "take" and eng.entails(s, le(n, f[1])):
            return self.at(s, f[0], k, n)
        if i.path in ("rev", "take", "skip", "filter", "takewhile", "skipwhile", "stepby", "chain", "chunks", "windows"):
            raise Lossy(i.path)
        raise Unknown(i.path)

    def one(self, s, i, stages, h, k, p, keep):
        eng = self.eng
        q = W.content(s, h)
        a, b, info = None, None, None
        # what request k asks for
        op = eng.elem_of("ops", k)
        op = eng.expand(op) if isinstance(op, SymV) else op
        rng = get(op, "block_range")
        rng = eng.expand(rng) if isinstance(rng, SymV) else rng
        a, b, info = get(rng, "start"), get(rng, "end"), get(op, "op_info")
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            raise S.Shape("%s: block_range{start, end} and op_info expected" % OP)
        if S.INSTANCE is not None:
            s = s.copy()
            s.cons = tuple(s.cons) + tuple((x - y, True) for x, y in ((a, S.INSTANCE("start")), (b, S.INSTANCE("end"))) if y is not None)
        states = [(s2, e) for s2, _, e in M.it_next(eng, s, i, None, "?") if e is not None]
        for j, g in enumerate(stages):
            nxt = []
            for s2, e in states:
                nxt += self.step(s2, j, g, e, k)
            states = nxt
        self.ctx.note("paths of one request", len(states))
        if states or not eng.dropped:
            self.need("R02", s, "answers", len(states) > 0, "a request is never answered", p)
        for s2, e in states:
            if any(s2.mem.get(r) != keep[r] for r in keep):
                self.ctx.unsure("pipeline", p, "a stage keeps state between requests")
                continue
            if e is None:
                self.need("R02", s2, "one-result-per-request", False, "a request can be dropped", p, key="one-result-per-request@dropped")
                continue
            for s3 in eng.assume(s2, le(a, b)):
                self.answer(s3, e, q, a, b, info, p)

    def answer(self, s, r, q, a, b, info, p):
        eng = self.eng
        if isinstance(r, Ref):
            r = M.val(eng, s, r)
        if not (isinstance(r, Agg) and r.path == RES):
            self.need("R02", s, "answer", False, lambda: "a request is answered by %r" % (r,), p, [r])
            return
        x = r.fields[0]
        tag = get(x, "op_info")
        self.need("R02", s, "own-tag", eng.val_eq(s, self.val(s, tag), self.val(s, info)), lambda: "%s carries the tag %r, its request has %r" % ("an error" if r.variant else "a block", tag, info), p, [tag], key="own-tag@%s" % ("error" if r.variant else "block"))
        if W.failed(s):
            self.need("R02", s, "failure-reported", r.variant == 1, lambda: "%s fails but the answer is a block" % W.failed(s), p)
            return
        if r.variant == 0:
            self.bytes(s, "R02", get(x, "buf"), q, a, b, p)
        elif eng.assume(s.copy(), le(b, q.len())):
            self.need("R02", s, "no-false-error", False, lambda: "a request is answered by an error though nothing failed", p, [])

    def val(self, st, v):
        return M.val(self.eng, st, v) if isinstance(v, Ref) else v

    def step(self, s, j, g, e, k):
        """[(state, item | None)]"""
        eng = self.eng
        if e is None:
            return [(s, None)]
        n = g.path

        def call(s, x):
            f = Ref(("stage", j, 0), (), None, None, True) if ("stage", j, 0) in s.mem else g.fields[0]
            return eng.call_value(s, f, [x], None, g.vname)

        def wait(outs):
            return [y for s2, x in outs for y in eng.poll(s2, x, None, g.vname)]
        if n in ("boxed", "boxed_local", "fuse", "by_ref", "peekable", "left_stream", "right_stream", "into_stream"):
            return [(s, e)]
        if n in ("buffered", "poll"):
            return eng.poll(s, e, None, g.vname)
        if n == "map":
            return call(s, e)
        if n == "then":
            return wait(call(s, e))
        if n == "inspect":
            s = s.copy()
            s.mem[("item", j)] = e
            return [(s2, s2.mem[("item", j)]) for s2, _ in call(s, Ref(("item", j)))]
        if n == "enumerate":
            return [(s, E.tup(k, e))]
        if n == "filter_map":
            out = []
            for s2, o in wait(call(s, e)):
                for s3, w in M.fork_enum(eng, s2, o, OPT):
                    out.append((s3, w.fields[0] if isinstance(w, Agg) and w.variant == 1 else None))
            return out
        if n in ("map_ok", "map_err", "and_then", "or_else"):
            out = []
            for s2, w in M.fork_enum(eng, s, e, RES):
                hit = 0 if n in ("map_ok", "and_then") else 1
                if not isinstance(w, Agg) or w.variant != hit:
                    out.append((s2, w))
                    continue
                r = call(s2, w.fields[0])
                if n in ("and_then", "or_else"):
                    out += wait(r)
                else:
                    out += [(s3, (E.ok if hit == 0 else E.err)(x)) for s3, x in r]
            return out
        s.flag("unmodelled:stream " + n)
        return [(s, Top("stream"))]


RULES = {"R01": "on success the buffer equals the file's bytes [start, end); len() equals the opened file's length",
         "R02": "source walks the requests 0..n; stages keep count and order; request k is answered by its own bytes and tag, or an error with its tag iff an operation failed"}
STEPS = {"R01": ("r_new", "read"), "R02": ("batch",)}


def job(prop, m):
    def g(c):
        guarded(c, m, lambda: getattr(Rd(c, prop), m)())
    return lambda c: softly(c, g, [W.exactly(i, g) for i in W.READS])


def rule(prop):
    def f(ctx):
        ctx.rule(RULES[prop])
        for m in STEPS[prop]:
            job(prop, m)(ctx)
    return f
