"""E05: which encoder an encoding request yields, and what it says it wrote.

Every factory is run abstractly for every value of the Encoding enumeration and
either nullability: the result must be an error or an encoder whose layout, as
returned by its own flush, is the one of the encoding asked for."""
import engine as E
import models as M
import shapes as S
from lin import Lin, ZERO, ONE
from engine import State, Ref, Seq, Agg, SymV, Top, TRUE, FALSE, UNIT, RES, val_atoms, seg_len
from ob import Ob
from rules.buffers import guarded, SMALL
from rules import encoder as N

ENCODING = "meerkat::store::segment_metadata::Encoding"
LAYOUT = {"Raw": "Plain", "RleDictionary": "BinaryDict", "Snappy": "Snappy"}
FACTORIES = {"new_i32_encoder": ("i32", S.PRIM), "new_i64_encoder": ("i64", S.PRIM), "new_u64_encoder": ("u64", S.PRIM), "new_f64_encoder": ("f64", S.PRIM),
             "new_binary_encoder": ("binary", S.BIN)}
ELEM = {"i32": ("int", "i32"), "i64": ("int", "i64"), "u64": ("int", "u64"), "f64": ("float", "f64")}


def e05(ctx):
    ctx.rule("factory(encoding) is Err, or Ok(encoder) of the requested block size and nullability whose flush() reports the layout of that encoding; the raw encoding is "
             "accepted for every column type; an accepted encoder's blocks are made of the buffer's values")
    a = ctx.P.adts.get(ENCODING)
    ctx.check(a is not None and len(a["variants"]) >= 5, "anchor", ENCODING, "the Encoding enumeration is not found")
    if a is None:
        return
    for f in sorted(FACTORIES):
        guarded(ctx, f, lambda: factory(ctx, f, a))


def factory(ctx, f, adt):
    P = ctx.P
    path = N.ENC + f
    if ctx.need(path) is None:
        return
    where = path
    for vi, v in enumerate(adt["variants"]):
        name = v["name"]
        accepted = None
        for nullable in (False, True):
            eng = S.engine(P, N.CONTRACTS)
            eng.hooks["poll"] = sink
            ob = Ob(ctx, eng, where)
            size = S.atom("block_size")
            st = State({}, ((ONE - size, False), (size - SMALL, False)))
            outs = S.call(eng, st, path, [Agg("adt", ENCODING, vi, name), size, TRUE if nullable else FALSE])
            ctx.functions |= eng.analysed
            ctx.note("requests")
            ob.need(st, "answers", len(outs) > 0, "a request for %s never returns" % name, [], where, key="answers@%s:%s" % (f, name))
            for s, r in outs:
                if not (isinstance(r, Agg) and r.path == RES):
                    ob.need(s, "answers", False, "a request for %s yields %r" % (name, r), [r], where, key="answers@%s:%s" % (f, name))
                    continue
                if name == "Raw":
                    ob.need(s, "raw-accepted", r.variant == 0, "the raw encoding is rejected", [], where, key="raw-accepted@%s" % f)
                if r.variant == 1:
                    ctx.ok("rejected", where)
                    continue
                accept(ctx, eng, ob, s, r.fields[0], f, name, nullable, size, where)


def sink(eng, st, v, fr, span):
    if v.path != "sinkwrite":
        return None
    s = st.copy()
    r = M.rref(eng, s, v.fields[1])
    segs = [x for x in E.norm_segs(eng.slice_segs(s, r)) if not eng.ent_eq(s, seg_len(x), ZERO)] if r is not None else [("U", "data", ZERO)]
    old = s.mem.get(("ghost", "written"))
    s.mem[("ghost", "written")] = Agg("written", None, 0, None, (old.fields if isinstance(old, Agg) else ()) + (Seq(segs),))
    return [(s, E.ok(UNIT))]


def accept(ctx, eng, ob, s, box, f, name, nullable, size, where):
    P = ctx.P
    kind, bpath = FACTORIES[f]
    k = "%s:%s" % (f, name)
    while isinstance(box, Ref):
        box = eng.read(s, box.root, box.steps)
    if not isinstance(box, Agg) or box.kind != "adt":
        ctx.unsure("encoder", where, "the encoder for %s is not recognised: %r" % (name, box))
        return
    # parameters
    ints = [x for x in box.fields if isinstance(x, Lin)]
    if box.path in (N.PRIMENC, N.BINENC):
        ob.need(s, "block-size", any(eng.ent_eq(s, x, size) for x in ints), "the encoder made for %s does not use the block size asked for" % name, ints, where, key="block-size@" + k)
        vals = [b for x in box.fields if isinstance(x, Agg) and x.path == bpath for b in x.fields if isinstance(b, Agg) and b.path == E.OPT]
        ob.need(s, "nullability", len(vals) == 1 and vals[0].variant == (1 if nullable else 0), "the encoder made for %s has another nullability than asked for" % name, vals, where, key="nullability@" + k)
        elem = [x.env for x in box.fields if isinstance(x, Agg) and x.path == bpath]
    # layout
    fl = "<%s as %sBlockEncoder>::flush" % (box.path, N.ENC)
    en = "<%s as %sBlockEncoder>::encode" % (box.path, N.ENC)
    if ctx.need(fl) is None or ctx.need(en) is None:
        return
    env = {}
    if box.path == N.PRIMENC:
        env = dict(zip(P.adts[box.path]["generics"], [ELEM.get(kind, ("int", "i64"))]))
    s = s.copy()
    s.mem[N.SELF] = box
    s.mem[N.SINK] = SymV(("sink",), None)
    sinkref = Ref(N.SINK, (), None, None, True)
    want = LAYOUT.get(name)
    for s1, fut in S.call(eng, s.copy(), fl, [Ref(N.SELF, (), None, None, True), sinkref], env or None):
        for s2, r in eng.poll(s1, fut, None, "?"):
            if isinstance(r, Agg) and r.path == RES and r.variant == 0:
                l = r.fields[0]
                got = l.vname if isinstance(l, Agg) else None
                ob.need(s2, "layout", got == want and want is not None, "a column asked to be %s records the layout %s" % (name, got or repr(l)), [l], where, key="layout@" + k)
    ctx.functions |= eng.analysed
    if box.path in (N.PRIMENC, N.BINENC):
        # that these store the values is E01-E03
        return
    buf = S.Buf(P, bpath, "buf", nullable, ELEM.get(kind, ("int", "i64")))
    s.cons = s.cons + tuple(buf.cons) + ((ONE - buf.n, False), (buf.n - SMALL, False), (buf.rows - SMALL, False))
    if bpath == S.BIN:
        s.cons = s.cons + ((ONE - buf.d, False),)
    s.mem[N.BUF] = buf.value
    for s1, fut in S.call(eng, s, en, [Ref(N.SELF, (), None, None, True), Ref(N.BUF), sinkref], env or None):
        for s2, r in eng.poll(s1, fut, None, "?"):
            if not (isinstance(r, Agg) and r.path == RES and r.variant == 0):
                continue
            for s3, f2 in S.call(eng, s2, fl, [Ref(N.SELF, (), None, None, True), sinkref], env or None):
                for s4, r2 in eng.poll(s3, f2, None, "?"):
                    if isinstance(r2, Agg) and r2.path == RES and r2.variant == 0:
                        w = s4.mem.get(("ghost", "written"))
                        dep = isinstance(w, Agg) and any(depends(x, "buf") for x in w.fields)
                        ob.need(s4, "stores", dep, "the %s encoder accepts a buffer of values but the blocks it writes, %s, are not made of them" % (name, list(w.fields) if isinstance(w, Agg) else "none"), [], where, key="stores@%s" % box.path.replace("meerkat::store::encoding::", ""))


def depends(v, name):
    return ("_" + name) in repr(v.segs if isinstance(v, Seq) else v)
