"""I01, I02, I04: the column buffers, over the class of all buffer contents."""
import os, traceback
import lin as L
from lin import Lin, ZERO, ONE, le, lt, eq, ne, neg, conj
import engine as E
import models as M
import shapes as S
from engine import State, Ref, BoolV, Seq, Agg, TRUE, FALSE, BOUND
from ob import Ob
from core import confirmed

SELF = ("self",)
TYPES = ((S.PRIM, "PrimitiveBuffer"), (S.BIN, "BinaryBuffer"), (S.BOOLB, "BoolBuffer"))
SMALL = 2 ** 30
DATA = 2 ** 32 - 2      # the most binary data a buffer takes


def guarded(ctx, where, f):
    """a shape the rule does not know is reported as inconclusive, not judged"""
    try:
        f()
    except S.Shape as e:
        ctx.unsure("shape", where, str(e))
    except E.Budget as e:
        ctx.unsure("budget", where, str(e))
    except Exception as e:
        # the analyser does not cope with this code: not judged
        if os.environ.get("MK_DEBUG"):
            raise
        t = traceback.extract_tb(e.__traceback__)[-1]
        ctx.unsure("analyser", where, "%s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(t.filename), t.lineno))


def start(P, path, nullable, name="a", small=True):
    eng = S.engine(P)
    b = S.Buf(P, path, name, nullable)
    cons = list(b.cons)
    if small:
        cons.append((b.rows - SMALL, False))
        if path == S.BIN:
            cons.append((b.d - DATA, False))
    st = State({SELF: b.value}, tuple(cons))
    return eng, b, st


def run(ctx, eng, st, path, m, args, env=None):
    ctx.note("abstract calls")
    r = S.call(eng, st, path + "::" + m, args, env)
    ctx.functions |= eng.analysed
    return r


def env_of(path):
    return {"T": S.INT64} if path == S.PRIM else None


def kinds(path):
    if path == S.PRIM:
        return ("vec", S.INT64), ("optbits",)
    if path == S.BIN:
        return ("vec", ("int", "u8")), ("vec", ("int", "u32")), ("optbits",)
    return ("bits",), ("optbits",), ("int", "usize")


def same(eng, st, a, b):
    if S.bits_of(a) is not None and S.bits_of(b) is not None:
        return eng.seq_eq(st, S.bits_of(a).segs, S.bits_of(b).segs)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.path == b.path == E.OPT:
        return a.variant == b.variant and (not a.fields or same(eng, st, a.fields[0], b.fields[0]))
    return eng.val_eq(st, a, b)


LABEL = {("optbits",): "the validity bits", ("bits",): "the value bits", ("vec", ("int", "u8")): "the stored bytes",
         ("vec", ("int", "u32")): "the offsets", ("vec", S.INT64): "the stored values", ("int", "usize"): "the row count"}


def compare(ob, eng, P, st, path, b_env, got, want, rule, where, what):
    """every part of the struct equals the wanted one"""
    gp = S.parts(P, got, b_env) if isinstance(got, Agg) and got.path == path else None
    if gp is None:
        ob.need(st, rule, False, "%s: the result is not a value of the type" % what, [got], where)
        return
    for k, w in want.items():
        g = gp.get(k)
        ob.need(st, rule, g is not None and same(eng, st, g, w), lambda: "%s: %s are %r, expected %r" % (what, LABEL.get(k, k), g, w),
                [g] if g is not None else [], where, key="%s@%s@%s" % (rule, where.replace("meerkat::store::indexing_buffer::", ""), LABEL.get(k, str(k)).replace(" ", "_")))


def empty_parts(path, nullable):
    val = E.some(S.bits_value([])) if nullable else E.NONE
    if path == S.PRIM:
        return {("vec", S.INT64): Seq(), ("optbits",): val}
    if path == S.BIN:
        return {("vec", ("int", "u8")): Seq(), ("vec", ("int", "u32")): Seq([("E", ZERO)]), ("optbits",): val}
    return {("bits",): S.bits_value([]), ("optbits",): val, ("int", "usize"): ZERO}


def value_arg(path):
    """(argument, the extra segments per kind, constraints)"""
    x = S.atom("x")
    if path == S.PRIM:
        return x, []
    if path == S.BOOLB:
        BOUND[list(x.t)[0]] = (0, 1)
        return BoolV(eq(x, ONE), x), []
    n = S.atom("len_x")
    E.ARR["x"] = E.Arr(n, "plain", ("int", "u8"))
    return ("slice", n), [(n - DATA, False)]


def i02(ctx):
    P = ctx.P
    ctx.rule("for every buffer type, nullability and content (class invariant): append/append_null change exactly the last row; accessors agree with the content")
    for path, short in TYPES:
        for nullable in (False, True):
            guarded(ctx, path, lambda: i02_type(ctx, P, path, short, nullable))
    guarded(ctx, S.BITMAP, lambda: None)


def i02_type(ctx, P, path, short, nullable):
    tag = "%s (%s)" % (short, "nullable" if nullable else "not nullable")
    # constructor
    eng, b, st = start(P, path, nullable)
    w = path + "::new"
    ob = Ob(ctx, eng, w)
    ob.no_panic("new-panics")
    outs = run(ctx, eng, State({}, ()), path, "new", [TRUE if nullable else FALSE], env_of(path))
    ob.need(State({}, ()), "returns", bool(outs), "new never returns", [], w)
    for s, v in outs:
        compare(ob, eng, P, s, path, b.env, v, empty_parts(path, nullable), "new", w, "new buffer of " + tag)
    # append
    eng, b, st = start(P, path, nullable)
    w = path + "::append"
    ob = Ob(ctx, eng, w)
    ob.no_panic("append-panics")
    arg, cons = value_arg(path)
    st.cons += tuple(cons)
    if path == S.BIN:
        st.cons += ((b.d + arg[1] - DATA, False),)
    want = dict(b.by)
    if path == S.PRIM:
        want[("vec", S.INT64)] = Seq(list(b.by[("vec", S.INT64)].segs) + [("E", arg)])
    elif path == S.BOOLB:
        want[("bits",)] = S.bits_value(list(S.bits_of(b.by[("bits",)]).segs) + [("E", arg)])
        want[("int", "usize")] = b.rows + 1
    else:
        n = arg[1]
        st.mem[("x",)] = Seq([("S", "x", ZERO, n)])
        arg = Ref(("x",), (), ZERO, n)
        want[("vec", ("int", "u8"))] = Seq(list(b.by[("vec", ("int", "u8"))].segs) + [("S", "x", ZERO, n)])
        want[("vec", ("int", "u32"))] = Seq(list(b.by[("vec", ("int", "u32"))].segs) + [("E", b.d + n)])
    if nullable:
        want[("optbits",)] = E.some(S.bits_value(list(S.bits_of(b.bits).segs) + [("E", TRUE)]))
    outs = run(ctx, eng, st, path, "append", [Ref(SELF, (), None, None, True), arg], env_of(path))
    ob.need(st, "returns", bool(outs), "append never returns normally", [], w)
    for s, v in outs:
        compare(ob, eng, P, s, path, b.env, s.mem[SELF], want, "append", w, "append to " + tag)
    if path == S.BIN:
        # up to and beyond the last offset that fits: exact, or refused
        eng, b, st = start(P, path, nullable, small=False)
        ob = Ob(ctx, eng, w)
        n = S.atom("len_y")
        E.ARR["y"] = E.Arr(n, "plain", ("int", "u8"))
        st.cons += ((b.rows - SMALL, False), (n - 2 ** 40, False))
        st.mem[("x",)] = Seq([("S", "y", ZERO, n)])
        want = dict(b.by)
        want[("vec", ("int", "u8"))] = Seq(list(b.by[("vec", ("int", "u8"))].segs) + [("S", "y", ZERO, n)])
        want[("vec", ("int", "u32"))] = Seq(list(b.by[("vec", ("int", "u32"))].segs) + [("E", b.d + n)])
        if nullable:
            want[("optbits",)] = E.some(S.bits_value(list(S.bits_of(b.bits).segs) + [("E", TRUE)]))
        outs = run(ctx, eng, st, path, "append", [Ref(SELF, (), None, None, True), Ref(("x",), (), ZERO, n)], env_of(path))
        for s, v in outs:
            compare(ob, eng, P, s, path, b.env, s.mem[SELF], want, "append", w, "a value that takes the buffer beyond 4 GiB, appended to " + tag)
    # append_null
    eng, b, st = start(P, path, nullable)
    w = path + "::append_null"
    ob = Ob(ctx, eng, w)
    if nullable:
        ob.no_panic("append-null-panics")
    outs = run(ctx, eng, st, path, "append_null", [Ref(SELF, (), None, None, True)], env_of(path))
    if not nullable:
        for s, v in outs:
            ob.need(s, "null-refused", False, "append_null returns on a buffer that is not nullable", [], w)
        if not outs:
            ctx.ok("null-refused", w)
    else:
        ob.need(st, "returns", bool(outs), "append_null never returns normally", [], w)
        want = dict(b.by)
        want[("optbits",)] = E.some(S.bits_value(list(S.bits_of(b.bits).segs) + [("E", FALSE)]))
        if path == S.BOOLB:
            want[("int", "usize")] = b.rows + 1
        for s, v in outs:
            compare(ob, eng, P, s, path, b.env, s.mem[SELF], want, "append-null", w, "null appended to " + tag)
    # accessors
    acc = {"is_nullable": TRUE if nullable else FALSE,
           "has_nulls": BoolV(ne(b.rows, b.n)),
           "len": b.rows if path == S.BOOLB else b.n}
    if path != S.BOOLB:
        acc["num_values"] = b.rows
    for m, want in acc.items():
        if path + "::" + m not in P.bodies:
            ctx.unsure("accessor", path + "::" + m, "no such method")
            continue
        eng, b, st = start(P, path, nullable)
        w = path + "::" + m
        ob = Ob(ctx, eng, w)
        ob.no_panic("accessor-panics")
        outs = run(ctx, eng, st, path, m, [Ref(SELF)], env_of(path))
        ob.need(st, "returns", bool(outs), "%s never returns" % m, [], w)
        for s, v in outs:
            if isinstance(want, BoolV):
                c = eng.as_cond(s, v)
                good = eng.entails(s, L.disj(conj(c, want.c), conj(neg(c), neg(want.c))))
            else:
                good = isinstance(v, Lin) and eng.ent_eq(s, v, want)
            ob.need(s, "accessor", good, lambda: "%s() of %s is %r, expected %r" % (m, tag, v, want), [v], w)
    seqs = {"values": ("vec", S.INT64) if path == S.PRIM else ("bits",)} if path != S.BIN else \
        {"data": ("vec", ("int", "u8")), "offsets": ("vec", ("int", "u32"))}
    for m, k in seqs.items():
        if path + "::" + m not in P.bodies:
            continue
        eng, b, st = start(P, path, nullable)
        w = path + "::" + m
        ob = Ob(ctx, eng, w)
        ob.no_panic("accessor-panics")
        for s, v in run(ctx, eng, st, path, m, [Ref(SELF)], env_of(path)):
            want = b.by[k]
            if k == ("bits",):
                g = eng.read(s, v.root, v.steps) if isinstance(v, Ref) else v
                ob.need(s, "accessor", same(eng, s, g, want), lambda: "%s() is %r, expected %r" % (m, g, want), [g], w)
            else:
                r = M.rref(eng, s, v)
                g = Seq(eng.slice_segs(s, r)) if r is not None else v
                ob.need(s, "accessor", isinstance(g, Seq) and eng.seq_eq(s, g.segs, want.segs), lambda: "%s() is %r, expected %r" % (m, g, want), [g], w)
    if path + "::validity" in P.bodies and (nullable or path != S.BOOLB):
        eng, b, st = start(P, path, nullable)
        w = path + "::validity"
        ob = Ob(ctx, eng, w)
        ob.no_panic("accessor-panics")
        for s, v in run(ctx, eng, st, path, "validity", [Ref(SELF)], env_of(path)):
            if isinstance(v, Agg) and v.path == E.OPT:
                ob.need(s, "accessor", v.variant == (1 if nullable else 0), "validity() is present exactly for nullable buffers", [v], w)
                v = v.fields[0] if v.fields else None
            if nullable and v is not None:
                g = eng.read(s, v.root, v.steps) if isinstance(v, Ref) else v
                ob.need(s, "accessor", same(eng, s, g, b.bits), lambda: "validity() is %r, expected %r" % (g, b.bits), [g], w)
    if path == S.BIN and path + "::item_len" in P.bodies:
        eng, b, st = start(P, path, nullable)
        w = path + "::item_len"
        ob = Ob(ctx, eng, w)
        ob.no_panic("accessor-panics")
        i = S.atom("i")
        st.cons += ((i - b.n + 1, False),)
        for s, v in run(ctx, eng, st, path, "item_len", [Ref(SELF), i], env_of(path)):
            ob.need(s, "accessor", isinstance(v, Lin) and eng.ent_eq(s, v, b.off(i + 1) - b.off(i)),
                    lambda: "item_len(i) is %r" % (v,), [v], w)


def i01(ctx):
    P = ctx.P
    ctx.rule("clear() of any content leaves exactly the state new() creates, for every buffer type; for the bitmap: length 0 and every stored byte zero")
    for path, short in TYPES:
        for nullable in (False, True):
            guarded(ctx, path, lambda: i01_type(ctx, P, path, short, nullable))
    guarded(ctx, S.BITMAP, lambda: i01_bitmap(ctx, P))


def i01_type(ctx, P, path, short, nullable):
    tag = "%s (%s)" % (short, "nullable" if nullable else "not nullable")
    eng, b, st = start(P, path, nullable)
    w = path + "::clear"
    if ctx.need(w) is None:
        return
    ob = Ob(ctx, eng, w)
    ob.no_panic("clear-panics")
    outs = run(ctx, eng, st, path, "clear", [Ref(SELF, (), None, None, True)], env_of(path))
    ob.need(st, "returns", bool(outs), "clear never returns", [], w)
    for s, v in outs:
        compare(ob, eng, P, s, path, b.env, s.mem[SELF], empty_parts(path, nullable), "cleared", w, "cleared " + tag)


def bitmap_fields(P):
    fs = S.fields(P, S.BITMAP)
    k = {}
    for i, (n, t) in enumerate(fs):
        kk = S.kind(t)
        if kk in k:
            raise S.Shape("Bitmap: two fields of the same type")
        k[kk] = i
    if set(k) != {("vec", ("int", "u8")), ("int", "usize")}:
        raise S.Shape("Bitmap is not a byte vector with a length")
    return k[("vec", ("int", "u8"))], k[("int", "usize")], [n for n, _ in fs]


def all_zero(eng, st, q):
    """every byte of the sequence is zero"""
    if not isinstance(q, Seq):
        return False
    for i, v in q.upd:
        if not (isinstance(v, Lin) and eng.ent_eq(st, v, ZERO)):
            return False
    for s in q.segs:
        n = E.seg_len(s)
        if eng.ent_eq(st, n, ZERO):
            continue
        if s[0] in ("E", "F") and isinstance(s[1], Lin) and eng.ent_eq(st, s[1], ZERO):
            continue
        return False
    return True


def i01_bitmap(ctx, P):
    vi, li, names = bitmap_fields(P)
    eng = S.engine(P, bitmap=False)
    m, n = S.atom("bytes_a"), S.atom("bits_a")
    E.ARR["bm"] = E.Arr(m, "plain", ("int", "u8"))
    f = [None, None]
    f[vi], f[li] = Seq([("S", "bm", ZERO, m)]), n
    st = State({SELF: Agg("adt", S.BITMAP, 0, None, f, names)}, ((ONE - m, False), (n - m.scale(8), False), (m - SMALL, False)))
    w = S.BITMAP + "::clear"
    if ctx.need(w) is None:
        return
    ob = Ob(ctx, eng, w)
    ob.no_panic("clear-panics")
    outs = run(ctx, eng, st, S.BITMAP, "clear", [Ref(SELF, (), None, None, True)])
    ob.need(st, "returns", bool(outs), "clear never returns", [], w)
    for s, v in outs:
        g = s.mem[SELF]
        q, ln = g.fields[vi], g.fields[li]
        ob.need(s, "cleared", isinstance(ln, Lin) and eng.ent_eq(s, ln, ZERO), lambda: "a cleared bitmap has length %r" % (ln,), [ln], w, key="cleared@Bitmap::clear@len")
        ob.need(s, "cleared", all_zero(eng, s, q), lambda: "a cleared bitmap still holds %r: old bits reappear when it is appended to" % (q,), [q], w, key="cleared@Bitmap::clear@bytes")
        if isinstance(q, Seq):
            ob.need(s, "cleared", le(ONE, q.len()), "a cleared bitmap has no storage left: the next append indexes out of bounds", [q], w, key="cleared@Bitmap::clear@room")


def i04(ctx):
    P = ctx.P
    ctx.rule("append_from(src, start..end): destination = old contents ++ src[start..end] with the matching validity bits; position returned = first row not copied; source unchanged")
    for path in (S.PRIM, S.BIN):
        for nullable in (False, True):
            confirmed(ctx, lambda c: guarded(c, path, lambda: i04_type(c, P, path, nullable)),
                      [lambda c, k=k: guarded(c, path, lambda: i04_type(c, P, path, nullable, k)) for k in small_copies(path, nullable)])
    confirmed(ctx, lambda c: guarded(c, S.BITMAP, lambda: i04_bitmap(c, P)),
              [lambda c, k=k: guarded(c, S.BITMAP, lambda: i04_bitmap(c, P, k)) for k in ((0, 0, 0, 0, 0), (3, 4, 0, 0, None), (0, 4, 1, 1, None), (7, 5, 0, 2, None), (2, 5, 3, 2, None), (100, 70, 2, 66, 70))])


def small_copies(path, nullable):
    """(values, rows of the destination; values, rows of the source; start, end)"""
    if not nullable:
        return [(x, x, n, n, a, b) for x in (0, 2) for n, a, b in ((0, 0, 0), (3, 0, 0), (1, 0, 1), (3, 0, 3), (3, 1, 2), (3, 2, 3), (3, 3, 3), (3, 0, 1), (70, 1, 68), (70, 3, 70), (300, 0, 300))]
    return [(x, y, n, m, a, b) for x, y in ((0, 0), (1, 3)) for n, m, a, b in ((0, 0, 0, 0), (0, 2, 0, 0), (2, 4, 0, 0), (1, 3, 0, 1), (2, 4, 0, 1), (2, 4, 0, 2), (2, 4, 1, 2), (2, 4, 2, 2), (3, 3, 1, 2), (70, 70, 1, 68), (70, 70, 3, 70))]


def pinned(eng, pairs):
    eng.unroll, eng.exact = 400, True
    return [c for a, k in pairs if k is not None for c in ((a - k, True),)]


def two(P, path, nullable, inst=None):
    eng = S.engine(P)
    a, b = S.Buf(P, path, "a", nullable), S.Buf(P, path, "b", nullable)
    s, e, v = S.atom("start"), S.atom("end"), S.atom("vpos")
    cons = a.cons + b.cons + [(s - e, False), (e - b.n, False), (a.rows + b.rows - SMALL, False)]
    if path == S.BIN:
        cons += [(a.d + b.off(e) - b.off(s) - DATA, False), (b.d - DATA, False)]
    if nullable:
        cons += [(v - b.rows, False), (E.mk_P("bits_b", v) - s, True)]
    if inst is not None:
        pairs = dict(zip((a.n, a.rows, b.n, b.rows, s, e), inst)) if nullable else dict(zip((a.n, b.n, s, e), (inst[0], inst[2], inst[4], inst[5])))
        cons += pinned(eng, pairs.items())
        if nullable and inst[2] == inst[3]:
            cons.append((v - inst[4], True))
    st = State({SELF: a.value, ("src",): b.value}, tuple(cons))
    return eng, a, b, s, e, v, st


def i04_type(ctx, P, path, nullable, inst=None):
    w = path + "::append_from"
    if ctx.need(w) is None:
        return
    tag = "%s (%s)" % (path.split("::")[-1], "nullable" if nullable else "not nullable")
    eng, a, b, s, e, v, st = two(P, path, nullable, inst)
    ob = Ob(ctx, eng, w)
    ob.no_panic("copy-panics")
    outs = run(ctx, eng, st, path, "append_from", [Ref(SELF, (), None, None, True), Ref(("src",)), s, e, v], env_of(path))
    ob.need(st, "returns", bool(outs), "append_from never returns", [], w)
    for x, r in outs:
        want = dict(a.by)
        if path == S.PRIM:
            k = ("vec", S.INT64)
            want[k] = Seq(list(a.by[k].segs) + [("S", "v_b", s, e)])
        else:
            want[("vec", ("int", "u8"))] = Seq([("S", "d_a", ZERO, a.d), ("S", "d_b", b.off(s), b.off(e))])
            i = L.fresh("i")
            want[("vec", ("int", "u32"))] = Seq([("S", "o_a", ZERO, a.n + 1),
                                                 ("L", i, a.d + b.off(s + Lin.atom(i) + 1) - b.off(s), ZERO, e - s)])
        if nullable:
            if not isinstance(r, Lin):
                ob.need(x, "position", False, "the returned position is %r" % (r,), [r], w)
                continue
            want[("optbits",)] = E.some(S.bits_value(list(S.bits_of(a.bits).segs) + [("S", "bits_b", v, r)]))
            for y in eng.assume(x.copy(), eq(e, b.n)):
                ob.need(y, "position", eq(r, b.rows), lambda: "after the last value the position is %r, not the number of rows: trailing nulls are not carried" % (r,), [r], w, key="position@%s@tail" % path.split("::")[-1])
            ob.need(x, "position", conj(le(v, r), le(r, b.rows)), lambda: "the position %r is not within the source rows" % (r,), [r], w)
            ob.need(x, "position", eq(E.mk_P("bits_b", r), e), lambda: "the position %r does not lie behind value %r" % (r, e), [r], w, key="position@%s@count" % path.split("::")[-1])
        compare(ob, eng, P, x, path, a.env, x.mem[SELF], want, "copied", w, "copy into " + tag)
        compare(ob, eng, P, x, path, b.env, x.mem[("src",)], b.by, "source-unchanged", w, "source of the copy")


def i04_bitmap(ctx, P, inst=None):
    w = S.BITMAP + "::append_from"
    if ctx.need(w) is None:
        return
    eng = S.engine(P)
    na, nb, v, c = S.atom("len_a"), S.atom("len_b"), S.atom("start"), S.atom("count")
    A, B = S.sym_bits("bits_a", na), S.sym_bits("bits_b", nb)
    st = State({SELF: A, ("src",): B}, ((-na, False), (-nb, False), (-c, False), (v - nb, False),
                                       (E.mk_P("bits_b", v) + c - E.mk_P("bits_b", nb), False)))
    if inst is not None:
        st.cons = tuple(st.cons) + tuple(pinned(eng, zip((na, nb, v, c, E.mk_P("bits_b", nb)), inst)))
    ob = Ob(ctx, eng, w)
    ob.no_panic("copy-panics")
    outs = run(ctx, eng, st, S.BITMAP, "append_from", [Ref(SELF, (), None, None, True), Ref(("src",)), v, c])
    ob.need(st, "returns", bool(outs), "append_from never returns", [], w)
    for x, r in outs:
        g = S.bits_of(x.mem[SELF])
        if not isinstance(r, Lin) or g is None:
            ob.need(x, "copied", False, "unexpected result %r" % (r,), [r, x.mem[SELF]], w)
            continue
        want = list(S.bits_of(A).segs) + [("S", "bits_b", v, r)]
        ob.need(x, "copied", eng.seq_eq(x, g.segs, want), lambda: "the destination is %r, expected %r" % (g, Seq(want)), [g], w)
        ob.need(x, "position", eq(E.mk_P("bits_b", r) - E.mk_P("bits_b", v), c), lambda: "the copied bits up to %r do not hold the requested number of set bits" % (r,), [r], w)
        ob.need(x, "source-unchanged", same(eng, x, x.mem[("src",)], B), "the source bitmap changed", [], w)
