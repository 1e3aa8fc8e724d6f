"""I03: the bitmap, at the level of its bytes.  The bit position is split by its
residue modulo 8 (a finite partition), so that masks are constants; the byte
terms the abstract run leaves behind are compared with the specified byte for
every value of the one old byte they depend on."""
import lin as L
from lin import Lin, ZERO, ONE, le, lt, eq, ne, neg, conj
import engine as E
import shapes as S
from engine import State, Ref, BoolV, Seq, Agg, TRUE, FALSE, BOUND
from ob import Ob
from rules.buffers import guarded, run, bitmap_fields, all_zero, SELF, SMALL


class Unknown(Exception):
    pass


def ev(x, env):
    """value of a term for given values of its base atoms"""
    if isinstance(x, int):
        return x
    if not isinstance(x, Lin):
        raise Unknown(repr(x))
    t = x.c
    for a, k in x.t.items():
        t += k * eva(a, env)
    return t


def eva(a, env):
    if a in env:
        return env[a]
    if isinstance(a, tuple):
        h = a[0]
        if h == "div":
            return ev(a[1], env) // a[2]
        if h in ("bitor", "bitand", "bitxor"):
            p, q = ev(a[1], env), ev(a[2], env)
            return p | q if h == "bitor" else p & q if h == "bitand" else p ^ q
        if h == "wrap":
            return ev(a[2], env) & ((1 << E.WIDTH[a[1]]) - 1)
        if h == "pow2":
            return 1 << ev(a[1], env)
        if h == "mul":
            return ev(a[1], env) * ev(a[2], env)
        if h == "shl":
            return ev(a[1], env) << ev(a[2], env)
        if h == "shr":
            return ev(a[1], env) >> ev(a[2], env)
        if h == "sel" and isinstance(a[1], tuple) and a[1][0] == "const":
            return a[1][1][ev(a[2], env)]
    raise Unknown(L.repr_atom(a))


def evc(c, env):
    k = c[0]
    if k == "t":
        return True
    if k == "f":
        return False
    if k in ("le", "eq", "ne"):
        v = ev(c[1], env)
        return v <= 0 if k == "le" else v == 0 if k == "eq" else v != 0
    if k == "and":
        return evc(c[1], env) and evc(c[2], env)
    return evc(c[1], env) or evc(c[2], env)


def feasible(cons, env):
    for l, e in cons:
        try:
            v = ev(l, env)
        except Unknown:
            continue
        if (v != 0) if e else (v > 0):
            return False
    return True


def i03(ctx):
    ctx.rule("class invariant: bit i is bit i%8 of byte i/8, bytes beyond the length are zero, at least one byte, length <= 8*bytes; "
             "preserved by every constructor and append, read back by is_set; per residue modulo 8")
    guarded(ctx, S.BITMAP, lambda: body(ctx, ctx.P))


def mk(vi, li, names, q, n):
    f = [None, None]
    f[vi], f[li] = q, n
    return Agg("adt", S.BITMAP, 0, None, f, names)


def parts(v, vi, li):
    if not (isinstance(v, Agg) and len(v.fields) == 2):
        return None, None
    return v.fields[vi], v.fields[li]


def body(ctx, P):
    vi, li, names = bitmap_fields(P)
    # constructors
    for m, args in (("new", []), ("with_capacity", [S.atom("cap")])):
        w = S.BITMAP + "::" + m
        if w not in P.bodies:
            ctx.unsure("anchor", w, "no such constructor")
            continue
        eng = S.engine(P, bitmap=False)
        ob = Ob(ctx, eng, w)
        ob.no_panic("new-panics")
        for s, v in run(ctx, eng, State({}, tuple((S.atom("cap") - SMALL, False) for _ in args)), S.BITMAP, m, args):
            q, n = parts(v, vi, li)
            ob.need(s, "new", isinstance(n, Lin) and eng.ent_eq(s, n, ZERO), lambda: "a new bitmap has length %r" % (n,), [n], w)
            ob.need(s, "new", all_zero(eng, s, q), lambda: "a new bitmap holds %r" % (q,), [q], w)
            if isinstance(q, Seq):
                ob.need(s, "new", le(ONE, q.len()), lambda: "a new bitmap can have no storage at all (%r bytes): growing by a factor never gives it any" % (q.len(),), [q], w)
    # len
    w = S.BITMAP + "::len"
    if ctx.need(w) is not None:
        eng = S.engine(P, bitmap=False)
        ob = Ob(ctx, eng, w)
        m, n = S.atom("bytes"), S.atom("len")
        E.ARR["bm"] = E.Arr(m, "plain", ("int", "u8"))
        st = State({SELF: mk(vi, li, names, Seq([("S", "bm", ZERO, m)]), n)}, ((ONE - m, False), (n - m.scale(8), False)))
        for s, v in run(ctx, eng, st, S.BITMAP, "len", [Ref(SELF)]):
            ob.need(s, "len", isinstance(v, Lin) and eng.ent_eq(s, v, n), lambda: "len() is %r" % (v,), [v], w)
    # append
    w = S.BITMAP + "::append"
    if ctx.need(w) is not None:
        for r in range(8):
            for setv in (True, False):
                append_case(ctx, P, vi, li, names, r, setv, False)
        for setv in (True, False):
            append_case(ctx, P, vi, li, names, 0, setv, True)
    # is_set
    w = S.BITMAP + "::is_set"
    if ctx.need(w) is not None:
        for r in range(8):
            is_set_case(ctx, P, vi, li, names, r)


def append_case(ctx, P, vi, li, names, r, setv, full):
    w = S.BITMAP + "::append"
    tag = "bit %d of a byte%s" % (r, ", storage full" if full else "")
    eng = S.engine(P, bitmap=False)
    ob = Ob(ctx, eng, w)
    ob.no_panic("append-panics")
    m, q = S.atom("bytes"), S.atom("byte_no")
    E.ARR["bm"] = E.Arr(q, "plain", ("int", "u8"))
    cons = [(ONE - m, False), (-q, False), (m - SMALL, False)]
    old = ZERO
    if full:
        cons.append((q - m, True))
        seq = Seq([("S", "bm", ZERO, q)])
    else:
        cons.append((q + 1 - m, False))
        if r:
            a = ("s", "oldbyte%d" % r)
            BOUND[a] = (0, (1 << r) - 1)
            old = Lin.atom(a)
        seq = Seq([("S", "bm", ZERO, q), ("E", old), ("F", ZERO, m - q - 1)])
    n = q.scale(8) + r
    st = State({SELF: mk(vi, li, names, seq, n)}, tuple(cons))
    outs = run(ctx, eng, st, S.BITMAP, "append", [Ref(SELF, (), None, None, True), TRUE if setv else FALSE])
    ob.need(st, "returns", bool(outs), "append never returns normally (%s)" % tag, [], w)
    for s, _v in outs:
        g, ln = parts(s.mem[SELF], vi, li)
        ob.need(s, "append-len", isinstance(ln, Lin) and eng.ent_eq(s, ln, n + 1), lambda: "%s: the length becomes %r" % (tag, ln), [ln], w)
        if not isinstance(g, Seq):
            ob.need(s, "append-bits", False, "%s: the storage is %r" % (tag, g), [g], w)
            continue
        size = g.len()
        ob.need(s, "append-room", conj(le(n + 1, size.scale(8)), le(ONE, size)), lambda: "%s: %r bytes cannot hold %r bits" % (tag, size, n + 1), [g], w)
        before = eng.sub(s, g, ZERO, q)
        ob.need(s, "append-old", eng.seq_eq(s, before, [("S", "bm", ZERO, q)]), lambda: "%s: earlier bytes become %r" % (tag, Seq(before)), [Seq(before)], w)
        b = eng.elem(s, g, q)
        bad, unk = None, None
        for o in range(1 << r if r else 1):
            env = {list(old.t)[0]: o} if r else {}
            if not feasible(s.cons[len(cons):], env):
                continue
            try:
                if ev(b, env) != o + ((1 << r) if setv else 0):
                    bad = o
                    break
            except Unknown as e:
                unk = e
                break
        if unk is not None:
            ctx.unsure("append-bits", w, "%s: the stored byte %r is not understood" % (tag, b))
        else:
            ob.need(s, "append-bits", bad is None, lambda: "%s: after appending %s to byte %s the byte is %r" % (tag, setv, bad, b), [b], w, key="append-bits@Bitmap::append")
        rest = eng.sub(s, g, q + 1, size)
        ob.need(s, "append-rest", all_zero(eng, s, Seq(rest)), lambda: "%s: bytes behind the end become %r" % (tag, Seq(rest)), [Seq(rest)], w)


def is_set_case(ctx, P, vi, li, names, r):
    w = S.BITMAP + "::is_set"
    for inside in (True, False):
        eng = S.engine(P, bitmap=False)
        ob = Ob(ctx, eng, w)
        if inside:
            ob.no_panic("read-panics")
        m, n, p = S.atom("bytes"), S.atom("len"), S.atom("byte_no")
        E.ARR["bm"] = E.Arr(m, "plain", ("int", "u8"))
        j = p.scale(8) + r
        cons = [(ONE - m, False), (n - m.scale(8), False), (m - SMALL, False), ((j + 1 - n) if inside else (n - j), False)]
        st = State({SELF: mk(vi, li, names, Seq([("S", "bm", ZERO, m)]), n)}, tuple(cons))
        outs = run(ctx, eng, st, S.BITMAP, "is_set", [Ref(SELF), j])
        if not inside:
            for s, v in outs:
                ob.need(s, "read-outside", False, "reading a position at or beyond the length returns %r instead of panicking" % (v,), [], w)
            if not outs:
                ctx.ok("read-outside", w)
            continue
        ob.need(st, "returns", bool(outs), "is_set never returns", [], w)
        at = ("sel", "bm", p)
        bad = unk = None
        for byte in range(256):
            for s, v in outs:
                if not feasible(s.cons[len(cons):], {at: byte}):
                    continue
                try:
                    if evc(eng.as_cond(s, v), {at: byte}) != bool(byte >> r & 1):
                        bad = bad or (s, v, byte)
                except Unknown as e:
                    unk = e
        if unk is not None and bad is None:
            ctx.unsure("read-bit", w, "the value read is not understood: %s" % unk)
            continue
        s, v, byte = bad or (st, None, None)
        ob.need(s, "read-bit", bad is None, lambda: "position with residue %d of a byte %s reads %r" % (r, byte, v), [v] if v is not None else [], w, key="read-bit@Bitmap::is_set")
