"""E06: the varint code.  The loop of the encoder provably ends within ten
iterations, so the abstract run splits into one path per length; on each path
the digits are quotients and remainders of the value, and the decoder, run on
the bytes the encoder left behind, gives back a linear combination of them."""
import lin as L
from lin import Lin, ZERO, ONE, le, lt, eq, ne, neg, conj
import engine as E
import shapes as S
import models as M
from engine import State, Ref, Seq, Agg, ARR, Arr
from ob import Ob
from rules.buffers import guarded, SMALL

VAR = "meerkat::store::encoding::varint::"
ENCODE, DECODE, PUT = VAR + "encode_varint", VAR + "decode_varint", "<alloc::vec::Vec as " + VAR + "Encoder>::put_varint"
BUF, OUT = ("buf",), ("out",)
U64MAX = 2 ** 64 - 1
TAIL = "tail"


def engine(P):
    eng = S.engine(P)
    eng.unroll = 24
    eng.hooks["no_shl_wrap"] = False
    eng.hooks["fork_lz"] = True
    return eng


def bytes_array(name, n):
    ARR[name] = Arr(n, "plain", ("int", "u8"))
    return ("S", name, ZERO, n)


def no_panic(ob, eng, key):
    """any panic or failing assertion, overflow included"""
    def rep(st, what, span):
        if eng.quiet:
            return
        t = eng.taint(st, set())
        w = eng.where()[0]
        if t:
            return ob.ctx.unsure("panics", w, "possible panic (%s), depends on %s" % (what, t))
        ob.ctx.bad("panics", w, "a panic is reachable here: %s" % what, span=span, path=st.path(), key=key)
    eng.hooks["panic"] = lambda e, st, what, span: rep(st, what, span)
    eng.hooks["assert"] = lambda e, st, fr, what, c, span: None if eng.quiet or eng.entails(st, c) else rep(st, "%s" % (what[0] if what else what), span)


def byte(eng, st, q, i):
    return eng.as_lin(st, eng.elem(st, q, Lin.const(i)))


def result(eng, st, r):
    """(value, length) of Ok, None of Err"""
    if isinstance(r, Agg) and r.path == E.RES:
        if r.variant == 1:
            return None
        t = r.fields[0]
        if isinstance(t, Agg) and len(t.fields) == 2:
            return eng.as_lin(st, t.fields[0]), eng.as_lin(st, t.fields[1])
    return False


def encode(ctx):
    P = ctx.P
    for how in ("slice", "vec"):
        path = ENCODE if how == "slice" else PUT
        if path not in P.bodies:
            if how == "slice":
                ctx.need(path)
            continue
        eng = engine(P)
        ob = Ob(ctx, eng, path)
        no_panic(ob, eng, "panics@" + path)
        v, m = S.atom("value", 0, U64MAX), S.atom("room", 10, SMALL)
        st = State({BUF: Seq([bytes_array("old", m)])}, ())
        args = [v, Ref(BUF, (), ZERO, m, True)] if how == "slice" else [Ref(BUF, (), None, None, True), v]
        outs = S.call(eng, st, path, args)
        ctx.functions |= eng.analysed
        ob.need(st, "returns", len(outs) > 0, "the encoder never returns", key="returns@" + path)
        for s, r in outs:
            q = s.mem[BUF]
            if how == "slice":
                n, base = eng.as_lin(s, r), ZERO
                for s2 in split(eng, ob, s, n, path):
                    after(ctx, eng, ob, s2[0], q, v, s2[1], 0, path)
                    ob.need(s2[0], "rest-untouched", eng.seq_eq(s2[0], eng.sub(s2[0], q, Lin.const(s2[1]), m), [("S", "old", Lin.const(s2[1]), m)]),
                            "bytes after the varint are overwritten", key="rest-untouched@" + path)
            else:
                if not isinstance(q, Seq):
                    ctx.unsure("shape", path, "the vector after the call is %r" % (q,))
                    continue
                for s2 in split(eng, ob, s, q.len() - m, path):
                    ob.need(s2[0], "prefix-kept", eng.seq_eq(s2[0], eng.sub(s2[0], q, ZERO, m), [("S", "old", ZERO, m)]),
                            "bytes before the varint are changed", key="prefix-kept@" + path)
                    t = Seq(eng.sub(s2[0], q, m, q.len()))
                    after(ctx, eng, ob, s2[0], t, v, s2[1], 0, path)


def split(eng, ob, st, n, path):
    """one state per possible length"""
    if n.is_const():
        ob.need(st, "length", 1 <= n.c <= 10, "a varint of %d bytes" % n.c, key="length@" + path)
        return [(st, n.c)]
    ob.need(st, "length", conj(le(ONE, n), le(n, Lin.const(10))), lambda: "the number of bytes is %r" % n, [n], key="length@" + path)
    return [(s, i) for i in range(1, 11) for s in eng.assume(st.copy(), eq(n, Lin.const(i)))]


def after(ctx, eng, ob, st, q, v, n, base, path):
    """the n bytes at the front of q encode v"""
    for i in range(n):
        b = byte(eng, st, q, i)
        c = le(Lin.const(128), b) if i < n - 1 else lt(b, Lin.const(128))
        ob.need(st, "continuation", c, lambda: "byte %d of a %d-byte varint is %r" % (i, n, b), [b], key="continuation@" + path)
        ob.need(st, "is-byte", conj(le(ZERO, b), le(b, Lin.const(255))), lambda: "byte %d is %r" % (i, b), [b], key="is-byte@" + path)
    # decoding gives the value back, with and without bytes behind it
    for more in (False, True):
        d = engine(ctx.P)
        d.analysed = eng.analysed
        ob2 = Ob(ctx, d, DECODE)
        no_panic(ob2, d, "panics@" + DECODE)
        s = st.copy()
        segs = list(eng.sub(st, q, ZERO, Lin.const(n)))
        k = S.atom("following", 0, SMALL)
        if more:
            segs.append(bytes_array(TAIL, k))
        s.mem[OUT] = Seq(segs)
        outs = S.call(d, s, DECODE, [Ref(OUT, (), ZERO, s.mem[OUT].len())])
        ctx.functions |= d.analysed
        ctx.note("compositions")
        ob2.need(s, "returns", len(outs) > 0, "decoding never returns", key="returns@" + DECODE)
        for t, r in outs:
            x = result(d, t, r)
            if x is None:
                ob2.need(t, "inverse", False, "decoding the %d bytes of an encoded value fails" % n, [v], key="inverse@" + DECODE)
            elif x is False:
                ctx.unsure("inverse", DECODE, "the result is %r" % (r,))
            else:
                ob2.need(t, "inverse", eq(x[0], v), lambda: "the %d bytes of %r decode to %r" % (n, v, x[0]), [x[0]], key="inverse@" + DECODE)
                ob2.need(t, "consumed", eq(x[1], Lin.const(n)), lambda: "decoding %d bytes reports %r read" % (n, x[1]), [x[1]], key="consumed@" + DECODE)


def decode(ctx):
    """arbitrary bytes: at most ten are read; those up to the first without continuation bit are a varint, else it is an error"""
    P = ctx.P
    for n in range(1, 12):
        eng = engine(P)
        ob = Ob(ctx, eng, DECODE)
        no_panic(ob, eng, "panics@" + DECODE)
        m = Lin.const(n) if n <= 10 else S.atom("room", 10, SMALL)
        st = State({BUF: Seq([bytes_array("input", m)])}, ())
        b = [E.mk_sel("input", Lin.const(i)) for i in range(10)]
        cons = [(Lin.const(128) - b[i], False) for i in range(min(n - 1, 10))]
        if n <= 10:
            cons.append((b[n - 1] - 127, False))
        st.cons = tuple(cons)
        outs = S.call(eng, st, DECODE, [Ref(BUF, (), ZERO, m)])
        ctx.functions |= eng.analysed
        ob.need(st, "returns", len(outs) > 0, "decoding never returns", key="returns@" + DECODE)
        for s, r in outs:
            x = result(eng, s, r)
            if x is False:
                ctx.unsure("inverse", DECODE, "the result is %r" % (r,))
            elif n == 11:
                ob.need(s, "unterminated", x is None, lambda: "ten bytes with continuation bit decode to %r instead of an error" % (x,), key="unterminated@" + DECODE)
            elif x is None:
                if n < 10:
                    ob.need(s, "terminated", False, "a terminated varint of %d bytes is an error" % n, key="terminated@" + DECODE)
                else:
                    # the tenth byte may not fit
                    ob.need(s, "terminated", lt(ONE, b[9]), "a ten-byte varint within 64 bits is an error", [b[9]], key="terminated@" + DECODE)
            else:
                ob.need(s, "consumed", eq(x[1], Lin.const(n)), lambda: "decoding %d bytes reports %r read" % (n, x[1]), [x[1]], key="consumed@" + DECODE)
                if n < 10:
                    want = ZERO
                    for i in range(n):
                        want = want + (b[i] - (128 if i < n - 1 else 0)).scale(1 << (7 * i))
                    ob.need(s, "digits", eq(x[0], want), lambda: "%d bytes decode to %r, expected %r" % (n, x[0], want), [x[0]], key="digits@" + DECODE)


def e06(ctx):
    ctx.rule("the encoder's paths are split by length (1 to 10); on each the bytes are digits of the value, and the decoder applied to them, alone or followed by arbitrary bytes, yields the value and the length; on arbitrary bytes it reads up to the first byte without continuation bit, at most ten")
    guarded(ctx, ENCODE, lambda: encode(ctx))
    guarded(ctx, DECODE, lambda: decode(ctx))
