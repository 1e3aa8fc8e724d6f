"""E07: the bitmap run-length code.

Encoder: one inductive step.  Per state of the encoder's automaton the fields
describe which bytes are pending (the literal buffer, or a repeated byte); from
an arbitrary such encoder, put() and flush() may only move pending bytes into
frames that expand to exactly them.  Which constants the fields keep per state
is read off a small exact exploration and then proved inductive (Houdini).  If
the induction does not go through although every explored state fits the
description, that is a violation; if the description does not fit this encoder,
only what an exact run shows is.

Decoder: from an arbitrary decoder, one frame of each kind."""
import lin as L
from lin import Lin, ZERO, ONE, le, lt, eq, ne, neg, conj
import engine as E
import models as M
import shapes as S
from engine import State, Ref, BoolV, Seq, Agg, SymV, Top, TRUE, FALSE, BOUND, ARR, Arr
from ob import Ob
from core import sub, absorb, softly
from rules.buffers import guarded, SMALL
from rules.encoder import ENC, RLE, put_varint, encode_varint

DEC = ENC + "bitmap_rle::Decoder"
SELF, OUT = ("self",), ("out",)
FIELDS = ("encoded_values", "byte", "bit_pos", "buffer", "repeat_count", "last_value", "run_start_pos", "state")
SCALARS = ("repeat_count", "run_start_pos", "last_value", "byte")
CON = {ENC + "varint::Encoder::put_varint": put_varint, ENC + "varint::encode_varint": encode_varint}


def engine(P):
    eng = S.engine(P, CON)
    eng.unroll = 700
    return eng


def get(v, name):
    if isinstance(v, Agg) and name in (v.names or ()):
        return v.fields[v.names.index(name)]
    return None


def const(bs):
    """the segments of a constant byte sequence"""
    out = []
    for b in bs:
        if out and out[-1][0] == "F" and out[-1][1].c == b:
            out[-1] = ("F", out[-1][1], out[-1][2] + 1)
        else:
            out.append(("F", Lin.const(b), ONE))
    return out


def plain(segs):
    """constant segments as a list of bytes, or None"""
    out = []
    for s in segs:
        if s[0] not in "EF" or not s[1].is_const() or s[0] == "F" and not s[2].is_const():
            return None
        out += [int(s[1].c)] * (1 if s[0] == "E" else int(s[2].c))
    return out


class Frames(Exception):
    pass


def expand(eng, st, segs):
    """the bytes a sequence of frames stands for; Frames if it is not one"""
    out, todo = [], list(segs)
    while todo:
        h = todo.pop(0)
        if eng.ent_eq(st, E.seg_len(h), ZERO):
            continue
        if h[0] == "X" and h[1] == "frames":
            out += h[2]
            continue
        if not (h[0] == "X" and h[1] == "varint"):
            raise Frames("a frame starts with %r instead of a header" % Seq([h]))
        v = h[2]
        n = E.mk_div(v, 2)
        tag = v - n.scale(2)
        if eng.ent_eq(st, tag, ONE):
            r = eng.cut(st, todo, n)
            if r is None:
                raise Frames("a literal of %r bytes is followed by %r" % (n, Seq(todo)))
            out += r[0]
            todo = list(r[1])
        elif eng.ent_eq(st, tag, ZERO):
            r = eng.cut(st, todo, ONE)
            b = eng.seg_elem(r[0][0], ZERO) if r is not None and r[0] else None
            if b is None:
                raise Frames("the header of a run is followed by %r" % Seq(todo))
            out.append(("F", b, n))
            todo = list(r[1])
        else:
            raise Frames("a header %r whose kind is undetermined" % v)
    return out


class Enc:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.P
        self.eng = engine(ctx.P)
        self.ob = Ob(ctx, self.eng, RLE)
        self.ob.no_panic("panics")
        self.cur = None

    def call(self, st, m, args):
        r = S.call(self.eng, st, RLE + "::" + m, args)
        self.ctx.functions |= self.eng.analysed
        self.ctx.note("abstract calls")
        return r

    def me(self, mut=True):
        return Ref(SELF, (), None, None, mut)

    def need(self, st, rule, cond, msg, vals=()):
        return self.ob.need(st, rule, cond, msg, vals, RLE, key="%s@bitmap_rle::Encoder" % rule)

    def put_byte(self, st, b, bits=8):
        sts = [st]
        for i in range(bits):
            nxt = []
            for s in sts:
                nxt += [x for x, _ in self.call(s, "put", [self.me(), TRUE if b >> i & 1 else FALSE])]
            sts = nxt
        return sts

    def output(self, st):
        """the segments encoded_values() returns, per state"""
        out = []
        for s, r in self.call(st, "encoded_values", [self.me(False)]):
            r = M.rref(self.eng, s, r)
            out.append((s, self.eng.slice_segs(s, r) if r is not None else None))
        return out

    def finish(self, st, want, what):
        """flush and compare what the frames stand for"""
        eng = self.eng
        res = []
        for s, _ in self.call(st, "flush", [self.me()]):
            for s2, segs in self.output(s):
                if segs is None:
                    self.ctx.unsure("frames", RLE, "the encoded values are not a slice the analysis follows")
                    continue
                self.judge(s2, segs, [], want, what, "flush")
                res.append(s2)
        self.need(st, "returns", len(res) > 0, "%s: flush never returns" % what)
        return res

    def judge(self, st, segs, pending, want, what, m):
        eng = self.eng
        q = Seq(segs)
        try:
            got = expand(eng, st, segs)
        except Frames as e:
            self.need(st, "frames", False, "%s, %s: %s" % (what, m, e), [q])
            return False
        a, b = plain(got + list(pending)), plain(want)
        same = a == b if a is not None and b is not None else eng.seq_eq(st, got + list(pending), want)
        return self.need(st, "same-bytes", same,
                         lambda: "%s, %s: the frames stand for %r%s, expected %r" % (what, m, Seq(got), (" and %r is pending" % Seq(pending)) if pending else "", Seq(want)), [q, Seq(pending)])

    # ------------------------------------------------------------------ exact
    def fresh(self):
        st = State({}, ())
        r = self.call(st, "new", [])
        out = []
        for s, v in r:
            s.mem[SELF] = v
            out.append(s)
        return out

    def explore(self, depth, seen):
        """every sequence of up to `depth` bytes over two values, each flushed"""
        for s0 in self.fresh():
            work = [(s0, ())]
            while work:
                s, bs = work.pop()
                seen.append((s, bs))
                self.sample(s, bs, (0,) if len(bs) < depth else (0, 5))
                if len(bs) < depth:
                    for b in (0xA5, 0x00):
                        for s2 in self.put_byte(s, b):
                            work.append((s2, bs + (b,)))

    def sample(self, s, bs, parts=(0,)):
        want = [("E", Lin.const(b)) for b in bs]
        for k in parts:
            for s2 in self.put_byte(s.copy(), 0x15, k) if k else [s.copy()]:
                w = want + ([("E", Lin.const(0x15))] if k else [])
                for s3 in self.finish(s2, w, "%d bytes" % len(w)):
                    if len(bs) in (3, 4):
                        # and again with the same encoder
                        for s4, _ in self.call(s3.copy(), "clear", [self.me()]):
                            x = [0xA5, 0xA5, 0xA5, 0, bs[-1]]
                            sts = [s4]
                            for b in x:
                                sts = [z for y in sts for z in self.put_byte(y, b)]
                            for y in sts:
                                self.finish(y, [("E", Lin.const(b)) for b in x], "after clear")

    def long(self):
        for bs in ([7] * 127, [7] * 128, [1, 2] * 64, [1, 2] * 64 + [3], [7] * 300 + [1, 2], [1, 2] * 150 + [5] * 200, [9] * 255 + [8] * 256 + [9] * 65, [0] * 600):
            for s0 in self.fresh():
                sts = [s0]
                for b in bs:
                    sts = [z for y in sts for z in self.put_byte(y, b)]
                for y in sts:
                    self.finish(y, const(bs), "%d bytes" % len(bs))

    # -------------------------------------------------------------- induction
    def fits(self, st, bs=None):
        """(variant, pending segments) if the encoder fits the description"""
        v = st.mem.get(SELF)
        f = {n: get(v, n) for n in FIELDS}
        if any(f[x] is None for x in FIELDS if x != "run_start_pos") or not isinstance(f["state"], Agg) or not isinstance(f["buffer"], Seq):
            return None
        eng, k = self.eng, f["state"].vname
        buf = f["buffer"]
        n = buf.len()
        r, last, run = f["repeat_count"], f["last_value"], f["run_start_pos"]
        if any(not isinstance(x, Lin) for x in (r, last, run) if x is not None):
            return None
        if k == "Init":
            return (k, []) if eng.ent_eq(st, n, ZERO) else None
        if k == "Run":
            return (k, [("F", last, r)]) if eng.ent_eq(st, n, ZERO) and eng.ent_le(st, ONE, r) else None
        if k not in ("Literal", "StartOfRun") or not eng.ent_le(st, ONE, n):
            return None
        if k == "Literal":
            if not eng.val_eq(st, eng.elem(st, buf, n - 1), last):
                return None
        else:
            if not (eng.ent_le(st, r, n) and eng.ent_le(st, ONE, r) and (run is None or eng.ent_eq(st, run + r, n))):
                return None
            if not eng.seq_eq(st, eng.sub(st, buf, n - r, n), [("F", last, r)]):
                return None
        return k, list(M.flat(eng, st, buf))

    def template(self, k, facts):
        """an arbitrary encoder in state k; -> (state, pending)"""
        P, eng = self.P, self.eng
        last = S.atom("last", 0, 255)
        n, r = S.atom("literal", 0, SMALL), S.atom("repeats", 0, SMALL)
        ARR["lit"] = Arr(n, "plain", ("int", "u8"))
        f = {"encoded_values": Seq([("X", "frames", (), S.atom("written", 0, SMALL))]), "byte": ZERO, "bit_pos": ZERO, "last_value": last,
             "repeat_count": r, "run_start_pos": S.atom("start", 0, SMALL), "buffer": Seq()}
        cons = []
        if k == "Literal":
            f["buffer"] = Seq([("S", "lit", ZERO, n)])
            cons += [(ONE - n, False), (E.mk_sel("lit", n - 1) - last, True)]
        elif k == "StartOfRun":
            f["buffer"] = Seq([("S", "lit", ZERO, n), ("F", last, r)])
            f["run_start_pos"] = n
            cons += [(ONE - r, False)]
        elif k == "Run":
            cons += [(ONE - r, False)]
        elif k == "Init":
            f["encoded_values"] = Seq()
        for (kk, name), v in facts.items():
            if kk == k and isinstance(f.get(name), Lin):
                lo, hi = v
                cons += [(Lin.const(lo) - f[name], False)]
                if hi is not None:
                    cons += [(f[name] - hi, False)]
        a = P.adts[ENC + "bitmap_rle::State"]
        i = [x["name"] for x in a["variants"]].index(k)
        f["state"] = Agg("adt", ENC + "bitmap_rle::State", i, k)
        pend = f["buffer"].segs if k != "Run" else (("F", last, r),)
        return f, tuple(cons), list(pend)

    def state(self, f, cons):
        names = [n for n, _ in S.fields(self.P, RLE)]
        v = Agg("adt", RLE, 0, None, [f[n] for n in names], names)
        return State({SELF: v}, cons)

    def induct(self, facts, kinds, report):
        """one step from every described encoder; -> facts that are not preserved (None if the step fails)"""
        eng, ctx = self.eng, self.ctx
        lost, fail = set(), []
        for k in kinds:
            f, cons, pend = self.template(k, facts)
            for p in range(8):
                f2 = dict(f)
                low = S.atom("low%d" % p, 0, (1 << p) - 1)
                f2["byte"], f2["bit_pos"] = low, Lin.const(p)
                for bit in (0, 1):
                    st = self.state(f2, cons)
                    outs = self.call(st, "put", [self.me(), TRUE if bit else FALSE])
                    if not outs:
                        fail.append((st, "put never returns"))
                    for s, _ in outs:
                        v = s.mem[SELF]
                        b = low + (bit << p)
                        x = self.fits(s)
                        if x is None:
                            fail.append((s, "after put() in state %s the encoder is %r" % (k, v)))
                            continue
                        nb = pend + ([("E", b)] if p == 7 else [])
                        if report:
                            self.judge(s, M.flat(eng, s, get(v, "encoded_values")), x[1], nb, "state %s" % k, "put")
                            self.need(s, "partial-byte", eng.val_eq(s, get(v, "byte"), ZERO if p == 7 else b) and eng.val_eq(s, get(v, "bit_pos"), Lin.const((p + 1) % 8)),
                                      lambda: "after bit %d the partial byte is %r at bit %r" % (p, get(v, "byte"), get(v, "bit_pos")), [])
                        for (kk, name), (lo, hi) in facts.items():
                            if kk == x[0]:
                                y = get(v, name)
                                if not (isinstance(y, Lin) and eng.ent_le(s, Lin.const(lo), y) and (hi is None or eng.ent_le(s, y, Lin.const(hi)))):
                                    lost.add((kk, name))
                    if report and (p, bit) in ((0, 0), (3, 0)):
                        st = self.state(f2, cons)
                        self.finish(st, pend + ([("E", low)] if p else []), "state %s" % k)
                        for s, _ in self.call(self.state(f2, cons), "clear", [self.me()]):
                            v, x = s.mem[SELF], self.fits(s)
                            good = x is not None and x[0] == "Init" and eng.seq_eq(s, M.flat(eng, s, get(v, "encoded_values")), []) and all(eng.val_eq(s, get(v, n), ZERO) for n in ("byte", "bit_pos"))
                            self.need(s, "clear", good, lambda: "after clear() the encoder still holds %r" % (v,), [])
        return lost, fail

    def go(self):
        eng, ctx = self.eng, self.ctx
        for m in ("new", "put", "flush", "encoded_values", "clear"):
            if ctx.need(RLE + "::" + m) is None:
                return
        seen = []
        self.explore(6, seen)
        if ctx.violations:
            return
        # what the description makes of the states seen
        facts, bad = {}, None
        eng.quiet += 1
        for s, bs in seen:
            x = self.fits(s)
            if x is None:
                bad = "after the bytes %s" % (bs,)
                break
            v = s.mem[SELF]
            try:
                got = expand(eng, s, M.flat(eng, s, get(v, "encoded_values")))
            except Frames as e:
                bad = str(e)
                break
            if not eng.seq_eq(s, got + x[1], [("E", Lin.const(b)) for b in bs]):
                bad = "after the bytes %s" % (bs,)
                break
            for n in ("repeat_count", "run_start_pos"):
                y = get(v, n)
                if y is not None and y.is_const():
                    lo, hi = facts.get((x[0], n), (y.c, y.c))
                    facts[x[0], n] = (min(lo, y.c), max(hi, y.c))
        eng.quiet -= 1
        if bad is not None:
            ctx.unsure("induction", RLE, "the state of this encoder is not described by the rule (%s): only exact runs judge it" % bad)
            return self.long()
        kinds = sorted({self.fits(s)[0] for s, _ in seen})
        while True:
            x = sub(ctx)
            self.ctx, self.ob.ctx = x, x
            eng.quiet += 1
            lost, fail = self.induct(facts, kinds, False)
            eng.quiet -= 1
            self.ctx, self.ob.ctx = ctx, ctx
            absorb(ctx, x) if not x.violations else None
            if not lost:
                break
            for z in lost:
                lo, hi = facts[z]
                # first give up the upper bound, then the fact
                if hi is not None:
                    facts[z] = (lo, None)
                else:
                    del facts[z]
        ctx.note("facts", len(facts))
        lost, fail = self.induct(facts, kinds, True)
        for s, m in fail:
            self.need(s, "described", False, m, [])


# ------------------------------------------------------------------- decoder
def c_decode(eng, st, args, call):
    r = M.rref(eng, st, args[0])
    if r is None:
        return None
    segs = [s for s in eng.slice_segs(st, r) if not eng.ent_eq(st, E.seg_len(s), ZERO)]
    if segs and segs[0][0] == "X" and segs[0][1] == "varint":
        return [(st, E.ok(E.tup(segs[0][2], segs[0][3])))]
    return None


def decoder(ctx, k=None):
    P = ctx.P
    names = dict(S.fields(P, DEC))
    if set(names) != {"encoded_data", "decoded_data", "encoded_data_pos", "decoded_data_pos", "bitmap_pos"} or DEC + "::decode" not in P.bodies:
        return ctx.unsure("shape", DEC, "the decoder has other fields than the rule describes: %s" % sorted(names))
    lit = lambda bs: [("X", "varint", Lin.const(2 * len(bs) + 1), ONE)] + [("E", b) for b in bs]
    run = lambda n, b: [("X", "varint", n.scale(2), ONE), ("E", b)]
    x = S.atom("octet", 0, 255)
    C = Lin.const
    bits = lambda b: [i for i in range(8) if b >> i & 1]
    n = S.atom("run", 0, 2 ** 20) if k is None else C(k)
    cases = [("a literal byte", lit([x]), None, [x]),
             ("a literal", lit([C(0x81), C(0), C(0xFF), C(0x10)]), None, [0x81, 0, 0xFF, 0x10]),
             ("a run of zeros", run(n, ZERO), (n, 0), None),
             ("a run of ones", run(C(3), C(255)), None, [255] * 3),
             ("a run", run(C(3), C(0x42)), None, [0x42] * 3),
             ("a run of one", run(ONE, C(0x80)), None, [0x80]),
             ("nothing", [], None, []),
             ("two frames", run(C(4), ZERO) + lit([C(1), C(0xC0)]), None, [0, 0, 0, 0, 1, 0xC0]),
             ("three frames", lit([C(2)]) + run(C(3), C(255)) + run(C(5), C(1)), None, [2, 255, 255, 255, 1, 1, 1, 1, 1])]
    for what, data, zeros, content in cases:
        eng = S.engine(P, dict(CON, **{ENC + "varint::decode_varint": c_decode}))
        eng.unroll, eng.exact = 300, k is not None
        ob = Ob(ctx, eng, DEC)
        ob.no_panic("panics")
        e, d, p, room = S.atom("read", 0, SMALL), S.atom("decoded", 0, SMALL), S.atom("position", 0, SMALL), S.atom("room", 0, SMALL)
        ARR["done"], ARR["out"] = Arr(e, "plain", ("int", "u8")), Arr(room, "plain", ("int", "u32"))
        src = Seq([("S", "done", ZERO, e)] + data)
        st = State({("src",): src, OUT: Seq([("S", "out", ZERO, room)])}, ((d + 80 - room, False),))
        f = {"encoded_data": Ref(("src",), (), ZERO, src.len()), "decoded_data": Ref(OUT, (), ZERO, room, True),
             "encoded_data_pos": e, "decoded_data_pos": d, "bitmap_pos": p}
        order = [q for q, _ in S.fields(P, DEC)]
        st.mem[SELF] = Agg("adt", DEC, 0, None, [f[q] for q in order], order)
        outs = S.call(eng, st, DEC + "::decode", [Ref(SELF, (), None, None, True)])
        ctx.functions |= eng.analysed
        ctx.note("abstract calls")
        need = lambda s, rule, c, m, vals=(): ob.need(s, rule, c, m, vals, DEC, key="%s@bitmap_rle::Decoder" % rule)
        if outs or not eng.dropped:
            need(st, "returns", len(outs) > 0, "%s: decode never returns" % what)
        for s, r in outs:
            alts = [(s, content)]
            if content and isinstance(content[0], Lin):
                # the bits tested on this path determine the byte
                alts = [(s2, [v]) for v in range(256) for s2 in eng.assume(s.copy(), eq(x, C(v)))]
            for s2, bs in alts:
                if zeros is not None:
                    pos, nbits = [], zeros[0].scale(8)
                else:
                    pos, nbits = [8 * i + j for i, b in enumerate(bs) for j in bits(b)], C(8 * len(bs))
                v = s2.mem[SELF]
                q = s2.mem[OUT]
                need(s2, "count", isinstance(r, Lin) and eng.ent_eq(s2, r, d + len(pos)), lambda: "%s: %r positions are reported, expected %d more" % (what, r, len(pos)), [r])
                need(s2, "advance", eng.val_eq(s2, get(v, "bitmap_pos"), p + nbits) and eng.val_eq(s2, get(v, "encoded_data_pos"), src.len()) and eng.val_eq(s2, get(v, "decoded_data_pos"), d + len(pos)),
                     lambda: "%s: the decoder continues at bit %r" % (what, get(v, "bitmap_pos")), [get(v, "bitmap_pos"), get(v, "encoded_data_pos")])
                for i, b in enumerate(pos):
                    y = eng.elem(s2, q, d + i) if isinstance(q, Seq) else q
                    need(s2, "positions", isinstance(y, Lin) and eng.ent_eq(s2, y, p + b), lambda: "%s: set bit %d is reported at %r" % (what, i, y), [y])


def e07(ctx):
    ctx.rule("per state of the encoder: pending bytes + the new one = expansion of the frames written + pending bytes afterwards, for put, flush and clear, with the field facts proved inductive; per kind of frame: the decoder, from any position, reports exactly the set bits and advances past the frame")
    guarded(ctx, RLE, lambda: Enc(ctx).go())
    softly(ctx, lambda c: guarded(c, DEC, lambda: decoder(c)), [lambda c, k=k: guarded(c, DEC, lambda: decoder(c, k)) for k in (0, 1, 2, 3, 33, 200)])
