"""E08: the packed item lengths.  The bit packer is represented by its documented
behaviour (a whole block of lengths in, 16 bytes per bit of width out); the rule
follows which block of lengths is packed at which width to which place.  Widths
are a finite domain, so the byte counts are linear on each of its 33 cases; the
width is compared with that of an arbitrary block (a skolem constant)."""
import lin as L
from lin import Lin, ZERO, ONE, le, lt, eq, ne, neg, conj
import engine as E
import models as M
import shapes as S
from engine import State, Ref, Seq, Agg, SymV, ARR, Arr, BOUND
from ob import Ob
from core import confirmed
from rules.buffers import guarded, SMALL
from rules.encoder import OFF, U8

ENCODE = OFF + "::encode"
SELF, SRC, DST = ("self",), ("src",), ("dst",)
COUNT = ("ghost", "blocks")
BLOCK = 128


class Run:
    def __init__(self, ctx, n=None):
        self.ctx, self.exact = ctx, n is not None
        P = ctx.P
        self.eng = eng = S.engine(P)
        # the packer: any implementation of the crate's trait
        for t in ("bitpacking::BitPacker", "<bitpacking::bitpacker4x::BitPacker4x as bitpacking::BitPacker>"):
            eng.contracts[t + "::num_bits"] = self.num_bits
            eng.contracts[t + "::compress"] = self.compress
            eng.contracts[t + "::new"] = lambda e, st, args, call: [(st, SymV(("packer",), None))]
        eng.hooks["extreme"] = self.extreme
        eng.hooks["mul"] = self.mul
        n, m = self.n, self.m = S.atom("lengths", 0, SMALL) if n is None else Lin.const(n), S.atom("before", 0, SMALL)
        if self.exact:
            eng.unroll, eng.exact, eng.cap = 160, True, 300
        ARR["lens"] = Arr(n, "plain", ("int", "u32"))
        ARR["dst"] = Arr(m, "plain", ("int", "u8"))
        self.blocks = E.mk_div(n + (BLOCK - 1), BLOCK)
        self.padded = Seq([("S", "lens", ZERO, n), ("F", ZERO, self.blocks.scale(BLOCK) - n)])
        self.kappa = S.atom("some_block", 0, SMALL)
        st = State({SRC: Seq([("S", "lens", ZERO, n)]), DST: Seq([("S", "dst", ZERO, m)]), COUNT: ZERO, SELF: SymV(("self",), ("adt", OFF, ()))},
                   ((self.kappa - self.blocks + 1, False),))
        self.empty = State(dict(st.mem), ((n, False),))
        st.cons += ((ONE - n, False),)
        self.st = st
        self.ob = Ob(ctx, eng, ENCODE)
        self.ob.no_panic("panics")

    def need(self, st, rule, cond, msg, vals=()):
        if self.eng.quiet:
            return True
        return self.ob.need(st, rule, cond, msg, vals, ENCODE, key="%s@%s" % (rule, ENCODE.split("::")[-2]))

    # ------------------------------------------------------------- the packer
    def width(self, st, r):
        """the width an arbitrary block needs, if r is one"""
        lo = r.lo if r.root == SRC and not r.steps else None
        if lo is None and self.exact:
            segs = self.eng.slice_segs(st, r)
            for j in range(self.blocks.c):
                b = Lin.const(j * BLOCK)
                if self.eng.seq_eq(st, segs, self.eng.sub(st, self.padded, b, b + BLOCK)):
                    lo = b
        if lo is not None:
            a = ("v", ("width", lo))
            BOUND.setdefault(a, (0, 32))
            return Lin.atom(a)
        return self.eng.fresh_int("width", 0, 32)

    def num_bits(self, eng, st, args, call):
        r = M.rref(eng, st, args[1])
        if r is None:
            return None
        return [(s, self.width(s, r)) for s in M.panic(eng, st, eq(eng.slice_len(st, r), Lin.const(BLOCK)), "the packer takes whole blocks only", call)]

    def extreme(self, eng, st, i, m, call):
        """max over all blocks of the lengths: evaluated at the arbitrary block"""
        src, f = (i.fields if i.path == "map" else (i, None))
        if self.exact:
            return self.all_of(eng, st, i, m, call)
        if src.path != "chunks" or m != "max" or src.fields[0].root != SRC:
            return None
        r, pos, sz, exact = src.fields
        if not (pos == ZERO and sz == Lin.const(BLOCK) and r.lo == ZERO):
            return None
        n = r.hi - r.lo
        out = []
        for s in eng.assume(st.copy(), le(n, ZERO)):
            out.append((s, E.NONE))
        k = self.kappa.scale(BLOCK)
        for s in eng.assume(st, lt(ZERO, n)):
            x = eng.fresh_int("max", 0, 32)
            whole = False
            for s2 in eng.assume(s.copy(), le(k + BLOCK, n)):
                whole = True
                e = Ref(r.root, r.steps, k, k + BLOCK)
                for s3, v in ([(s2, e)] if f is None else eng.call_value(s2, f, [e], call.frame, call.span)):
                    v = M.val(eng, s3, v)
                    if isinstance(v, Lin):
                        s3.cons = s3.cons + ((v - x, False),)
                    out.append((s3, E.some(x)))
            for s2 in eng.assume(s, lt(n, k + BLOCK)):
                out.append((s2, E.some(x)))
        return out

    def all_of(self, eng, st, i, m, call):
        work, out = [(st, i, [])], []
        while work:
            s, j, vs = work.pop()
            for s2, j2, e in M.it_next(eng, s, j, call.frame, call.span):
                if e is not None:
                    work.append((s2, j2, vs + [M.val(eng, s2, e)]))
                    continue
                if not vs:
                    out.append((s2, E.NONE))
                    continue
                x = eng.fresh_int(m, 0, 2 ** 32)
                s2.cons = s2.cons + tuple(((v - x) if m == "max" else (x - v), False) for v in vs if isinstance(v, Lin))
                out.append((s2, E.some(x)))
        return out

    def mul(self, eng, st, x, y):
        """products with a width: one case per width"""
        for a, b in ((x, y), (y, x)):
            if not a.is_const() and not b.is_const() and len(a.t) == 1 and eng.ent_le(st, a, Lin.const(32)) and eng.ent_le(st, ZERO, a):
                return [(s, b.scale(i)) for i in range(33) for s in eng.assume(st.copy(), eq(a, Lin.const(i)))]
        return None

    def compress(self, eng, st, args, call):
        src, dst = M.rref(eng, st, args[1]), M.rref(eng, st, args[2])
        w = eng.as_lin(st, args[3])
        if src is None or dst is None:
            return None
        n = eng.slice_len(st, src)
        size = None
        for v in range(33):
            if eng.ent_eq(st, w, Lin.const(v)):
                size = Lin.const(16 * v)
        if size is None:
            outs = []
            for v in range(33):
                for s in eng.assume(st.copy(), eq(w, Lin.const(v))):
                    outs += self.packed(eng, s, src, dst, w, Lin.const(16 * v), n, call)
            return outs
        return self.packed(eng, st, src, dst, w, size, n, call)

    def packed(self, eng, st, src, dst, w, size, n, call):
        room = eng.slice_len(st, dst)
        g = st.mem[COUNT]
        out = []
        for s in M.panic(eng, st, conj(eq(n, Lin.const(BLOCK)), le(size, room)), "the packer takes whole blocks and needs room for them", call):
            if not isinstance(g, Lin):
                self.need(s, "whole-blocks", False, "the number of blocks packed is not known", [E.Top("loop summary")])
                out.append((s, size))
                continue
            # which lengths
            self.need(s, "every-length-in-order", lt(g, self.blocks), "more blocks are packed than there are lengths", [g])
            lo = g.scale(BLOCK)
            if src.root == SRC and not src.steps:
                self.need(s, "every-length-in-order", eq(src.lo, lo), lambda: "block %r of the lengths is taken from position %r" % (g, src.lo), [src.lo, g])
                q = s.mem[SRC]
                self.need(s, "padded", isinstance(q, Seq) and eng.seq_eq(s, q.segs, self.padded.segs), lambda: "the lengths packed are %r, not the given ones padded with zeros" % (q,), [q])
            else:
                segs = eng.slice_segs(s, src)
                for c in (le(lo + BLOCK, self.n), lt(self.n, lo + BLOCK)):
                    for s2 in eng.assume(s.copy(), c):
                        self.need(s2, "every-length-in-order", eng.seq_eq(s2, segs, eng.sub(s2, self.padded, lo, lo + BLOCK)),
                                  lambda: "block %r holds %r" % (g, Seq(segs)), [Seq(segs), g])
            # at which width
            for s2 in eng.assume(s.copy(), eq(g, self.kappa)):
                k = Lin.atom(("v", ("width", (g if self.exact else self.kappa).scale(BLOCK))))
                self.need(s2, "wide-enough", le(k, w), lambda: "a block is packed at the width %r, which need not be what its largest length needs" % w, [w])
            q = s.mem[DST]
            hd = eng.elem(s, q, self.m) if isinstance(q, Seq) else q
            self.need(s, "width-recorded", isinstance(hd, Lin) and eng.ent_eq(s, hd, w), lambda: "the width recorded is %r, the one used %r" % (hd, w), [hd, w])
            # and where to
            here = dst.root == DST and not dst.steps and dst.lo is not None
            self.need(s, "contiguous", here and eng.ent_eq(s, dst.lo, self.m + 1 + self.at(s, g, w, size)),
                      lambda: "block %r is packed to position %r" % (g, dst.lo), [dst.lo, g, w])
            s.mem[COUNT] = g + 1
            out.append((s, size))
        return out

    def at(self, st, g, w, size):
        return g.scale(size.c)

    # ---------------------------------------------------------------- driver
    def go(self):
        eng, ctx = self.eng, self.ctx
        if ctx.need(ENCODE) is None:
            return
        b = ctx.P.bodies[ENCODE]
        for st in (self.st, self.empty):
            if self.exact and st is (self.st if self.n == ZERO else self.empty):
                continue
            args = [Ref(SELF, (), None, None, True), Ref(SRC, (), None, None, True), Ref(DST, (), None, None, True)]
            outs = S.call(eng, st, ENCODE, args)
            ctx.functions |= eng.analysed
            ctx.note("paths", len(outs))
            if outs or not self.eng.dropped:
                self.need(st, "returns", len(outs) > 0, "the packer never returns")
            for s, r in outs:
                q, g = s.mem[DST], s.mem[COUNT]
                if not isinstance(q, Seq) or not isinstance(g, Lin):
                    ctx.unsure("shape", ENCODE, "after the call: %r, %r blocks" % (q, g))
                    continue
                self.need(s, "all-blocks", eq(g, self.blocks), lambda: "%r blocks of lengths are packed, expected %r" % (g, self.blocks), [g])
                self.need(s, "prefix-kept", eng.seq_eq(s, eng.sub(s, q, ZERO, self.m), [("S", "dst", ZERO, self.m)]), lambda: "what was there before is changed: %r" % (q,), [q])
                w = eng.elem(s, q, self.m)
                self.need(s, "width-recorded", isinstance(w, Lin), lambda: "the packed lengths start with %r" % (w,), [w])
                if not isinstance(w, Lin):
                    continue
                for v in range(33):
                    for s2 in eng.assume(s.copy(), eq(w, Lin.const(v))):
                        self.need(s2, "size", eq(q.len(), self.m + 1 + self.blocks.scale(16 * v)),
                                  lambda: "%r bytes hold %r blocks at width %d" % (q.len() - self.m, self.blocks, v), [q.len()])


def e08(ctx):
    ctx.rule("every block of 128 lengths (the given ones padded with zeros) is packed once, in order, at the recorded width, back to back after the width byte; the width is at least that of an arbitrary block; the section is exactly as long as the blocks need")
    ctx.trusted = ["rustc nightly MIR construction", "lib/*.py analyser and transfer functions",
                   "documented behaviour of bitpacking::BitPacker4x (num_bits, compress)"]
    exact = [lambda c, n=n: guarded(c, ENCODE, lambda: Run(c, n).go()) for n in (0, 1, 2, 100, 127, 128, 129, 200, 255, 256, 257, 300, 383, 384, 385, 512, 600, 16640)]
    confirmed(ctx, lambda c: guarded(c, ENCODE, lambda: Run(c).go()), exact)
