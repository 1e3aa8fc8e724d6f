"""P01: legal use never panics, nor fails without cause.

The runs of the other rules already start every operation in an arbitrary state
of its class with arbitrary legal arguments; here only the panics they reach
count (explicit ones, failed unwraps, bounds, subtraction underflow).  Documented
limits are outside the runs: more rows than a row id can number, more data than
an offset can address, appending a null to a non-nullable buffer, reading a bit
that was never appended."""
from core import sub
from rules import buffers, bitmap, encoder, offsets, rle, io, reader

SOURCES = (buffers.i01, buffers.i02, bitmap.i03, buffers.i04, offsets.e08, rle.e07,
           io.rule("W01"), io.rule("W02"), io.rule("W04"), io.rule("W05"), io.rule("W06"), io.rule("W08"), reader.rule("R01"), reader.rule("R02"))


def rule(ctx):
    ctx.rule("no panic is reachable in any operation from any state of its class with legal arguments, unless an I/O operation has failed before (then W03 judges it)")
    for f in SOURCES + (encoder.rule("E01"),):
        x = sub(ctx)
        x.false_errors = True
        f(x)
        bad = set()
        for v in x.violations:
            if "panics" in v["rule"] or v["rule"] == "false-error":
                bad.add(v["where"])
                v = dict(v, key="P01:" + v["key"])
                if all(y["key"] != v["key"] for y in ctx.violations):
                    ctx.bad("false-error" if v["rule"] == "false-error" else "panics", v["where"], v["msg"], v["span"], v["path"], v["key"])
        for w in sorted(x.functions):
            if w not in bad:
                ctx.ok("no-panic", w)
        ctx.functions |= x.functions
        ctx.inconclusive += [i for i in x.inconclusive if "panics" in str(i.get("rule")) or i.get("rule") == "false-error"]
        for k, n in x.stats.items():
            ctx.note(k, n)
        ctx.trusted += [t for t in x.trusted if t not in ctx.trusted]
