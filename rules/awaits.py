"""W03: every asynchronous operation that is started is also awaited.

A future (or the handle of a spawned task) is an obligation of the body that
obtains it: it must reach something other than a drop - an await, a return
value, another call, a field.  Moves between locals are followed."""
FUTURE = ("core::future::future::Future", "Future<", "futures::Future", "JoinHandle", "JoinSet", "futures_util::future", "task::join")
DISCARD = ("core::mem::drop", "core::mem::forget", "std::mem::drop", "std::mem::forget")


def is_future(P, tid, d=0):
    t = P.types[tid] if isinstance(tid, int) else tid
    if d > 4 or not t:
        return False
    if t[0] == "coroutine":
        return True
    if t[0] in ("other", "dyn") and any(x in str(t[1]) for x in FUTURE):
        return True
    if t[0] == "adt":
        if "JoinHandle" in t[1] and "tokio" in t[1]:
            return True
        if t[1].startswith("futures_util::future::") and "ready" not in t[1]:
            return True
        if t[1] in ("core::pin::Pin", "alloc::boxed::Box"):
            return any(is_future(P, a, d + 1) for a in t[2] if isinstance(a, int))
    return False


def uses(b):
    """local -> [(kind, detail)]: how each local is read"""
    res = {}

    def op(o, k, x):
        if o and o[0] in ("m", "c") and isinstance(o[1], (list, tuple)):
            res.setdefault(o[1][0], []).append((k, x, len(o[1][1])))

    def walk(v, k, x):
        if isinstance(v, (list, tuple)):
            if len(v) == 2 and v[0] in ("m", "c") and isinstance(v[1], (list, tuple)) and len(v[1]) == 2 and isinstance(v[1][0], int) and isinstance(v[1][1], (list, tuple)):
                op(v, k, x)
                return
            if len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], (list, tuple)):
                # a bare place: borrowed, read or matched
                res.setdefault(v[0], []).append((k, x, len(v[1])))
            for y in v:
                walk(y, k, x)
    for bb in b["blocks"]:
        for s in bb["s"]:
            if s[0] == "=":
                dst, rv = s[1], s[2]
                plain = rv[0] in ("use", "cast") and not dst[1]
                walk(rv[1:], "move" if plain else "use", dst[0])
            else:
                walk(s[1:], "stmt:" + str(s[0]), None)
        t = bb["t"]
        if t[0] == "drop":
            continue
        if t[0] == "call":
            fn = t[1][1].get("fn") if t[1][0] == "k" else None
            name = (fn.get("res") or fn["path"]) if fn else ""
            for a in t[2]:
                walk(a, "discard" if name in DISCARD else "call", name)
        else:
            walk(t[1:], t[0], None)
    return res


def check(ctx):
    P = ctx.P
    n = 0
    for p, b in P.bodies.items():
        u = None
        for _bi, fn, args, span, dest, tgt in P.calls(b):
            if fn is None or dest is None or dest[1]:
                continue
            ty = b["locals"][dest[0]][0]
            if not is_future(P, ty):
                continue
            n += 1
            u = u if u is not None else uses(b)
            if dest[0] == 0 or consumed(u, dest[0], set()):
                ctx.ok("awaited", p)
            else:
                name = fn.get("res") or fn["path"]
                ctx.bad("awaited", p, "the operation started by %s is dropped without being awaited" % name, span, [], key="awaited@%s:%s" % (p.replace("meerkat::", ""), name))
    ctx.note("futures obtained", n)
    ctx.check(n >= 8, "anchor", "crate", "fewer than 8 asynchronous operations found (%d)" % n)


def consumed(u, l, seen):
    if l == 0:
        return True
    if l in seen:
        return False
    seen.add(l)
    for k, x, _d in u.get(l, ()):
        if k == "move":
            if consumed(u, x, seen):
                return True
        elif k.startswith("stmt:") or k == "discard":
            continue
        else:
            return True
    return False
