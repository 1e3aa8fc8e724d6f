"""Call-graph effect rules (blocking I/O, unsafe)."""
import re

BLOCKING = [
    r"^std::fs::(?!Metadata::|FileType::|Permissions::|FileTimes::|DirEntry::(path|file_name)|OpenOptions::(new|read|write|append|truncate|create|create_new)$)",
    r"^<std::fs::(File|ReadDir|&std::fs::File) as ",
    r"^<&std::fs::File as ",
    r"^std::os::unix::fs::",
    r"^std::thread::(\w+::)*(sleep|sleep_ms|sleep_until|park|park_timeout|park_timeout_ms|scope)$",
    r"^std::thread::.*JoinHandle::join",
    r"^std::sync::(mpsc::)?.*Receiver::(recv|recv_timeout|recv_deadline|iter)$",
    r"^std::sync::mpmc::.*recv",
    r"^std::sync::.*Condvar::wait",
    r"^std::sync::.*Barrier::wait",
    r"^std::net::(?!IpAddr|Ipv4|Ipv6|SocketAddr|ip_addr|socket_addr|parser)",
    r"^<std::net::(Tcp|Udp|tcp|udp)",
    r"^<?std::os::unix::net::",
    r"^std::process::(Command|Child)::(spawn|output|status|wait|wait_with_output|exec|try_wait)$",
    r"^std::path::Path::(exists|try_exists|metadata|symlink_metadata|canonicalize|is_file|is_dir|is_symlink|read_dir|read_link)$",
    r"^(std|core|alloc)::io::(.*::)?(read|read_exact|read_to_end|read_to_string|read_line|read_until|read_vectored|write|write_all|write_vectored|write_fmt|flush|seek|rewind|copy)$",
    r"^tokio::sync::.*::blocking_\w+$",
    r"^<tempfile::|^tempfile::",
    r"::block_on$",
]
BLOCK_RE = [re.compile(x) for x in BLOCKING]
SPAWN = ("tokio::task::blocking::spawn_blocking", "tokio::task::spawn_blocking", "tokio::task::blocking::block_in_place",
         "tokio::runtime::handle::Handle::spawn_blocking", "std::thread::spawn", "std::thread::functions::spawn",
         "std::thread::Builder::spawn")


def is_blocking(fn):
    for p in (fn.get("res"), fn.get("path")):
        if not p:
            continue
        if any(r.search(p) for r in BLOCK_RE):
            # in-memory readers / writers do not block
            if re.match(r"^<(alloc|core|std::io::(Cursor|Empty|Sink)|&\[u8\])", p):
                continue
            return True
    return False


def closure_path(P, tid):
    t = P.types[tid] if isinstance(tid, int) else None
    if t and t[0] in ("closure", "coroutine", "fndef"):
        return t[1]
    return None


def bodies_in_family(P, path):
    """the body and the coroutines/closures nested in it"""
    return [b for p, b in P.bodies.items() if p == path or p.startswith(path + "::{closure#")]


def spawn_params(P):
    """{fn path: set of generic indices handed to spawn_blocking and never
    invoked in the function itself}; fixpoint over wrappers."""
    res = {}
    changed = True
    while changed:
        changed = False
        for p, b in P.bodies.items():
            gens = b.get("generics") or []
            if not gens:
                continue
            for i, g in enumerate(gens):
                if i in res.get(p, ()):
                    continue
                hit = called = False
                for fb in bodies_in_family(P, p):
                    for _bi, fn, _a, _sp, _d, _t in P.calls(fb):
                        if fn is None:
                            continue
                        args = fn.get("res_args") if fn.get("res_local") else fn.get("args")
                        tgt = fn.get("res") or fn["path"]
                        for j, a in enumerate(args or []):
                            if isinstance(a, int) and P.types[a] == ["param", g]:
                                if tgt in SPAWN and j == 0:
                                    hit = True
                                elif j in res.get(tgt, ()):
                                    hit = True
                                elif (fn.get("trait") or "").startswith("core::ops::function::Fn") and j == 0:
                                    called = True
                if hit and not called:
                    res.setdefault(p, set()).add(i)
                    changed = True
    return res


def operand_consts(b):
    def ops(o):
        if o and o[0] == "k":
            yield o[1]
    for bb in b["blocks"]:
        if bb["cleanup"]:
            continue
        for s in bb["s"]:
            if s[0] == "=":
                for x in s[2]:
                    if isinstance(x, list) and x and x[0] in ("k",):
                        yield x[1], s[3]
                    elif isinstance(x, list):
                        for y in x:
                            if isinstance(y, list) and y and y[0] == "k" and isinstance(y[1], dict):
                                yield y[1], s[3]
        if bb["t"][0] == "call":
            for o in bb["t"][2]:
                if o[0] == "k":
                    yield o[1], bb["t"][5]


def out_edges(P, b, sp):
    """(kind, target path or callee, span) leaving a body."""
    safe = set()
    for _bi, fn, args, span, _d, _t in P.calls(b):
        if fn is None:
            continue
        tgt = fn.get("res") or fn["path"]
        gargs = (fn.get("res_args") if fn.get("res_local") else fn.get("args")) or []
        idx = {0} if tgt in SPAWN else sp.get(tgt, set())
        for j in idx:
            if j < len(gargs):
                c = closure_path(P, gargs[j])
                if c:
                    safe.add(c)
    for bi, bb in enumerate(b["blocks"]):
        if bb["cleanup"]:
            continue
        for s in bb["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] in ("closure", "coroutine"):
                c = s[2][1][1]
                if c not in safe:
                    yield "body", c, s[3]
    for _bi, fn, args, span, _d, _t in P.calls(b):
        if fn is None:
            continue
        tgt = fn.get("res") if fn.get("res_local") else fn["path"]
        yield "call", fn, span
    for k, span in operand_consts(b):
        if "fn" in k and isinstance(k["fn"], dict) and k["fn"].get("path") not in safe:
            # a function item used as a value
            yield "call", k["fn"], span


def trait_targets(P, fn):
    """local implementations a call may reach"""
    out = []
    if fn.get("res_local") and fn.get("res") in P.bodies:
        out.append(fn["res"])
    elif fn.get("local") and fn["path"] in P.bodies:
        out.append(fn["path"])
    if fn.get("trait") and not fn.get("res_local"):
        m = fn["path"].split("::")[-1]
        suffix = " as %s>::%s" % (fn["trait"], m)
        if fn.get("local") or fn.get("virtual") or "res" not in fn:
            out.extend(p for p in P.bodies if p.endswith(suffix))
    return out


ASYNC_RET = ("BoxStream", "Stream", "Future", "Pin")


def r03(ctx):
    P = ctx.P
    ctx.rule("every coroutine body, poll function and closure reachable from it is an executor context; a blocking file-system, "
             "thread or network call may only be reached through a closure handed to spawn_blocking (directly or through a wrapper "
             "whose parameter only flows there)")
    sp = spawn_params(P)
    roots = []
    for p, b in P.bodies.items():
        if b.get("coroutine"):
            roots.append(p)
        else:
            o = b.get("output")
            if isinstance(o, int):
                t = P.rty(o)
                if mentions_async(t):
                    roots.append(p)
    seen = {}
    work = []
    for r in roots:
        seen[r] = None
        work.append(r)
    ncalls = 0
    while work:
        p = work.pop()
        b = P.bodies[p]
        ctx.functions.add(p)
        for kind, tgt, span in out_edges(P, b, sp):
            if kind == "body":
                if tgt in P.bodies and tgt not in seen:
                    seen[tgt] = (p, span)
                    work.append(tgt)
                continue
            ncalls += 1
            if is_blocking(tgt):
                chain, q = [], p
                while q is not None:
                    chain.append(q)
                    q = seen[q][0] if seen[q] else None
                name = tgt.get("res") or tgt["path"]
                ctx.bad("blocking-call", p, "%s blocks the executor thread: it is reached outside of spawn_blocking" % name,
                        span, chain, key="blocking-call@%s:%s" % (p, name))
                continue
            for q in trait_targets(P, tgt):
                if q not in seen:
                    seen[q] = (p, span)
                    work.append(q)
    nspawn = 0
    for p, b in P.bodies.items():
        for _bi, fn, args, span, _d, _t in P.calls(b):
            if fn and (fn.get("res") or fn["path"]) in SPAWN:
                nspawn += 1
    for p in seen:
        ctx.ok("executor-context", p)
    ctx.stats.update({"executor_roots": len(roots), "reached_bodies": len(seen), "call_sites": ncalls,
                      "spawn_sites": nspawn, "spawn_wrappers": sorted(sp)})
    ctx.check(len(roots) >= 10, "anchor", "crate", "fewer than 10 executor contexts found (%d)" % len(roots))
    ctx.samples = [{"context": p, "reached_from": seen[p][0] if seen[p] else "root"} for p in sorted(seen)][:12]


def mentions_async(t, d=0):
    if d > 6 or not isinstance(t, tuple):
        return False
    if t and t[0] == "coroutine":
        return True
    if len(t) > 1 and t[0] in ("dyn", "adt", "other") and isinstance(t[1], str) and \
            any(x in t[1] for x in ("futures_core::stream", "core::future::future::Future", "Future<", "Stream<", "stream::Stream")):
        return True
    return any(mentions_async(x, d + 1) for x in t if isinstance(x, tuple))
