"""Shared plumbing of the checks: facts, obligations, known findings, evidence."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import facts
from prog import Prog

FINDINGS = os.path.join(VERIF, "known_findings.txt")


class Ctx:
    def __init__(self, prop, tier, F):
        self.prop, self.tier = prop, tier
        self.P = Prog(F)
        self.F = F
        self.obligations = []      # (rule, where, ok, msg)
        self.violations = []       # dicts
        self.inconclusive = []
        self.stats = {}
        self.functions = set()
        self.samples = []
        self.assumptions = []
        self.trusted = []
        self.rule_text = []

    def rule(self, text):
        self.rule_text.append(text)

    def note(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def ok(self, rule, where, what=""):
        self.obligations.append((rule, where, True, what))

    def bad(self, rule, where, msg, span=None, path=None, key=None, soft=False):
        """A violated obligation.  `key` identifies the construct without line numbers."""
        self.obligations.append((rule, where, False, msg))
        k = key or ("%s@%s" % (rule, where))
        for v in self.violations:
            if v["key"] == k:
                if v.get("soft") and not soft:
                    v.update(rule=rule, where=where, msg=msg, span=span, path=path or [], soft=False)
                return
        self.violations.append({"key": k, "rule": rule, "where": where, "msg": msg, "span": span, "path": path or [], "soft": soft})

    def check(self, cond, rule, where, msg, span=None, path=None, key=None):
        if cond:
            self.ok(rule, where)
        else:
            self.bad(rule, where, msg, span, path, key)
        return cond

    def unsure(self, rule, where, why):
        self.inconclusive.append({"rule": rule, "where": where, "why": why})

    def body(self, path):
        b = self.P.bodies.get(path)
        if b is not None:
            self.functions.add(path)
        return b

    def need(self, path, rule="anchor"):
        b = self.body(path)
        if b is None:
            self.unsure(rule, path, "function not found in the crate: nothing to decide the property on")
        return b


def load_findings():
    res = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("finding: "):
                d = {}
                rest = line[len("finding: "):]
                for part in rest.split(" ", 2):
                    if "=" in part and part.split("=", 1)[0] in ("property", "key"):
                        k, v = part.split("=", 1)
                        d[k] = v
                    else:
                        d["what"] = part
                res.append(d)
    return res


def run(prop, meta, fn, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    F = facts.collect()
    ctx = Ctx(prop, tier, F)
    fn(ctx)
    known = {(k.get("property"), k.get("key")): k for k in load_findings()}
    newv, old = [], []
    for v in ctx.violations:
        k = known.get((prop, v["key"]))
        (old if k else newv).append((v, k))
    n = len(ctx.obligations)
    good = sum(1 for o in ctx.obligations if o[2])
    if n == 0 and not ctx.violations and not ctx.inconclusive:
        newv.append(({"key": "vacuous", "rule": "vacuity", "where": "-", "msg": "no obligation was generated", "span": None, "path": []}, None))
    by = {}
    for r, w, o, m in ctx.obligations:
        d = by.setdefault(r, {"obligations": 0, "discharged": 0})
        d["obligations"] += 1
        d["discharged"] += 1 if o else 0
    cov = {
        "explanation": "static analysis of the MIR of /repo's current tree (%d bodies); no analysed code is executed. Rules: %s"
                       % (len(ctx.P.bodies), " | ".join(ctx.rule_text) or meta.get("title", "")),
        "obligations": n, "discharged": good,
        "by_rule": by,
        "functions_analysed": len(ctx.functions),
        "functions": sorted(ctx.functions)[:120],
        "checker_cmd": "./check.sh %s" % prop,
        "trusted_base": ctx.trusted or ["rustc nightly MIR construction", "lib/*.py analyser and transfer functions"],
        "inconclusive": ctx.inconclusive[:40],
        "stats": ctx.stats,
        "samples": (ctx.samples or [{"rule": r, "where": w, "ok": o, "what": m} for r, w, o, m in ctx.obligations])[:12],
        "known_findings_seen": [v["key"] for v, _ in old],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": meta["level"], "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(newv)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    s = json.dumps(ev, indent=1, default=str)
    if len(s) > 60000:
        cov["functions"] = cov["functions"][:20]
        cov["samples"] = cov["samples"][:3]
        s = json.dumps(ev, indent=1, default=str)
    open(p, "w").write(s)
    for v, k in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, k.get("what", v["msg"])))
    if newv:
        rp = os.path.join(VERIF, "evidence", prop + ".violation.json")
        json.dump([v for v, _ in newv], open(rp, "w"), indent=1, default=str)
        for v, _ in newv[:10]:
            print("  %s: [%s] %s%s" % (v["where"], v["rule"], v["msg"], (" (%s)" % v["span"]) if v["span"] else ""))
            for s in v["path"][:14]:
                print("      via %s" % s)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s: %d obligations, %d discharged, %d inconclusive, %d functions, %.1fs" %
          (prop, n, good, len(ctx.inconclusive), len(ctx.functions), time.time() - t0))
    return 0


def sub(ctx):
    x = Ctx.__new__(Ctx)
    x.__dict__.update(ctx.__dict__)
    x.obligations, x.violations, x.inconclusive, x.stats = [], [], [], {}
    x.functions, x.samples, x.assumptions, x.trusted, x.rule_text = set(), [], [], [], []
    return x


def absorb(ctx, x):
    ctx.obligations += x.obligations
    ctx.inconclusive += x.inconclusive
    for v in x.violations:
        if all(v["key"] != y["key"] for y in ctx.violations):
            ctx.violations.append(v)
    for k, n in x.stats.items():
        ctx.stats[k] = ctx.stats.get(k, 0) + n
    ctx.functions |= x.functions
    ctx.samples += x.samples
    for dst, src in ((ctx.assumptions, x.assumptions), (ctx.trusted, x.trusted), (ctx.rule_text, x.rule_text)):
        dst += [y for y in src if y not in dst]


def confirmed(ctx, general, exact):
    """Run the general analysis; what it cannot prove is a violation only if an exact abstract run (loops unrolled, no
    summaries) of one of the given instances shows it too.  Otherwise it is reported as inconclusive."""
    g = sub(ctx)
    general(g)
    if not g.violations:
        return absorb(ctx, g)
    found = []
    for f in exact:
        x = sub(ctx)
        f(x)
        ctx.functions |= x.functions
        found += [v for v in x.violations if all(v["key"] != y["key"] for y in found)]
        if len(found) >= len(g.violations):
            break
    keys = {v["key"] for v in found}
    for v in g.violations:
        if not found:
            g.inconclusive.append({"rule": v["rule"], "where": v["where"], "why": "not proved, and no exact instance shows it: " + v["msg"][:300]})
    g.violations = found
    absorb(ctx, g)


def softly(ctx, general, exact):
    """Like confirmed(), but only for what was found behind a loop that had to be summarised: everything else is exact."""
    g = sub(ctx)
    general(g)
    soft = [v for v in g.violations if v.get("soft")]
    if soft:
        hard = [v for v in g.violations if not v.get("soft")]
        found = []
        for f in exact:
            x = sub(ctx)
            f(x)
            ctx.functions |= x.functions
            found += [v for v in x.violations if all(v["key"] != y["key"] for y in found + hard)]
            if len(found) >= len(soft):
                break
        if not found:
            g.inconclusive += [{"rule": v["rule"], "where": v["where"], "why": "not proved behind a summarised loop, and no exact instance shows it: " + v["msg"][:300]} for v in soft]
        g.violations = hard + found
    absorb(ctx, g)


def parallel(ctx, jobs):
    """Run independent pieces of a check in forked processes and merge what they report, in order."""
    import multiprocessing as mp, traceback
    n = min(len(jobs), max(1, min(8, (os.cpu_count() or 2))))
    if n <= 1 or os.environ.get("MK_SERIAL"):
        for j in jobs:
            j(ctx)
        return
    c = mp.get_context("fork")

    def work(i, conn):
        x = sub(ctx)
        try:
            jobs[i](x)
            conn.send((x.obligations, x.violations, x.inconclusive, x.stats, x.functions, x.samples, x.assumptions, x.trusted, x.rule_text, None))
        except BaseException:
            conn.send(([], [], [], {}, set(), [], [], [], [], traceback.format_exc()))
        conn.close()
        os._exit(0)
    res, todo, live = {}, list(range(len(jobs))), {}
    import multiprocessing.connection as mpc
    while todo or live:
        while todo and len(live) < n:
            i = todo.pop(0)
            a, b = c.Pipe(False)
            p = c.Process(target=work, args=(i, b))
            p.start()
            b.close()
            live[a] = (i, p)
        for a in mpc.wait(list(live)):
            i, p = live.pop(a)
            try:
                res[i] = a.recv()
            except EOFError:
                res[i] = ([], [], [], {}, set(), [], [], [], [], "the process ended without a result")
            p.join()
    for i in range(len(jobs)):
        x = sub(ctx)
        x.obligations, x.violations, x.inconclusive, x.stats, x.functions, x.samples, x.assumptions, x.trusted, x.rule_text, e = res[i]
        if e:
            raise RuntimeError(e)
        absorb(ctx, x)
