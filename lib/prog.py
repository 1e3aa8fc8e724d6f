"""The facts of one crate, indexed."""
from collections import defaultdict


class Prog:
    def __init__(self, F):
        self.F = F
        self.types = F["types"]
        self.bodies = {}
        for b in F["bodies"]:
            # several impls of one trait for different args may share a path
            self.bodies.setdefault(b["path"], b)
        self.adts = {a["path"]: a for a in F["adts"]}
        self.impls = F["impls"]
        self._rty = {}
        self._cfg = {}

    # ---- types: resolved nested tuples
    def rty(self, tid, env=None):
        env = env or {}
        k = (tid, tuple(sorted(env.items(), key=lambda x: x[0])) if env else ())
        r = self._rty.get(k)
        if r is None:
            self._rty[k] = ("rec",)
            r = self._mk(self.types[tid], env)
            self._rty[k] = r
        return r

    def _mk(self, t, env):
        k = t[0]
        if k == "adt" or k == "fndef" or k == "dyn":
            return (k, t[1], tuple(self.rty(a, env) if isinstance(a, int) else ("const", a) for a in t[2]))
        if k == "array":
            return ("array", self.rty(t[1], env), t[2])
        if k in ("slice",):
            return ("slice", self.rty(t[1], env))
        if k in ("ref", "ptr"):
            return (k, self.rty(t[1], env), t[2])
        if k == "tuple":
            return ("tuple", tuple(self.rty(a, env) for a in t[1]))
        if k in ("closure", "coroutine"):
            return (k, t[1], tuple(self.rty(a, env) for a in t[2]))
        if k == "param":
            return env.get(t[1], ("param", t[1]))
        return tuple(t)

    # ---- control flow
    def succs(self, b, i):
        bb = b["blocks"][i]
        t = bb["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        if k == "yield":
            return [t[2]]
        return []

    def loops(self, b):
        """natural loops: {head: set(blocks)}"""
        key = b["path"] + b.get("span", "")
        if key in self._cfg:
            return self._cfg[key]
        n = len(b["blocks"])
        order, seen = [], set()
        stack = [(0, iter(self.succs(b, 0)))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(self.succs(b, y))))
                    break
            else:
                order.append(x)
                stack.pop()
        rpo = order[::-1]
        idx = {x: i for i, x in enumerate(rpo)}
        preds = defaultdict(list)
        for x in rpo:
            for y in self.succs(b, x):
                preds[y].append(x)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for x in rpo[1:]:
                ps = [p for p in preds[x] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    a, c = d, p
                    while a != c:
                        while idx[a] > idx[c]:
                            a = idom[a]
                        while idx[c] > idx[a]:
                            c = idom[c]
                    d = a
                if idom.get(x) != d:
                    idom[x] = d
                    ch = True

        def dom(a, x):
            while True:
                if x == a:
                    return True
                if x == 0:
                    return a == 0
                x = idom[x]
        res = {}
        for x in rpo:
            for y in self.succs(b, x):
                if dom(y, x):
                    body = res.setdefault(y, {y})
                    work = [x]
                    while work:
                        z = work.pop()
                        if z not in body:
                            body.add(z)
                            work.extend(preds[z])
        self._cfg[key] = res
        return res

    def body_generics(self, b):
        return b.get("generics") or []

    def find(self, suffix):
        return [b for p, b in self.bodies.items() if p.endswith(suffix)]

    # ---- who-may-call facts
    def calls(self, b):
        """(block index, callee dict, args, span, dest, target)"""
        for i, bb in enumerate(b["blocks"]):
            if bb["cleanup"]:
                continue
            t = bb["t"]
            if t[0] == "call":
                f = t[1]
                yield i, (f[1].get("fn") if f[0] == "k" else None), t[2], t[5], t[3], t[4]
