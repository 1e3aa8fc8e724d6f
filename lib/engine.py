"""Abstract interpreter over built MIR.

Values are abstract: integers are linear expressions over symbols, containers
are sequences of symbolic segments, everything else is a field-sensitive
aggregate or an opaque term.  Branches partition the abstract state, loops are
solved by a fixpoint over candidate linear invariants (no unrolling), calls to
functions of the crate are analysed in place, calls to library functions go
through transfer functions (models.py).  No code of the analysed program is
executed."""
import itertools, math, os, time
import lin as L
from lin import Lin, ZERO, ONE, fresh, le, lt, eq, ne, neg, conj, disj

USIZE_MAX = 2**64 - 1
INT_RANGE = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1),
             "usize": (0, 2**64 - 1), "u128": (0, 2**128 - 1),
             "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
             "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1)}
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128,
         "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}


DEADLINE = time.time() + float(os.environ.get("MK_SECONDS", "780"))


class Budget(Exception):
    pass


# ------------------------------------------------------------------ values
class Agg:
    __slots__ = ("kind", "path", "variant", "vname", "fields", "names", "env")

    def __init__(self, kind, path, variant=0, vname=None, fields=(), names=(), env=None):
        self.kind, self.path, self.variant, self.vname = kind, path, variant, vname
        self.fields, self.names, self.env = tuple(fields), tuple(names), env

    def k(self):
        return (self.kind, self.path, self.variant, self.fields)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.k() == o.k()

    def __hash__(self):
        return hash(self.k())

    def with_field(self, i, v):
        f = list(self.fields)
        while len(f) <= i:
            f.append(Top("uninit"))
        f[i] = v
        return Agg(self.kind, self.path, self.variant, self.vname, f, self.names, self.env)

    def __repr__(self):
        n = (self.path or self.kind).split("::")[-1]
        if self.vname:
            n = self.vname
        if self.names and len(self.names) == len(self.fields):
            return n + "{" + ", ".join("%s: %r" % x for x in zip(self.names, self.fields)) + "}"
        return n + "(" + ", ".join(repr(x) for x in self.fields) + ")"


class Ref:
    __slots__ = ("root", "steps", "lo", "hi", "mut")

    def __init__(self, root, steps=(), lo=None, hi=None, mut=False):
        self.root, self.steps, self.lo, self.hi, self.mut = root, tuple(steps), lo, hi, mut

    def k(self):
        return (self.root, self.steps, self.lo, self.hi)

    def __eq__(self, o):
        return isinstance(o, Ref) and self.k() == o.k()

    def __hash__(self):
        return hash(self.k())

    def __repr__(self):
        s = "&%s%s" % (self.root, "".join("." + str(x[1]) for x in self.steps))
        if self.lo is not None:
            s += "[%r..%r]" % (self.lo, self.hi)
        return s


class Seq:
    """Contents of a Vec / array / slice: segments, then point updates."""
    __slots__ = ("segs", "upd")

    def __init__(self, segs=(), upd=()):
        self.segs, self.upd = norm_segs(segs), tuple(upd)

    def __eq__(self, o):
        return isinstance(o, Seq) and self.segs == o.segs and self.upd == o.upd

    def __hash__(self):
        return hash((self.segs, self.upd))

    def len(self):
        n = ZERO
        for s in self.segs:
            n = n + seg_len(s)
        return n

    def __repr__(self):
        return "[" + " ++ ".join(repr_seg(s) for s in self.segs) + "]" + ("{%r}" % (self.upd,) if self.upd else "")


class BoolV:
    __slots__ = ("c", "lin")

    def __init__(self, c, lin=None):
        self.c, self.lin = c, lin

    def __eq__(self, o):
        return isinstance(o, BoolV) and self.c == o.c

    def __hash__(self):
        return hash(self.c)

    def __repr__(self):
        return "bool" + repr(self.c)


class SymV:
    __slots__ = ("term", "ty")

    def __init__(self, term, ty=None):
        self.term, self.ty = term, ty

    def __eq__(self, o):
        return isinstance(o, SymV) and self.term == o.term

    def __hash__(self):
        return hash(self.term)

    def __repr__(self):
        return "<%s>" % (show_term(self.term),)


class Top:
    __slots__ = ("reason",)

    def __init__(self, reason):
        self.reason = reason

    def __eq__(self, o):
        return isinstance(o, Top)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "?(%s)" % self.reason


class FnV:
    __slots__ = ("fn", "env")

    def __init__(self, fn, env=None):
        self.fn, self.env = fn, env or {}

    def __eq__(self, o):
        return isinstance(o, FnV) and self.fn.get("path") == o.fn.get("path")

    def __hash__(self):
        return hash(self.fn.get("path"))

    def __repr__(self):
        return "fn " + self.fn.get("path", "?")


UNIT = Agg("tuple", None)
TRUE, FALSE = BoolV(L.T, ONE), BoolV(L.F, ZERO)
OPT, RES, CF, POLL = ("core::option::Option", "core::result::Result",
                      "core::ops::control_flow::ControlFlow", "core::task::poll::Poll")


def some(v):
    return Agg("adt", OPT, 1, "Some", (v,))


NONE = Agg("adt", OPT, 0, "None")


def ok(v):
    return Agg("adt", RES, 0, "Ok", (v,))


def err(v):
    return Agg("adt", RES, 1, "Err", (v,))


def tup(*v):
    return Agg("tuple", None, 0, None, v)


def show_term(t):
    if isinstance(t, tuple):
        if t and t[0] == "call":
            return "%s(%s)" % (t[1].split("::")[-1], ", ".join(show_term(x) for x in t[2:]))
        return "(" + " ".join(show_term(x) for x in t) + ")"
    return str(t)


# ---------------------------------------------------------------- sequences
def seg_len(s):
    k = s[0]
    if k == "S":
        return s[3] - s[2]
    if k == "E":
        return ONE
    if k == "F":
        return s[2]
    if k == "L":
        return s[4] - s[3]
    if k == "X":
        return s[3]
    if k == "U":
        return s[2]
    raise ValueError(s)


def repr_seg(s):
    k = s[0]
    if k == "S":
        return "%s[%r..%r]" % (L.repr_arr(s[1]), s[2], s[3])
    if k == "E":
        return "{%r}" % (s[1],)
    if k == "F":
        return "{%r}*%r" % (s[1], s[2])
    if k == "L":
        return "{%r for %s in %r..%r}" % (s[2], L.repr_atom(s[1]), s[3], s[4])
    if k == "X":
        return "<%s %r>" % (s[1], s[2])
    return "<?%s>" % (s[1],)


def as_slice(s):
    """an L segment that just lists consecutive elements of a named array is an S segment"""
    b, x = s[2], s[1]
    if isinstance(b, Lin) and b.c == 0 and len(b.t) == 1:
        (a, k), = b.t.items()
        if k == 1 and isinstance(a, tuple) and a[0] == "sel":
            c = a[2] - Lin.atom(x)
            if x not in deep(c):
                return ("S", a[1], s[3] + c, s[4] + c)
    elif isinstance(b, BoolV) and b.lin is not None and b.lin.c == 0 and len(b.lin.t) == 2:
        pos = [a for a, k in b.lin.t.items() if k == 1]
        ng = [a for a, k in b.lin.t.items() if k == -1]
        if len(pos) == 1 and len(ng) == 1 and all(isinstance(a, tuple) and a[0] == "P" for a in pos + ng) \
                and pos[0][1] == ng[0][1] and pos[0][2] - ng[0][2] == ONE:
            c = ng[0][2] - Lin.atom(x)
            if x not in deep(c):
                return ("S", ng[0][1], s[3] + c, s[4] + c)
    return s


def norm_segs(segs):
    out = []
    for s in segs:
        if s[0] == "L":
            s = as_slice(s)
        if s[0] != "E":
            n = seg_len(s)
            if n.is_const() and n.c == 0:
                continue
        if out:
            p = out[-1]
            if s[0] == "S" and p[0] == "S" and p[1] == s[1] and p[3] == s[2]:
                out[-1] = ("S", s[1], p[2], s[3])
                continue
            if s[0] == "X" and s[1] == "part" and p[0] == "X" and p[1] == "part" and p[2][0] == s[2][0] and p[2][2] == s[2][1]:
                w, a, b = p[2][0], p[2][1], s[2][2]
                out[-1] = w if a == ZERO and b == seg_len(w) else ("X", "part", (w, a, b), b - a)
                continue
            if s[0] == "F" and p[0] == "F" and p[1] == s[1]:
                out[-1] = ("F", s[1], p[2] + s[2])
                continue
            if s[0] == "L" and p[0] == "L":
                # the same body at consecutive positions, after shifting the index
                d = s[3] - p[4]
                if subst_val(s[2], {s[1]: Lin.atom(p[1]) + d}) == p[2]:
                    out[-1] = ("L", p[1], p[2], p[3], s[4] - d)
                    continue
        out.append(s)
    return tuple(out)


def subst_val(v, m):
    if isinstance(v, Lin):
        return v.subst(m)
    if isinstance(v, BoolV):
        return BoolV(subst_cond(v.c, m), v.lin.subst(m) if v.lin is not None else None)
    if isinstance(v, Agg):
        return Agg(v.kind, v.path, v.variant, v.vname, [subst_val(x, m) for x in v.fields], v.names, v.env)
    if isinstance(v, SymV):
        return SymV(L.subst_any(v.term, m), v.ty)
    if isinstance(v, Seq):
        return Seq([subst_seg(s, m) for s in v.segs], [(i.subst(m), subst_val(x, m)) for i, x in v.upd])
    if isinstance(v, Ref):
        return Ref(L.subst_any(v.root, m), [(s[0], L.subst_any(s[1], m)) for s in v.steps],
                   v.lo.subst(m) if v.lo is not None else None, v.hi.subst(m) if v.hi is not None else None, v.mut)
    return v


def subst_seg(s, m):
    k = s[0]
    if k == "S":
        return ("S", s[1], s[2].subst(m), s[3].subst(m))
    if k == "E":
        return ("E", subst_val(s[1], m))
    if k == "F":
        return ("F", subst_val(s[1], m), s[2].subst(m))
    if k == "L":
        return ("L", s[1], subst_val(s[2], m), s[3].subst(m), s[4].subst(m))
    if k == "X":
        return ("X", s[1], subst_payload(s[2], m), s[3].subst(m))
    return ("U", s[1], s[2].subst(m))


def subst_payload(p, m):
    if isinstance(p, (Lin, Agg, SymV, Seq, BoolV, Ref)):
        return subst_val(p, m)
    if isinstance(p, tuple):
        return tuple(subst_payload(x, m) for x in p)
    return p


def subst_cond(c, m):
    if c[0] in ("le", "eq", "ne"):
        l = c[1].subst(m)
        if l.is_const():
            v = {"le": l.c <= 0, "eq": l.c == 0, "ne": l.c != 0}[c[0]]
            return L.T if v else L.F
        return (c[0], l)
    if c[0] in ("and", "or"):
        a, b = subst_cond(c[1], m), subst_cond(c[2], m)
        return conj(a, b) if c[0] == "and" else disj(a, b)
    return c


def val_atoms(v, acc):
    if isinstance(v, Lin):
        v.atoms(acc)
    elif isinstance(v, BoolV):
        cond_atoms(v.c, acc)
    elif isinstance(v, Agg):
        for x in v.fields:
            val_atoms(x, acc)
    elif isinstance(v, SymV):
        L._tup((v.term,) if not isinstance(v.term, tuple) else v.term, acc)
        acc.add(("term", v.term))
    elif isinstance(v, Seq):
        for s in v.segs:
            for x in s[1:]:
                if isinstance(x, (Lin, Agg, SymV, Seq, BoolV, Top, Ref)):
                    val_atoms(x, acc)
                elif isinstance(x, tuple):
                    L._tup(x, acc)
            if s[0] == "S":
                acc.add(("arr", s[1]))
            if s[0] == "U":
                acc.add(("top", s[1]))
        for i, x in v.upd:
            val_atoms(i, acc)
            val_atoms(x, acc)
    elif isinstance(v, Top):
        acc.add(("top", v.reason))
    elif isinstance(v, Ref):
        for x in (v.lo, v.hi):
            if x is not None:
                val_atoms(x, acc)
    return acc


def cond_atoms(c, acc):
    for x in c[1:]:
        if isinstance(x, Lin):
            x.atoms(acc)
        elif isinstance(x, tuple):
            cond_atoms(x, acc)
    return acc


_DEEP = {}


def deep(l):
    r = _DEEP.get(l)
    if r is None:
        r = _DEEP[l] = frozenset(l.atoms())
    return r


# pure library functions of known meaning: their result is something else than
# their argument, so a term with one of them is known, not merely unmodelled
KNOWN_CALLS = ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches",
               "trim_end_matches", "replace", "replacen", "repeat", "escape_debug", "escape_default", "as_u128", "to_u128_le", "swap_bytes", "reverse_bits",
               "to_simple", "to_hyphenated", "to_urn", "with_extension", "with_file_name", "file_name", "parent", "file_stem")


def has_call(t):
    """path of an unmodelled call inside a term"""
    if isinstance(t, tuple):
        if len(t) >= 2 and t[0] == "call" and isinstance(t[1], str) and t[1].split("::")[-1] not in KNOWN_CALLS:
            return t[1]
        for x in t:
            r = has_call(x)
            if r:
                return r
    elif isinstance(t, Lin):
        for a in t.t:
            r = has_call(a)
            if r:
                return r
    return None


# -------------------------------------------------------------- array table
class Arr:
    """A named base sequence of the initial state."""
    def __init__(self, length, kind="plain", elem=None, first=None, last=None, total=None):
        self.length, self.kind, self.elem = length, kind, elem
        self.first, self.last, self.total = first, last, total


class Arrays(dict):
    def __setitem__(self, name, a):
        dict.__setitem__(self, name, a)
        if a.kind == "mono" and a.last is not None and len(a.last.t) == 1:
            LASTS.setdefault(list(a.last.t)[0], set()).add(name)


LASTS = {}     # atom of a last element -> arrays
ARR = Arrays()
BOUND = {}


def mk_P(src, idx):
    if idx.is_const() and idx.c == 0:
        return ZERO
    a = ARR.get(src)
    if a is not None and a.total is not None and a.length == idx:
        return a.total
    return Lin.atom(("P", src, idx))


def mk_sel(src, idx):
    a = ARR.get(src)
    if a is not None and a.kind == "mono":
        if a.first is not None and idx.is_const() and idx.c == 0:
            return a.first
        if a.last is not None and idx == a.length - 1:
            return a.last
    return Lin.atom(("sel", src, idx))


def mk_div(x, c):
    if c == 1:
        return x
    q, r = {}, {}
    for a, k in x.t.items():
        if k % c == 0:
            q[a] = k // c
        else:
            r[a] = k
    if not r:
        return Lin(q, x.c // c)
    base, rem = divmod(x.c, c)
    inner = Lin(r, rem)
    # nested division by constants: (y/a)/b == y/(a*b)
    if len(inner.t) == 1 and inner.c == 0:
        (a, k), = inner.t.items()
        if k == 1 and isinstance(a, tuple) and a[0] == "div":
            return Lin(q, base) + mk_div(a[1], a[2] * c)
    return Lin(q, base) + Lin.atom(("div", inner, c))


def bit_runs(c):
    """maximal runs [i, j) of set bits"""
    r, i = [], 0
    while c >> i:
        if c >> i & 1:
            j = i
            while c >> j & 1:
                j += 1
            r.append((i, j))
            i = j
        else:
            i += 1
    return r


def mk_rem(x, c):
    return x - mk_div(x, c).scale(c)


L.REBUILD["P"] = lambda a: mk_P(a[1], a[2])
L.REBUILD["sel"] = lambda a: mk_sel(a[1], a[2])
L.REBUILD["div"] = lambda a: mk_div(a[1], a[2])


# ------------------------------------------------------------------- state
class State:
    __slots__ = ("mem", "cons", "tr", "flags", "pin")

    def __init__(self, mem=None, cons=(), tr=None, flags=frozenset(), pin=()):
        self.mem = mem if mem is not None else {}
        self.cons, self.tr, self.flags, self.pin = cons, tr, flags, pin

    def copy(self):
        return State(dict(self.mem), self.cons, self.tr, self.flags, self.pin)

    def note(self, s):
        self.tr = (s, self.tr)

    def flag(self, f):
        self.flags = self.flags | {f}

    def path(self, n=14):
        out, t = [], self.tr
        while t is not None and len(out) < n:
            if not out or out[-1] != t[0]:
                out.append(t[0])
            t = t[1]
        return out[::-1]


class Frame:
    __slots__ = ("body", "fid", "env", "depth", "name")

    def __init__(self, body, fid, env, depth):
        self.body, self.fid, self.env, self.depth = body, fid, env, depth
        self.name = body["path"]


class Obl:
    __slots__ = ("prop", "rule", "where", "ok", "msg", "path", "taint", "span")

    def __init__(self, prop, rule, where, ok_, msg, path, taint, span):
        self.prop, self.rule, self.where, self.ok = prop, rule, where, ok_
        self.msg, self.path, self.taint, self.span = msg, path, taint, span


class Call:
    """Context handed to transfer functions."""
    __slots__ = ("fn", "env", "span", "frame", "dest_ty", "path", "arg_tys")

    def __init__(self, fn, env, span, frame, dest_ty):
        self.fn, self.env, self.span, self.frame, self.dest_ty = fn, env, span, frame, dest_ty
        self.path = fn.get("res") or fn.get("path")


class Engine:
    def __init__(self, prog, contracts=None, abstract=None, budget=400000):
        self.prog = prog
        self.contracts = contracts or {}
        self.abstract = abstract or {}
        self.obls = []
        self.quiet = 0
        self.budget = budget
        self.steps = 0
        self.fids = itertools.count(1)
        self.droots = {}
        self.memo = {}
        self.unmodelled = {}
        self.analysed = set()
        self.loops = 0
        self.exact = False     # loops that do not end within the limit are cut off there (and self.dropped set)
        self.dropped = False
        self.cap = 4000        # paths followed at once when unrolling
        self.unroll = 0        # loops proved to end within this many iterations are not summarised
        self.calls_seen = 0
        self.cur = []          # stack of (function, span)
        self.hooks = {}        # event name -> callable
        self.tasks = []        # states in which a blocking task panicked, per task being run
        self.idx_memo = {}
        self.ax_memo = {}
        self.hids = {}
        import models
        self.models = models
        self.seen_calls = set()

    # ------------------------------------------------------------- numeric
    def _index(self, cons):
        """atom -> positions of the constraints it occurs in"""
        r = self.idx_memo.get(cons)
        if r is None:
            r = {}
            for i, (l, _e) in enumerate(cons):
                for a in deep(l):
                    r.setdefault(a, []).append(i)
            if len(self.idx_memo) > 4000:
                self.idx_memo.clear()
            self.idx_memo[cons] = r
        return r

    def _closure(self, st, lits):
        """Constraints of st connected with lits plus atom axioms."""
        base = st.cons
        idx = self._index(base)
        used = set()
        cons = []
        atoms = set()
        work = []
        for l, _ in lits:
            for a in l.t:
                if a not in atoms:
                    atoms.add(a)
                    work.append(a)
        while work:
            a = work.pop()
            ax = self.ax_memo.get(a)
            if ax is None:
                ax = self.ax_memo[a] = self.axioms(a)
            for c in ax:
                cons.append(c)
                for b in c[0].t:
                    if b not in atoms:
                        atoms.add(b)
                        work.append(b)
            for i in idx.get(a, ()):
                if i not in used:
                    used.add(i)
                    c = base[i]
                    cons.append(c)
                    for b in c[0].t:
                        if b not in atoms:
                            atoms.add(b)
                            work.append(b)
            for src in LASTS.get(a, ()):
                for b in ARR[src].length.t:
                    if b not in atoms:
                        atoms.add(b)
                        work.append(b)
            # indices of array atoms matter too
            if isinstance(a, tuple) and a[0] in ("P", "sel"):
                for b in a[2].t:
                    if b not in atoms:
                        atoms.add(b)
                        work.append(b)
        return cons, atoms

    def axioms(self, a):
        r = []
        if a in BOUND:
            lo, hi = BOUND[a]
            if lo is not None:
                r.append((Lin.const(lo) - Lin.atom(a), False))
            if hi is not None:
                r.append((Lin.atom(a) - hi, False))
        if isinstance(a, tuple):
            x = Lin.atom(a)
            if a[0] == "div":
                r.append((x.scale(a[2]) - a[1], False))
                r.append((a[1] - x.scale(a[2]) - (a[2] - 1), False))
            elif a[0] == "P":
                r.append((-x, False))
                r.append((x - a[2], False))
            elif a[0] == "sel":
                info = ARR.get(a[1])
                if info is not None:
                    if info.kind == "mono":
                        r.append((-x, False))
                        if info.last is not None:
                            r.append((x - info.last, False))
                    elif info.elem and info.elem[0] == "int":
                        lo, hi = INT_RANGE[info.elem[1]]
                        r.append((Lin.const(lo) - x, False))
                        r.append((x - hi, False))
            elif a[0] in ("len", "mul"):
                r.append((-x, False))
        return r

    def _groups(self, atoms):
        """(kind, [(index, value)]) of the arrays the atoms mention"""
        groups = {}
        for a in atoms:
            if isinstance(a, tuple) and a[0] in ("P", "sel"):
                info = ARR.get(a[1])
                if a[0] == "sel" and (info is None or info.kind != "mono"):
                    groups.setdefault(("plain", a[1]), []).append((a[2], Lin.atom(a)))
                    continue
                groups.setdefault((a[0], a[1]), []).append((a[2], Lin.atom(a)))
        for a in atoms:
            for src in LASTS.get(a, ()):
                groups.setdefault(("sel", src), [])
        out = []
        for (k, src), lst in groups.items():
            info = ARR.get(src)
            if info is not None and k == "P":
                lst.append((ZERO, ZERO))
                if info.total is not None:
                    lst.append((info.length, info.total))
            elif info is not None and k == "sel":
                if info.first is not None:
                    lst.append((ZERO, info.first))
                if info.last is not None:
                    lst.append((info.length - 1, info.last))
            lst = list(dict.fromkeys(lst))
            if len(lst) > 1:
                out.append(({"plain": 0, "sel": 1, "P": 2}[k], lst))
        return out

    def _pairs(self, st, cons, atoms):
        groups = {}
        for a in atoms:
            if isinstance(a, tuple) and a[0] in ("P", "sel"):
                info = ARR.get(a[1])
                if a[0] == "sel" and (info is None or info.kind != "mono"):
                    groups.setdefault(("plain", a[1]), []).append((a[2], Lin.atom(a)))
                    continue
                groups.setdefault((a[0], a[1]), []).append((a[2], Lin.atom(a)))
        for a in atoms:
            for src in LASTS.get(a, ()):
                groups.setdefault(("sel", src), [])
        extra = []
        todo, queries, where = [], [], {}

        def ask(d):
            """index of the query: is d <= 0 implied?"""
            if d.is_const():
                return d.c <= 0
            q = ((-d) + 1, False)
            i = where.get(q)
            if i is None:
                i = where[q] = ("q", len(queries))
                queries.append(q)
            return i
        for (k, src), lst in groups.items():
            info = ARR.get(src)
            if info is not None and k != "plain":
                if k == "P":
                    lst.append((ZERO, ZERO))
                    if info.total is not None:
                        lst.append((info.length, info.total))
                else:
                    if info.first is not None:
                        lst.append((ZERO, info.first))
                    if info.last is not None:
                        lst.append((info.length - 1, info.last))
            lst = list(dict.fromkeys(lst))
            lst.sort(key=lambda x: (repr(x[0]), repr(x[1])))
            n = len(lst)
            m = {(i, j): ask(lst[i][0] - lst[j][0]) for i in range(n) for j in range(n) if i != j}
            todo.append((k, lst, m))
        res = L.infeasible_each(cons, queries) if queries else []
        for k, lst, m in todo:
            n = len(lst)
            le_ = {ij: (res[v[1]] if isinstance(v, tuple) else v) for ij, v in m.items()}
            for i in range(n):
                for j in range(n):
                    if i == j or not le_[i, j]:
                        continue
                    (ia, va), (ib, vb) = lst[i], lst[j]
                    if le_[j, i]:
                        if i < j:
                            extra.append((va - vb, True))
                        continue
                    if k == "plain":
                        continue
                    # adjacent in the order only: the rest follows
                    if any(h != i and h != j and le_[i, h] and le_[h, j] and not le_[h, i] and not le_[j, h] for h in range(n)):
                        continue
                    extra.append((va - vb, False))
                    if k == "P":
                        extra.append((vb - va - ib + ia, False))
        return extra

    def infeasible(self, st, lits):
        key = (st.cons, tuple(lits))
        r = self.memo.get(key)
        if r is not None:
            return r
        cons, atoms = self._closure(st, lits)
        gs = self._groups(atoms)
        if gs:
            r = L.infeasible_arrays(cons + list(lits), gs)
            if r is not None:
                self.memo[key] = r
                return r
        r = L.infeasible(cons + list(lits))
        if not r and gs:
            st2 = State({}, st.cons + tuple(lits))
            cons2, atoms2 = cons + list(lits), atoms
            extra = self._pairs(st2, cons2, atoms2)
            if extra:
                r = L.infeasible(cons2 + extra)
        self.memo[key] = r
        return r

    def entails(self, st, c):
        if c == L.T:
            return True
        for lits in L.dnf(neg(c)):
            if not self.infeasible(st, lits):
                return False
        return True

    def ent_eq(self, st, a, b):
        d = a - b
        if d.is_const():
            return d.c == 0
        return self.entails(st, ("eq", d))

    def ent_le(self, st, a, b):
        return self.entails(st, le(a, b))

    def assume(self, st, c):
        """States refining st with c (several if c is disjunctive)."""
        if c == L.T:
            return [st]
        if c == L.F:
            return []
        out = []
        alts = L.dnf(c)
        for lits in alts:
            lits = [x for x in lits if x not in st.cons]
            if not lits:
                out.append(st if len(alts) == 1 else st.copy())
                continue
            if self.infeasible(st, lits):
                continue
            s2 = st.copy()
            s2.cons = st.cons + tuple(lits)
            out.append(s2)
        return out

    def fresh_int(self, name, lo=0, hi=None):
        a = fresh(name)
        BOUND[a] = (lo, hi)
        return Lin.atom(a)

    # ------------------------------------------------------------ symbolic
    def mk_sym(self, term, ty):
        if ty is None:
            return SymV(term, ty)
        k = ty[0]
        if k == "int":
            a = ("v", term)
            lo, hi = INT_RANGE[ty[1]]
            BOUND.setdefault(a, (lo, hi))
            return Lin.atom(a)
        if k == "bool":
            a = ("v", term)
            BOUND.setdefault(a, (0, 1))
            x = Lin.atom(a)
            return BoolV(eq(x, ONE), x)
        if k == "ref" or k == "ptr":
            root = ("d", term)
            self.droots[root] = ty[1]
            if ty[1] and ty[1][0] in ("slice", "str"):
                pass
            return Ref(root, (), None, None, ty[2])
        if k == "tuple":
            return Agg("tuple", None, 0, None, [self.mk_sym(("fld", term, i), t) for i, t in enumerate(ty[1])])
        if k in ("slice", "array", "str") or (k == "adt" and ty[1] == "alloc::vec::Vec"):
            elem = ty[1] if k in ("slice", "array") else (ty[2][0] if k == "adt" else ("int", "u8"))
            if k == "array" and ty[2] is not None:
                n = Lin.const(ty[2])
            else:
                n = Lin.atom(("len", term))
            if term not in ARR:
                ARR[term] = Arr(n, "plain", elem)
            return Seq([("S", term, ZERO, n)])
        if k == "adt" and ty[1] in self.abstract:
            return self.abstract[ty[1]](self, term, ty)
        if k == "adt" and ty[1] == "alloc::boxed::Box":
            root = ("d", term)
            self.droots[root] = ty[2][0]
            return Ref(root, (), None, None, True)
        return SymV(term, ty)

    def variant_fields(self, ty, vi):
        """[(name, type)] of variant vi of adt type ty."""
        path, args = ty[1], ty[2]
        if path == OPT:
            return [] if vi == 0 else [("0", args[0])]
        if path == RES:
            return [("0", args[vi])]
        if path == CF:
            return [("0", args[1] if vi == 0 else args[0])]
        if path == POLL:
            return [("0", args[0])] if vi == 0 else []
        a = self.prog.adts.get(path)
        if a is None or vi >= len(a["variants"]):
            return None
        env = dict(zip(a["generics"], args))
        out = []
        for n, t, _v in a["variants"][vi]["fields"]:
            out.append((n, self.prog.rty(t, env) if t is not None else None))
        return out

    def expand(self, v):
        """Expand a SymV of struct type one level; None if not expandable."""
        ty = v.ty
        if ty is None or ty[0] != "adt":
            if ty is not None and ty[0] in ("closure", "coroutine"):
                return Agg(ty[0], ty[1], 0, None, [self.mk_sym(("fld", v.term, i), t) for i, t in enumerate(ty[2])])
            return None
        a = self.prog.adts.get(ty[1])
        if a is None or a["kind"] != "struct":
            return None
        fs = self.variant_fields(ty, 0)
        if fs is None:
            return None
        return Agg("adt", ty[1], 0, None, [self.mk_sym(("fld", v.term, n), t) for n, t in fs], [n for n, _ in fs])

    def nvariants(self, ty):
        if ty is None or ty[0] != "adt":
            return None
        if ty[1] in (OPT, RES, CF, POLL):
            return [(0, 0), (1, 1)]
        a = self.prog.adts.get(ty[1])
        if a is None or a["kind"] != "enum":
            return None
        return [(i, v["discr"]) for i, v in enumerate(a["variants"])]

    def vname(self, ty, vi):
        p = ty[1]
        if p in self.prog.adts and vi < len(self.prog.adts[p]["variants"]):
            return self.prog.adts[p]["variants"][vi]["name"]
        return {OPT: ["None", "Some"], RES: ["Ok", "Err"], CF: ["Continue", "Break"], POLL: ["Ready", "Pending"]}.get(p, ["?"] * 99)[vi]

    # -------------------------------------------------------------- memory
    def root_get(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root in self.droots:
                term = root[1]
                v = self.mk_sym(("*", term), self.droots[root])
                st.mem[root] = v
            else:
                v = Top("uninit")
        return v

    def read(self, st, root, steps):
        v = self.root_get(st, root)
        for s in steps:
            v = self.step_val(st, v, s)
        return v

    def step_val(self, st, v, s):
        if s[0] == "f":
            i = s[1]
            if isinstance(v, SymV):
                e = self.expand(v)
                if e is not None:
                    v = e
                else:
                    return SymV(("fld", v.term, i), None)
            if isinstance(v, Agg):
                if v.kind == "adt" and v.path in self.abstract and not (len(s) > 2):
                    return Top("abstract-field:" + v.path)
                if i < len(v.fields):
                    return v.fields[i]
                return Top("uninit")
            if isinstance(v, Top):
                return v
            return Top("field")
        if s[0] == "i":
            if isinstance(v, Seq):
                return self.elem(st, v, s[1])
            if isinstance(v, SymV):
                return SymV(("idx", v.term, s[1]), None)
            return v if isinstance(v, Top) else Top("index")
        return Top("step")

    def write(self, st, root, steps, val):
        if not steps:
            st.mem[root] = val
            return
        st.mem[root] = self._wr(st, self.root_get(st, root), list(steps), val)

    def _wr(self, st, v, steps, val):
        s = steps[0]
        if s[0] == "f":
            if isinstance(v, SymV):
                e = self.expand(v)
                if e is None:
                    return Top("write into opaque")
                v = e
            if isinstance(v, Top):
                v = Agg("adt", "?", 0, None, ())
            if not isinstance(v, Agg):
                return Top("write")
            if v.kind == "adt" and v.path in self.abstract and len(s) <= 2:
                return Top("abstract-field:" + v.path)
            cur = v.fields[s[1]] if s[1] < len(v.fields) else Top("uninit")
            return v.with_field(s[1], val if len(steps) == 1 else self._wr(st, cur, steps[1:], val))
        if s[0] == "i":
            if isinstance(v, Seq):
                cur = self.elem(st, v, s[1])
                nv = val if len(steps) == 1 else self._wr(st, cur, steps[1:], val)
                return self.seq_store(st, v, s[1], nv)
            return Top("index write")
        return Top("write")

    def seq_store(self, st, q, idx, val):
        # exact segment replacement when the position is an element
        if not q.upd and idx.is_const() and all(s[0] == "E" for s in q.segs) and idx.c < len(q.segs):
            segs = list(q.segs)
            segs[idx.c] = ("E", val)
            return Seq(segs)
        if not q.upd and len(q.segs) == 1 and q.segs[0][0] == "F" and idx.is_const() and q.segs[0][2].is_const() \
                and q.segs[0][2].c <= 64 and idx.c < q.segs[0][2].c:
            segs = [("E", q.segs[0][1])] * q.segs[0][2].c
            segs[idx.c] = ("E", val)
            return Seq(segs)
        return Seq(q.segs, q.upd + ((idx, val),))

    def elem_of(self, src, idx):
        a = ARR.get(src)
        if isinstance(src, tuple) and src[0] == "const":
            if idx.is_const() and 0 <= idx.c < len(src[1]):
                return Lin.const(src[1][idx.c])
            x = ("sel", src, idx)
            BOUND.setdefault(x, (min(src[1] or (0,)), max(src[1] or (0,))))
            return Lin.atom(x)
        if a is None:
            return SymV(("sel", src, idx), None)
        if a.kind == "bits":
            x = mk_P(src, idx + 1) - mk_P(src, idx)
            return BoolV(eq(x, ONE), x)
        if a.elem and a.elem[0] == "int":
            return mk_sel(src, idx)
        return self.mk_sym(("sel", src, idx), a.elem)

    def elem(self, st, q, idx):
        for i, v in reversed(q.upd):
            if self.ent_eq(st, i, idx):
                return v
            if not self.entails(st, ne(i, idx)):
                return Top("aliasing store")
        o = ZERO
        for s in q.segs:
            n = seg_len(s)
            if len(q.segs) == 1 or self.ent_le(st, idx + 1, o + n):
                if not self.ent_le(st, o, idx) and len(q.segs) > 1:
                    return Top("index position")
                off = idx - o
                if s[0] == "S":
                    return self.elem_of(s[1], s[2] + off)
                if s[0] in ("E", "F"):
                    return s[1]
                if s[0] == "L":
                    return subst_val(s[2], {s[1]: s[3] + off})
                if s[0] == "X":
                    return SymV(("byte", s[1], s[2], off), ("int", "u8"))
                return Top(s[1])
            if not self.ent_le(st, o + n, idx):
                return Top("index position")
            o = o + n
        return Top("index out of range")

    def cut(self, st, segs, pos):
        """Split segs at pos; None if undetermined."""
        o = ZERO
        left = []
        segs = list(segs)
        for k, s in enumerate(segs):
            if pos == o or self.ent_eq(st, pos, o):
                return left, segs[k:]
            n = seg_len(s)
            if self.ent_le(st, o + n, pos):
                left.append(s)
                o = o + n
                continue
            if self.ent_le(st, o, pos) and self.ent_le(st, pos, o + n):
                d = pos - o
                if s[0] == "S":
                    m = s[2] + d
                    return left + [("S", s[1], s[2], m)], [("S", s[1], m, s[3])] + segs[k + 1:]
                if s[0] == "F":
                    return left + [("F", s[1], d)], [("F", s[1], n - d)] + segs[k + 1:]
                if s[0] == "L":
                    m = s[3] + d
                    return left + [("L", s[1], s[2], s[3], m)], [("L", s[1], s[2], m, s[4])] + segs[k + 1:]
                if s[0] == "X":
                    if s[1] == "part":
                        w, a, b = s[2]
                        return left + [("X", "part", (w, a, a + d), d)], [("X", "part", (w, a + d, b), n - d)] + segs[k + 1:]
                    return left + [("X", "part", (s, ZERO, d), d)], [("X", "part", (s, d, n), n - d)] + segs[k + 1:]
            return None
        if pos == o or self.ent_eq(st, pos, o):
            return left, []
        return None

    def sub(self, st, q, lo, hi):
        """segments of q[lo..hi]"""
        if q.upd:
            out = []
            n = hi - lo
            if n.is_const() and 0 <= n.c <= 64:
                return [("E", self.elem(st, q, lo + i)) for i in range(n.c)]
            # updates provably outside of the range do not matter, the others replace an element
            segs, size = list(q.segs), q.len()
            for i, v in q.upd:
                if self.ent_le(st, i + 1, lo) or self.ent_le(st, hi, i):
                    continue
                a = self.cut(st, segs, i) if self.ent_le(st, ZERO, i) and self.ent_le(st, i + 1, size) else None
                b = self.cut(st, a[1], ONE) if a is not None else None
                if b is None:
                    return [("U", "updated", n)]
                segs = a[0] + [("E", v)] + b[1]
            q = Seq(segs)
        if lo == ZERO and hi == q.len():
            return list(q.segs)
        r = self.cut(st, q.segs, lo)
        if r is None:
            return [("U", "slice", hi - lo)]
        r = self.cut(st, r[1], hi - lo)
        if r is None:
            return [("U", "slice", hi - lo)]
        return r[0]

    def slice_segs(self, st, ref):
        """Segments denoted by a reference to a slice / Vec / array."""
        v = self.read(st, ref.root, ref.steps)
        if isinstance(v, Ref):
            return self.slice_segs(st, v)
        if isinstance(v, Seq):
            if ref.lo is None:
                if v.upd:
                    return self.sub(st, v, ZERO, v.len())
                return list(v.segs)
            return self.sub(st, v, ref.lo, ref.hi)
        if isinstance(v, SymV):
            n = Lin.atom(("len", v.term))
            if ref.lo is None:
                return [("X", "opaque", v.term, n)]
            return [("X", "opaque", (v.term, ref.lo, ref.hi), ref.hi - ref.lo)]
        return [("U", getattr(v, "reason", "slice"), self.fresh_int("n"))]

    def slice_len(self, st, ref):
        if ref.lo is not None:
            return ref.hi - ref.lo
        v = self.read(st, ref.root, ref.steps)
        if isinstance(v, Seq):
            return v.len()
        if isinstance(v, Ref):
            return self.slice_len(st, v)
        if isinstance(v, SymV):
            return Lin.atom(("len", v.term))
        return self.fresh_int("len")

    # sequence equality under the constraints of st
    def val_eq(self, st, a, b):
        if a == b and not isinstance(a, Top):
            return True
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            la, lb = self.bool_lin(st, a), self.bool_lin(st, b)
            return la is not None and lb is not None and self.ent_eq(st, la, lb)
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.ent_eq(st, a, b)
        if isinstance(a, SymV) and isinstance(b, Agg):
            a, b = b, a
        if isinstance(a, Agg) and isinstance(b, SymV) and b.ty and b.ty[0] == "adt" and a.path == b.ty[1] and (b.term, a.variant) in st.pin:
            # the variant this path has chosen, its fields spelled out
            b = Agg("adt", a.path, a.variant, a.vname, [self.mk_sym(("vf", b.term, a.variant, n), t) for n, t in self.variant_fields(b.ty, a.variant) or []], a.names)
        if isinstance(a, Agg) and isinstance(b, Agg):
            return a.kind == b.kind and a.path == b.path and a.variant == b.variant and len(a.fields) == len(b.fields) \
                and all(self.val_eq(st, x, y) for x, y in zip(a.fields, b.fields))
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.seq_eq(st, a.segs, b.segs) and not a.upd and not b.upd
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.root == b.root and a.steps == b.steps and (a.lo is None) == (b.lo is None) and \
                (a.lo is None or (self.ent_eq(st, a.lo, b.lo) and self.ent_eq(st, a.hi, b.hi)))
        return False

    def bool_lin(self, st, b):
        if b.lin is not None:
            return b.lin
        if b.c == L.T or self.entails(st, b.c):
            return ONE
        if b.c == L.F or self.entails(st, neg(b.c)):
            return ZERO
        return None

    def seq_eq(self, st, xs, ys):
        xs = [s for s in norm_segs(xs) if not self.ent_eq(st, seg_len(s), ZERO)]
        ys = [s for s in norm_segs(ys) if not self.ent_eq(st, seg_len(s), ZERO)]
        guard = 0
        while xs and ys:
            guard += 1
            if guard > 200:
                return False
            a, b = xs[0], ys[0]
            if a[0] == "U" or b[0] == "U":
                return False
            if a == b:
                xs.pop(0)
                ys.pop(0)
                continue
            na, nb = seg_len(a), seg_len(b)
            if self.ent_eq(st, na, nb):
                if not self.seg_same(st, a, b):
                    return False
                xs.pop(0)
                ys.pop(0)
                continue
            if self.ent_le(st, na, nb):
                r = self.cut(st, [b], na)
                if r is None:
                    return False
                ys[0:1] = list(r[0]) + list(r[1])
                if self.seg_same(st, a, ys[0]):
                    xs.pop(0)
                    ys.pop(0)
                    continue
                return False
            if self.ent_le(st, nb, na):
                r = self.cut(st, [a], nb)
                if r is None:
                    return False
                xs[0:1] = list(r[0]) + list(r[1])
                if self.seg_same(st, xs[0], b):
                    xs.pop(0)
                    ys.pop(0)
                    continue
                return False
            return False
        return not xs and not ys

    def wholes(self, st, segs):
        """segs with pieces that add up to a whole joined again"""
        out = []
        for s in norm_segs(x for x in segs if not self.ent_eq(st, seg_len(x), ZERO)):
            if s[0] == "X" and s[1] == "part" and self.ent_eq(st, s[2][1], ZERO) and self.ent_eq(st, s[2][2], seg_len(s[2][0])):
                s = s[2][0]
            out.append(s)
        return out

    def seg_elem(self, s, off):
        if s[0] == "S":
            return self.elem_of(s[1], s[2] + off)
        if s[0] in ("E", "F"):
            return s[1]
        if s[0] == "L":
            return subst_val(s[2], {s[1]: s[3] + off})
        return None

    def seg_same(self, st, a, b):
        """same contents, lengths already known equal"""
        if a[0] == "S" and b[0] == "S" and a[1] == b[1]:
            return self.ent_eq(st, a[2], b[2])
        if a[0] == "X" and b[0] == "X":
            return a[1] == b[1] and self.payload_eq(st, a[2], b[2])
        if a[0] == "X" or b[0] == "X":
            return False
        n = seg_len(a)
        if n.is_const() and n.c <= 16:
            return all(self.val_eq(st, self.seg_elem(a, Lin.const(i)), self.seg_elem(b, Lin.const(i))) for i in range(n.c))
        # generic position
        p = self.fresh_int("pos")
        s2 = st.copy()
        s2.cons = st.cons + ((-p, False), (p + 1 - n, False))
        return self.val_eq(s2, self.seg_elem(a, p), self.seg_elem(b, p))

    def payload_eq(self, st, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return all(self.payload_eq(st, x, y) for x, y in zip(a, b))
        if isinstance(a, (Lin, Agg, Seq, BoolV, SymV, Ref)):
            return self.val_eq(st, a, b)
        return a == b

    # ------------------------------------------------------------ obligations
    def where(self):
        for f, s in reversed(self.cur):
            return f, s
        return "?", "?"

    def oblige(self, st, prop, rule, cond, msg, vals=(), where=None):
        """cond: bool or condition."""
        if self.quiet:
            return
        if isinstance(cond, tuple):
            atoms = cond_atoms(cond, set())
            res = self.entails(st, cond)
        else:
            atoms = set()
            res = bool(cond)
        taint = None
        if not res:
            for v in vals:
                val_atoms(v, atoms)
            taint = self.taint(st, atoms)
        f, s = where or self.where()
        self.obls.append(Obl(prop, rule, f, res, msg if not callable(msg) else (msg() if not res else ""),
                             st.path() if not res else [], taint, s))

    def taint(self, st, atoms):
        for a in atoms:
            if isinstance(a, tuple):
                if a[0] == "top" and a[1] not in ("widen",):
                    return str(a[1])
                c = has_call(a)
                if c:
                    return "result of " + c
        for f in st.flags:
            if f.startswith("unmodelled"):
                return f
        return None

    # ------------------------------------------------------------ evaluation
    def place_addr(self, fr, st, p):
        """(root, steps, lo, hi) of a MIR place; lo/hi set for slices."""
        root, steps, lo, hi = ("l", fr.fid, p[0]), (), None, None
        for e in p[1]:
            k = e[0]
            if k == "*":
                v = self.read(st, root, steps)
                if isinstance(v, Ref):
                    root, steps, lo, hi = v.root, v.steps, v.lo, v.hi
                elif isinstance(v, SymV):
                    r = ("d", v.term)
                    if r not in self.droots:
                        self.droots[r] = v.ty[1] if v.ty and v.ty[0] in ("ref", "ptr") else None
                    root, steps, lo, hi = r, (), None, None
                else:
                    r = ("top", next(self.fids))
                    st.mem[r] = v if isinstance(v, Top) else Top("deref")
                    root, steps, lo, hi = r, (), None, None
            elif k == "f":
                steps = steps + (("f", e[1]),)
                lo = hi = None
            elif k == "d":
                pass
            elif k == "i":
                idx = self.as_lin(st, self.read(st, ("l", fr.fid, e[1]), ()))
                steps = steps + (("i", (lo + idx) if lo is not None else idx),)
                lo = hi = None
            elif k == "ci":
                off, frm = e[1], e[3]
                r = Ref(root, steps, lo, hi)
                base = lo if lo is not None else ZERO
                if frm:
                    idx = base + self.slice_len(st, r) - off
                else:
                    idx = base + off
                steps = steps + (("i", idx),)
                lo = hi = None
            elif k == "ss":
                r = Ref(root, steps, lo, hi)
                base = lo if lo is not None else ZERO
                n = self.slice_len(st, r)
                lo2 = base + e[1]
                hi2 = base + n - e[2] if e[3] else base + e[2]
                lo, hi = lo2, hi2
            else:
                st.flag("unmodelled:projection")
        return root, steps, lo, hi

    def as_lin(self, st, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, BoolV):
            b = self.bool_lin(st, v)
            if b is not None:
                return b
            return self.fresh_int("bool", 0, 1)
        if isinstance(v, SymV):
            a = ("v", v.term)
            BOUND.setdefault(a, (0, None))
            return Lin.atom(a)
        a = ("top", getattr(v, "reason", "?"), next(self.fids))
        BOUND[a] = (None, None)
        return Lin.atom(a)

    def as_cond(self, st, v):
        if isinstance(v, BoolV):
            return v.c
        if isinstance(v, Lin):
            return ne(v, ZERO)
        x = self.as_lin(st, v)
        BOUND[list(x.t)[0]] = (0, 1)
        return eq(x, ONE)

    def operand_ty(self, fr, o):
        if o[0] in "cm":
            b = fr.body
            t = self.prog.rty(b["locals"][o[1][0]][0], fr.env)
            for e in o[1][1]:
                if e[0] == "*" and t and t[0] in ("ref", "ptr"):
                    t = t[1]
                elif e[0] == "f":
                    t = self.prog.rty(e[3], fr.env)
                elif e[0] in ("i", "ci") and t and t[0] in ("array", "slice"):
                    t = t[1]
                elif e[0] == "d":
                    pass
                else:
                    return None
            return t
        if o[0] == "k":
            return self.prog.rty(o[1]["ty"], fr.env)
        return None

    def operand(self, fr, st, o):
        if o[0] in "cm":
            root, steps, lo, hi = self.place_addr(fr, st, o[1])
            v = self.read(st, root, steps)
            return v
        if o[0] == "k":
            return self.konst(fr, st, o[1])
        return Top("operand")

    def konst(self, fr, st, k):
        ty = self.prog.rty(k["ty"], fr.env)
        if "fn" in k:
            return FnV(k["fn"], fr.env)
        if "int" in k:
            if ty[0] == "bool":
                return TRUE if k["int"] else FALSE
            if ty[0] == "adt":
                # fieldless enum constant
                nv = self.nvariants(ty)
                if nv:
                    for vi, d in nv:
                        if d == k["int"]:
                            return Agg("adt", ty[1], vi, self.vname(ty, vi))
                return SymV(("const", ty[1], k["int"]), ty)
            return Lin.const(k["int"])
        if "str" in k:
            b = tuple(k["str"].encode())
            return self.const_ref(st, b)
        if "ptr_bytes" in k:
            return self.const_ref(st, tuple(k["ptr_bytes"]), ty)
        if "mem" in k:
            b = tuple(k["mem"])
            if ty[0] == "array" and ty[1] == ("int", "u8"):
                return Seq([("S", ("const", b), ZERO, Lin.const(len(b)))])
            if ty[0] == "array" and ty[1][0] == "int":
                w = WIDTH[ty[1][1]] // 8
                vals = tuple(int.from_bytes(bytes(b[i:i + w]), "little", signed=ty[1][1].startswith("i")) for i in range(0, len(b), w))
                return Seq([("S", ("const", vals), ZERO, Lin.const(len(vals)))])
            return SymV(("const", str(ty), b), ty)
        if ty[0] == "tuple" and not ty[1]:
            return UNIT
        if "zst" in k and ty[0] == "adt":
            return Agg("adt", ty[1], 0)
        if k.get("generic") and "named" in k:
            r = self.models.generic_const(self, st, k, fr, ty)
            if r is not None:
                return r
        return self.mk_sym(("const", k.get("named") or k.get("static") or k.get("fnptr") or str(ty)), ty if ty[0] != "ref" else ty)

    def const_ref(self, st, b, ty=None):
        root = ("const", b)
        w = 1
        if ty is not None and ty[0] == "ref" and ty[1][0] == "array" and ty[1][1][0] == "int":
            w = WIDTH[ty[1][1][1]] // 8
        if w > 1:
            vals = tuple(int.from_bytes(bytes(b[i:i + w]), "little") for i in range(0, len(b), w))
            root = ("constw", w, b)
            if root not in st.mem:
                st.mem[root] = Seq([("S", ("const", vals), ZERO, Lin.const(len(vals)))])
            return Ref(root)
        if ty is not None and ty[0] == "ref" and ty[1][0] == "int":
            root = ("consti", b)
            st.mem.setdefault(root, Lin.const(int.from_bytes(bytes(b), "little", signed=ty[1][1].startswith("i"))))
            return Ref(root)
        if ty is not None and ty[0] == "ref" and ty[1][0] not in ("array", "slice", "str"):
            root = ("constx", b, str(ty[1]))
            st.mem.setdefault(root, SymV(("const", str(ty[1]), b), ty[1]))
            return Ref(root)
        if root not in st.mem:
            st.mem[root] = Seq([("S", ("const", b), ZERO, Lin.const(len(b)))])
        return Ref(root)

    # binary operations on integers
    def binop(self, fr, st, op, a, b, ta, span):
        """-> list[(state, value)]"""
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        over = op.endswith("WithOverflow")
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return [(st, self.compare(st, op, a, b))]
        if isinstance(a, BoolV) or isinstance(b, BoolV):
            if isinstance(a, BoolV) and isinstance(b, BoolV):
                if base == "BitAnd":
                    return [(st, BoolV(conj(a.c, b.c)))]
                if base == "BitOr":
                    return [(st, BoolV(disj(a.c, b.c)))]
                if base == "BitXor":
                    c = disj(conj(a.c, neg(b.c)), conj(neg(a.c), b.c))
                    return [(st, BoolV(c))]
        if ta is not None and ta[0] == "float":
            return [(st, SymV(("float", op, self.term(st, a), self.term(st, b)), ta))]
        if base == "BitOr" and isinstance(a, SymV) and a.term and a.term[0] == "bitor":
            pass
        x, y = self.as_lin(st, a), self.as_lin(st, b)
        ty = ta[1] if ta is not None and ta[0] == "int" else "usize"
        h = self.hooks.get("arith")
        if h:
            h(self, st, fr, op, ty, x, y, span)
        unsigned = ty.startswith("u")
        if base == "Add":
            r = x + y
            return [(st, tup(r, FALSE) if over else r)]
        if base == "Sub":
            r = x - y
            if over:
                return [(st, tup(r, BoolV(lt(x, y)) if unsigned else FALSE))]
            return [(st, r)]
        if base == "Mul":
            if x.is_const():
                r = y.scale(x.c)
            elif y.is_const():
                r = x.scale(y.c)
            else:
                h = self.hooks.get("mul")
                alts = h(self, st, x, y) if h else None
                if alts is not None:
                    return [(s, tup(r, FALSE) if over else r) for s, r in alts]
                p, q = sorted((x, y), key=repr)
                r = Lin.atom(("mul", p, q))
            return [(st, tup(r, FALSE) if over else r)]
        if base == "Div":
            if y.is_const() and y.c > 0:
                return [(st, Lin.const(x.c // y.c) if x.is_const() else mk_div(x, y.c))]
            return [(st, Lin.atom(("divv", x, y)))]
        if base == "Rem":
            if y.is_const() and y.c > 0:
                return [(st, Lin.const(x.c % y.c) if x.is_const() else mk_rem(x, y.c))]
            return [(st, Lin.atom(("remv", x, y)))]
        if base == "Shl":
            r = None
            if y.is_const():
                r = x.scale(1 << y.c)
                if not self.ent_le(st, r, Lin.const(INT_RANGE[ty][1])):
                    if x.is_const():
                        r = Lin.const(r.c % (1 << WIDTH[ty]))
                    elif self.hooks.get("no_shl_wrap", True) and ty in ("usize", "u64"):
                        pass
                    else:
                        r = self.wrap(st, ty, r)
            elif x.is_const() and x.c == 1:
                r = Lin.atom(("pow2", y))
            else:
                r = Lin.atom(("shl", x, y))
            return [(st, tup(r, FALSE) if over else r)]
        if base == "Shr":
            if y.is_const():
                r = Lin.const(x.c >> y.c) if x.is_const() else mk_div(x, 1 << y.c)
            else:
                r = Lin.atom(("shr", x, y))
            return [(st, tup(r, FALSE) if over else r)]
        if base in ("BitAnd", "BitOr", "BitXor"):
            return [(st, self.bitop(st, base, x, y, ty))]
        if base == "Offset":
            return [(st, Top("ptr offset"))]
        return [(st, Top("binop " + op))]

    def wrap(self, st, ty, x):
        lo, hi = INT_RANGE[ty]
        if self.ent_le(st, x, Lin.const(hi)) and self.ent_le(st, Lin.const(lo), x):
            return x
        if lo == 0:
            return mk_rem(x, hi + 1)
        a = ("wrap", ty, x)
        BOUND.setdefault(a, (lo, hi))
        return Lin.atom(a)

    def bitop(self, st, op, x, y, ty):
        w = WIDTH[ty]
        full = (1 << w) - 1
        if x.is_const() and y.is_const():
            f = {"BitAnd": lambda p, q: p & q, "BitOr": lambda p, q: p | q, "BitXor": lambda p, q: p ^ q}[op]
            return Lin.const(f(x.c & full, y.c & full))
        if x.is_const():
            x, y = y, x
        if op in ("BitOr", "BitXor"):
            for p, q in ((x, y), (y, x)):
                # q has only bits above those of p
                g = 0
                for z in list(q.t.values()) + [q.c]:
                    g = math.gcd(g, z)
                low = g & -g
                if low > 1 and not q == ZERO and self.ent_le(st, ZERO, p) and self.ent_le(st, p, Lin.const(low - 1)):
                    return p + q
        if y.is_const():
            c = y.c & full
            runs = bit_runs(c)
            if len(runs) <= 3:
                # the bits of x under the mask, as quotients
                m = ZERO
                for i, j in runs:
                    m = m + (mk_div(x, 1 << i) - (mk_div(x, 1 << j).scale(1 << (j - i)) if j < w else ZERO)).scale(1 << i)
                return m if op == "BitAnd" else x + c - m if op == "BitOr" else x + c - m.scale(2)
        a, b = (x, y) if (y.is_const() or repr(x) <= repr(y)) else (y, x)
        at = (op.lower(), a, b)
        if op == "BitAnd":
            hi = None
            for z in (x, y):
                if z.is_const():
                    hi = z.c
            BOUND.setdefault(at, (0, hi if hi is not None else full))
        else:
            BOUND.setdefault(at, (0, full))
        return Lin.atom(at)

    def compare(self, st, op, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref):
            a, b = self.read(st, a.root, a.steps), self.read(st, b.root, b.steps)
        if isinstance(a, BoolV) or isinstance(b, BoolV):
            x, y = (self.bool_lin(st, z) if isinstance(z, BoolV) else self.as_lin(st, z) for z in (a, b))
            if x is None or y is None:
                ca, cb = self.as_cond(st, a), self.as_cond(st, b)
                same = disj(conj(ca, cb), conj(neg(ca), neg(cb)))
                if op == "Eq":
                    return BoolV(same)
                if op == "Ne":
                    return BoolV(neg(same))
                return BoolV(eq(self.fresh_int("b", 0, 1), ONE))
        elif isinstance(a, Agg) and isinstance(b, Agg) and a.kind == "adt" and b.kind == "adt" and not a.fields and not b.fields and a.path == b.path:
            r = a.variant == b.variant
            return TRUE if r == (op == "Eq") else FALSE
        elif not (isinstance(a, Lin) and isinstance(b, Lin)):
            ta, tb = self.term(st, a), self.term(st, b)
            if not (isinstance(a, (Lin, SymV)) and isinstance(b, (Lin, SymV))) or op in ("Eq", "Ne"):
                if isinstance(a, (Lin, SymV, Top)) and isinstance(b, (Lin, SymV, Top)) and not (isinstance(a, SymV) and isinstance(b, SymV)):
                    x, y = self.as_lin(st, a), self.as_lin(st, b)
                else:
                    at = ("cmp", "Eq" if op in ("Eq", "Ne") else op, ta, tb)
                    BOUND.setdefault(at, (0, 1))
                    z = Lin.atom(at)
                    c = eq(z, ONE)
                    return BoolV(neg(c) if op == "Ne" else c)
            else:
                x, y = self.as_lin(st, a), self.as_lin(st, b)
        else:
            x, y = a, b
        c = {"Lt": lambda: lt(x, y), "Le": lambda: le(x, y), "Gt": lambda: lt(y, x), "Ge": lambda: le(y, x),
             "Eq": lambda: eq(x, y), "Ne": lambda: ne(x, y)}[op]()
        return BoolV(c)

    def term(self, st, v, depth=0):
        """hashable description of a value"""
        if depth > 6:
            return "..."
        if isinstance(v, Ref):
            if v.root[0] == "l" and v.root not in st.mem:
                return "dangling"
            if v.lo is not None:
                return ("slice",) + tuple(self.payload_term(s) for s in self.slice_segs(st, v))
            return self.term(st, self.read(st, v.root, v.steps), depth + 1)
        if isinstance(v, Agg):
            return (v.path or v.kind, v.variant) + tuple(self.term(st, x, depth + 1) for x in v.fields)
        if isinstance(v, SymV):
            return v.term
        if isinstance(v, BoolV):
            return v.c
        if isinstance(v, FnV):
            return ("fn", v.fn.get("path"))
        if isinstance(v, Seq):
            if len(v.segs) == 1 and v.segs[0][0] == "S" and not v.upd and v.segs[0][2] == ZERO:
                a = ARR.get(v.segs[0][1])
                if a is not None and a.length == v.segs[0][3]:
                    return v.segs[0][1]
            return ("seq",) + tuple(self.payload_term(s) for s in v.segs)
        if isinstance(v, Top):
            return ("top", v.reason)
        return v

    def payload_term(self, s):
        return tuple(s)

    def rvalue(self, fr, st, r, span):
        """-> list[(state, value)]"""
        k = r[0]
        if k == "use":
            return [(st, self.operand(fr, st, r[1]))]
        if k == "ref" or k == "reborrow" or k == "rawptr":
            p = r[2] if k in ("ref", "reborrow") else r[1]
            root, steps, lo, hi = self.place_addr(fr, st, p)
            return [(st, Ref(root, steps, lo, hi, bool(r[1]) if k != "rawptr" else True))]
        if k == "agg":
            ak = r[1]
            vals = [self.operand(fr, st, o) for o in r[2]]
            if ak[0] == "tuple":
                return [(st, Agg("tuple", None, 0, None, vals))]
            if ak[0] == "array":
                return [(st, Seq([("E", v) for v in vals]))]
            if ak[0] == "adt":
                names = ak[5]
                a = self.prog.adts.get(ak[1])
                isenum = a is not None and a["kind"] == "enum"
                return [(st, Agg("adt", ak[1], ak[2], ak[3] if isenum else None, vals, names))]
            if ak[0] in ("closure", "coroutine"):
                return [(st, Agg(ak[0], ak[1], 0, None, vals, (), dict(fr.env)))]
            return [(st, Top("aggregate"))]
        if k == "bin":
            a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            return self.binop(fr, st, r[1], a, b, self.operand_ty(fr, r[2]), span)
        if k == "un":
            a = self.operand(fr, st, r[2])
            if r[1] == "Not":
                if isinstance(a, BoolV):
                    return [(st, BoolV(neg(a.c), (ONE - a.lin) if a.lin is not None else None))]
                t = self.operand_ty(fr, r[2])
                if isinstance(a, Lin) and t and t[0] == "int" and t[1].startswith("u"):
                    return [(st, Lin.const((1 << WIDTH[t[1]]) - 1) - a)]
                return [(st, BoolV(neg(self.as_cond(st, a))) if t and t[0] == "bool" else Top("not"))]
            if r[1] == "Neg":
                return [(st, -self.as_lin(st, a))]
            if r[1] == "PtrMetadata":
                if isinstance(a, Ref):
                    return [(st, self.slice_len(st, a))]
                return [(st, self.fresh_int("len"))]
            return [(st, Top("unop"))]
        if k == "cast":
            v = self.operand(fr, st, r[2])
            ty = self.prog.rty(r[3], fr.env)
            return self.cast(fr, st, r[1], v, self.operand_ty(fr, r[2]), ty, span)
        if k == "discr":
            return self.discr(fr, st, r[1])
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            n = Lin.const(r[2]) if r[2] is not None else self.fresh_int("n")
            return [(st, Seq([("F", v, n)]))]
        st.flag("unmodelled:rvalue")
        return [(st, Top("rvalue"))]

    def cast(self, fr, st, kind, v, sty, ty, span):
        if kind == "IntToInt":
            if ty[0] != "int":
                return [(st, v)]
            if isinstance(v, BoolV):
                b = self.bool_lin(st, v)
                if b is not None:
                    return [(st, b)]
                return [(s, ONE) for s in self.assume(st, v.c)] + [(s, ZERO) for s in self.assume(st, neg(v.c))]
            x = self.as_lin(st, v)
            lo, hi = INT_RANGE[ty[1]]
            if sty and sty[0] == "int":
                slo, shi = INT_RANGE[sty[1]]
                if lo <= slo and shi <= hi:
                    return [(st, x)]
            h = self.hooks.get("narrow")
            if h:
                h(self, st, fr, sty, ty, x, span)
            return [(st, self.wrap(st, ty[1], x))]
        if kind.startswith("PointerCoercion") or kind in ("Transmute", "PtrToPtr", "Subtype"):
            if kind == "PtrToPtr" and isinstance(v, Agg) and v.kind == "rawslice":
                return [(st, Agg("rawslice", None, 0, None, v.fields, (), {"elem": ty[1]}))]
            if kind.startswith("PointerCoercion") and "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
                return [(st, v)]
            return [(st, v)]
        return [(st, SymV(("cast", kind, self.term(st, v)), ty))]

    def discr(self, fr, st, p):
        root, steps, lo, hi = self.place_addr(fr, st, p)
        v = self.read(st, root, steps)
        return self.discr_at(st, root, steps, v)

    def discr_at(self, st, root, steps, v):
        if isinstance(v, Agg):
            d = v.variant
            a = self.prog.adts.get(v.path)
            if a is not None and v.variant < len(a["variants"]) and a["variants"][v.variant]["discr"] is not None and a["kind"] == "enum":
                d = a["variants"][v.variant]["discr"]
            return [(st, Lin.const(d))]
        if isinstance(v, SymV):
            nv = self.nvariants(v.ty)
            if nv:
                out = []
                for vi, d in nv:
                    fs = self.variant_fields(v.ty, vi)
                    s2 = st.copy()
                    flds = [self.mk_sym(("vf", v.term, vi, n), t) for n, t in (fs or [])]
                    self.write(s2, root, steps, Agg("adt", v.ty[1], vi, self.vname(v.ty, vi), flds, [n for n, _ in (fs or [])]))
                    s2.pin = s2.pin + ((v.term, vi),)
                    # consistency with an earlier choice for the same term
                    if any(t == v.term and w != vi for t, w in st.pin):
                        continue
                    out.append((s2, Lin.const(d)))
                return out
            a = ("v", ("discr", v.term))
            BOUND.setdefault(a, (0, None))
            return [(st, Lin.atom(a))]
        if isinstance(v, BoolV):
            return [(st, self.as_lin(st, v))]
        a = ("top", getattr(v, "reason", "?"), next(self.fids))
        BOUND[a] = (0, None)
        return [(st, Lin.atom(a))]

    # ---------------------------------------------------------------- bodies
    def call_body(self, st, body, args, env, depth, span="?"):
        """Inline a body; -> list[(state, return value)]"""
        if depth > 60:
            st.flag("unmodelled:recursion")
            return [(st, Top("recursion"))]
        self.analysed.add(body["path"])
        fid = next(self.fids)
        fr = Frame(body, fid, env, depth)
        s = st.copy()
        for i, a in enumerate(args):
            s.mem[("l", fid, i + 1)] = a
        self.cur.append((body["path"], span))
        try:
            outs = self.run(fr, s, 0, None)
        finally:
            self.cur.pop()
        res = []
        for o in outs:
            if o[0] == "ret":
                s2 = o[1]
                v = s2.mem.get(("l", fid, 0), UNIT)
                for k in [k for k in s2.mem if k[0] == "l" and k[1] == fid]:
                    del s2.mem[k]
                res.append((s2, v))
        return res

    def run(self, fr, st, bb, ctx):
        """Explore from bb.  ctx = (head, blocks) when inside a loop step.
        -> [('ret', st) | ('back', st) | ('exit', st, bb)]"""
        work = [(st, bb, True)]
        outs = []
        loops = self.prog.loops(fr.body)
        while work:
            st, bb, first = work.pop()
            if ctx is not None:
                if bb == ctx[0] and not first:
                    outs.append(("back", st))
                    continue
                if bb not in ctx[1]:
                    outs.append(("exit", st, bb))
                    continue
            if bb in loops and not (ctx is not None and bb == ctx[0]):
                lctx = (bb, loops[bb])

                def step(s, _bb=bb, _c=lctx):
                    back, exits = [], []
                    for o in self.run(fr, s, _bb, _c):
                        if o[0] == "back":
                            back.append(o[1])
                        else:
                            exits.append(o)
                    return back, exits
                for o in self.widen(st, step, fr, bb):
                    if o[0] == "exit":
                        work.append((o[1], o[2], False))
                    else:
                        outs.append(o)
                continue
            self.steps += 1
            if time.time() > DEADLINE:
                raise Budget("out of time in " + fr.name)
            if self.steps > self.budget:
                raise Budget("abstract interpretation budget exceeded in " + fr.name)
            for o in self.block(fr, st, bb):
                if o[0] == "ret":
                    outs.append(o)
                else:
                    work.append((o[1], o[2], False))
        return outs

    def block(self, fr, st, bb):
        """-> [('ret', st) | ('go', st, bb)]"""
        blk = fr.body["blocks"][bb]
        states = [st]
        for s in blk["s"]:
            if s[0] == "=":
                nxt = []
                for x in states:
                    for (y, v) in self.rvalue(fr, x, s[2], s[3]):
                        self.assign(fr, y, s[1], v, s[3])
                        nxt.append(y)
                states = nxt
            elif s[0] == "setd":
                pass
        t = blk["t"]
        k = t[0]
        out = []
        for st in states:
            if k == "goto":
                out.append(("go", st, t[1]))
            elif k == "drop":
                out.append(("go", st, t[2]))
            elif k == "return":
                out.append(("ret", st))
            elif k == "switch":
                out.extend(self.switch(fr, st, t, blk["sp"]))
            elif k == "assert":
                out.extend(self.do_assert(fr, st, t, blk["sp"]))
            elif k == "call":
                out.extend(self.do_call(fr, st, t, blk["sp"]))
            elif k == "yield":
                out.append(("go", st, t[2]))
            elif k == "unreachable":
                pass
            else:
                st.flag("unmodelled:terminator")
        return out

    def assign(self, fr, st, place, v, span):
        root, steps, lo, hi = self.place_addr(fr, st, place)
        h = self.hooks.get("store")
        if h and steps:
            h(self, st, fr, root, steps, v, span)
        self.write(st, root, steps, v)

    def switch(self, fr, st, t, span):
        v = self.operand(fr, st, t[1])
        out = []
        if isinstance(v, BoolV):
            used = set()
            for val, tgt in t[2]:
                used.add(val)
                for s in self.assume(st.copy(), v.c if val else neg(v.c)):
                    s.note("%s: %s branch" % (span, "true" if val else "false"))
                    out.append(("go", s, tgt))
            rest = [b for b in (0, 1) if b not in used]
            for b in rest:
                for s in self.assume(st.copy(), v.c if b else neg(v.c)):
                    s.note("%s: %s branch" % (span, "true" if b else "false"))
                    out.append(("go", s, t[3]))
            return out
        x = self.as_lin(st, v)
        if x.is_const():
            for val, tgt in t[2]:
                if val == x.c:
                    return [("go", st, tgt)]
            return [("go", st, t[3])]
        others = L.T
        for val, tgt in t[2]:
            for s in self.assume(st.copy(), eq(x, Lin.const(val))):
                s.note("%s: case %s" % (span, val))
                out.append(("go", s, tgt))
            others = conj(others, ne(x, Lin.const(val)))
        for s in self.assume(st.copy(), others):
            s.note("%s: other case" % span)
            out.append(("go", s, t[3]))
        return out

    def do_assert(self, fr, st, t, span):
        v = self.operand(fr, st, t[1])
        c = self.as_cond(st, v)
        if not t[2]:
            c = neg(c)
        h = self.hooks.get("assert")
        if h:
            h(self, st, fr, t[3], c, span)
        return [("go", s, t[4]) for s in self.assume(st, c)]

    def do_call(self, fr, st, t, span):
        f = self.operand(fr, st, t[1])
        args = [self.operand(fr, st, a) for a in t[2]]
        sp = t[5]
        dty = None
        try:
            dl = t[3]
            dty = self.operand_ty(fr, ["c", dl])
        except Exception:
            dty = None
        self.cur.append((fr.name, sp))
        try:
            res = self.call_fn(st, f, args, fr, sp, dty)
        finally:
            self.cur.pop()
        out = []
        if t[4] is None:
            h = self.hooks.get("diverge")
            if h:
                for s, _ in res:
                    h(self, s, fr, f, sp)
            return []
        for s, v in res:
            self.assign(fr, s, t[3], v, sp)
            out.append(("go", s, t[4]))
        return out

    def call_fn(self, st, f, args, fr, span, dty):
        self.calls_seen += 1
        if not isinstance(f, FnV):
            return self.call_value(st, f, args, fr, span, dty)
        fn = f.fn
        env = f.env
        call = Call(fn, env, span, fr, dty)
        if "ctor" in fn:
            return [(st, self.ctor(fn, args, dty))]
        if len(args) == 2 and (fn.get("path") or "").startswith("core::ops::function::Fn") and isinstance(args[1], Agg) and args[1].kind == "tuple":
            # a closure called by name: its arguments come as a tuple
            g = args[0]
            while isinstance(g, Ref):
                g = self.read(st, g.root, g.steps)
            if isinstance(g, FnV) or isinstance(g, Agg) and g.kind == "closure" and g.path in self.prog.bodies:
                return self.call_value(st, args[0], args[1].fields, fr, span, dty)
        for p in (fn.get("res"), fn.get("path")):
            if p in self.contracts:
                r = self.contracts[p](self, st, args, call)
                if r is not None:
                    return r
        h = self.hooks.get("call")
        if h:
            r = h(self, st, args, call)
            if r is not None:
                return r
        r = self.models.dispatch(self, st, args, call)
        if r is not None:
            return r
        # functions of the crate
        tgt = fn.get("res") if fn.get("res_local") else (fn.get("path") if fn.get("local") and "trait" not in fn else None)
        rargs = fn.get("res_args") if fn.get("res_local") else fn.get("args")
        if tgt and tgt in self.prog.bodies:
            b = self.prog.bodies[tgt]
            genv = {}
            gens = self.prog.body_generics(b)
            for n, a in zip([g for g in gens], rargs or []):
                if isinstance(a, int):
                    genv[n] = self.prog.rty(a, env)
            return self.call_body(st, b, args, genv, (fr.depth if fr else 0) + 1, span)
        # trait call on an opaque generic: dispatch through a known local value
        if "trait" in fn and args:
            r = self.dynamic(st, fn, args, fr, span, env, call)
            if r is not None:
                return r
        return self.unmodelled_call(st, args, call)

    def dynamic(self, st, fn, args, fr, span, env, call):
        """Trait call whose receiver is a known local ADT value."""
        a = args[0]
        v = a
        for _ in range(4):
            if isinstance(v, Ref):
                v = self.read(st, v.root, v.steps)
                continue
            break
        if isinstance(v, Agg) and v.kind == "adt":
            m = fn["path"].split("::")[-1]
            p = "<%s as %s>::%s" % (v.path, fn["trait"], m)
            if p in self.prog.bodies:
                b = self.prog.bodies[p]
                return self.call_body(st, b, args, dict(env), (fr.depth if fr else 0) + 1, span)
        return None

    def ctor(self, fn, args, dty):
        p = fn["ctor"]
        # enum variant ctor: parent path is Enum::Variant
        for path, a in self.prog.adts.items():
            for vi, v in enumerate(a["variants"]):
                if a["kind"] == "enum" and path + "::" + v["name"] == p:
                    return Agg("adt", path, vi, v["name"], args, [x[0] for x in v["fields"]])
        if p.startswith("core::option::Option"):
            return some(args[0])
        if p.endswith("Result::Ok"):
            return ok(args[0])
        if p.endswith("Result::Err"):
            return err(args[0])
        return Agg("adt", p, 0, None, args, [str(i) for i in range(len(args))])

    def call_value(self, st, f, args, fr, span, dty=None):
        """Call a closure / fn value with positional args."""
        r0 = None
        while isinstance(f, Ref):
            r0 = f
            f = self.read(st, f.root, f.steps)
        if isinstance(f, FnV):
            return self.call_fn(st, f, args, fr, span, dty)
        if isinstance(f, Agg) and f.kind == "closure":
            b = self.prog.bodies.get(f.path)
            if b is not None:
                selfty = self.prog.rty(b["locals"][1][0])
                if selfty[0] == "ref":
                    if r0 is None:
                        root = ("clo", next(self.fids))
                        st = st.copy()
                        st.mem[root] = f
                        r0 = Ref(root, (), None, None, True)
                    a0 = r0
                else:
                    a0 = f
                return self.call_body(st, b, [a0] + list(args), f.env or {}, (fr.depth if fr else 0) + 1, span)
        self.havoc_args(st, args)
        st.flag("unmodelled:indirect call")
        return [(st, Top("indirect call"))]

    def unmodelled_call(self, st, args, call):
        path = call.path
        self.unmodelled.setdefault(path, set()).add(call.span)
        mutated = self.havoc_args(st, args)
        if mutated:
            st.flag("unmodelled:" + path)
        if call.dest_ty is not None and call.dest_ty[0] == "never":
            return []
        if call.dest_ty == ("tuple", ()):
            return [(st, UNIT)]
        term = ("call", path) + tuple(self.term(st, a) for a in args)
        h = self.hooks.get("unmodelled")
        if h:
            h(self, st, path, args, call)
        return [(st, self.mk_sym(term, call.dest_ty))]

    def havoc_args(self, st, args):
        m = False
        for a in args:
            if isinstance(a, Ref) and a.mut:
                if a.root[0] in ("const",):
                    continue
                self.write(st, a.root, a.steps, Top("unmodelled"))
                m = True
            elif isinstance(a, Agg) and a.kind == "closure":
                m = self.havoc_args(st, a.fields) or m
        return m

    # --------------------------------------------------------------- futures
    def poll(self, st, fut, fr, span):
        """Run a future to completion. -> list[(state, output)]"""
        v = fut
        for _ in range(6):
            if isinstance(v, Ref):
                v = self.read(st, v.root, v.steps)
            else:
                break
        if isinstance(v, Agg) and v.kind == "coroutine":
            b = self.prog.bodies.get(v.path)
            if b is not None:
                return self.call_body(st, b, [v, Top("context")], v.env or {}, (fr.depth if fr else 0) + 1, span)
        if isinstance(v, Agg) and v.kind == "fut":
            return self.models.poll_ext(self, st, v, fr, span)
        st.flag("unmodelled:future")
        return [(st, Top("future"))]

    # ----------------------------------------------------------------- loops
    def leaves_diff(self, a, b, path, acc):
        if a is b or a == b and not isinstance(a, Top):
            return
        if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and a.path == b.path and \
                a.variant == b.variant and len(a.fields) == len(b.fields):
            for i, (x, y) in enumerate(zip(a.fields, b.fields)):
                self.leaves_diff(x, y, path + (("f", i, "abs"),), acc)
            return
        acc.add(path)

    def modified(self, s0, backs):
        acc = set()
        for b in backs:
            for r, v0 in s0.mem.items():
                if r[0] in ("const", "constw", "consti"):
                    continue
                v1 = b.mem.get(r)
                if v1 is None:
                    continue
                if isinstance(v0, SymV) and isinstance(v1, Agg):
                    e = self.expand(v0)
                    if e is not None:
                        v0 = e
                d = set()
                self.leaves_diff(v0, v1, (r,), d)
                acc |= d
        return acc

    def leaf_get(self, st, p):
        return self.read(st, p[0], p[1:])

    def leaf_set(self, st, p, v):
        self.write(st, p[0], p[1:], v)

    def unrolled(self, s0, step):
        """exits of a loop that provably ends within the limit; None otherwise"""
        todo, outs = [s0.copy()], []
        for _ in range(self.unroll):
            nxt = []
            for s in todo:
                b, e = step(s)
                nxt += b
                outs += e
            todo = nxt
            if not todo:
                return outs
            if len(todo) > self.cap:
                break
        if self.exact:
            self.dropped = True
            return outs
        return None

    def widen(self, s0, step, fr, tag):
        self.loops += 1
        if self.exact:
            return self.unrolled(s0, step)
        if self.unroll:
            self.quiet += 1
            try:
                r = self.unrolled(s0, step)
            finally:
                self.quiet -= 1
            if r is not None:
                return r if self.quiet else self.unrolled(s0, step)
        self.quiet += 1
        try:
            back, exits = step(s0.copy())
        finally:
            self.quiet -= 1
        if not back:
            if self.quiet:
                return exits
            back, exits = step(s0.copy())
            return exits
        # materialise lazily created roots so that they count as loop state
        mod = self.modified(s0, back)
        k = self.fresh_int("it")
        katom = list(k.t)[0]
        extra_split = []
        banned = {}
        relations = None
        for rnd in range(14):
            W, info = self.make_head(s0, mod, k, banned)
            cands = []
            if relations is None:
                pool = None
            W.cons = W.cons + ((-k, False),)
            if relations is not None:
                cands = list(relations)
                W.cons = W.cons + tuple(c for c in cands)
            self.quiet += 1
            try:
                back, exits = step(W.copy())
            finally:
                self.quiet -= 1
            newmod = self.modified(W, back) | mod
            newmod = self.prune(newmod)
            if newmod != mod:
                mod = newmod
                continue
            changed = self.refine(s0, W, back, exits, info, mod, k, katom, banned)
            if changed:
                continue
            if relations is None:
                relations, entry_split = self.candidates(s0, W, back, exits, info, mod, k, katom, step)
                extra_split = entry_split
                continue
            keep = self.inductive(relations, back, W, info, k, katom, step)
            if len(keep) != len(relations):
                relations = keep
                continue
            break
        else:
            relations = []
            W, info = self.make_head(s0, mod, k, {p: "top" for p in mod})
        # entry splits: relations that hold at entry only under a condition
        outs = []
        starts = [s0]
        for cond in extra_split:
            nxt = []
            for s in starts:
                nxt.extend(self.assume(s.copy(), cond))
                for s2 in self.assume(s.copy(), neg(cond)):
                    # entry outside the invariant: must leave without iterating
                    self.quiet += 1
                    try:
                        b2, e2 = step(s2.copy())
                    finally:
                        self.quiet -= 1
                    if not self.quiet:
                        b2, e2 = step(s2.copy())
                    outs.extend(e2)
            starts = nxt
        if not starts:
            return outs
        W, info = self.make_head(s0, mod, k, banned)
        W.flag("summarised")
        if extra_split:
            c = tuple(x for cond in extra_split for x in L.dnf(cond)[0])
            W.cons = W.cons + c
        W.cons = W.cons + ((-k, False),) + tuple(relations)
        back, exits = step(W.copy())
        outs.extend(exits)
        # iterations after which the loop is left: judged on their own, outside of the invariant
        for b in back:
            if len(self.inductive(relations, [b], W, info, k, katom)) == len(relations):
                continue
            b2, e2 = step(b)
            if b2:
                for x in e2:
                    x[1].flag("unmodelled: loop invariant")
            outs.extend(e2)
        return outs

    def terminal(self, b, step):
        """the loop is left at once from state b"""
        self.quiet += 1
        try:
            b2, _e = step(b.copy())
        finally:
            self.quiet -= 1
        return not b2

    def prune(self, mod):
        """drop leaves below other leaves"""
        out = set()
        for p in mod:
            if not any(q != p and p[:len(q)] == q for q in mod):
                out.add(p)
        return out

    def make_head(self, s0, mod, k, banned):
        W = s0.copy()
        info = {}
        for p in sorted(mod, key=repr):
            v0 = self.leaf_get(s0, p)
            mode = banned.get(p)
            if isinstance(v0, BoolV):
                b = self.bool_lin(s0, v0)
                if b is not None and mode != "top":
                    v0 = b
                    if mode is None:
                        mode = ("bool",)
            if mode == "top" or not isinstance(v0, (Lin, Seq)):
                v = Top("widen")
                kind = "top"
            elif isinstance(v0, Lin):
                if mode and mode[0] == "lin":
                    v = mode[1]
                    kind = "lin"
                else:
                    nm = self.leaf_name(p)
                    a = ("s", "%s~%d" % (nm, self.hid(("h", p, list(k.t)[0]))))
                    BOUND[a] = (0, 1) if mode and mode[0] == "bool" else ((0, None) if self.ent_le(s0, ZERO, v0) else (None, None))
                    v = Lin.atom(a)
                    kind = "bool" if mode and mode[0] == "bool" else "sym"
            else:
                if mode and mode[0] == "seq":
                    v = mode[1]
                    kind = "seqx"
                elif mode == "unk":
                    v = Seq([("U", "widen", self.hlen(p, k))])
                    kind = "unk"
                else:
                    v = Seq([("X", "head", p, self.hlen(p, k))])
                    kind = "seq"
            if kind == "bool":
                x = v
                v = BoolV(eq(x, ONE), x)
            self.leaf_set(W, p, v)
            info[p] = (kind, v0, v)
        return W, info

    def hlen(self, p, k):
        a = ("s", "len(%s)~%d" % (self.leaf_name(p), self.hid(("n", p, list(k.t)[0]))))
        BOUND[a] = (0, None)
        return Lin.atom(a)

    def hid(self, key):
        return self.hids.setdefault(key, len(self.hids))

    def leaf_name(self, p):
        r = p[0]
        n = str(r[-1]) if r[0] == "l" else str(r[0]) + (str(r[1])[:20] if len(r) > 1 else "")
        for s in p[1:]:
            n += "." + str(s[1])
        return n

    def refine(self, s0, W, back, exits, info, mod, k, katom, banned):
        """Find closed forms for modified leaves. True if the head changed."""
        changed = False
        up = {katom: k + 1}
        # scalars first: sequence forms are looked for once their positions are known
        scal = [x for x in info.items() if x[1][0] in ("sym", "lin", "bool", "top")]
        rest = [x for x in info.items() if x[1][0] not in ("sym", "lin", "bool", "top")]
        for p, (kind, v0, v) in scal + rest:
            if changed and kind in ("seq", "seqx", "unk"):
                return True
            vals = []
            for b in back:
                vals.append(self.leaf_get(b, p))
            if kind == "top":
                continue
            if kind in ("sym", "lin", "bool"):
                if kind == "bool":
                    vals = [self.bool_lin(b, x) if isinstance(x, BoolV) else None for b, x in zip(back, vals)]
                    if any(x is None for x in vals):
                        banned[p] = "top"
                        changed = True
                    continue
                if not all(isinstance(x, Lin) for x in vals):
                    banned[p] = "top"
                    changed = True
                    continue
                if kind == "lin":
                    nxt = v.subst(up)
                    if not all(self.ent_eq(b, x, nxt) for b, x in zip(back, vals)):
                        # the closed form does not hold: plain symbol from now on
                        banned[p] = ("plain",)
                        changed = True
                    continue
                if banned.get(p) == ("plain",):
                    continue
                ds = [x - v for x in vals]
                if all(d.is_const() for d in ds) and len({d.c for d in ds}) == 1:
                    banned[p] = ("lin", v0 + k.scale(ds[0].c))
                    changed = True
                    continue
                # telescoping sums: delta == G[k+1] - G[k]
                pool = []
                for b, d in zip(back, ds):
                    ats = set(d.t)
                    for l, _e in b.cons[len(W.cons):]:
                        ats |= set(l.t)
                    for a in ats:
                        if isinstance(a, tuple) and a[0] in ("P", "sel") and katom in a[2].atoms():
                            pool.append(a)
                for a in sorted(set(pool), key=repr):
                    G = Lin.atom(a)
                    for sgn in (1, -1):
                        d2 = (G.subst(up) - G).scale(sgn)
                        if all(self.ent_eq(b, d, d2) for b, d in zip(back, ds)):
                            G0 = G.subst({katom: ZERO})
                            banned[p] = ("lin", v0 + (G - G0).scale(sgn))
                            changed = True
                            break
                    if changed and banned.get(p, (None,))[0] == "lin":
                        break
                continue
            # sequences
            if not all(isinstance(x, Seq) for x in vals):
                banned[p] = "top"
                changed = True
                continue
            if kind == "seqx":
                nxt = subst_val(v, up)
                okv = True
                for b, x in zip(back, vals):
                    if x.upd or not self.seq_eq(b, x.segs, self.head_next(nxt, info, b, p).segs):
                        okv = False
                if not okv:
                    banned[p] = "unk"
                    changed = True
                continue
            if kind == "unk":
                continue
            head = v.segs[0]
            r = self.seq_form(p, v0, head, vals, back, W, info, k, katom)
            if r is None:
                banned[p] = "unk"
                changed = True
            elif r == "wait":
                pass
            else:
                banned[p] = ("seq", r)
                changed = True
        return changed

    def head_next(self, nxt, info, b, p):
        """Expected head value after one iteration: symbols of plain leaves are
        replaced by their values at the back edge."""
        m = {}
        for q, (kind, _v0, v) in info.items():
            if kind == "sym":
                x = self.leaf_get(b, q)
                if isinstance(x, Lin):
                    m[list(v.t)[0]] = x
        return subst_val(nxt, m)

    def seq_form(self, p, v0, head, vals, back, W, info, k, katom):
        deltas = []
        for x in vals:
            if x.upd or not x.segs or x.segs[0] != head:
                return None
            deltas.append(x.segs[1:])
        if all(not d for d in deltas):
            return None
        up = {katom: k + 1}
        base = list(v0.segs)
        # one appended element per iteration
        if all(len(d) == 1 and d[0][0] == "E" for d in deltas):
            elems = [d[0][1] for d in deltas]
            # (a) element of a base sequence at an induction position
            cands = []
            for b in back:
                ats = set()
                for l, _e in b.cons[len(W.cons):]:
                    l.atoms(ats)
                for e in elems:
                    val_atoms(e, ats)
                for a in ats:
                    if isinstance(a, tuple) and a[0] in ("P", "sel") and katom in a[2].atoms():
                        kk = a[2].t.get(katom)
                        if kk == 1:
                            cands.append((a[1], a[2]))
                    if isinstance(a, tuple) and a[0] == "term" and isinstance(a[1], tuple) and a[1][0] == "sel":
                        idx = a[1][2]
                        if isinstance(idx, Lin) and idx.t.get(katom) == 1:
                            cands.append((a[1][1], idx))
                for e in elems:
                    if isinstance(e, SymV) and isinstance(e.term, tuple) and e.term and e.term[0] == "sel" and isinstance(e.term[2], Lin) and e.term[2].t.get(katom) == 1:
                        cands.append((e.term[1], e.term[2]))
            for src, idx in sorted(set(cands), key=repr):
                if all(self.val_eq(b, e, self.elem_of(src, idx)) for b, e in zip(back, elems)):
                    return Seq(base + [("S", src, idx.subst({katom: ZERO}), idx)])
            # (b) closed form in the iteration counter
            e0 = elems[0]
            plain = {list(v.t)[0] for (kd, _0, v) in info.values() if kd == "sym"}
            if all(e == e0 for e in elems) and not (val_atoms(e0, set()) & plain) and not any(isinstance(a, tuple) and a[0] == "top" for a in val_atoms(e0, set())):
                if katom not in val_atoms(e0, set()):
                    return Seq(base + [("F", e0, k)])
                ph = ("s", "i@%d" % self.hid(("i", katom)))
                return Seq(base + [("L", ph, subst_val(e0, {katom: Lin.atom(ph)}), ZERO, k)])
            return None
        # one contiguous slice per iteration
        if all(len(d) == 1 and d[0][0] == "S" for d in deltas) and len({d[0][1] for d in deltas}) == 1:
            src = deltas[0][0][1]
            lo = deltas[0][0][2]
            if all(d[0][2] == lo for d in deltas):
                lo0 = self.at_entry(lo, info, katom)
                if lo0 is not None:
                    return Seq(base + [("S", src, lo0, lo)])
        return None

    def at_entry(self, x, info, katom):
        m = {katom: ZERO}
        for q, (kind, v0, v) in info.items():
            if kind == "sym":
                m[list(v.t)[0]] = v0
        return x.subst(m)

    def after_map(self, b, info, k, katom):
        """loop symbols -> their values after the iteration; None if unknown"""
        m = {katom: k + 1}
        for q, (kind, _v0, v) in info.items():
            if kind in ("sym", "bool"):
                x = self.leaf_get(b, q)
                if isinstance(x, BoolV):
                    x = self.bool_lin(b, x)
                a = list(v.t)[0] if isinstance(v, Lin) else list(v.lin.t)[0]
                if isinstance(x, Lin):
                    m[a] = x
                else:
                    return None
            elif kind in ("unk", "seq"):
                x = self.leaf_get(b, q)
                a = list(v.segs[0][-1].t)[0] if v.segs else None
                if a is not None:
                    if isinstance(x, Seq):
                        m[a] = x.len()
                    else:
                        m[a] = self.fresh_int("n")
        return m

    def inductive(self, relations, back, W, info, k, katom, step=None):
        """the relations that hold again after every iteration (but those after which the loop is left)"""
        keep = list(relations)
        for b in back:
            before = keep
            keep = self.inductive1(keep, b, W, info, k, katom)
            if len(keep) != len(before) and step is not None and len(back) > 1 and self.terminal(b, step):
                keep = before
        return keep

    def inductive1(self, relations, b, W, info, k, katom):
        keep = list(relations)
        for b in (b,):
            m = self.after_map(b, info, k, katom)
            if m is None:
                return []
            todo, nxt = [], []
            for c in keep:
                l = c[0].subst(m)
                if l.is_const():
                    if l.c == 0 if c[1] else l.c <= 0:
                        nxt.append(c)
                    continue
                todo.append((c, l))
            good = self.entail_all(b, [(l, c[1]) for c, l in todo])
            ok_ = {id(c) for (c, l), g in zip(todo, good) if g}
            ok_ |= {id(c) for c in nxt}
            keep = [c for c in keep if id(c) in ok_]
        return keep

    def entail_all(self, st, lits):
        """[st implies lit] for many constraints at once"""
        if not lits:
            return []
        cons, atoms = self._closure(st, lits)
        qs, ix = [], []
        for l, e in lits:
            ix.append(len(qs))
            qs.append(((-l) + 1, False))
            if e:
                qs.append((l + 1, False))
        gs = self._groups(atoms)
        r = L.infeasible_arrays(cons, gs, qs) if gs else L.infeasible_each(cons, qs)
        if r is None:
            r = L.infeasible_each(cons + self._pairs(st, cons, atoms), qs)
        out = []
        for (l, e), i in zip(lits, ix):
            g = r[i] and (not e or r[i + 1])
            out.append(g or self.entails(st, ("eq", l) if e else ("le", l)))
        return out

    def candidates(self, s0, W, back, exits, info, mod, k, katom, step):
        """Candidate relations (as constraints) that hold at entry."""
        syms = {}
        for p, (kind, v0, v) in info.items():
            if kind == "sym":
                syms[list(v.t)[0]] = v0
            elif kind == "bool":
                syms[list(v.lin.t)[0]] = v0 if isinstance(v0, Lin) else self.bool_lin(s0, v0)
            elif kind == "unk" and isinstance(v0, Seq):
                syms[list(v.segs[0][2].t)[0]] = v0.len()
        entry = dict(syms)
        entry[katom] = ZERO
        cands = []

        def add(l, e):
            if (l, e) not in cands:
                cands.append((l, e))
        names = sorted(syms, key=repr)
        lins = [v for (kind, _0, v) in info.values() if kind == "lin"]
        # pairwise differences
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                d0 = syms[a] - syms[b]
                add(Lin.atom(a) - Lin.atom(b) - d0, True)
                add(Lin.atom(a) - Lin.atom(b) - d0, False)
                add(Lin.atom(b) - Lin.atom(a) + d0, False)
            add(Lin.atom(a) - syms[a], False)
            add(syms[a] - Lin.atom(a), False)
        # relations through the arrays mentioned anywhere in the loop
        arrs = {}
        for st in list(back) + [e[1] for e in exits]:
            for l, _e in st.cons:
                for x in l.atoms():
                    if isinstance(x, tuple) and x[0] in ("P", "sel"):
                        arrs[(x[0], x[1])] = 1
            for p in info:
                v = self.leaf_get(st, p)
                for x in val_atoms(v, set()):
                    if isinstance(x, tuple) and x[0] in ("P", "sel"):
                        arrs[(x[0], x[1])] = 1
        pts = [Lin.atom(a) for a in names] + lins
        for (kk, src) in arrs:
            info_a = ARR.get(src)
            if info_a is None or (kk == "sel" and info_a.kind != "mono"):
                continue
            mk = mk_P if kk == "P" else mk_sel
            for x in pts:
                for y in names:
                    if x == Lin.atom(y):
                        continue
                    g = mk(src, x) - Lin.atom(y)
                    g0 = g.subst(entry)
                    if g0.is_const() or True:
                        add(g - g0, True)
        # guards seen on the way to the back edges / exits
        splits = []
        n0 = len(W.cons)
        hs = set(names) | {katom}
        for st in list(back) + [e[1] for e in exits]:
            for l, e in st.cons[n0:]:
                if not (l.atoms() & hs):
                    continue
                loc = [a for a in l.atoms() if a not in hs and isinstance(a, tuple) and self.is_local_atom(a, W)]
                if loc:
                    continue
                if katom in l.t and abs(l.t[katom]) > 1 and not any(a in l.t for a in names):
                    # the guard of the iteration before
                    add(l.subst({katom: Lin.atom(katom) - 1}), False)
                for off in (0, 1):
                    l2 = l - off
                    if e and off == 0:
                        add(l2, True)
                    add(l2, False)
                    if e:
                        add(-l2, False)
        out = []
        for (l, e) in cands:
            l0 = l.subst(entry)
            if l0.is_const():
                if (l0.c == 0 if e else l0.c <= 0):
                    out.append((l, e))
                continue
            if self.entails(s0, ("eq", l0) if e else ("le", l0)):
                out.append((l, e))
            elif not e and katom in l.t and not any(a in l.t for a in names):
                # bound on an induction variable that needs an entry condition
                cond = ("le", l0)
                if cond not in splits and len(splits) < 2:
                    tst = True
                    for s2 in self.assume(s0.copy(), neg(cond)):
                        self.quiet += 1
                        try:
                            b2, _ = step(s2)
                        finally:
                            self.quiet -= 1
                        if b2:
                            tst = False
                    if tst:
                        splits.append(cond)
                        out.append((l, e))
        return out, splits

    def is_local_atom(self, a, W):
        """symbols created inside the loop body are not loop invariant"""
        if a[0] in ("s", "top"):
            return a not in self.known_atoms(W)
        return False

    def known_atoms(self, W):
        acc = set()
        for l, _ in W.cons:
            l.atoms(acc)
        for v in W.mem.values():
            val_atoms(v, acc)
        return acc
