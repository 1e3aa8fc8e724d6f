"""Integer linear expressions over hash-consed atoms and an emptiness test for
conjunctions of linear (in)equalities (Gaussian elimination followed by
Fourier-Motzkin with integer tightening).  This is the numeric domain of the
abstract interpreter; nothing here executes the analysed program."""
from math import gcd
import itertools


class Lin:
    __slots__ = ("t", "c", "_h")

    def __init__(self, t=None, c=0):
        self.t = t if t is not None else {}
        self.c = c
        self._h = None

    @staticmethod
    def const(c):
        return Lin({}, int(c))

    @staticmethod
    def atom(a):
        return Lin({a: 1}, 0)

    def is_const(self):
        return not self.t

    def key(self):
        return (frozenset(self.t.items()), self.c)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o)
        if not o.t:
            return Lin(self.t, self.c + o.c)
        t = dict(self.t)
        for a, k in o.t.items():
            n = t.get(a, 0) + k
            if n:
                t[a] = n
            else:
                t.pop(a, None)
        return Lin(t, self.c + o.c)

    def __neg__(self):
        return Lin({a: -k for a, k in self.t.items()}, -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c - o)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin({a: v * k for a, v in self.t.items()}, self.c * k)

    def __repr__(self):
        parts = []
        for a, k in sorted(self.t.items(), key=lambda x: repr_atom(x[0])):
            s = repr_atom(a)
            if k == 1:
                parts.append("+" + s)
            elif k == -1:
                parts.append("-" + s)
            else:
                parts.append("%+d*%s" % (k, s))
        if self.c or not parts:
            parts.append("%+d" % self.c)
        r = " ".join(parts)
        return r[1:] if r.startswith("+") else r

    def atoms(self, acc=None):
        """All atoms, including those nested in other atoms."""
        if acc is None:
            acc = set()
        for a in self.t:
            atom_closure(a, acc)
        return acc

    def subst(self, m):
        """Replace atoms (also nested) by Lins."""
        if not self.t:
            return self
        r = Lin({}, self.c)
        for a, k in self.t.items():
            r = r + subst_atom(a, m).scale(k)
        return r


ZERO = Lin({}, 0)
ONE = Lin({}, 1)


def atom_closure(a, acc):
    if a in acc:
        return
    acc.add(a)
    if isinstance(a, tuple):
        for x in a:
            if isinstance(x, Lin):
                x.atoms(acc)
            elif isinstance(x, tuple):
                _tup(x, acc)


def _tup(x, acc):
    for y in x:
        if isinstance(y, Lin):
            y.atoms(acc)
        elif isinstance(y, tuple):
            _tup(y, acc)


REBUILD = {}  # head -> function(args tuple) -> Lin, re-normalising constructors


def subst_any(x, m):
    if isinstance(x, Lin):
        return x.subst(m)
    if isinstance(x, tuple):
        return tuple(subst_any(y, m) for y in x)
    return x


def subst_atom(a, m):
    r = m.get(a)
    if r is not None:
        return r
    if isinstance(a, tuple) and a and a[0] != "s":
        n = tuple(subst_any(x, m) for x in a)
        if n != a:
            f = REBUILD.get(n[0])
            if f:
                return f(n)
            return Lin.atom(n)
    return Lin.atom(a)


def repr_atom(a):
    if isinstance(a, tuple):
        if a[0] == "s":
            return str(a[1])
        if a[0] == "sel":
            return "%s[%r]" % (repr_arr(a[1]), a[2])
        if a[0] == "P":
            return "ones(%s,0..%r)" % (repr_arr(a[1]), a[2])
        return "%s(%s)" % (a[0], ",".join(repr(x) if not isinstance(x, tuple) else repr_arr(x) for x in a[1:]))
    return str(a)


def repr_arr(a):
    if isinstance(a, tuple):
        return ".".join(str(x) if not isinstance(x, tuple) else repr_arr(x) for x in a)
    return str(a)


_counter = itertools.count()


def fresh(name):
    return ("s", "%s#%d" % (name, next(_counter)))


# ------------------------------------------------------------ constraints
# A constraint is (lin, eq): lin == 0 if eq else lin <= 0.

def _norm(t, c, eq):
    """gcd-normalise, integer tightening. Returns (t, c) or None (trivially
    true) or False (contradiction)."""
    if not t:
        if eq:
            return None if c == 0 else False
        return None if c <= 0 else False
    g = 0
    for k in t.values():
        g = gcd(g, abs(k))
        if g == 1:
            break
    if g > 1:
        if eq:
            if c % g:
                return False
            return ({a: k // g for a, k in t.items()}, c // g)
        # sum k a <= -c  ->  sum (k/g) a <= floor(-c/g)
        return ({a: k // g for a, k in t.items()}, -((-c) // g))
    return (t, c)


LIMIT = 3000


_ids = {}
_enc = {}
_native = None
_M64 = (1 << 64) - 1


def _load():
    """the native implementation of the emptiness test (same algorithm)"""
    global _native
    import ctypes, hashlib, os, subprocess
    base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    src, out = os.path.join(base, "native", "fm.cc"), os.path.join(base, ".cache", "libfm.so")
    _native = False
    if os.environ.get("MK_PYFM"):
        return
    try:
        h = hashlib.sha256(open(src, "rb").read()).hexdigest()
        if not (os.path.exists(out) and os.path.exists(out + ".stamp") and open(out + ".stamp").read() == h):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tmp = out + ".%d" % os.getpid()
            subprocess.run(["g++", "-O2", "-shared", "-fPIC", "-o", tmp, src], check=True, capture_output=True)
            os.rename(tmp, out)
            open(out + ".stamp", "w").write(h)
        lib = ctypes.CDLL(out)
        lib.fm_check.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_long]
        lib.fm_check.restype = ctypes.c_int
        lib.fm_batch.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_char_p, ctypes.c_long, ctypes.c_long, ctypes.c_char_p]
        lib.fm_batch.restype = None
        lib.fm_arrays.argtypes = [ctypes.c_char_p, ctypes.c_long] * 3 + [ctypes.c_long, ctypes.c_char_p]
        lib.fm_arrays.restype = None
        _native = lib
    except Exception:
        _native = False


def _bytes(c):
    l, e = c
    out = [len(l.t).to_bytes(4, "little"), b"\1\0\0\0" if e else b"\0\0\0\0", l.c.to_bytes(16, "little", signed=True)]
    for a, k in l.t.items():
        i = _ids.get(a)
        if i is None:
            i = _ids[a] = len(_ids)
        out.append(i.to_bytes(8, "little"))
        out.append(k.to_bytes(16, "little", signed=True))
    return b"".join(out)


def _pack(cons):
    bs = []
    for c in cons:
        b = _enc.get(c)
        if b is None:
            b = _enc[c] = _bytes(c)
        bs.append(b)
    return b"".join(bs)


def infeasible_each(base, queries):
    """[infeasible(base + [q]) for q in queries]"""
    import ctypes
    if _native is None:
        _load()
    if _native:
        try:
            b, q = _pack(base), _pack(queries)
            out = ctypes.create_string_buffer(len(queries) + 1)
            _native.fm_batch(b, len(base), q, len(queries), LIMIT, out)
            return [out.raw[i] == 0 for i in range(len(queries))]
        except OverflowError:
            pass
    return [infeasible_py(base + [q]) for q in queries]


def infeasible_arrays(cons, groups, queries=None):
    """Emptiness of cons under the array axioms of `groups` ([(kind, [(index, value)])]), or, with queries, of cons plus
    each query.  None if the native implementation is not available."""
    import ctypes
    if _native is None:
        _load()
    if not _native:
        return None
    try:
        b = _pack(cons)
        g = []
        for k, pts in groups:
            g.append(k.to_bytes(8, "little") + len(pts).to_bytes(8, "little"))
            g.append(_pack([(x, False) for p in pts for x in p]))
        g = b"".join(g)
        q = _pack(queries) if queries else b""
    except OverflowError:
        return None
    n = len(queries) if queries is not None else 0
    out = ctypes.create_string_buffer(n + 1)
    _native.fm_arrays(b, len(cons), g, len(groups), q, n, LIMIT, out)
    r = [x == 0 for x in out.raw[:max(n, 1)]]
    return r[0] if queries is None else r[:n]


def infeasible(cons):
    """True if the conjunction has no integer solution (sound: True is a
    proof; False means 'not shown')."""
    if _native is None:
        _load()
    if not _native:
        return infeasible_py(cons)
    try:
        b = _pack(cons)
    except OverflowError:
        return infeasible_py(cons)
    return _native.fm_check(b, len(cons), LIMIT) == 0


def infeasible_py(cons):
    """True if the conjunction has no integer solution (sound: True is a
    proof; False means 'not shown')."""
    eqs, les = [], []
    for l, eq in cons:
        r = _norm(l.t, l.c, eq)
        if r is False:
            return True
        if r is None:
            continue
        (eqs if eq else les).append(r)
    # gaussian elimination
    while eqs:
        best = None
        for i, (t, c) in enumerate(eqs):
            for a, k in t.items():
                s = (abs(k) != 1, len(t))
                if best is None or s < best[0]:
                    best = (s, i, a)
            if best and best[0] == (False, 1):
                break
        _, i, a = best
        t, c = eqs.pop(i)
        k = t[a]
        neweqs, newles = [], []
        for lst, out, eq in ((eqs, neweqs, True), (les, newles, False)):
            for (t2, c2) in lst:
                k2 = t2.get(a)
                if not k2:
                    out.append((t2, c2))
                    continue
                # t2*|k| - t * k2 * sign(k)
                m = abs(k)
                f = k2 * (1 if k > 0 else -1)
                nt = {x: v * m for x, v in t2.items()}
                for x, v in t.items():
                    n = nt.get(x, 0) - v * f
                    if n:
                        nt[x] = n
                    else:
                        nt.pop(x, None)
                nc = c2 * m - c * f
                r = _norm(nt, nc, eq)
                if r is False:
                    return True
                if r is not None:
                    out.append(r)
        eqs, les = neweqs, newles
    # FM
    cur = {}
    for t, c in les:
        k = frozenset(t.items())
        if k not in cur or cur[k] < c:
            cur[k] = c
    while cur:
        # opposite pairs quick check + choose variable
        pos, neg = {}, {}
        for k in cur:
            for a, v in k:
                if v > 0:
                    pos.setdefault(a, []).append(k)
                else:
                    neg.setdefault(a, []).append(k)
        # drop one-sided variables
        onesided = [a for a in set(pos) | set(neg) if a not in pos or a not in neg]
        if onesided:
            os = set(onesided)
            cur = {k: c for k, c in cur.items() if not any(a in os for a, _ in k)}
            continue
        best = min(pos, key=lambda a: len(pos[a]) * len(neg[a]))
        new = {k: c for k, c in cur.items() if all(a != best for a, _ in k)}
        for kp in pos[best]:
            dp = dict(kp)
            cp = cur[kp]
            vp = dp[best]
            for kn in neg[best]:
                dn = dict(kn)
                cn = cur[kn]
                vn = -dn[best]
                t = {}
                for x, v in dp.items():
                    t[x] = v * vn
                for x, v in dn.items():
                    n = t.get(x, 0) + v * vp
                    if n:
                        t[x] = n
                    else:
                        t.pop(x, None)
                t.pop(best, None)
                c = cp * vn + cn * vp
                r = _norm(t, c, False)
                if r is False:
                    return True
                if r is None:
                    continue
                k = frozenset(r[0].items())
                if k not in new or new[k] < r[1]:
                    new[k] = r[1]
        if len(new) > LIMIT:
            return False
        cur = new
    return False


# ------------------------------------------------------------ conditions
T = ("t",)
F = ("f",)


def le(a, b):
    """a <= b"""
    d = a - b
    if d.is_const():
        return T if d.c <= 0 else F
    return ("le", d)


def lt(a, b):
    return le(a + 1, b)


def eq(a, b):
    d = a - b
    if d.is_const():
        return T if d.c == 0 else F
    return ("eq", d)


def neg(c):
    k = c[0]
    if k == "t":
        return F
    if k == "f":
        return T
    if k == "le":
        return ("le", (-c[1]) + 1)
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "and":
        return ("or", neg(c[1]), neg(c[2]))
    if k == "or":
        return ("and", neg(c[1]), neg(c[2]))
    raise ValueError(c)


def conj(a, b):
    if a == F or b == F:
        return F
    if a == T:
        return b
    if b == T:
        return a
    return ("and", a, b)


def disj(a, b):
    if a == T or b == T:
        return T
    if a == F:
        return b
    if b == F:
        return a
    return ("or", a, b)


def ne(a, b):
    return neg(eq(a, b))


def dnf(c):
    """list of lists of (lin, eq) literals; 'ne' is split."""
    k = c[0]
    if k == "t":
        return [[]]
    if k == "f":
        return []
    if k == "le":
        return [[(c[1], False)]]
    if k == "eq":
        return [[(c[1], True)]]
    if k == "ne":
        return [[(c[1] + 1, False)], [((-c[1]) + 1, False)]]
    if k == "and":
        return [x + y for x in dnf(c[1]) for y in dnf(c[2])]
    if k == "or":
        return dnf(c[1]) + dnf(c[2])
    raise ValueError(c)
