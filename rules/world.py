"""Files, maps and foreign futures, for the I/O rules.

A file is a ghost: its path, its contents as a sequence, and whether a write to
it is still unconfirmed (tokio reports the failure of a write at the next write
or flush, never at sync) or not yet synced.  Every operation that can fail
forks; the failing branch leaves a mark, so that whoever reports success with
the mark set has swallowed a failure."""
import lin as L
from lin import Lin, ZERO, ONE, le, lt, eq, neg, conj
import engine as E
import models as M
import shapes as S
from engine import State, Ref, BoolV, Seq, Agg, SymV, Top, FnV, TRUE, FALSE, BOUND, UNIT, ARR, Arr, seg_len

FAILED, EVENTS, BLOCKS = ("ghost", "failed"), ("ghost", "events"), ("ghost", "blocks")
TFILE, SFILE = "tokio::fs::file::File", "std::fs::File"
AW = "tokio::io::util::async_write_ext::AsyncWriteExt::"
FEXT = "std::os::unix::fs::FileExt::"
HM = "std::collections::hash::map::HashMap::"
U8 = ("int", "u8")
POSMAX = 2 ** 60


def seq(v):
    return v if isinstance(v, Seq) else None


# ------------------------------------------------------------------ ghosts
def files(st):
    return sorted(k for k in st.mem if k[0] == "file")


def file_value(path, content, dirty=FALSE, unsynced=FALSE):
    return Agg("file", None, 0, None, (path, content, dirty, unsynced), ("path", "content", "dirty", "unsynced"))


def add_file(st, path, content, ty, dirty=FALSE, unsynced=FALSE):
    k = ("file", len(files(st)))
    st.mem[k] = file_value(path, content, dirty, unsynced)
    return SymV(("handle", k), ("adt", ty, ()))


def handle(eng, st, v):
    """the ghost a file handle (or a reference to one) stands for"""
    v = M.val(eng, st, v)
    if isinstance(v, SymV) and v.term[0] == "handle":
        return v.term[1]
    return None


def content(st, k):
    return st.mem[k].fields[1]


def flags(st, k):
    return st.mem[k].fields[2:]


def put(st, k, **kw):
    f = dict(zip(st.mem[k].names, st.mem[k].fields))
    f.update(kw)
    st.mem[k] = file_value(**f)


def fail(st, what, span):
    s = st.copy()
    s.note("%s: %s fails" % (span, what))
    s.mem[FAILED] = Agg("failed", what)
    return s


def failed(st):
    v = st.mem.get(FAILED)
    return v.path if v is not None else None


def ioerr(what):
    return E.err(SymV(("ioerror", what)))


def event(st, *e):
    v = st.mem.get(EVENTS)
    st.mem[EVENTS] = Agg("events", None, 0, None, (v.fields if v is not None else ()) + (Agg("event", e[0], 0, None, e[1:]),))


def events(st):
    v = st.mem.get(EVENTS)
    return v.fields if v is not None else ()


# ---------------------------------------------------------------- tokio files
def fut(name, *args):
    return Agg("fut", name, 0, None, args)


def t_create(eng, st, args, call):
    return [(st, fut("create", args[0]))]


def op(name, mutate=None):
    def f(eng, st, args, call):
        k = handle(eng, st, args[0])
        if k is None:
            return None
        return [(st, fut(name, SymV(("handle", k)), *args[1:]))]
    return f


def data_of(eng, st, v):
    r = M.rref(eng, st, v)
    if r is None:
        return None
    return [s for s in E.norm_segs(eng.slice_segs(st, r)) if not eng.ent_eq(st, seg_len(s), ZERO)]


def append(eng, st, k, segs):
    q = content(st, k)
    put(st, k, content=Seq(list(M.flat(eng, st, q)) + list(segs)) if isinstance(q, Seq) else Top("contents"), dirty=TRUE, unsynced=TRUE)


def poll(eng, st, v, fr, span):
    n = v.path
    if n == "create":
        s = st.copy()
        h = add_file(s, v.fields[0], Seq(), TFILE)
        return [(s, E.ok(h)), (fail(st, "creating a file", span), ioerr(n))]
    if n == "open":
        s = st.copy()
        return opened(eng, s, v.fields[0], v.fields[1], TFILE) + [(fail(st, "opening a file", span), ioerr(n))]
    if n in ("write_all", "write"):
        k = v.fields[0].term[1]
        d = data_of(eng, st, v.fields[1])
        s = st.copy()
        s.note("%s: a write to file %s" % (span, k[1]))
        if d is None:
            put(s, k, content=Top("contents"), dirty=TRUE, unsynced=TRUE)
            s.flag("unmodelled:data written")
            return [(s, E.ok(UNIT)), (fail(st, "a write", span), ioerr(n))]
        if n == "write_all":
            append(eng, s, k, d)
            return [(s, E.ok(UNIT)), (fail(st, "a write", span), ioerr(n))]
        t = Seq(d)
        m = eng.fresh_int("written", 0)
        out = []
        for s2 in eng.assume(s, le(m, t.len())):
            append(eng, s2, k, eng.sub(s2, t, ZERO, m))
            out.append((s2, E.ok(m)))
        return out + [(fail(st, "a write", span), ioerr(n))]
    if n == "write_int":
        k = v.fields[0].term[1]
        s = st.copy()
        append(eng, s, k, v.fields[1].segs)
        return [(s, E.ok(UNIT)), (fail(st, "a write", span), ioerr(n))]
    if n in ("flush", "shutdown"):
        k = v.fields[0].term[1]
        s = st.copy()
        put(s, k, dirty=FALSE)
        return [(s, E.ok(UNIT)), (fail(st, "a flush", span), ioerr(n))]
    if n == "sync":
        k = v.fields[0].term[1]
        s = st.copy()
        put(s, k, unsynced=FALSE)
        return [(s, E.ok(UNIT)), (fail(st, "a sync", span), ioerr(n))]
    if n == "set_len":
        k = v.fields[0].term[1]
        s = st.copy()
        x = eng.as_lin(s, v.fields[1])
        q = content(s, k)
        out = []
        for s2 in eng.assume(s.copy(), le(x, q.len())):
            put(s2, k, content=Seq(eng.sub(s2, q, ZERO, x)), unsynced=TRUE)
            out.append((s2, E.ok(UNIT)))
        for s2 in eng.assume(s, lt(q.len(), x)):
            put(s2, k, content=Seq(list(q.segs) + [("F", ZERO, x - q.len())]), unsynced=TRUE)
            out.append((s2, E.ok(UNIT)))
        return out + [(fail(st, "a change of length", span), ioerr(n))]
    if n == "seek":
        k = v.fields[0].term[1]
        s = st.copy()
        s.flag("unmodelled:seek")
        put(s, k, content=Top("after a seek"))
        return [(s, E.ok(eng.fresh_int("pos"))), (fail(st, "a seek", span), ioerr(n))]
    if n == "metadata":
        k = v.fields[0].term[1]
        s = st.copy()
        return [(s, E.ok(SymV(("meta", k), ("adt", "std::fs::Metadata", ())))), (fail(st, "reading a file's metadata", span), ioerr(n))]
    h = eng.hooks.get("poll2")
    return h(eng, st, v, fr, span) if h else None


def write_int(eng, st, args, call):
    k = handle(eng, st, args[0])
    m = call.path.split("::")[-1]
    if k is None or not m.startswith("write_"):
        return None
    t = m[6:]
    le_ = t.endswith("_le")
    t = t[:-3] if le_ else t
    if t not in E.WIDTH:
        return None
    n = E.WIDTH[t] // 8
    return [(st, fut("write_int", SymV(("handle", k)), Seq([("X", "le" if le_ else "be", (eng.as_lin(st, args[1]), n), Lin.const(n))])))]


# OpenOptions: only what the flags say about the contents
OO = ("tokio::fs::open_options::OpenOptions::", "std::fs::OpenOptions::")


def oo_new(eng, st, args, call):
    return [(st, Agg("openoptions", None, 0, None, (FALSE,) * 6, ("read", "write", "append", "truncate", "create", "create_new")))]


def oo_set(eng, st, args, call):
    m = call.path.split("::")[-1]
    r = M.rref(eng, st, args[0])
    if r is None:
        return None
    v = eng.read(st, r.root, r.steps)
    if not (isinstance(v, Agg) and v.kind == "openoptions") or m not in v.names or not isinstance(args[1], BoolV):
        return None
    eng.write(st, r.root, r.steps, v.with_field(v.names.index(m), args[1]))
    return [(st, args[0])]


def opened(eng, st, path, o, ty):
    """the handle and contents an opened file has"""
    f = dict(zip(o.names, o.fields)) if isinstance(o, Agg) and o.kind == "openoptions" else None
    if f is None or any(not (v == TRUE or v == FALSE) for v in f.values()):
        st.flag("unmodelled:open options")
        return [(st, E.ok(add_file(st, path, Top("contents"), ty)))]
    k = len(files(st))
    if f["create_new"] == TRUE or (f["truncate"] == TRUE and f["write"] == TRUE):
        q = Seq()
    else:
        n = S.atom("previous_%d" % k)
        name = "previous_%d" % k
        ARR[name] = Arr(n, "plain", U8)
        q = Seq([("S", name, ZERO, n)])
        if f["append"] == FALSE and (f["write"] == TRUE):
            # written over from the start
            q = Seq([("X", "overwritten", (name,), n)])
    return [(st, E.ok(add_file(st, path, q, ty)))]


def oo_open(eng, st, args, call):
    o = M.val(eng, st, args[0])
    if call.path.startswith("std::"):
        s = st.copy()
        return opened(eng, s, args[1], o, SFILE) + [(fail(st, "opening a file", call.span), ioerr("open"))]
    return [(st, fut("open", args[1], o))]


# ------------------------------------------------------------------ std files
def s_open(eng, st, args, call):
    k = ("file", len(files(st)))
    s = st.copy()
    name = "file_%d" % k[1]
    n = S.atom("len_" + name, 0, POSMAX)
    ARR[name] = Arr(n, "plain", U8)
    h = add_file(s, args[0], Seq([("S", name, ZERO, n)]), SFILE)
    return [(s, E.ok(h)), (fail(st, "opening a file", call.span), ioerr("open"))]


def s_create(eng, st, args, call):
    s = st.copy()
    h = add_file(s, args[0], Seq(), SFILE)
    return [(s, E.ok(h)), (fail(st, "creating a file", call.span), ioerr("create"))]


def s_metadata(eng, st, args, call):
    k = handle(eng, st, args[0])
    if k is None:
        return None
    s = st.copy()
    return [(s, E.ok(SymV(("meta", k), ("adt", "std::fs::Metadata", ())))), (fail(st, "reading a file's metadata", call.span), ioerr("metadata"))]


def p_metadata(eng, st, args, call):
    """of a path: the link's own with symlink_metadata, else whatever the path names by now"""
    s = st.copy()
    if not call.path.endswith("symlink_metadata"):
        s.flag("unmodelled:metadata of a path")
    k = eng.fresh_int("length_of_the_link" if call.path.endswith("symlink_metadata") else "length_at_the_path", 0, POSMAX)
    return [(s, E.ok(SymV(("metalen", k), ("adt", "std::fs::Metadata", ())))), (fail(st, "reading metadata", call.span), ioerr("metadata"))]


def s_metalen(eng, st, args, call):
    v = M.val(eng, st, args[0])
    if isinstance(v, SymV) and v.term[0] == "metalen":
        return [(st, v.term[1])]
    if isinstance(v, SymV) and v.term[0] == "meta":
        q = content(st, v.term[1])
        if isinstance(q, Seq):
            return [(st, q.len())]
    return None


def s_read(eng, st, args, call):
    """read_exact_at / read_at: the bytes at the position given"""
    k = handle(eng, st, args[0])
    r = M.rref(eng, st, args[1])
    m = call.path.split("::")[-1]
    if k is None or r is None:
        return None
    q, pos, n = content(st, k), eng.as_lin(st, args[2]), eng.slice_len(st, r)
    lo = r.lo if r.lo is not None else ZERO
    out = []
    if m == "read_exact_at":
        for s in eng.assume(st.copy(), conj(le(ZERO, pos), le(pos + n, q.len()))):
            s.note("%s: a read of file %s" % (call.span, k[1]))
            M.write_range(eng, s, Ref(r.root, r.steps, lo, lo + n, True), eng.sub(s, q, pos, pos + n))
            event(s, "read", SymV(k), pos, n)
            out.append((s, E.ok(UNIT)))
    else:
        g = eng.fresh_int("got", 0)
        for s in got(eng, st, g, pos, n, q.len()):
            s.note("%s: a read of file %s, possibly short" % (call.span, k[1]))
            M.write_range(eng, s, Ref(r.root, r.steps, lo, lo + g, True), eng.sub(s, q, pos, pos + g))
            event(s, "read", SymV(k), pos, g)
            out.append((s, E.ok(g)))
    return out + [(fail(st, "a read", call.span), ioerr(m))]


def got(eng, st, g, pos, n, end):
    """a short read: nothing only at the end of the file or when nothing is asked for"""
    c = conj(le(g, n), conj(le(ZERO, pos), le(pos + g, end)))
    out = eng.assume(st.copy(), conj(c, le(ONE, g)))
    for z in eng.assume(st.copy(), conj(c, le(g, ZERO))):
        out += eng.assume(z.copy(), le(n, ZERO)) + eng.assume(z, le(end, pos))
    return out


def e_kind(eng, st, args, call):
    v = M.val(eng, st, args[0])
    if not (isinstance(v, SymV) and v.term[0] == "ioerror"):
        return None
    return [(st, SymV(("errorkind",) + v.term[1:], call.dest_ty))]


def kind_is(eng, st, args, call):
    """an operation that was interrupted has not failed: it is to be tried again"""
    a, b = (M.val(eng, st, x) for x in args)
    if isinstance(b, SymV):
        a, b = b, a
    if not (isinstance(a, SymV) and a.term[0] == "errorkind" and isinstance(b, Agg)):
        return None
    s = st.copy()
    if b.vname == "Interrupted":
        if a.term[1] not in ("read", "read_at", "write"):
            return [(st, FALSE)]
        s.mem.pop(FAILED, None)
    s.note("%s: the error is %s" % (call.span, b.vname))
    return [(s, TRUE), (st, FALSE)] if call.path.endswith("eq") else [(s, FALSE), (st, TRUE)]


def share(st, k):
    """other tasks use the handle too: its file position is theirs to move at any time"""
    st.mem[("shared", k)] = TRUE


def s_seek(eng, st, args, call):
    k = handle(eng, st, args[0])
    w = M.val(eng, st, args[1])
    if k is None or not (isinstance(w, Agg) and w.fields and isinstance(w.fields[0], Lin)):
        return None
    x = w.fields[0]
    n = content(st, k).len()
    base = {0: ZERO, 1: n, 2: st.mem.get(("cursor", k), ZERO)}[w.variant]
    out = []
    if w.variant == 2 and ("shared", k) in st.mem:
        base = eng.fresh_int("position", 0, POSMAX)
    for s in eng.assume(st.copy(), le(ZERO, base + x)):
        s.mem[("cursor", k)] = base + x
        out.append((s, E.ok(base + x)))
    return out + [(fail(st, "a seek", call.span), ioerr("seek"))]


def s_seqread(eng, st, args, call):
    """a read at the file position"""
    k = handle(eng, st, args[0])
    r = M.rref(eng, st, args[1])
    if k is None or r is None:
        return None
    m = call.path.split("::")[-1]
    q = content(st, k)
    pos = st.mem.get(("cursor", k), ZERO)
    out = []
    s = st.copy()
    if ("shared", k) in st.mem:
        pos = eng.fresh_int("position", 0, POSMAX)
        s.note("%s: another read may have moved the shared file position" % call.span)
    if m == "read_to_end":
        v = eng.read(s, r.root, r.steps)
        if not isinstance(v, Seq):
            return None
        for s2 in eng.assume(s, le(pos, q.len())):
            eng.write(s2, r.root, r.steps, Seq(list(M.flat(eng, s2, v)) + list(eng.sub(s2, q, pos, q.len()))))
            s2.mem[("cursor", k)] = q.len()
            event(s2, "read", SymV(k), pos, q.len() - pos)
            out.append((s2, E.ok(q.len() - pos)))
        return out + [(fail(st, "a read", call.span), ioerr(m))]
    n = eng.slice_len(st, r)
    lo = r.lo if r.lo is not None else ZERO
    g = n if m == "read_exact" else eng.fresh_int("got", 0)
    for s2 in eng.assume(s, conj(conj(le(g, n), le(ZERO, pos)), le(pos + g, q.len()))) if m == "read_exact" else got(eng, s, g, pos, n, q.len()):
        s2.note("%s: a read of file %s" % (call.span, k[1]))
        M.write_range(eng, s2, Ref(r.root, r.steps, lo, lo + g, True), eng.sub(s2, q, pos, pos + g))
        s2.mem[("cursor", k)] = pos + g
        event(s2, "read", SymV(k), pos, g)
        out.append((s2, E.ok(UNIT if m == "read_exact" else g)))
    return out + [(fail(st, "a read", call.span), ioerr(m))]


def s_clone(eng, st, args, call):
    """the same open file: same position"""
    k = handle(eng, st, args[0])
    if k is None:
        return None
    return [(st, E.ok(SymV(("handle", k), ("adt", SFILE, ())))), (fail(st, "duplicating a file handle", call.span), ioerr("try_clone"))]


# ----------------------------------------------------------------------- maps
def m_new(eng, st, args, call):
    return [(st, Agg("map", None, 0, None, (SymV(("emptymap",)),)))]


def as_map(v):
    if isinstance(v, Agg) and v.kind == "map":
        return v
    if isinstance(v, SymV):
        return Agg("map", None, 0, None, (v,))
    return None


def m_of(eng, st, v):
    r = M.rref(eng, st, v)
    if r is None:
        return None, None
    return r, as_map(eng.read(st, r.root, r.steps))


def m_insert(eng, st, args, call):
    r, m = m_of(eng, st, args[0])
    if m is None:
        return None
    eng.write(st, r.root, r.steps, Agg("map", None, 0, None, m.fields + (E.tup(args[1], args[2]),)))
    return [(st, eng.mk_sym(("previous", eng.term(st, args[1])), call.dest_ty))]


def m_entry(eng, st, args, call):
    r, m = m_of(eng, st, args[0])
    if m is None:
        return None
    return [(st, Agg("entry", None, 0, None, (r, args[1])))]


def m_or_insert(eng, st, args, call):
    e = args[0]
    if not (isinstance(e, Agg) and e.kind == "entry"):
        return None
    r, m = m_of(eng, st, e.fields[0])
    s = st.copy()
    eng.write(s, r.root, r.steps, Agg("map", None, 0, None, m.fields + (E.tup(e.fields[1], args[1]),)))
    root = ("slot", next(eng.fids))
    s.mem[root] = args[1]
    s.note("%s: the key is new" % call.span)
    st = st.copy()
    st.note("%s: the key is present already" % call.span)
    root2 = ("slot", next(eng.fids))
    st.mem[root2] = SymV(("old", eng.term(st, e.fields[1])))
    return [(s, Ref(root, (), None, None, True)), (st, Ref(root2, (), None, None, True))]


def m_len_of(eng, st, m):
    """(state, number of entries) of a map: what it had, and between none and all of the later insertions"""
    b = m.fields[0]
    if b == SymV(("emptymap",)):
        n0 = ZERO
    else:
        t = ("len", ("map", eng.term(st, b)))
        BOUND.setdefault(t, (0, POSMAX))
        n0 = Lin.atom(t)
    k = len(m.fields) - 1
    if k == 0:
        return st, n0
    if k == 1 and n0 == ZERO:
        return st, ONE
    t = ("len", ("map", eng.term(st, m)))
    BOUND.setdefault(t, (0, POSMAX))
    n = Lin.atom(t)
    r = eng.assume(st.copy(), conj(conj(le(n0, n), le(ONE, n)), le(n, n0 + k)))
    return (r[0] if r else st), n


def m_len(eng, st, args, call):
    r, m = m_of(eng, st, args[0])
    if m is None:
        return None
    st, n = m_len_of(eng, st, m)
    if call.path.endswith("is_empty"):
        return [(s, TRUE) for s in eng.assume(st.copy(), le(n, ZERO))] + [(s, FALSE) for s in eng.assume(st.copy(), le(ONE, n))]
    return [(st, n)]


def m_iter(eng, st, args, call):
    """the entries in an arbitrary order"""
    r, m = m_of(eng, st, args[0])
    if m is None:
        return None
    st, n = m_len_of(eng, st.copy(), m)
    ga = [eng.prog.rty(a, call.env) for a in (call.fn.get("args") or []) if isinstance(a, int)]
    its = []
    for i, what in enumerate(("keys", "values")):
        t = ("map" + what, eng.term(st, m))
        if t not in ARR:
            ARR[t] = Arr(n, "plain", ga[i] if i < len(ga) else None)
        root = ("slot", next(eng.fids))
        st.mem[root] = Seq([("S", t, ZERO, n)])
        its.append(M.it("slice", Ref(root, (), ZERO, n, False), ZERO))
    k = call.path.split("::")[-1]
    return [(st, its[0] if k == "keys" else its[1] if k == "values" else M.it("zip", *its))]


def encode_to_vec(eng, st, args, call):
    v = M.val(eng, st, args[0])
    n = encoded_len(eng)
    return [(st, Seq([("X", "encoded", (v,), n)]))]


def encode_delimited(eng, st, args, call):
    v = M.val(eng, st, args[0])
    return [(st, Seq([("X", "length-delimited", (v,), encoded_len(eng))]))]


def encode_into(eng, st, args, call):
    v = M.val(eng, st, args[0])
    r = M.rref(eng, st, args[1])
    q = eng.read(st, r.root, r.steps) if r is not None else None
    if not isinstance(q, Seq):
        return None
    n = encoded_len(eng)
    eng.write(st, r.root, r.steps, Seq(list(M.flat(eng, st, q)) + [("X", "encoded", (v,), n)]))
    # a Vec grows as needed: encoding into it cannot fail
    return [(st, E.ok(UNIT))]


def encoded_len(eng):
    k = S.INSTANCE("encoded_len") if S.INSTANCE is not None else None
    return eng.fresh_int("encoded_len", 0, POSMAX) if k is None else Lin.const(k)


# exact instances: what names stand for.  Chosen around the sizes code could treat specially.
SIZES = [dict(block=b, before=w, n=n) for b, w, n in ((0, 13, 0), (1, 13, 2), (13, 100, 0), (5000, 13, 2), (2 ** 20, 13, 0), (2 ** 20 + 1, 4096, 2), (3 * 2 ** 20 + 5, 13, 2), (200000, 5000, 3))]
READS = [dict(start=a, end=b, len=n) for a, b, n in ((0, 0, 0), (0, 5, 5), (2, 7, 9), (3, 3, 9), (0, 9, 9), (9, 9, 9), (2, 12, 9), (12, 13, 9), (5, 3000, 5000), (0, 200000, 300000), (7, 3 * 2 ** 20 + 5, 2 ** 23))]


def names(inst):
    def f(name):
        if not isinstance(name, str):
            return None
        if name in inst:
            return inst[name]
        if name.startswith("len_file_"):
            return inst.get("len")
        if name == "written" or name.startswith("more_") or name.startswith("previous_"):
            return inst.get("before")
        if name == "stale_entries":
            return inst.get("n")
        if name == "entries":
            return inst.get("n") or 1
        if name == "block_len":
            return inst.get("block")
        if name in ("encoded_len", "column_index_len", "block_index_len") or "_block_" in name:
            # none of these is ever empty
            return max(1, inst["block"]) if "block" in inst else None
        return None
    return f


def exactly(inst, job):
    """the job, run on one instance"""
    def f(ctx):
        old, S.INSTANCE = S.INSTANCE, names(inst)
        try:
            job(ctx)
        finally:
            S.INSTANCE = old
    return f


CONTRACTS = {
    TFILE + "::create": t_create, "std::fs::File::create": s_create, SFILE + "::open": s_open, SFILE + "::metadata": s_metadata,
    "std::fs::symlink_metadata": p_metadata, "std::fs::metadata": p_metadata,
    "std::fs::Metadata::len": s_metalen, FEXT + "read_exact_at": s_read, FEXT + "read_at": s_read,
    AW + "write_all": op("write_all"), AW + "write": op("write"), AW + "flush": op("flush"), AW + "shutdown": op("shutdown"),
    TFILE + "::sync_all": op("sync"), TFILE + "::sync_data": op("sync"), TFILE + "::set_len": op("set_len"), TFILE + "::metadata": op("metadata"),
    "tokio::io::util::async_seek_ext::AsyncSeekExt::seek": op("seek"),
    HM + "new": m_new, HM + "with_capacity": m_new, HM + "default": m_new, HM + "insert": m_insert, HM + "entry": m_entry,
    HM + "len": m_len, HM + "is_empty": m_len, HM + "values": m_iter, HM + "keys": m_iter, HM + "iter": m_iter,
    "std::collections::hash::map::Entry::or_insert": m_or_insert,
    "prost::message::Message::encode_to_vec": encode_to_vec, "prost::message::Message::encode": encode_into,
    "prost::message::Message::encode_length_delimited_to_vec": encode_delimited,
}
for _t in ("u8", "u16", "u32", "u64", "u128", "i32", "i64"):
    for _e in ("", "_le"):
        CONTRACTS[AW + "write_" + _t + _e] = write_int
for _p in ("std::io::Seek", "core::io::seek::Seek", "std::io::seek::Seek", "alloc::io::seek::Seek"):
    CONTRACTS[_p + "::seek"] = s_seek
for _p in ("std::io::Read", "alloc::io::read::Read", "core::io::read::Read"):
    for _m in ("read", "read_exact", "read_to_end"):
        CONTRACTS[_p + "::" + _m] = s_seqread
for _p in ("core::io::error::", "std::io::error::"):
    CONTRACTS[_p + "Error::kind"] = e_kind
    for _m in ("eq", "ne"):
        CONTRACTS["<%sErrorKind as core::cmp::PartialEq>::%s" % (_p, _m)] = kind_is
CONTRACTS[SFILE + "::try_clone"] = s_clone
for _o in OO:
    CONTRACTS[_o + "new"] = oo_new
    for _m in ("read", "write", "append", "truncate", "create", "create_new"):
        CONTRACTS[_o + _m] = oo_set
    CONTRACTS[_o + "open"] = oo_open
CONTRACTS[TFILE + "::options"] = oo_new
CONTRACTS["std::fs::File::options"] = oo_new


def engine(P, contracts=None):
    c = dict(CONTRACTS)
    c.update(contracts or {})
    eng = S.engine(P, c)
    eng.hooks["poll"] = poll
    eng.unroll = 8
    if S.INSTANCE is not None:
        eng.unroll, eng.exact, eng.cap = 40, True, 200

    def join(e, st, span):
        st.note("%s: the blocking task is lost" % span)
        st.mem[FAILED] = Agg("failed", "a blocking task")
    eng.hooks["joinerror"] = join
    return eng
