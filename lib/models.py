"""Transfer functions for library calls.  Each takes (eng, st, args, call) and
returns a list of (state, value); None means 'not handled here'."""
import lin as L
from lin import Lin, ZERO, ONE, le, lt, eq, ne, neg, conj, disj, fresh
import engine as E
from engine import (Agg, Ref, Seq, BoolV, SymV, Top, FnV, UNIT, TRUE, FALSE, OPT, RES, CF, POLL, NONE, some, ok, err, tup,
                    INT_RANGE, WIDTH, BOUND, ARR, seg_len, mk_div)

R_ = "core::ops::range::"
MODELS = {}
TERMS = set()


def model(*paths):
    def d(f):
        for p in paths:
            MODELS[p] = f
        return f
    return d


# ------------------------------------------------------------------ helpers
def rref(eng, st, v):
    """innermost reference: a Ref whose target is not itself a Ref"""
    for _ in range(8):
        if not isinstance(v, Ref):
            return None
        if v.lo is not None:
            return v
        t = eng.read(st, v.root, v.steps)
        if isinstance(t, Ref):
            v = t
            continue
        return v
    return None


def val(eng, st, v):
    for _ in range(8):
        if isinstance(v, Ref):
            if v.lo is not None:
                return Seq(eng.slice_segs(st, v))
            v = eng.read(st, v.root, v.steps)
        else:
            return v
    return Top("deref")


def lin_of(eng, st, v):
    return eng.as_lin(st, val(eng, st, v))


def new_root(eng, st, v, kind="tmp"):
    r = (kind, next(eng.fids))
    st.mem[r] = v
    return Ref(r, (), None, None, True)


def panic(eng, st, cond_ok, what, call):
    """states that do not panic; the panicking ones are reported to the hook"""
    h = eng.hooks.get("panic")
    if h:
        for s in eng.assume(st.copy(), neg(cond_ok)):
            h(eng, s, what, call.span if call else None)
    return eng.assume(st, cond_ok)


def fork_enum(eng, st, v, ty_path):
    """-> [(state, Agg)] for an Option/Result-like value (possibly behind a Ref, by value)"""
    if isinstance(v, Ref):
        r = rref(eng, st, v)
        t = eng.read(st, r.root, r.steps)
        if isinstance(t, Agg):
            return [(st, t)]
        out = []
        for s, _d in eng.discr_at(st, r.root, r.steps, t):
            out.append((s, eng.read(s, r.root, r.steps)))
        return out
    if isinstance(v, Agg):
        return [(st, v)]
    if isinstance(v, SymV) and eng.nvariants(v.ty):
        r = new_root(eng, st, v)
        out = []
        for s, _d in eng.discr_at(st, r.root, (), v):
            x = eng.read(s, r.root, ())
            out.append((s, x))
        return out
    return [(st, v)]


def fork_refs(eng, st, v):
    """[(state, Agg, Ref)] for &Option: keeps the place"""
    r = rref(eng, st, v)
    if r is None:
        return [(st, v, None)]
    t = eng.read(st, r.root, r.steps)
    if isinstance(t, Agg):
        return [(st, t, r)]
    return [(s, eng.read(s, r.root, r.steps), r) for s, _ in eng.discr_at(st, r.root, r.steps, t)]


def top(call, st):
    st.flag("unmodelled:" + call.path)
    return [(st, Top("unmodelled:" + call.path))]


def slice_of(eng, st, v):
    """(Ref to container, lo, n) of a slice-like argument"""
    r = rref(eng, st, v)
    if r is None:
        return None
    return r, (r.lo if r.lo is not None else ZERO), eng.slice_len(st, r)


def elem_ref(r, lo, i, mut=False):
    return Ref(r.root, r.steps + (("i", lo + i),), None, None, mut)


def generic_const(eng, st, k, fr, ty):
    n = k.get("named") or ""
    if n.endswith("BitPacker::BLOCK_LEN"):
        a = k.get("nargs") or []
        for t in a:
            if isinstance(t, int):
                t = eng.prog.rty(t, fr.env)
                if t[0] == "adt":
                    for m, v in (("4x", 128), ("8x", 256), ("1x", 32)):
                        if t[1].endswith("BitPacker" + m):
                            return Lin.const(v)
    if n.endswith("::MAX") or n.endswith("::MIN"):
        if ty[0] == "int":
            return Lin.const(INT_RANGE[ty[1]][1 if n.endswith("MAX") else 0])
    return None


def elem_size(t):
    if t is None:
        return None
    if t[0] == "int":
        return WIDTH[t[1]] // 8
    if t[0] == "float":
        return 4 if t[1] == "f32" else 8
    if t[0] == "bool":
        return 1
    return None


# ------------------------------------------------------------------- Vec
V = "alloc::vec::Vec::"


def vec(eng, st, v):
    r = rref(eng, st, v)
    if r is None:
        return None, None
    q = eng.read(st, r.root, r.steps)
    return r, q


@model(V + "new", "alloc::string::String::new", V + "default")
def vec_new(eng, st, args, call):
    return [(st, Seq())]


@model(V + "with_capacity", "alloc::string::String::with_capacity")
def vec_cap(eng, st, args, call):
    return [(st, Seq())]


@model("alloc::vec::from_elem")
def from_elem(eng, st, args, call):
    return [(st, Seq([("F", args[0], eng.as_lin(st, args[1]))]))]


def set_vec(eng, st, r, segs):
    h = eng.hooks.get("vecwrite")
    q = Seq(segs)
    eng.write(st, r.root, r.steps, q)


@model(V + "clear")
def vec_clear(eng, st, args, call):
    r, q = vec(eng, st, args[0])
    if r is None:
        return top(call, st)
    eng.write(st, r.root, r.steps, Seq())
    return [(st, UNIT)]


@model(V + "push")
def vec_push(eng, st, args, call):
    r, q = vec(eng, st, args[0])
    if not isinstance(q, Seq):
        if r is None or not isinstance(q, Top):
            return top(call, st)
        return [(st, UNIT)]
    segs = flat(eng, st, q)
    eng.write(st, r.root, r.steps, Seq(list(segs) + [("E", args[1])]))
    return [(st, UNIT)]


def flat(eng, st, q):
    """segments with the point updates folded in when possible"""
    if not q.upd:
        return q.segs
    n = q.len()
    return tuple(eng.sub(st, q, ZERO, n))


@model(V + "extend_from_slice", V + "append_slice")
def vec_extend(eng, st, args, call):
    r, q = vec(eng, st, args[0])
    if not isinstance(q, Seq):
        if r is None or not isinstance(q, Top):
            return top(call, st)
        return [(st, UNIT)]
    s = args[1]
    if rref(eng, st, s) is None:
        add = [("U", getattr(s, "reason", "slice"), eng.fresh_int("n"))]
    else:
        add = eng.slice_segs(st, rref(eng, st, s))
    eng.write(st, r.root, r.steps, Seq(list(flat(eng, st, q)) + list(add)))
    return [(st, UNIT)]


@model(V + "append")
def vec_append(eng, st, args, call):
    r, q = vec(eng, st, args[0])
    r2, q2 = vec(eng, st, args[1])
    if not isinstance(q, Seq) or not isinstance(q2, Seq):
        return top(call, st)
    eng.write(st, r.root, r.steps, Seq(list(flat(eng, st, q)) + list(flat(eng, st, q2))))
    eng.write(st, r2.root, r2.steps, Seq())
    return [(st, UNIT)]


@model(V + "resize")
def vec_resize(eng, st, args, call):
    r, q = vec(eng, st, args[0])
    if not isinstance(q, Seq):
        return top(call, st) if not isinstance(q, Top) else [(st, UNIT)]
    n = eng.as_lin(st, args[1])
    old = q.len()
    out = []
    if eng.ent_le(st, old, n):
        if not q.upd:
            eng.write(st, r.root, r.steps, Seq(list(q.segs) + [("F", args[2], n - old)]))
        else:
            eng.write(st, r.root, r.steps, Seq(list(q.segs) + [("F", args[2], n - old)], q.upd))
        return [(st, UNIT)]
    for s in eng.assume(st.copy(), le(old, n)):
        eng.write(s, r.root, r.steps, Seq(list(q.segs) + [("F", args[2], n - old)], q.upd))
        out.append((s, UNIT))
    for s in eng.assume(st, lt(n, old)):
        eng.write(s, r.root, r.steps, Seq(eng.sub(s, q, ZERO, n)))
        out.append((s, UNIT))
    return out


@model(V + "truncate")
def vec_truncate(eng, st, args, call):
    r, q = vec(eng, st, args[0])
    if not isinstance(q, Seq):
        return top(call, st) if not isinstance(q, Top) else [(st, UNIT)]
    n = eng.as_lin(st, args[1])
    out = []
    for s in eng.assume(st.copy(), le(n, q.len())):
        eng.write(s, r.root, r.steps, Seq(eng.sub(s, q, ZERO, n)))
        out.append((s, UNIT))
    for s in eng.assume(st, lt(q.len(), n)):
        out.append((s, UNIT))
    return out


@model(V + "reserve", V + "reserve_exact", V + "shrink_to_fit", V + "shrink_to", "alloc::string::String::reserve")
def vec_reserve(eng, st, args, call):
    r, q = vec(eng, st, args[0])
    return [(st, UNIT)] if r is not None and isinstance(q, (Seq, Top, SymV)) else top(call, st)


@model(V + "capacity")
def vec_capacity(eng, st, args, call):
    """any number not below the length"""
    r, q = vec(eng, st, args[0])
    if not isinstance(q, Seq):
        return top(call, st)
    c = eng.fresh_int("capacity", 0)
    return [(s, c) for s in eng.assume(st, le(q.len(), c))]


def vec_parts(eng, st, r, q, a, b):
    return [list(eng.sub(st, q, x, y)) for x, y in ((ZERO, a), (a, b), (b, q.len()))]


@model(V + "drain", V + "split_off", V + "remove", V + "swap_remove", V + "insert")
def vec_cut(eng, st, args, call):
    r, q = vec(eng, st, args[0])
    if not isinstance(q, Seq):
        return top(call, st)
    m, n = call.path.split("::")[-1], q.len()
    if m in ("drain", "split_off"):
        a, b = (eng.as_lin(st, args[1]), n) if m == "split_off" else as_range(eng, st, args[1], n) or (None, None)
        if a is None:
            return top(call, st)
        need = conj(le(a, b), le(b, n))
    else:
        a = eng.as_lin(st, args[1])
        if a is None:
            return top(call, st)
        b = a if m == "insert" else a + 1
        need = le(a, n) if m == "insert" else lt(a, n)
    out = []
    for s in panic(eng, st, need, m, call):
        x, y, z = vec_parts(eng, s, r, q, a, b)
        if m == "insert":
            eng.write(s, r.root, r.steps, Seq(x + [("E", args[2])] + z))
            out.append((s, UNIT))
        elif m in ("remove", "swap_remove"):
            v = eng.elem(s, q, a)
            if m == "swap_remove":
                for s2 in eng.assume(s.copy(), eq(a, n - 1)):
                    eng.write(s2, r.root, r.steps, Seq(x))
                    out.append((s2, v))
                for s2 in eng.assume(s, lt(a, n - 1)):
                    eng.write(s2, r.root, r.steps, Seq(x + [("E", eng.elem(s2, q, n - 1))] + list(eng.sub(s2, q, a + 1, n - 1))))
                    out.append((s2, v))
            else:
                eng.write(s, r.root, r.steps, Seq(x + z))
                out.append((s, v))
        else:
            eng.write(s, r.root, r.steps, Seq(x + z))
            t = Seq(y)
            out.append((s, t if m == "split_off" else as_iter(eng, s, t)))
    return out


@model(V + "extend_from_within")
def vec_extend_within(eng, st, args, call):
    r, q = vec(eng, st, args[0])
    if not isinstance(q, Seq):
        return top(call, st)
    g = as_range(eng, st, args[1], q.len())
    if g is None:
        return top(call, st)
    out = []
    for s in panic(eng, st, conj(le(g[0], g[1]), le(g[1], q.len())), "extend_from_within", call):
        eng.write(s, r.root, r.steps, Seq(list(flat(eng, s, q)) + list(eng.sub(s, q, g[0], g[1]))))
        out.append((s, UNIT))
    return out


@model(V + "pop")
def vec_pop(eng, st, args, call):
    r, q = vec(eng, st, args[0])
    if not isinstance(q, Seq):
        return top(call, st)
    n = q.len()
    out = []
    for s in eng.assume(st.copy(), lt(ZERO, n)):
        v = eng.elem(s, q, n - 1)
        eng.write(s, r.root, r.steps, Seq(eng.sub(s, q, ZERO, n - 1)))
        out.append((s, some(v)))
    for s in eng.assume(st, eq(n, ZERO)):
        out.append((s, NONE))
    return out


@model(V + "len", "slice::len", "str::len", "alloc::string::String::len")
def seq_len(eng, st, args, call):
    r = rref(eng, st, args[0])
    if r is None:
        return top(call, st)
    return [(st, eng.slice_len(st, r))]


@model(V + "is_empty", "slice::is_empty", "str::is_empty", "alloc::string::String::is_empty")
def seq_is_empty(eng, st, args, call):
    r = rref(eng, st, args[0])
    if r is None:
        return top(call, st)
    return [(st, BoolV(eq(eng.slice_len(st, r), ZERO)))]


@model(V + "as_slice", V + "as_mut_slice", "array::as_slice", "array::as_mut_slice", V + "deref", V + "deref_mut",
       "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref",
       "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut",
       "alloc::string::String::as_str", "alloc::string::String::as_bytes", "str::as_bytes", "core::pin::Pin::as_mut",
       "core::pin::Pin::get_mut", "core::pin::Pin::new_unchecked", "core::pin::Pin::new", "core::pin::Pin::get_unchecked_mut",
       "alloc::boxed::Box::as_ref", "alloc::boxed::Box::as_mut", "std::path::PathBuf::as_path", "alloc::boxed::Box::into_pin")
def as_same(eng, st, args, call):
    v = args[0]
    r = rref(eng, st, v)
    if r is None:
        return [(st, v)]
    # a smart pointer value stored in a place derefs to its pointee
    t = eng.read(st, r.root, r.steps)
    if isinstance(t, Agg) and t.kind == "adt" and t.path in ("alloc::rcs::arc::Arc", "alloc::sync::Arc", "alloc::rc::Rc"):
        return [(st, t.fields[0])]
    return [(st, r)]


def as_range(eng, st, v, n):
    """(lo, hi) of a range value applied to a sequence of length n"""
    if isinstance(v, Agg) and v.path:
        p = v.path.split("::")[-1]
        f = [eng.as_lin(st, x) for x in v.fields] if p != "RangeFull" else []
        if p == "Range":
            return f[0], f[1]
        if p == "RangeFrom":
            return f[0], n
        if p == "RangeTo":
            return ZERO, f[0]
        if p == "RangeFull":
            return ZERO, n
        if p == "RangeInclusive":
            return f[0], f[1] + 1
        if p == "RangeToInclusive":
            return ZERO, f[0] + 1
    return None


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def index(eng, st, args, call):
    r = rref(eng, st, args[0])
    if r is None:
        return top(call, st)
    t = eng.read(st, r.root, r.steps)
    if not isinstance(t, (Seq, Top)) and not (isinstance(t, SymV)):
        return None
    n = eng.slice_len(st, r)
    base = r.lo if r.lo is not None else ZERO
    i = args[1]
    if isinstance(i, Lin):
        out = []
        for s in panic(eng, st, lt(i, n), "index out of bounds", call):
            out.append((s, Ref(r.root, r.steps + (("i", base + i),), None, None, r.mut)))
        return out
    rg = as_range(eng, st, i, n)
    if rg is None:
        return top(call, st)
    lo, hi = rg
    out = []
    for s in panic(eng, st, conj(le(lo, hi), le(hi, n)), "slice range out of bounds", call):
        out.append((s, Ref(r.root, r.steps, base + lo, base + hi, r.mut)))
    return out


@model("slice::get", "slice::get_mut", "slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def slice_get(eng, st, args, call):
    r = rref(eng, st, args[0])
    if r is None:
        return top(call, st)
    n = eng.slice_len(st, r)
    base = r.lo if r.lo is not None else ZERO
    m = call.path.split("::")[-1]
    out = []
    if m.startswith("get"):
        i = args[1]
        if not isinstance(i, Lin):
            rg = as_range(eng, st, i, n)
            if rg is None:
                return top(call, st)
            c = conj(le(rg[0], rg[1]), le(rg[1], n))
            for s in eng.assume(st.copy(), c):
                out.append((s, some(Ref(r.root, r.steps, base + rg[0], base + rg[1], True))))
            for s in eng.assume(st, neg(c)):
                out.append((s, NONE))
            return out
        c, at = lt(i, n), i
    elif m.startswith("first"):
        c, at = lt(ZERO, n), ZERO
    else:
        c, at = lt(ZERO, n), n - 1
    for s in eng.assume(st.copy(), c):
        out.append((s, some(elem_ref(r, base, at, True))))
    for s in eng.assume(st, neg(c)):
        out.append((s, NONE))
    return out


@model("slice::split_at", "slice::split_at_mut")
def split_at(eng, st, args, call):
    r = rref(eng, st, args[0])
    if r is None:
        return top(call, st)
    n = eng.slice_len(st, r)
    base = r.lo if r.lo is not None else ZERO
    i = eng.as_lin(st, args[1])
    return [(s, tup(Ref(r.root, r.steps, base, base + i, r.mut), Ref(r.root, r.steps, base + i, base + n, r.mut)))
            for s in panic(eng, st, le(i, n), "split_at", call)]


@model("slice::to_vec", "alloc::borrow::ToOwned::to_owned", "core::clone::Clone::clone", "slice::into_vec", "slice::to_owned",
       "alloc::string::ToString::to_string", "str::to_string", "core::clone::CloneToUninit::clone_to_uninit", "core::option::Option::cloned",
       "core::option::Option::copied", "str::to_owned")
def clone(eng, st, args, call):
    v = args[0]
    if call.path.endswith("cloned") or call.path.endswith("copied"):
        out = []
        for s, o in fork_enum(eng, st, v, OPT):
            if isinstance(o, Agg) and o.variant == 1:
                out.append((s, some(val(eng, s, o.fields[0]))))
            else:
                out.append((s, o))
        return out
    r = rref(eng, st, v)
    if r is None:
        return [(st, v)]
    t = val(eng, st, r)
    if isinstance(t, Agg) and t.kind == "adt" and t.path not in eng.prog.adts and False:
        return None
    return [(st, t)]


# `write through a slice`: copy_from_slice / fill
@model("slice::copy_from_slice", "slice::clone_from_slice")
def copy_from_slice(eng, st, args, call):
    d, s = rref(eng, st, args[0]), rref(eng, st, args[1])
    if d is None or s is None:
        return top(call, st)
    n = eng.slice_len(st, d)
    m = eng.slice_len(st, s)
    out = []
    for x in panic(eng, st, eq(n, m), "copy_from_slice lengths", call):
        write_range(eng, x, d, eng.slice_segs(x, s))
        out.append((x, UNIT))
    return out


@model("slice::fill")
def slice_fill(eng, st, args, call):
    d = rref(eng, st, args[0])
    if d is None:
        return top(call, st)
    write_range(eng, st, d, [("F", args[1], eng.slice_len(st, d))])
    return [(st, UNIT)]


def write_range(eng, st, d, segs):
    """overwrite the slice d with segs (same length)"""
    q = eng.read(st, d.root, d.steps)
    if not isinstance(q, Seq):
        eng.write(st, d.root, d.steps, Top("slice write"))
        return
    if d.lo is None:
        eng.write(st, d.root, d.steps, Seq(segs))
        return
    n = q.len()
    a = eng.sub(st, q, ZERO, d.lo)
    b = eng.sub(st, q, d.hi, n)
    eng.write(st, d.root, d.steps, Seq(list(a) + list(segs) + list(b)))


# ------------------------------------------------------------- Option/Result
def enum_map(eng, st, args, call, path, pick, fn):
    out = []
    for s, o in fork_enum(eng, st, args[0], path):
        if not isinstance(o, Agg):
            out.extend(top(call, s))
        elif o.variant == pick:
            out.extend(fn(s, o))
        else:
            out.append((s, o))
    return out


O = "core::option::Option::"
RS = "core::result::Result::"


@model(O + "is_some", O + "is_none", RS + "is_ok", RS + "is_err")
def is_variant(eng, st, args, call):
    want = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[call.path.split("::")[-1]]
    h = eng.hooks.get("resultop")
    out = []
    for s, o, _r in fork_refs(eng, st, args[0]):
        if not isinstance(o, Agg):
            out.append((s, BoolV(eq(eng.as_lin(s, o), ONE))))
        else:
            out.append((s, TRUE if o.variant == want else FALSE))
    return out


@model(O + "as_ref", O + "as_mut", O + "as_deref", O + "as_deref_mut", RS + "as_ref", RS + "as_mut")
def opt_as_ref(eng, st, args, call):
    out = []
    mut = "mut" in call.path
    for s, o, r in fork_refs(eng, st, args[0]):
        if not isinstance(o, Agg) or r is None:
            out.extend(top(call, s))
        elif not o.fields:
            out.append((s, NONE))
        else:
            out.append((s, Agg("adt", o.path, o.variant, o.vname, (Ref(r.root, r.steps + (("f", 0),), None, None, mut),))))
    return out


@model(O + "map", RS + "map")
def opt_map(eng, st, args, call):
    pick = 1 if ".Option" in call.path or call.path.startswith(O) else 0

    def f(s, o):
        return [(s2, Agg("adt", o.path, o.variant, o.vname, (v,)))
                for s2, v in eng.call_value(s, args[1], [o.fields[0]], call.frame, call.span)]
    return enum_map(eng, st, args, call, None, pick, f)


@model(O + "and_then", RS + "and_then")
def opt_and_then(eng, st, args, call):
    pick = 1 if call.path.startswith(O) else 0
    return enum_map(eng, st, args, call, None, pick,
                    lambda s, o: eng.call_value(s, args[1], [o.fields[0]], call.frame, call.span))


@model(RS + "map_err")
def map_err(eng, st, args, call):
    def f(s, o):
        return [(s2, err(v)) for s2, v in eng.call_value(s, args[1], [o.fields[0]], call.frame, call.span)]
    return enum_map(eng, st, args, call, None, 1, f)


@model(O + "unwrap", O + "expect", RS + "unwrap", RS + "expect")
def unwrap(eng, st, args, call):
    good = 1 if call.path.startswith(O) else 0
    out = []
    for s, o in fork_enum(eng, st, args[0], None):
        if not isinstance(o, Agg):
            out.append((s, Top(getattr(o, "reason", "unwrap"))))
        elif o.variant == good:
            out.append((s, o.fields[0]))
        else:
            h = eng.hooks.get("panic")
            if h:
                h(eng, s, "explicit:unwrap of %s" % o.vname, call.span)
    return out


@model(O + "unwrap_or", RS + "unwrap_or", O + "unwrap_or_default", RS + "unwrap_or_default", O + "unwrap_or_else", RS + "unwrap_or_else")
def unwrap_or(eng, st, args, call):
    isopt = call.path.startswith(O)
    good = 1 if isopt else 0
    m = call.path.split("::")[-1]
    out = []
    for s, o in fork_enum(eng, st, args[0], None):
        if not isinstance(o, Agg):
            out.extend(top(call, s))
        elif o.variant == good:
            out.append((s, o.fields[0]))
        else:
            if not isopt:
                swallow(eng, s, call)
            if m == "unwrap_or":
                out.append((s, args[1]))
            elif m == "unwrap_or_else":
                out.extend(eng.call_value(s, args[1], [] if isopt else [o.fields[0]], call.frame, call.span))
            else:
                out.append((s, default_of(eng, call.dest_ty)))
    return out


def swallow(eng, st, call):
    h = eng.hooks.get("swallow")
    if h:
        h(eng, st, call)


def default_of(eng, ty):
    if ty is None:
        return Top("default")
    if ty[0] == "int":
        return ZERO
    if ty[0] == "bool":
        return FALSE
    if ty[0] == "adt" and ty[1] in ("alloc::vec::Vec", "alloc::string::String"):
        return Seq()
    if ty[0] == "adt" and ty[1] == OPT:
        return NONE
    return SymV(("default", str(ty)), ty)


@model(O + "map_or", O + "map_or_else", RS + "map_or", RS + "map_or_else")
def map_or(eng, st, args, call):
    isopt = call.path.startswith(O)
    good = 1 if isopt else 0
    lazy = call.path.endswith("_else")
    out = []
    for s, o in fork_enum(eng, st, args[0], None):
        if not isinstance(o, Agg):
            out.extend(top(call, s))
        elif o.variant == good:
            out.extend(eng.call_value(s, args[2], [o.fields[0]], call.frame, call.span))
        elif lazy:
            out.extend(eng.call_value(s, args[1], [] if isopt else [o.fields[0]], call.frame, call.span))
        else:
            out.append((s, args[1]))
    return out


@model(O + "ok_or", O + "ok_or_else")
def ok_or(eng, st, args, call):
    out = []
    for s, o in fork_enum(eng, st, args[0], None):
        if not isinstance(o, Agg):
            out.extend(top(call, s))
        elif o.variant == 1:
            out.append((s, ok(o.fields[0])))
        elif call.path.endswith("_else"):
            out.extend((s2, err(v)) for s2, v in eng.call_value(s, args[1], [], call.frame, call.span))
        else:
            out.append((s, err(args[1])))
    return out


@model(RS + "ok", RS + "err")
def res_ok(eng, st, args, call):
    want = 0 if call.path.endswith("ok") else 1
    out = []
    for s, o in fork_enum(eng, st, args[0], None):
        if not isinstance(o, Agg):
            out.extend(top(call, s))
        elif o.variant == want:
            out.append((s, some(o.fields[0])))
        else:
            out.append((s, NONE))
    return out


@model(O + "filter")
def opt_filter(eng, st, args, call):
    out = []
    for s, o in fork_enum(eng, st, args[0], None):
        if not isinstance(o, Agg):
            out.extend(top(call, s))
        elif o.variant == 0:
            out.append((s, NONE))
        else:
            r = new_root(eng, s, o.fields[0])
            for s2, b in eng.call_value(s, args[1], [r], call.frame, call.span):
                c = eng.as_cond(s2, b)
                out.extend((s3, o) for s3 in eng.assume(s2.copy(), c))
                out.extend((s3, NONE) for s3 in eng.assume(s2, neg(c)))
    return out


@model(O + "take")
def opt_take(eng, st, args, call):
    out = []
    for s, o, r in fork_refs(eng, st, args[0]):
        eng.write(s, r.root, r.steps, NONE)
        out.append((s, o))
    return out


@model(O + "or", O + "or_else")
def opt_or(eng, st, args, call):
    out = []
    for s, o in fork_enum(eng, st, args[0], None):
        if not isinstance(o, Agg):
            out.extend(top(call, s))
        elif o.variant == 1:
            out.append((s, o))
        elif call.path.endswith("else"):
            out.extend(eng.call_value(s, args[1], [], call.frame, call.span))
        else:
            out.append((s, args[1]))
    return out


@model("core::ops::try_trait::Try::branch")
def branch(eng, st, args, call):
    out = []
    for s, o in fork_enum(eng, st, args[0], None):
        if not isinstance(o, Agg):
            out.extend(top(call, s))
            continue
        if o.path == RES:
            if o.variant == 0:
                out.append((s, Agg("adt", CF, 0, "Continue", (o.fields[0],))))
            else:
                out.append((s, Agg("adt", CF, 1, "Break", (err(o.fields[0]),))))
        elif o.path == OPT:
            if o.variant == 1:
                out.append((s, Agg("adt", CF, 0, "Continue", (o.fields[0],))))
            else:
                out.append((s, Agg("adt", CF, 1, "Break", (NONE,))))
        else:
            out.extend(top(call, s))
    return out


@model("core::ops::try_trait::FromResidual::from_residual")
def from_residual(eng, st, args, call):
    v = args[0]
    if isinstance(v, Agg) and v.path == RES and v.variant == 1:
        return [(st, err(("wrapped" and SymV(("from", eng.term(st, v.fields[0]))))))]
    if isinstance(v, Agg) and v.path == OPT:
        return [(st, NONE)]
    return top(call, st)


@model("core::ops::try_trait::Try::from_output")
def from_output(eng, st, args, call):
    if call.dest_ty and call.dest_ty[1] == OPT:
        return [(st, some(args[0]))]
    return [(st, ok(args[0]))]


@model("anyhow::Context::context", "anyhow::Context::with_context")
def context(eng, st, args, call):
    out = []
    for s, o in fork_enum(eng, st, args[0], None):
        if not isinstance(o, Agg):
            out.extend(top(call, s))
        elif (o.path == RES and o.variant == 0):
            out.append((s, o))
        elif o.path == OPT and o.variant == 1:
            out.append((s, ok(o.fields[0])))
        else:
            out.append((s, err(SymV(("context", eng.term(s, o))))))
    return out


# ------------------------------------------------------------------ numbers
@model("core::mem::size_of", "std::mem::size_of")
def size_of(eng, st, args, call):
    a = call.fn.get("args") or []
    t = eng.prog.rty(a[0], call.env) if a and isinstance(a[0], int) else None
    n = elem_size(t)
    if n is None:
        x = ("sizeof", str(t))
        BOUND.setdefault(x, (1, 4096))
        return [(st, Lin.atom(x))]
    return [(st, Lin.const(n))]


@model("core::mem::size_of_val")
def size_of_val(eng, st, args, call):
    a = call.fn.get("args") or []
    t = eng.prog.rty(a[0], call.env) if a and isinstance(a[0], int) else None
    if t and t[0] == "slice":
        n = elem_size(t[1])
        r = rref(eng, st, args[0])
        if n is not None and r is not None:
            return [(st, eng.slice_len(st, r).scale(n))]
    n = elem_size(t)
    if n is not None:
        return [(st, Lin.const(n))]
    return [(st, eng.fresh_int("size"))]


INTS = tuple(INT_RANGE)


def int_method(path):
    p = path.split("::")
    if len(p) == 2 and p[0] in INT_RANGE:
        return p[0], p[1]
    if len(p) == 3 and p[0] == "core" and p[1] == "num":
        return None, p[2]
    if len(p) >= 3 and p[-2].startswith("{impl"):
        return None, p[-1]
    return None, None


def int_dispatch(eng, st, args, call):
    ty, m = int_method(call.path)
    if ty is None:
        return None
    lo, hi = INT_RANGE[ty]
    x = lin_of(eng, st, args[0]) if args else None
    y = lin_of(eng, st, args[1]) if len(args) > 1 else None
    op = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x.scale(y.c) if y.is_const() else (y.scale(x.c) if x.is_const() else Lin.atom(("mul",) + tuple(sorted((x, y), key=repr))))}
    for pre in ("checked_", "wrapping_", "saturating_", "overflowing_", "unchecked_"):
        if m.startswith(pre) and m[len(pre):] in op:
            r = op[m[len(pre):]]()
            c = conj(le(r, Lin.const(hi)), le(Lin.const(lo), r))
            out = []
            if pre == "checked_":
                for s in eng.assume(st.copy(), c):
                    out.append((s, some(r)))
                for s in eng.assume(st, neg(c)):
                    s.flag("overflow:" + ty)
                    out.append((s, NONE))
                return out
            if pre == "unchecked_":
                return [(st, r)]
            for s in eng.assume(st.copy(), c):
                out.append((s, r if pre != "overflowing_" else tup(r, FALSE)))
            for s in eng.assume(st, neg(c)):
                h = eng.hooks.get("wrap")
                if h:
                    h(eng, s, m, ty, x, y, call)
                if pre == "saturating_":
                    for s2 in eng.assume(s.copy(), lt(Lin.const(hi), r)):
                        out.append((s2, Lin.const(hi)))
                    for s2 in eng.assume(s, lt(r, Lin.const(lo))):
                        out.append((s2, Lin.const(lo)))
                elif pre == "wrapping_":
                    out.append((s, eng.wrap(s, ty, r)))
                else:
                    out.append((s, tup(eng.wrap(s, ty, r), TRUE)))
            return out
    if m == "leading_zeros":
        w = WIDTH[ty]
        if not eng.hooks.get("fork_lz"):
            return [(st, SymLz(eng, st, x, w))]
        out = []
        for k in range(w + 1):
            for s in eng.assume(st.copy(), conj(le(Lin.const((1 << k) >> 1), x), lt(x, Lin.const(1 << k)))):
                out.append((s, Lin.const(w - k)))
        return out
    if m == "trailing_zeros":
        return [(st, Lin.atom(bnd(("tz", x), 0, WIDTH[ty])))]
    if m == "count_ones":
        return [(st, Lin.atom(bnd(("popcnt", x), 0, WIDTH[ty])))]
    if m in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
        n = WIDTH[ty] // 8
        kind = {"to_le_bytes": "le", "to_be_bytes": "be", "to_ne_bytes": "le"}[m]
        return [(st, Seq([("X", kind, (x, n), Lin.const(n))]))]
    if m in ("min", "max"):
        return minmax(eng, st, x, y, m)
    if m == "div_ceil" and y is not None and y.is_const() and y.c > 0:
        return [(st, mk_div(x + (y.c - 1), y.c))]
    if m == "next_multiple_of" and y is not None and y.is_const() and y.c > 0:
        return [(st, mk_div(x + (y.c - 1), y.c).scale(y.c))]
    if m == "abs_diff":
        out = []
        for s in eng.assume(st.copy(), le(y, x)):
            out.append((s, x - y))
        for s in eng.assume(st, lt(x, y)):
            out.append((s, y - x))
        return out
    if m in ("max_value", "min_value"):
        return [(st, Lin.const(hi if m == "max_value" else lo))]
    if m == "is_power_of_two" and x.is_const():
        return [(st, TRUE if x.c > 0 and x.c & (x.c - 1) == 0 else FALSE)]
    if m == "pow" and x.is_const() and y.is_const():
        return [(st, Lin.const(x.c ** y.c))]
    return None


def bnd(a, lo, hi):
    BOUND.setdefault(a, (lo, hi))
    return a


def SymLz(eng, st, x, w):
    return Lin.atom(bnd(("lz", x, w), 0, w))


def minmax(eng, st, x, y, m):
    out = []
    for s in eng.assume(st.copy(), le(x, y)):
        out.append((s, x if m == "min" else y))
    for s in eng.assume(st, lt(y, x)):
        out.append((s, y if m == "min" else x))
    return out


@model("core::cmp::Ord::max", "core::cmp::Ord::min", "core::cmp::max", "core::cmp::min")
def ord_minmax(eng, st, args, call):
    x, y = args[0], args[1]
    if not (isinstance(x, Lin) and isinstance(y, Lin)):
        return top(call, st)
    return minmax(eng, st, x, y, call.fn["path"].split("::")[-1])


@model("core::convert::From::from", "core::convert::Into::into")
def conv_from(eng, st, args, call):
    v = args[0]
    if isinstance(v, Lin):
        t = call.dest_ty
        if t and t[0] == "int":
            return [(st, v)]
    if isinstance(v, BoolV):
        b = eng.bool_lin(st, v)
        if call.dest_ty and call.dest_ty[0] == "int":
            if b is not None:
                return [(st, b)]
            return [(s, ONE) for s in eng.assume(st.copy(), v.c)] + [(s, ZERO) for s in eng.assume(st, neg(v.c))]
    t = call.dest_ty
    if t and t[0] == "adt" and t[1] in ("alloc::vec::Vec", "alloc::string::String", "alloc::boxed::Box"):
        x = val(eng, st, v)
        if isinstance(x, Seq):
            return [(st, x)]
    if t and t[0] == "int" and isinstance(v, (Agg, SymV)):
        # enum to its number
        if isinstance(v, Agg):
            d = eng.discr_at(st, ("x",), (), v)[0][1]
            return [(st, d)]
        return [(st, eng.mk_sym(("into", v.term), t))]
    if t and isinstance(v, Agg) and v.path == t[1] if t and len(t) > 1 else False:
        return [(st, v)]
    return [(st, SymV(("from", eng.term(st, v)), t))]


@model("core::convert::TryFrom::try_from", "core::convert::TryInto::try_into")
def try_from(eng, st, args, call):
    t = call.dest_ty
    if t and t[0] == "adt" and t[1] == RES and t[2] and t[2][0][0] == "int":
        x = lin_of(eng, st, args[0])
        lo, hi = INT_RANGE[t[2][0][1]]
        c = conj(le(Lin.const(lo), x), le(x, Lin.const(hi)))
        out = []
        for s in eng.assume(st.copy(), c):
            out.append((s, ok(x)))
        for s in eng.assume(st, neg(c)):
            s.flag("overflow:" + t[2][0][1])
            out.append((s, err(SymV(("tryfromint",)))))
        return out
    return top(call, st)


@model("core::ops::arith::Sub::sub", "core::ops::arith::Add::add", "core::ops::arith::Mul::mul", "core::ops::arith::Div::div", "core::ops::arith::Rem::rem",
       "core::ops::bit::BitAnd::bitand", "core::ops::bit::BitOr::bitor", "core::ops::bit::Shr::shr", "core::ops::bit::Shl::shl")
def arith(eng, st, args, call):
    x, y = val(eng, st, args[0]), val(eng, st, args[1])
    if not (isinstance(x, Lin) and isinstance(y, Lin)):
        return top(call, st)
    op = {"sub": "Sub", "add": "Add", "mul": "Mul", "div": "Div", "rem": "Rem", "bitand": "BitAnd", "bitor": "BitOr", "shr": "Shr", "shl": "Shl"}[call.fn["path"].split("::")[-1]]
    t = None
    for a in call.fn.get("args") or []:
        if isinstance(a, int):
            t = eng.prog.rty(a, call.env)
            while t and t[0] == "ref":
                t = t[1]
            break
    if op == "Sub" and t and t[0] == "int" and t[1].startswith("u"):
        return [(s, x - y) for s in panic(eng, st, le(y, x), "subtraction underflow", call)]
    return eng.binop(call.frame, st, op, x, y, t, call.span)


@model("core::ops::arith::AddAssign::add_assign", "core::ops::arith::SubAssign::sub_assign")
def arith_assign(eng, st, args, call):
    r = rref(eng, st, args[0])
    x, y = val(eng, st, args[0]), val(eng, st, args[1])
    if r is None or not (isinstance(x, Lin) and isinstance(y, Lin)):
        return top(call, st)
    eng.write(st, r.root, r.steps, x + y if "add" in call.fn["path"] else x - y)
    return [(st, UNIT)]


@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne", "core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le",
       "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def cmp(eng, st, args, call):
    op = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[call.fn["path"].split("::")[-1]]
    x, y = val(eng, st, args[0]), val(eng, st, args[1])
    if isinstance(x, (Lin, BoolV)) and isinstance(y, (Lin, BoolV)):
        return [(st, eng.compare(st, op, x, y))]
    if op in ("Eq", "Ne") and isinstance(y, SymV) and isinstance(x, Agg):
        args, x, y = [args[1], args[0]], y, x
    if op in ("Eq", "Ne") and isinstance(x, SymV) and isinstance(y, Agg) and y.kind == "adt" and not y.fields:
        # a variant without fields: the same one or not
        t = x.ty
        while t and t[0] == "ref":
            t = t[1]
        r = rref(eng, st, args[0])
        if r is not None and t and t[0] == "adt" and t[1] == y.path and eng.nvariants(t):
            while True:
                x = eng.read(st, r.root, r.steps)
                if not (isinstance(x, Ref) and x.lo is None):
                    break
                r = x
            if isinstance(x, SymV) and x.ty and x.ty[0] == "adt":
                out = []
                for s, _ in eng.discr_at(st, r.root, r.steps, x):
                    z = eng.read(s, r.root, r.steps)
                    same = isinstance(z, Agg) and z.variant == y.variant
                    out.append((s, TRUE if same == (op == "Eq") else FALSE))
                return out
    if isinstance(x, Seq) and isinstance(y, Seq) and op in ("Eq", "Ne"):
        if eng.seq_eq(st, eng.sub(st, x, ZERO, x.len()), eng.sub(st, y, ZERO, y.len())):
            return [(st, TRUE if op == "Eq" else FALSE)]
        if eng.entails(st, ne(x.len(), y.len())):
            return [(st, FALSE if op == "Eq" else TRUE)]
    return [(st, eng.compare(st, op, x, y))]


@model("core::intrinsics::discriminant_value", "core::mem::discriminant")
def discriminant(eng, st, args, call):
    r = rref(eng, st, args[0])
    if r is None or r.lo is not None:
        return top(call, st)
    return eng.discr_at(st, r.root, r.steps, eng.read(st, r.root, r.steps))


@model("core::mem::take", "core::mem::replace", "core::mem::swap")
def mem_take(eng, st, args, call):
    r = rref(eng, st, args[0])
    if r is None:
        return top(call, st)
    old = eng.read(st, r.root, r.steps)
    m = call.path.split("::")[-1]
    if m == "replace":
        eng.write(st, r.root, r.steps, args[1])
        return [(st, old)]
    if m == "swap":
        r2 = rref(eng, st, args[1])
        if r2 is None:
            return top(call, st)
        o2 = eng.read(st, r2.root, r2.steps)
        eng.write(st, r.root, r.steps, o2)
        eng.write(st, r2.root, r2.steps, old)
        return [(st, UNIT)]
    nv = Seq() if isinstance(old, Seq) else (ZERO if isinstance(old, Lin) else (FALSE if isinstance(old, BoolV) else (NONE if isinstance(old, Agg) and old.path == OPT else None)))
    if nv is None:
        # a local Default implementation
        t = None
        a = call.fn.get("args") or []
        if a and isinstance(a[0], int):
            t = eng.prog.rty(a[0], call.env)
        p = "<%s as core::default::Default>::default" % (t[1] if t and len(t) > 1 else "?")
        b = eng.prog.bodies.get(p)
        if b is None:
            return top(call, st)
        out = []
        for s, v in eng.call_body(st, b, [], {}, (call.frame.depth if call.frame else 0) + 1, call.span):
            eng.write(s, r.root, r.steps, v)
            out.append((s, old))
        return out
    eng.write(st, r.root, r.steps, nv)
    return [(st, old)]


@model("core::mem::drop", "core::mem::forget")
def mem_drop(eng, st, args, call):
    h = eng.hooks.get("drop")
    if h:
        h(eng, st, args[0], call)
    return [(st, UNIT)]


# ----------------------------------------------------------------- iterators
def it(kind, *f):
    return Agg("it", kind, 0, None, f)


@model("slice::iter", "slice::iter_mut", V + "iter", V + "iter_mut")
def slice_iter(eng, st, args, call):
    s = slice_of(eng, st, args[0])
    if s is None:
        return top(call, st)
    r, lo, n = s
    return [(st, it("slice", Ref(r.root, r.steps, lo, lo + n, r.mut), ZERO))]


@model("slice::chunks", "slice::chunks_exact", "slice::chunks_mut")
def slice_chunks(eng, st, args, call):
    s = slice_of(eng, st, args[0])
    if s is None:
        return top(call, st)
    r, lo, n = s
    return [(st, it("chunks", Ref(r.root, r.steps, lo, lo + n, r.mut), ZERO, eng.as_lin(st, args[1]), TRUE if "exact" in call.path else FALSE))]


@model("slice::windows")
def slice_windows(eng, st, args, call):
    s = slice_of(eng, st, args[0])
    if s is None:
        return top(call, st)
    r, lo, n = s
    return [(st, it("windows", Ref(r.root, r.steps, lo, lo + n, r.mut), ZERO, eng.as_lin(st, args[1])))]


@model("core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(eng, st, args, call):
    v = args[0]
    i = as_iter(eng, st, v)
    if i is None:
        return top(call, st)
    return [(st, i)]


def as_iter(eng, st, v):
    if isinstance(v, Agg) and v.kind == "it":
        return v
    if isinstance(v, Agg) and v.path and v.path.startswith(R_):
        p = v.path.split("::")[-1]
        f = [eng.as_lin(st, x) for x in v.fields[:2]]
        if p == "Range":
            return it("range", f[0], f[1])
        if p == "RangeInclusive":
            return it("range", f[0], f[1] + 1)
        if p == "RangeFrom":
            return it("rangefrom", f[0])
    if isinstance(v, Seq):
        r = new_root(eng, st, v, "own")
        return it("owned", Ref(r.root, (), ZERO, v.len()), ZERO)
    if isinstance(v, Agg) and v.path == OPT:
        return it("option", v)
    if isinstance(v, Ref):
        t = eng.read(st, v.root, v.steps) if v.lo is None else None
        if isinstance(t, Agg) and t.kind == "it":
            return it("byref", v)
        r = rref(eng, st, v)
        q = eng.read(st, r.root, r.steps)
        if isinstance(q, (Seq, SymV)):
            lo = r.lo if r.lo is not None else ZERO
            return it("slice", Ref(r.root, r.steps, lo, lo + eng.slice_len(st, r), r.mut), ZERO)
    return None


def it_next(eng, st, i, fr, span):
    """-> [(state, iterator, element | None)]"""
    k = i.path
    if k == "range":
        out = []
        lo, hi = i.fields
        for s in eng.assume(st.copy(), lt(lo, hi)):
            out.append((s, it("range", lo + 1, hi), lo))
        for s in eng.assume(st, le(hi, lo)):
            out.append((s, i, None))
        return out
    if k == "rangefrom":
        return [(st, it("rangefrom", i.fields[0] + 1), i.fields[0])]
    if k in ("slice", "owned"):
        r, pos = i.fields
        n = r.hi - r.lo
        out = []
        for s in eng.assume(st.copy(), lt(pos, n)):
            er = Ref(r.root, r.steps + (("i", r.lo + pos),), None, None, r.mut)
            e = er if k == "slice" else eng.read(s, er.root, er.steps)
            out.append((s, it(k, r, pos + 1), e))
        for s in eng.assume(st, le(n, pos)):
            out.append((s, i, None))
        return out
    if k == "chunks":
        r, pos, sz, exact = i.fields
        n = r.hi - r.lo
        out = []
        for s in eng.assume(st.copy(), le(pos + sz, n)):
            out.append((s, it(k, r, pos + sz, sz, exact), Ref(r.root, r.steps, r.lo + pos, r.lo + pos + sz, r.mut)))
        if exact == FALSE:
            for s in eng.assume(st.copy(), conj(lt(pos, n), lt(n, pos + sz))):
                out.append((s, it(k, r, n, sz, exact), Ref(r.root, r.steps, r.lo + pos, r.hi, r.mut)))
            for s in eng.assume(st, le(n, pos)):
                out.append((s, i, None))
        else:
            for s in eng.assume(st, lt(n, pos + sz)):
                out.append((s, i, None))
        return out
    if k == "windows":
        r, pos, sz = i.fields
        n = r.hi - r.lo
        out = []
        for s in eng.assume(st.copy(), le(pos + sz, n)):
            out.append((s, it(k, r, pos + 1, sz), Ref(r.root, r.steps, r.lo + pos, r.lo + pos + sz, r.mut)))
        for s in eng.assume(st, lt(n, pos + sz)):
            out.append((s, i, None))
        return out
    if k == "map":
        out = []
        for s, j, e in it_next(eng, st, i.fields[0], fr, span):
            if e is None:
                out.append((s, it("map", j, i.fields[1]), None))
            else:
                for s2, v in eng.call_value(s, i.fields[1], [e], fr, span):
                    out.append((s2, it("map", j, i.fields[1]), v))
        return out
    if k == "enumerate":
        out = []
        for s, j, e in it_next(eng, st, i.fields[0], fr, span):
            if e is None:
                out.append((s, it(k, j, i.fields[1]), None))
            else:
                out.append((s, it(k, j, i.fields[1] + 1), tup(i.fields[1], e)))
        return out
    if k in ("copied", "cloned"):
        out = []
        for s, j, e in it_next(eng, st, i.fields[0], fr, span):
            out.append((s, it(k, j), None if e is None else val(eng, s, e)))
        return out
    if k == "zip":
        out = []
        for s, j, e in it_next(eng, st, i.fields[0], fr, span):
            if e is None:
                out.append((s, it(k, j, i.fields[1]), None))
                continue
            for s2, j2, e2 in it_next(eng, s, i.fields[1], fr, span):
                out.append((s2, it(k, j, j2), None if e2 is None else tup(e, e2)))
        return out
    if k == "take":
        out = []
        for s in eng.assume(st.copy(), lt(ZERO, i.fields[1])):
            for s2, j, e in it_next(eng, s, i.fields[0], fr, span):
                out.append((s2, it(k, j, i.fields[1] - 1 if e is not None else i.fields[1]), e))
        for s in eng.assume(st, le(i.fields[1], ZERO)):
            out.append((s, i, None))
        return out
    if k == "option":
        o = i.fields[0]
        out = []
        for s, v in fork_enum(eng, st, o, OPT):
            if isinstance(v, Agg) and v.variant == 1:
                out.append((s, it("option", NONE), v.fields[0]))
            else:
                out.append((s, it("option", NONE), None))
        return out
    if k == "byref":
        r = i.fields[0]
        inner = eng.read(st, r.root, r.steps)
        out = []
        for s, j, e in it_next(eng, st, inner, fr, span):
            eng.write(s, r.root, r.steps, j)
            out.append((s, i, e))
        return out
    if k == "done":
        return [(st, i, None)]
    if k in ("filter", "filtermap"):
        def body(s, e):
            out = []
            if k == "filtermap":
                for s2, o in eng.call_value(s, i.fields[1], [e], fr, span):
                    for s3, w in fork_enum(eng, s2, o, OPT):
                        if not isinstance(w, Agg):
                            s3.flag("unmodelled:filter_map")
                            out.append((s3, Top("filter_map")))
                        else:
                            out.append((s3, w.fields[0] if w.variant == 1 else None))
                return out
            for s2, b in eng.call_value(s, i.fields[1], [new_root(eng, s, e)], fr, span):
                c = eng.as_cond(s2, b)
                out += [(s3, e) for s3 in eng.assume(s2.copy(), c)] + [(s3, None) for s3 in eng.assume(s2, neg(c))]
            return out
        return [(s, it(k, j, i.fields[1]), None if why == "end" else why[1]) for s, j, why in drain(eng, st, i.fields[0], body, fr, span)]
    if k == "skipwhile":
        if i.fields[2] == TRUE:
            return [(s, it(k, j, i.fields[1], TRUE), e) for s, j, e in it_next(eng, st, i.fields[0], fr, span)]

        def body(s, e):
            out = []
            for s2, b in eng.call_value(s, i.fields[1], [new_root(eng, s, e)], fr, span):
                c = eng.as_cond(s2, b)
                out += [(s3, None) for s3 in eng.assume(s2.copy(), c)] + [(s3, e) for s3 in eng.assume(s2, neg(c))]
            return out
        return [(s, it(k, j, i.fields[1], TRUE), None if why == "end" else why[1]) for s, j, why in drain(eng, st, i.fields[0], body, fr, span)]
    if k in ("takewhile", "mapwhile", "inspect"):
        out = []
        for s, j, e in it_next(eng, st, i.fields[0], fr, span):
            if e is None:
                out.append((s, it("done"), None))
            elif k == "mapwhile":
                for s2, o in eng.call_value(s, i.fields[1], [e], fr, span):
                    for s3, w in fork_enum(eng, s2, o, OPT):
                        if isinstance(w, Agg) and w.variant == 1:
                            out.append((s3, it(k, j, i.fields[1]), w.fields[0]))
                        else:
                            if not isinstance(w, Agg):
                                s3.flag("unmodelled:map_while")
                            out.append((s3, it("done"), None))
            else:
                for s2, b in eng.call_value(s, i.fields[1], [new_root(eng, s, e)], fr, span):
                    if k == "inspect":
                        out.append((s2, it(k, j, i.fields[1]), e))
                        continue
                    c = eng.as_cond(s2, b)
                    out += [(s3, it(k, j, i.fields[1]), e) for s3 in eng.assume(s2.copy(), c)]
                    out += [(s3, it("done"), None) for s3 in eng.assume(s2, neg(c))]
        return out
    if k == "scan":
        out = []
        for s, j, e in it_next(eng, st, i.fields[0], fr, span):
            if e is None:
                out.append((s, it("done"), None))
                continue
            for s2, o in eng.call_value(s, i.fields[2], [i.fields[1], e], fr, span):
                for s3, w in fork_enum(eng, s2, o, OPT):
                    if isinstance(w, Agg) and w.variant == 1:
                        out.append((s3, it(k, j, i.fields[1], i.fields[2]), w.fields[0]))
                    else:
                        if not isinstance(w, Agg):
                            s3.flag("unmodelled:scan")
                        out.append((s3, it("done"), None))
        return out
    if k == "rev" and i.fields[0].path in ("copied", "cloned", "map", "rev"):
        j = i.fields[0]
        if j.path == "rev":
            return [(s, it("rev", it("rev", j2)), e) for s, j2, e in it_next(eng, st, j.fields[0], fr, span)]
        out = []
        for s, j2, e in it_next(eng, st, it(j.path, it("rev", j.fields[0]), *j.fields[1:]), fr, span):
            back = j2.fields[0].fields[0] if isinstance(j2, Agg) and j2.fields and j2.fields[0].path == "rev" else None
            if back is None:
                s.flag("unmodelled:iterator rev")
                back = j.fields[0]
            out.append((s, it("rev", it(j.path, back, *j.fields[1:])), e))
        return out
    if k == "rev":
        inner = i.fields[0]
        if inner.path == "range":
            lo, hi = inner.fields
            out = []
            for s in eng.assume(st.copy(), lt(lo, hi)):
                out.append((s, it("rev", it("range", lo, hi - 1)), hi - 1))
            for s in eng.assume(st, le(hi, lo)):
                out.append((s, i, None))
            return out
        if inner.path in ("slice", "owned"):
            r, pos = inner.fields
            n = r.hi - r.lo
            out = []
            for s in eng.assume(st.copy(), lt(pos, n)):
                er = Ref(r.root, r.steps + (("i", r.hi - 1),), None, None, r.mut)
                e = er if inner.path == "slice" else eng.read(s, er.root, er.steps)
                out.append((s, it("rev", it(inner.path, Ref(r.root, r.steps, r.lo, r.hi - 1, r.mut), pos)), e))
            for s in eng.assume(st, le(n, pos)):
                out.append((s, i, None))
            return out
    if k == "chain":
        out = []
        a, b = i.fields
        for s, j, e in it_next(eng, st, a, fr, span):
            if e is not None:
                out.append((s, it(k, j, b), e))
            else:
                for s2, j2, e2 in it_next(eng, s, b, fr, span):
                    out.append((s2, it(k, j, j2), e2))
        return out
    if k == "stepby":
        out = []
        inner, n = i.fields
        if inner.path == "range":
            lo, hi = inner.fields
            for s in eng.assume(st.copy(), lt(lo, hi)):
                out.append((s, it(k, it("range", lo + n, hi), n), lo))
            for s in eng.assume(st, le(hi, lo)):
                out.append((s, i, None))
            return out
    st.flag("unmodelled:iterator " + str(k))
    return [(st.copy(), i, Top("unmodelled:iterator")), (st, i, None)]


def drain(eng, st, i, body, fr, span):
    """elements of i until body(state, element) gives something: [(state, iterator, "end" | ("stop", it))]"""
    ri = ("itr", next(eng.fids))
    st.mem[ri] = i

    def step(s):
        back, exits = [], []
        for s2, j, e in it_next(eng, s, s.mem[ri], fr, span):
            s2.mem[ri] = j
            if e is None:
                exits.append(("exit", s2, "end"))
                continue
            for s3, stop in body(s2, e):
                if stop is None:
                    back.append(s3)
                else:
                    exits.append(("exit", s3, ("stop", stop)))
        return back, exits
    return [(o[1], o[1].mem[ri], o[2]) for o in eng.widen(st, step, fr, "iter")]


IT = "core::iter::traits::iterator::Iterator::"


def with_iter(name, build):
    def f(eng, st, args, call):
        i = as_iter(eng, st, args[0])
        if i is None:
            return top(call, st)
        r = build(eng, st, i, args)
        return [(st, r)] if r is not None else top(call, st)
    MODELS[IT + name] = f


with_iter("map", lambda eng, st, i, a: it("map", i, a[1]))
with_iter("filter", lambda eng, st, i, a: it("filter", i, a[1]))
with_iter("enumerate", lambda eng, st, i, a: it("enumerate", i, ZERO))
with_iter("copied", lambda eng, st, i, a: it("copied", i))
with_iter("cloned", lambda eng, st, i, a: it("cloned", i))
with_iter("by_ref", lambda eng, st, i, a: i)
with_iter("rev", lambda eng, st, i, a: it("rev", i))
with_iter("take", lambda eng, st, i, a: it("take", i, eng.as_lin(st, a[1])))
with_iter("filter_map", lambda eng, st, i, a: it("filtermap", i, a[1]))
with_iter("map_while", lambda eng, st, i, a: it("mapwhile", i, a[1]))
with_iter("skip_while", lambda eng, st, i, a: it("skipwhile", i, a[1], FALSE))
with_iter("inspect", lambda eng, st, i, a: it("inspect", i, a[1]))
with_iter("scan", lambda eng, st, i, a: it("scan", i, new_root(eng, st, a[1]), a[2]))
with_iter("take_while", lambda eng, st, i, a: it("takewhile", i, a[1]))
with_iter("step_by", lambda eng, st, i, a: it("stepby", i, eng.as_lin(st, a[1])))
with_iter("fuse", lambda eng, st, i, a: i)
with_iter("peekable", lambda eng, st, i, a: it("peekable", i))
MODELS["core::iter::traits::double_ended::DoubleEndedIterator::rev"] = MODELS[IT + "rev"]


@model(IT + "zip", "core::iter::adapters::zip::zip", IT + "chain")
def it_zip(eng, st, args, call):
    a, b = as_iter(eng, st, args[0]), as_iter(eng, st, args[1])
    if a is None or b is None:
        return top(call, st)
    return [(st, it("chain" if call.fn["path"].endswith("chain") else "zip", a, b))]


@model(IT + "skip")
def it_skip(eng, st, args, call):
    i = as_iter(eng, st, args[0])
    n = eng.as_lin(st, args[1])
    if i is None:
        return top(call, st)
    if i.path in ("slice", "owned"):
        r, pos = i.fields
        ln = r.hi - r.lo
        out = []
        for s in eng.assume(st.copy(), le(pos + n, ln)):
            out.append((s, it(i.path, r, pos + n)))
        for s in eng.assume(st, lt(ln, pos + n)):
            out.append((s, it(i.path, r, ln)))
        return out
    if i.path == "range":
        lo, hi = i.fields
        out = []
        for s in eng.assume(st.copy(), le(lo + n, hi)):
            out.append((s, it("range", lo + n, hi)))
        for s in eng.assume(st, lt(hi, lo + n)):
            out.append((s, it("range", hi, hi)))
        return out
    if i.path in ("copied", "cloned", "enumerate"):
        c2 = E.Call(call.fn, call.env, call.span, call.frame, call.dest_ty)
        return [(s, it(i.path, j, *([i.fields[1] + n] if i.path == "enumerate" else []))) for s, j in it_skip(eng, st, [i.fields[0], args[1]], c2)]
    return top(call, st)


@model(IT + "next")
def iter_next(eng, st, args, call):
    r = args[0]
    if not isinstance(r, Ref):
        return top(call, st)
    v = eng.read(st, r.root, r.steps)
    while isinstance(v, Ref):
        r = v
        v = eng.read(st, r.root, r.steps)
    if isinstance(v, Agg) and v.path and v.path.startswith(R_):
        j = as_iter(eng, st, v)
        if j is not None and v.path.endswith("::Range"):
            out = []
            for s, j2, e in it_next(eng, st, j, call.frame, call.span):
                eng.write(s, r.root, r.steps, Agg("adt", v.path, 0, None, j2.fields, v.names))
                out.append((s, NONE if e is None else some(e)))
            return out
    if not (isinstance(v, Agg) and v.kind == "it"):
        return None
    out = []
    for s, j, e in it_next(eng, st, v, call.frame, call.span):
        eng.write(s, r.root, r.steps, j)
        out.append((s, NONE if e is None else some(e)))
    return out


def loop_over(eng, st, i, acc, body, call):
    """Abstract loop: acc is (name -> value); body(state, element) -> list[(state, stop)].
    Returns exit states (iterator exhausted) and stopped states."""
    ri = ("itr", next(eng.fids))
    st.mem[ri] = i

    def step(s):
        back, exits = [], []
        cur = s.mem[ri]
        for s2, j, e in it_next(eng, s, cur, call.frame, call.span):
            s2.mem[ri] = j
            if e is None:
                exits.append(("exit", s2, "end"))
                continue
            for s3, stop in body(s2, e):
                if stop is not None:
                    exits.append(("exit", s3, ("stop", stop)))
                else:
                    back.append(s3)
        return back, exits
    res = eng.widen(st, step, call.frame, "iter")
    return [(o[1], o[2]) for o in res]


def peel_filter(i):
    """(inner iterator, predicates)"""
    return (i.fields[0], i.fields[1]) if i.path == "filter" else (i, None)


@model(IT + "for_each")
def for_each(eng, st, args, call):
    i = as_iter(eng, st, args[0])
    if i is None:
        return top(call, st)
    f = new_root(eng, st, args[1], "clo") if isinstance(args[1], Agg) else args[1]
    out = []
    for s, why in loop_over(eng, st, i, None, lambda s, e: [(s2, None) for s2, _ in eng.call_value(s, f, [e], call.frame, call.span)], call):
        out.append((s, UNIT))
    return out


@model(IT + "try_for_each", IT + "try_fold")
def try_for_each(eng, st, args, call):
    src, t = args[0], call.dest_ty
    rng = val(eng, st, src) if isinstance(src, Ref) else None
    rng = rng if isinstance(rng, Agg) and rng.path and rng.path.startswith(R_) else None
    i = as_iter(eng, st, rng if rng is not None else src)
    if i is None or not (t and t[0] == "adt" and t[1] in (OPT, RES)):
        return top(call, st)
    good = 1 if t[1] == OPT else 0
    fold_ = call.path.endswith("fold")
    f = args[2] if fold_ else args[1]
    f = new_root(eng, st, f, "clo") if isinstance(f, Agg) else f
    ra = ("acc", next(eng.fids))
    st.mem[ra] = args[1] if fold_ else UNIT

    def body(s, e):
        out = []
        for s2, o in eng.call_value(s, f, [s.mem[ra], e] if fold_ else [e], call.frame, call.span):
            for s3, w in fork_enum(eng, s2, o, t[1]):
                if not isinstance(w, Agg):
                    s3.flag("unmodelled:try_for_each")
                    out.append((s3, Top("try_for_each")))
                elif w.variant == good:
                    s3.mem[ra] = w.fields[0]
                    out.append((s3, None))
                else:
                    out.append((s3, w))
        return out
    res = []
    for s, j, why in drain(eng, st, i, body, call.frame, call.span):
        if rng is not None:
            eng.write(s, src.root, src.steps, j)
        res.append((s, (some if good else ok)(s.mem[ra]) if why == "end" else why[1]))
    return res


@model("bool::then", "bool::then_some")
def bool_then(eng, st, args, call):
    c = eng.as_cond(st, args[0])
    out = []
    for s in eng.assume(st.copy(), c):
        if call.path.endswith("then"):
            out += [(s2, some(v)) for s2, v in eng.call_value(s, args[1], [], call.frame, call.span)]
        else:
            out.append((s, some(args[1])))
    return out + [(s, NONE) for s in eng.assume(st, neg(c))]


@model(O + "is_some_and", O + "is_none_or", RS + "is_ok_and", RS + "is_err_and")
def is_and(eng, st, args, call):
    m = call.path.split("::")[-1]
    want = {"is_some_and": 1, "is_none_or": 1, "is_ok_and": 0, "is_err_and": 1}[m]
    out = []
    for s, o in fork_enum(eng, st, args[0], None):
        if not isinstance(o, Agg):
            out.extend(top(call, s))
        elif o.variant == want:
            out.extend(eng.call_value(s, args[1], [o.fields[0]], call.frame, call.span))
        else:
            out.append((s, TRUE if m == "is_none_or" else FALSE))
    return out


@model(O + "and", O + "xor", O + "zip")
def opt_and(eng, st, args, call):
    m = call.path.split("::")[-1]
    out = []
    for s, a in fork_enum(eng, st, args[0], None):
        for s2, b in fork_enum(eng, s, args[1], None):
            if not isinstance(a, Agg) or not isinstance(b, Agg):
                out.extend(top(call, s2))
            elif m == "and":
                out.append((s2, b if a.variant == 1 else NONE))
            elif m == "xor":
                out.append((s2, NONE if a.variant == b.variant else a if a.variant == 1 else b))
            else:
                out.append((s2, some(tup(a.fields[0], b.fields[0])) if a.variant == 1 and b.variant == 1 else NONE))
    return out


@model(O + "insert", O + "replace", O + "get_or_insert", O + "get_or_insert_with")
def opt_insert(eng, st, args, call):
    m = call.path.split("::")[-1]
    out = []
    for s, o, r in fork_refs(eng, st, args[0]):
        if not isinstance(o, Agg):
            out.extend(top(call, s))
            continue
        new = [(s, None)]
        if m in ("insert", "replace"):
            new = [(s, args[1])]
        elif o.variant == 0:
            new = [(s, args[1])] if m == "get_or_insert" else eng.call_value(s, args[1], [], call.frame, call.span)
        for s2, v in new:
            if v is not None:
                eng.write(s2, r.root, r.steps, some(v))
            out.append((s2, o if m == "replace" else Ref(r.root, r.steps + (("f", 0),), None, None, True)))
    return out


@model(O + "inspect", RS + "inspect", RS + "inspect_err")
def opt_inspect(eng, st, args, call):
    want = 1 if call.path != RS + "inspect" else 0
    out = []
    for s, o in fork_enum(eng, st, args[0], None):
        if not isinstance(o, Agg):
            out.extend(top(call, s))
        elif o.variant == want:
            out += [(s2, o) for s2, _ in eng.call_value(s, args[1], [new_root(eng, s, o.fields[0])], call.frame, call.span)]
        else:
            out.append((s, o))
    return out


@model(RS + "or_else", RS + "or", RS + "and")
def res_or(eng, st, args, call):
    m = call.path.split("::")[-1]
    out = []
    for s, o in fork_enum(eng, st, args[0], None):
        if not isinstance(o, Agg):
            out.extend(top(call, s))
        elif m == "and":
            out.append((s, args[1] if o.variant == 0 else o))
        elif o.variant == 0:
            out.append((s, o))
        else:
            swallow(eng, s, call)
            out += [(s, args[1])] if m == "or" else eng.call_value(s, args[1], [o.fields[0]], call.frame, call.span)
    return out


@model(IT + "fold")
def fold(eng, st, args, call):
    i = as_iter(eng, st, args[0])
    if i is None:
        return top(call, st)
    ra = ("acc", next(eng.fids))
    st.mem[ra] = args[1]
    f = new_root(eng, st, args[2], "clo") if isinstance(args[2], Agg) else args[2]

    def body(s, e):
        out = []
        for s2, v in eng.call_value(s, f, [s.mem[ra], e], call.frame, call.span):
            s2.mem[ra] = v
            out.append((s2, None))
        return out
    return [(s, s.mem[ra]) for s, _ in loop_over(eng, st, i, None, body, call)]


@model(IT + "last")
def it_last(eng, st, args, call):
    i = as_iter(eng, st, args[0])
    if i is None:
        return top(call, st)
    src, f = (i.fields[0], i.fields[1]) if i.path == "map" else (i, None)
    ends = []
    if src.path == "chunks" and src.fields[2].is_const() and src.fields[2].c > 0:
        r, pos, sz, exact = src.fields
        n = r.hi - r.lo - pos
        k = mk_div(n if exact == TRUE else n + (sz.c - 1), sz.c)
        for s in eng.assume(st.copy(), le(ONE, k)):
            ends.append((s, it("chunks", r, pos + (k - ONE).scale(sz.c), sz, exact)))
        ends += [(s, None) for s in eng.assume(st, lt(k, ONE))]
    else:
        ix = indexed(eng, st, src)
        if ix is None:
            return top(call, st)
        n, at = ix
        out = []
        for s in eng.assume(st.copy(), le(ONE, n)):
            e = at(s, n - 1)
            out += [(s2, some(v)) for s2, v in ([(s, e)] if f is None else eng.call_value(s, f, [e], call.frame, call.span))]
        return out + [(s, NONE) for s in eng.assume(st, le(n, ZERO))]
    out = []
    for s, j in ends:
        if j is None:
            out.append((s, NONE))
            continue
        for s2, _, e in it_next(eng, s, j, call.frame, call.span):
            if e is not None:
                out += [(s3, some(v)) for s3, v in ([(s2, e)] if f is None else eng.call_value(s2, f, [e], call.frame, call.span))]
    return out


@model(IT + "sum", IT + "count", IT + "max", IT + "min")
def it_sum(eng, st, args, call):
    i = as_iter(eng, st, args[0])
    if i is None:
        return top(call, st)
    m = call.fn["path"].split("::")[-1]
    if m in ("max", "min"):
        return it_extreme(eng, st, i, m, call)
    ra = ("acc", next(eng.fids))
    st.mem[ra] = ZERO
    flt = None
    if i.path == "filter":
        i, flt = i.fields[0], i.fields[1]
    if m == "count" and flt is None and i.path == "range":
        lo, hi = i.fields
        return [(s, hi - lo) for s in eng.assume(st.copy(), le(lo, hi))] + [(s, ZERO) for s in eng.assume(st, lt(hi, lo))]

    def body(s, e):
        out = []
        sts = [(s, True)]
        if flt is not None:
            sts = []
            rr = new_root(eng, s, e)
            for s2, b in eng.call_value(s, flt, [rr], call.frame, call.span):
                bl = eng.bool_lin(s2, b) if isinstance(b, BoolV) else None
                if bl is not None and m == "count":
                    s2.mem[ra] = s2.mem[ra] + bl if isinstance(s2.mem[ra], Lin) else s2.mem[ra]
                    out.append((s2, None))
                    continue
                c = eng.as_cond(s2, b)
                sts += [(x, True) for x in eng.assume(s2.copy(), c)] + [(x, False) for x in eng.assume(s2, neg(c))]
        for s2, take in sts:
            if take:
                a = s2.mem[ra]
                d = ONE if m == "count" else lin_of(eng, s2, e)
                s2.mem[ra] = a + d if isinstance(a, Lin) else Top("sum")
            out.append((s2, None))
        return out
    return [(s, s.mem[ra]) for s, _ in loop_over(eng, st, i, None, body, call)]


def it_extreme(eng, st, i, m, call):
    """max/min: some element attains it and it bounds every element; the elements
    are described by a 'forall' term so that rules can instantiate it."""
    # evaluate the element function once, symbolically
    src = i
    f = None
    if i.path == "map":
        src, f = i.fields
    out = []
    h = eng.hooks.get("extreme")
    if h:
        r = h(eng, st, i, m, call)
        if r is not None:
            return r
    if src.path not in ("filter", "takewhile"):
        # empty?
        for s2, j, e in it_next(eng, st.copy(), src, call.frame, call.span):
            if e is None:
                out.append((s2, NONE))
                continue
            vals = [(s2, e)] if f is None else eng.call_value(s2, f, [e], call.frame, call.span)
            for s3, v in vals:
                t = eng.term(s3, i)
                x = ("v", (m, t, next(eng.fids)))
                BOUND.setdefault(x, (0, None))
                r = Lin.atom(x)
                v0 = val(eng, s3, v)
                if isinstance(v0, Lin):
                    s3.cons = s3.cons + ((((v0 - r) if m == "max" else (r - v0)), False),)
                out.append((s3, some(r if not isinstance(v, Ref) else new_root(eng, s3, r))))
        return out
    return top(call, st)


@model(IT + "collect", "core::iter::traits::collect::FromIterator::from_iter")
def collect(eng, st, args, call):
    i = as_iter(eng, st, args[0])
    if i is None:
        return top(call, st)
    t = call.dest_ty
    if not (t and t[0] == "adt" and t[1] in ("alloc::vec::Vec",)):
        return [(st, SymV(("collect", eng.term(st, i)), t))]
    ra = ("acc", next(eng.fids))
    st.mem[ra] = Seq()
    return [(s, s.mem[ra]) for s, _ in push_all(eng, st, i, ra, (), call)]


def push_all(eng, st, i, root, steps, call):
    # whole slices in one go
    if i.path in ("copied", "cloned") and i.fields[0].path == "slice":
        r, pos = i.fields[0].fields
        q = eng.read(st, root, steps)
        if isinstance(q, Seq):
            eng.write(st, root, steps, Seq(list(flat(eng, st, q)) + list(eng.slice_segs(st, Ref(r.root, r.steps, r.lo + pos, r.hi)))))
            return [(st, "end")]
    if i.path == "take" and i.fields[0].path == "repeat":
        n = i.fields[1]
        q = eng.read(st, root, steps)
        if isinstance(q, Seq):
            eng.write(st, root, steps, Seq(list(flat(eng, st, q)) + [("F", i.fields[0].fields[0], n)]))
            return [(st, "end")]
    if i.path == "repeatn":
        q = eng.read(st, root, steps)
        if isinstance(q, Seq):
            eng.write(st, root, steps, Seq(list(flat(eng, st, q)) + [("F", i.fields[0], i.fields[1])]))
            return [(st, "end")]
    flt = None
    if i.path == "filter":
        i, flt = i.fields

    def body(s, e):
        out = []
        for s2 in [s]:
            q = eng.read(s2, root, steps)
            if flt is not None:
                rr = new_root(eng, s2, e)
                for s3, b in eng.call_value(s2, flt, [rr], call.frame, call.span):
                    c = eng.as_cond(s3, b)
                    for s4 in eng.assume(s3.copy(), c):
                        q = eng.read(s4, root, steps)
                        eng.write(s4, root, steps, Seq(list(flat(eng, s4, q)) + [("E", e)]) if isinstance(q, Seq) else q)
                        out.append((s4, None))
                    out.extend((s4, None) for s4 in eng.assume(s3, neg(c)))
                continue
            eng.write(s2, root, steps, Seq(list(flat(eng, s2, q)) + [("E", e)]) if isinstance(q, Seq) else q)
            out.append((s2, None))
        return out
    return loop_over(eng, st, i, None, body, call)


@model("core::iter::traits::collect::Extend::extend", V + "extend")
def extend(eng, st, args, call):
    r, q = vec(eng, st, args[0])
    if not isinstance(q, Seq):
        return None if not isinstance(q, Top) else [(st, UNIT)]
    src = args[1]
    i = as_iter(eng, st, src)
    if i is None:
        return top(call, st)
    t = None
    a = call.fn.get("args") or []
    # extending Vec<T> from &T copies the elements
    if i.path == "slice":
        i = it("copied", i)
    return [(s, UNIT) for s, _ in push_all(eng, st, i, r.root, r.steps, call)]


@model("core::iter::sources::repeat::repeat")
def it_repeat(eng, st, args, call):
    return [(st, it("repeat", args[0]))]


@model("core::iter::sources::repeat_n::repeat_n")
def it_repeat_n(eng, st, args, call):
    return [(st, it("repeatn", args[0], eng.as_lin(st, args[1])))]


def indexed(eng, st, i):
    """(n, element at p) of an iterator with random access"""
    if i.path in ("slice", "owned"):
        r, pos = i.fields
        n = r.hi - r.lo - pos

        def at(s, p):
            er = Ref(r.root, r.steps + (("i", r.lo + pos + p),), None, None, r.mut)
            return er if i.path == "slice" else eng.read(s, er.root, er.steps)
        return n, at
    if i.path == "range":
        lo, hi = i.fields
        return hi - lo, lambda s, p: lo + p
    if i.path in ("copied", "cloned"):
        r = indexed(eng, st, i.fields[0])
        if r is None:
            return None
        return r[0], lambda s, p: val(eng, s, r[1](s, p))
    if i.path == "enumerate":
        r = indexed(eng, st, i.fields[0])
        if r is None:
            return None
        return r[0], lambda s, p: tup(i.fields[1] + p, r[1](s, p))
    return None


@model("itertools::Itertools::find_position", IT + "position", IT + "find", IT + "any", IT + "all", "slice::partition_point", IT + "find_map", IT + "rposition")
def it_find(eng, st, args, call):
    m = call.fn["path"].split("::")[-1]
    if m == "partition_point":
        MODELS["slice::iter"]
        s0 = slice_of(eng, st, args[0])
        if s0 is None:
            return top(call, st)
        r, lo, n0 = s0
        i = it("slice", Ref(r.root, r.steps, lo, lo + n0), ZERO)
    else:
        v = args[0]
        i = v if isinstance(v, Agg) and v.kind == "it" else None
        ref = None
        if i is None and isinstance(v, Ref):
            ref = v
            i = eng.read(st, v.root, v.steps)
            while isinstance(i, Ref):
                ref = i
                i = eng.read(st, i.root, i.steps)
        if isinstance(i, Agg) and i.kind != "it":
            i = as_iter(eng, st, i)
        if not (isinstance(i, Agg) and i.kind == "it"):
            return top(call, st)
    ix = indexed(eng, st, i)
    if ix is None:
        return top(call, st)
    n, at = ix
    f = args[1]
    byref = m in ("find_position", "find")

    def pred(s, p):
        e = at(s, p)
        a = e
        if byref:
            a = new_root(eng, s, e)
        return [(s2, eng.as_cond(s2, b), e) for s2, b in eng.call_value(s, f, [a], call.frame, call.span)]
    want = True
    neg_first = m in ("all", "partition_point")
    out = []
    j = eng.fresh_int("pos")
    ncond = max_zero = None
    # found at position j
    for s in eng.assume(st.copy(), conj(le(ZERO, j), lt(j, n))):
        for s2, c, e in pred(s, j):
            hit = neg(c) if neg_first else c
            for s3 in eng.assume(s2, hit):
                # the previous element (if any) does not match
                outs = []
                for s4 in eng.assume(s3.copy(), eq(j, ZERO)):
                    outs.append(s4)
                for s4 in eng.assume(s3, lt(ZERO, j)):
                    for s5, c5, _e in pred(s4, j - 1):
                        outs.extend(eng.assume(s5, c5 if neg_first else neg(c5)))
                for s5 in outs:
                    out.append((s5, found(m, j, e)))
    # not found
    outs = []
    for s in eng.assume(st.copy(), le(n, ZERO)):
        outs.append(s)
    for s in eng.assume(st, lt(ZERO, n)):
        for s2, c, e in pred(s, n - 1):
            outs.extend(eng.assume(s2, c if neg_first else neg(c)))
    for s in outs:
        out.append((s, notfound(m, n)))
    return out


def found(m, j, e):
    if m == "find_position":
        return some(tup(j, e))
    if m == "position":
        return some(j)
    if m == "find":
        return some(e)
    if m == "any":
        return TRUE
    if m == "all":
        return FALSE
    return j


def notfound(m, n):
    if m in ("find_position", "position", "find"):
        return NONE
    if m == "any":
        return FALSE
    if m == "all":
        return TRUE
    return n


@model("core::iter::traits::exact_size::ExactSizeIterator::len", "core::ops::range::Range::len")
def it_len(eng, st, args, call):
    v = val(eng, st, args[0])
    i = as_iter(eng, st, v) if isinstance(v, Agg) else None
    ix = indexed(eng, st, i) if i is not None else None
    if ix is None:
        return top(call, st)
    return [(st, ix[0])]


@model("core::ops::range::Range::is_empty")
def range_empty(eng, st, args, call):
    v = val(eng, st, args[0])
    return [(st, BoolV(le(eng.as_lin(st, v.fields[1]), eng.as_lin(st, v.fields[0]))))]


@model(R_ + "RangeInclusive::new")
def range_incl(eng, st, args, call):
    return [(st, Agg("adt", R_ + "RangeInclusive", 0, None, args, ("start", "end")))]


# -------------------------------------------------------------------- boxes
@model("alloc::boxed::Box::new", "alloc::boxed::Box::pin")
def box_new(eng, st, args, call):
    r = new_root(eng, st, args[0], "box")
    return [(st, r)]


@model("alloc::rcs::arc::Arc::new", "alloc::sync::Arc::new", "alloc::rc::Rc::new")
def arc_new(eng, st, args, call):
    return [(st, new_root(eng, st, args[0], "arc"))]


@model("alloc::rcs::arc::Arc::clone")
def arc_clone(eng, st, args, call):
    return [(st, rref(eng, st, args[0]) or args[0])]


# ------------------------------------------------------------------ raw views
@model("slice::as_ptr", "slice::as_mut_ptr", V + "as_ptr")
def as_ptr(eng, st, args, call):
    r = rref(eng, st, args[0])
    if r is None:
        return top(call, st)
    lo = r.lo if r.lo is not None else ZERO
    t = None
    a = call.fn.get("args") or []
    for x in a:
        if isinstance(x, int):
            t = eng.prog.rty(x, call.env)
            break
    return [(st, Agg("rawslice", None, 0, None, (Ref(r.root, r.steps, lo, lo + eng.slice_len(st, r)),), (), {"src": t, "elem": t}))]


@model("core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut")
def from_raw_parts(eng, st, args, call):
    p, n = args[0], eng.as_lin(st, args[1])
    if not (isinstance(p, Agg) and p.kind == "rawslice"):
        st.flag("unmodelled:raw pointer")
        return [(st, new_root(eng, st, Seq([("U", "raw", n)])))]
    ref = p.fields[0]
    env = p.env or {}
    es = elem_size(env.get("src"))
    segs = eng.slice_segs(st, ref)
    ln = eng.slice_len(st, ref)
    h = eng.hooks.get("rawview")
    if h:
        h(eng, st, env, es, ln, n, call)
    if es is None:
        return [(st, new_root(eng, st, Seq([("X", "bytes", (tuple(segs), None), n)])))]
    if env.get("elem") == env.get("src") and elem_size(env.get("src")) == es and env.get("elem") != ("int", "u8"):
        return [(st, Ref(ref.root, ref.steps, ref.lo, ref.lo + n))]
    if eng.ent_eq(st, n, ln.scale(es)):
        return [(st, new_root(eng, st, Seq([("X", "bytes", (tuple(segs), es), n)])))]
    return [(st, new_root(eng, st, Seq([("X", "badbytes", (tuple(segs), es), n)])))]


# ------------------------------------------------------------------- futures
@model("core::future::into_future::IntoFuture::into_future")
def into_future(eng, st, args, call):
    return [(st, args[0])]


@model("core::future::get_context")
def get_context(eng, st, args, call):
    return [(st, Top("context"))]


@model("core::future::future::Future::poll")
def fut_poll(eng, st, args, call):
    return [(s, Agg("adt", POLL, 0, "Ready", (v,))) for s, v in eng.poll(st, args[0], call.frame, call.span)]


@model("core::future::ready::ready", "futures_util::future::ready::ready")
def fut_ready(eng, st, args, call):
    return [(st, Agg("fut", "ready", 0, None, (args[0],)))]


@model("tokio::task::blocking::spawn_blocking", "tokio::task::spawn_blocking")
def spawn_blocking(eng, st, args, call):
    return [(st, Agg("fut", "spawn", 0, None, (args[0],)))]


def poll_ext(eng, st, v, fr, span):
    k = v.path
    if k == "ready":
        return [(st, v.fields[0])]
    if k == "spawn":
        out = []
        h = eng.hooks.get("joinerror")
        if h:
            s2 = st.copy()
            h(eng, s2, span)
            out.append((s2, err(SymV(("joinerror",)))))
        # a panic of the task ends in a JoinError, not in a panic of whoever awaits it
        eng.tasks.append([])
        try:
            out.extend((s, ok(x)) for s, x in eng.call_value(st, v.fields[0], [], fr, span))
        finally:
            lost = eng.tasks.pop()
        out.extend((s, err(SymV(("joinerror",)))) for s in lost)
        return out
    h = eng.hooks.get("poll")
    if h:
        r = h(eng, st, v, fr, span)
        if r is not None:
            return r
    st.flag("unmodelled:future " + str(k))
    return [(st, Top("future"))]


# ------------------------------------------------------------- panics, fmt
@model("std::panicking::begin_panic", "core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::assert_failed",
       "core::panicking::panic_explicit", "core::panicking::unreachable_display", "core::panicking::panic_display",
       "core::panicking::panic_bounds_check", "core::panicking::panic_nounwind")
def do_panic(eng, st, args, call):
    h = eng.hooks.get("panic")
    if h:
        h(eng, st, "explicit:panic", call.span)
    return []


@model("core::hint::must_use", "core::convert::identity", "core::hint::black_box")
def identity(eng, st, args, call):
    return [(st, args[0])]


@model("core::iter::traits::iterator::Iterator::size_hint")
def size_hint(eng, st, args, call):
    return [(st, Top("size_hint"))]


TERM_PREFIX = ("core::fmt::", "alloc::fmt::", "anyhow::", "base64::", "std::path::Path", "uuid::", "core::fmt::rt::",
               "std::collections::hash::map::HashMap::new", "std::io::error::", "core::io::error::", "str::", "alloc::string::String::",
               "alloc::str::", "std::fs::Metadata::", "tracing", "log::")


def dispatch(eng, st, args, call):
    fn = call.fn
    if fn.get("res_local"):
        if fn.get("path") == "core::future::future::Future::poll" and "{closure#" in fn["res"]:
            return fut_poll(eng, st, args, call)
        return None
    for p in (fn.get("res"), fn.get("path")):
        f = MODELS.get(p)
        if f is not None:
            # keep call.path consistent with the handler
            call.path = p
            if p == fn.get("path") or True:
                r = f(eng, st, args, call)
                if r is not None:
                    return r
    p = fn.get("res") or fn["path"]
    r = int_dispatch(eng, st, args, call)
    if r is not None:
        return r
    if any(p.startswith(x) for x in TERM_PREFIX) and not any(isinstance(a, Ref) and a.mut for a in args):
        term = ("call", p) + tuple(eng.term(st, a) for a in args)
        if call.dest_ty is not None and call.dest_ty == ("tuple", ()):
            return [(st, UNIT)]
        return [(st, eng.mk_sym(term, call.dest_ty))]
    return None
