"""W07: where a segment's two files are.

SegmentWriter::new is run abstractly (rules/io.py); the path each file is
created under comes out as a term over the base path and the segment's id.
The term is evaluated to text with the meaning of the library functions in it:
a list of literal bytes, BASE, and encodings of the id.  A term with a function
whose meaning is not listed decides nothing."""
import engine as E
import models as M
from engine import SymV, Seq, Ref, Agg, TRUE, UNIT, seg_len
from rules import io as I, world as W

BASE, ID = ("the base path",), ("the id's bytes",)
KEEP = ("to_owned", "to_string", "into", "as_ref", "as_path", "as_str", "deref", "clone", "borrow", "to_path_buf", "from", "new", "as_os_str", "display", "to_string_lossy",
        "to_str", "into_string", "into_os_string", "into_boxed_path", "as_mut", "new_display", "new_debug_path", "into_owned", "as_slice", "to_vec", "as_deref")
IDFORMS = ("to_simple", "to_hyphenated", "to_urn", "to_simple_ref", "to_hyphenated_ref", "to_urn_ref")
# base64 0.13: (pad, decode_allow_trailing_bits, char_set) in rustc's layout of Config
CONFIGS = {(0, 0, 1): "URL_SAFE_NO_PAD"}


class Unknown(Exception):
    pass


def concat(a, b):
    out = list(a)
    for x in b:
        if out and isinstance(out[-1], bytes) and isinstance(x, bytes):
            out[-1] += x
        else:
            out.append(x)
    return [x for x in out if x != b""]


def template(b):
    """the pieces of a format string as rustc packs them: bytes or None for the next argument"""
    out, i = [], 0
    while i < len(b) and b[i]:
        n = b[i]
        if n < 0x80:
            out.append(bytes(b[i + 1:i + 1 + n]))
            i += 1 + n
        elif n == 0x80:
            k = b[i + 1] | b[i + 2] << 8
            out.append(bytes(b[i + 3:i + 3 + k]))
            i += 3 + k
        elif n == 0xC0:
            out.append(None)
            i += 1
        else:
            raise Unknown("a formatted width or position")
    return out


def raw_id(t):
    """the 16 bytes of the id, in its own order"""
    while isinstance(t, tuple) and len(t) == 2 and t[0] in ("*", "&"):
        t = t[1]
    if isinstance(t, (Ref, Agg)):
        return None
    if isinstance(t, tuple) and t[0] in ("seq", "slice") and len(t) == 2 and t[1][0] == "S":
        lo, hi, t2 = t[1][2], t[1][3], raw_id(t[1][1])
        if t2 is None:
            return None
        lo = lo.is_const() and lo.c if not isinstance(lo, int) else lo
        hi = hi.c if not isinstance(hi, int) and hi.is_const() else hi
        return t2 if (lo, hi) == (0, 16) else ("part", lo, hi) + t2
    if isinstance(t, tuple) and len(t) >= 3 and t[0] == "call":
        n = t[1].split("::")[-1]
        if n in ("as_bytes", "into_bytes") and t[1].startswith("uuid::"):
            return ID if t[2] == ("fld", ("info",), "segment_id") else None
        if n in ("to_vec", "to_owned", "clone", "as_ref", "as_slice", "deref", "into", "from", "borrow"):
            return raw_id(t[2])
        if n in ("to_bytes_le",):
            return ("reordered",) + ID
    if isinstance(t, tuple) and t and t[0] in ("seq", "slice") and len(t) == 2 and t[1][0] == "X" and t[1][1] in ("le", "be"):
        x, n = t[1][2]
        v = next(iter(x.atoms())) if isinstance(x, E.Lin) and len(x.atoms()) == 1 else None
        v = v if v is not None and x == E.Lin.atom(v) else None
        v = v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] == "v" else v
        if n == 16 and isinstance(v, tuple) and v[0] == "call" and v[1].split("::")[-1] in ("as_u128", "to_u128_le") and strip(v[2]) == ("fld", ("info",), "segment_id"):
            return ID if (v[1].split("::")[-1] == "as_u128") == (t[1][1] == "be") else ("reordered",) + ID
    return None


def lit(t):
    out = b""
    for s in t[1:]:
        if s[0] == "S" and isinstance(s[1], tuple) and s[1] and s[1][0] == "const":
            lo, hi = [x if isinstance(x, int) else x.c if x.is_const() else None for x in s[2:4]]
            if lo is None or hi is None:
                raise Unknown("part of a literal")
            out += bytes(s[1][1][int(lo):int(hi)])
        elif s[0] == "E" and isinstance(s[1], E.Lin) and s[1].is_const():
            out += bytes([int(s[1].c)])
        else:
            raise Unknown(repr(s))
    return [out] if out else []


def text(t):
    if isinstance(t, SymV):
        t = t.term
    if isinstance(t, Seq):
        t = ("seq",) + tuple(t.segs)
    if not isinstance(t, tuple) or not t:
        raise Unknown(repr(t))
    if t == ("base path",):
        return [BASE]
    if t[0] in ("*", "&") and len(t) == 2:
        return text(t[1])
    if t[0] == "slice" and len(t) == 2 and t[1][0] == "X" and t[1][1] == "opaque":
        return text(t[1][2][0])
    if t[0] in ("seq", "slice"):
        return lit(t)
    if t[0] == "concat":
        out = []
        for x in t[1:]:
            out = concat(out, text(x))
        return out
    if t[0] == "from" and len(t) == 2:
        return text(t[1])
    if t[0] == "truncated":
        x, n = text(t[1]), t[2]
        if len(x) == 1 and x[0][0] == "base64" and x[0][1] == "URL_SAFE_NO_PAD" and x[0][2:] == (ID,):
            return x if n >= 22 else [("the first %d characters of" % n,) + x[0]]
        if len(x) <= 1 and all(isinstance(y, bytes) for y in x):
            return [y[:n] for y in x if y[:n]]
        raise Unknown("a part of %s" % show(x))
    if t[0] != "call":
        raise Unknown(repr(t))
    n, a = t[1].split("::")[-1], t[2:]
    if n == "join" and "std::path" in t[1]:
        x = text(a[1])
        if x and isinstance(x[0], bytes) and x[0].startswith(b"/"):
            return x
        y = text(a[0])
        return concat(concat(y, [b"/"]), x) if y else x
    if n in ("with_extension", "with_file_name"):
        x = text(a[0])
        if n == "with_extension" and x == [BASE]:
            x = [("the parent of the base path",), b"/", ("the base path's stem",)]
        cut = last_slash(x)
        if cut is None:
            if n == "with_file_name" and x == [BASE]:
                return concat([("the parent of the base path",), b"/"], text(a[1]))
            raise Unknown("the file name of %r" % (x,))
        head, name = cut
        if n == "with_file_name":
            return concat(head, text(a[1]))
        name = stem(name)
        ext = text(a[1])
        return concat(concat(head, name), concat([b"."], ext) if ext else [])
    if n == "add" and len(a) == 2:
        return concat(text(a[0]), text(a[1]))
    if n in ("format", "fmt_format", "must_use") and len(a) == 1:
        return text(a[0])
    if t[1].startswith("core::fmt::Arguments::"):
        if n == "new" and len(a) == 2:
            tpl, args = lit(seq_of(a[0])), seq_of(a[1])[1:]
            vals = []
            for s in args:
                if s[0] != "E":
                    raise Unknown("format arguments")
                vals.append(s[1])
            out = []
            for p in template(tpl[0] if tpl else b""):
                out = concat(out, [p] if p is not None else text(vals.pop(0)))
            return out
        if n in ("from_str", "new_const", "from_str_nonconst"):
            return text(a[0])
        raise Unknown(t[1])
    if n in ("concat", "join") and len(a) in (1, 2):
        parts = [text(s[1]) for s in seq_of(a[0])[1:] if s[0] == "E"]
        if len(parts) != len(seq_of(a[0])) - 1:
            raise Unknown(t[1])
        sep = text(a[1]) if len(a) == 2 else []
        out = []
        for i, p in enumerate(parts):
            out = concat(concat(out, sep if i else []), p)
        return out
    if t[1] in ("base64::encode::encode", "base64::encode"):
        return [("base64", "STANDARD", need_id(a[0]))]
    if t[1] in ("base64::encode::encode_config", "base64::encode_config"):
        return [("base64", config(a[1]), need_id(a[0]))]
    if n in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "replace", "replacen", "repeat"):
        return [(n,) + tuple(text(a[0]))]
    if n in IDFORMS and "uuid::" in t[1]:
        return [("hex", n)]
    if n in ("to_string", "new_display", "to_owned") and a and strip(a[0]) == ("fld", ("info",), "segment_id"):
        return [("hex", "to_hyphenated")]
    if n in KEEP and len(a) == 1:
        return text(a[0])
    raise Unknown(t[1])


def strip(t):
    if isinstance(t, SymV):
        t = t.term
    while isinstance(t, tuple) and len(t) == 2 and t[0] in ("*", "&"):
        t = t[1]
    return t


def seq_of(t):
    t = strip(t)
    if isinstance(t, Seq):
        t = ("seq",) + tuple(t.segs)
    if not (isinstance(t, tuple) and t and t[0] == "seq"):
        raise Unknown(repr(t))
    return t


def need_id(t):
    i = raw_id(t)
    if i is None:
        raise Unknown("what is encoded: %r" % (t,))
    return i


def config(t):
    t = strip(t)
    if isinstance(t, tuple) and t[0] == "const":
        b = t[2] if len(t) > 2 else None
        return CONFIGS.get(b, "the base64 configuration %r" % (b,))
    if isinstance(t, tuple) and t[0] == "call" and t[1].endswith("Config::new") and len(t) == 4:
        cs, pad = t[2], t[3]
        if cs == ("base64::CharacterSet", 1) and pad in (("f",), ("t",)):
            return "URL_SAFE" if pad == ("t",) else "URL_SAFE_NO_PAD"
        return "Config::new(%r, %r)" % (cs, pad)
    raise Unknown("the base64 configuration %r" % (t,))


def last_slash(x):
    for i in range(len(x) - 1, -1, -1):
        if isinstance(x[i], bytes) and b"/" in x[i]:
            j = x[i].rindex(b"/") + 1
            return x[:i] + [x[i][:j]], [y for y in [x[i][j:]] if y] + x[i + 1:]
        if x[i] == BASE or x[i] == ("the parent of the base path",) or not isinstance(x[i], (bytes, tuple)):
            return None
        if isinstance(x[i], tuple) and x[i][0] == "base64" and x[i][1] != "URL_SAFE_NO_PAD":
            return None
    return None


def stem(name):
    """what stays of a file name when its extension is replaced; encodings of the id have no dots"""
    for i in range(len(name) - 1, -1, -1):
        if isinstance(name[i], bytes) and b"." in name[i]:
            j = name[i].rindex(b".")
            if i == 0 and j == 0:
                return name
            return [y for y in name[:i] + [name[i][:j]] if y]
    return name


def show(x):
    return "".join(p.decode(errors="replace") if isinstance(p, bytes) else "<%s>" % " ".join(map(str, p)) for p in x)


# ------------------------------------------------- paths and strings built up
def push(eng, st, args, call):
    r = M.rref(eng, st, args[0])
    v = eng.read(st, r.root, r.steps) if r is not None else None
    if not isinstance(v, (SymV, Seq)):
        return None
    m = call.path.split("::")[-1]
    if call.path == "alloc::string::String::push":
        x = eng.as_lin(st, args[1])
        if x is None or not x.is_const() or not 0 <= x.c < 128:
            return None
        m, b = "push_str", ("seq", ("E", x))
    else:
        b = eng.term(st, args[1])
    a = v.term if isinstance(v, SymV) else ("seq",) + tuple(v.segs)
    t = {"push": ("call", "std::path::Path::join", a, b), "set_extension": ("call", "std::path::Path::with_extension", a, b), "set_file_name": ("call", "std::path::Path::with_file_name", a, b), "push_str": ("concat", a, b)}[m]
    eng.write(st, r.root, r.steps, SymV(t, getattr(v, "ty", None)))
    return [(st, TRUE if m == "set_extension" else UNIT)]


def buffer_of(eng, st, v):
    """(reference, term) of a string being built"""
    r = M.rref(eng, st, v)
    x = eng.read(st, r.root, r.steps) if r is not None and r.lo is None else None
    if not isinstance(x, (SymV, Seq)):
        return None, None, None
    return r, x, x.term if isinstance(x, SymV) else ("seq",) + tuple(x.segs)


def encode_buf(eng, st, args, call):
    """base64::encode_config_buf appends"""
    r, x, a = buffer_of(eng, st, args[2])
    if r is None:
        return None
    b = ("call", "base64::encode_config", eng.term(st, args[0]), eng.term(st, args[1]))
    eng.write(st, r.root, r.steps, SymV(("concat", a, b), getattr(x, "ty", None)))
    return [(st, UNIT)]


def truncate(eng, st, args, call):
    r, x, a = buffer_of(eng, st, args[0])
    n = eng.as_lin(st, args[1])
    if r is None or n is None or not n.is_const():
        return None
    eng.write(st, r.root, r.steps, SymV(("truncated", a, n.c), getattr(x, "ty", None)))
    return [(st, UNIT)]


def write_fmt(eng, st, args, call):
    """write!() into a string appends and does not fail"""
    t = call.fn.get("self_ty") or (call.fn.get("args") or [None])[0]
    t = eng.prog.rty(t) if isinstance(t, int) else t
    if not (t and t[0] == "adt" and t[1] == "alloc::string::String"):
        return None
    r, x, a = buffer_of(eng, st, args[0])
    if r is None:
        return None
    eng.write(st, r.root, r.steps, SymV(("concat", a, eng.term(st, args[1])), getattr(x, "ty", None)))
    return [(st, M.ok(UNIT))]


def empty(eng, st, args, call):
    return [(st, Seq())]


def add(eng, st, args, call):
    a = M.val(eng, st, args[0])
    if isinstance(a, SymV) and call.dest_ty and call.dest_ty[0] == "adt" and call.dest_ty[1] == "alloc::string::String":
        return [(st, SymV(("concat", a.term, eng.term(st, args[1])), a.ty))]
    return None


CONTRACTS = {"std::path::PathBuf::push": push, "std::path::PathBuf::set_extension": push, "std::path::PathBuf::set_file_name": push, "alloc::string::String::push_str": push, "alloc::string::String::push": push,
             "alloc::string::String::new": empty, "alloc::string::String::with_capacity": empty, "std::path::PathBuf::new": empty, "core::ops::arith::Add::add": add,
             "base64::encode_config_buf": encode_buf, "base64::encode::encode_config_buf": encode_buf, "alloc::string::String::truncate": truncate, "core::fmt::Write::write_fmt": write_fmt}


class Names(I.Seg):
    def __init__(self, ctx, prop):
        super().__init__(ctx, prop)
        self.eng.contracts.update(CONTRACTS) if hasattr(self.eng, "contracts") else None

    def run_names(self):
        p = I.SEGW + "::new"
        n = 0
        for s, v, dk, ik, info in self.created():
            n += 1
            for k, nm, ext in ((dk, "data", b".dat"), (ik, "index", b".idx")):
                x = self.eng.term(s, s.mem[k].fields[0])
                try:
                    got = text(x)
                except Unknown as e:
                    self.ctx.unsure("name", p, "the path of the %s file is built in a way that is not understood: %s" % (nm, e))
                    continue
                want = [BASE, b"/", ("base64", "URL_SAFE_NO_PAD", ID), ext]
                if got == want:
                    self.ctx.ok("name", p, "%s file: %s" % (nm, show(got)))
                else:
                    self.ctx.bad("name", p, "the %s file is created as %s, expected %s" % (nm, show(got), show(want)), path=s.path(), key="name@%s" % nm)
        if not n:
            self.ctx.unsure("name", p, "no path on which a segment is created was understood")


def rule(ctx):
    from rules.buffers import guarded
    ctx.rule("the paths under which SegmentWriter::new creates the data and index files are, as text over the base path and the id, <base>/<URL-safe unpadded base64 of the id's 16 bytes>.dat and .idx")
    guarded(ctx, "names", lambda: Names(ctx, "W07").run_names())
