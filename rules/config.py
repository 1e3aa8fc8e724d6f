"""C01: the server runs with the configuration that was asked for.

main() is run abstractly with the argument parser represented by its contract:
clap returns the value of a named argument (command line before environment
before default); what each argument is declared as is read off the same run.
The configuration handed to the server must be made of those values.  The list
of seeds is a pipeline over the pieces between commas; its stages are run on
every class of piece: with or without anything but blanks in it, with or
without blanks around it."""
import lin as L
from lin import Lin, ZERO, ONE
import engine as E
import models as M
import shapes as S
from engine import State, Ref, BoolV, Seq, Agg, SymV, Top, FnV, TRUE, FALSE, UNIT, OPT, RES, NONE
from ob import Ob
from rules.buffers import guarded
from rules import world as W

MAIN = "meerkat::main"
SERVER, CONFIG = "meerkat::server::Meerkat", "meerkat::server::Config"
ARG, APP, AM = "clap::args::arg::Arg::", "clap::app::App::", "clap::args::arg_matches::ArgMatches::"
GOT, APPS = ("ghost", "configurations"), ("ghost", "app")


def text(v):
    """the bytes of a literal"""
    if isinstance(v, Seq):
        out = b""
        for s in v.segs:
            if s[0] == "S" and isinstance(s[1], tuple) and s[1][0] == "const" and s[2].is_const() and s[3].is_const():
                out += bytes(s[1][1][s[2].c:s[3].c])
            else:
                return None
        return out.decode(errors="replace")
    return None


def lit(eng, st, v):
    for _ in range(4):
        if not isinstance(v, Ref):
            break
        r = M.rref(eng, st, v)
        v = M.val(eng, st, v)
        if isinstance(v, Seq) and r is not None and r.lo is not None and r.hi is not None:
            v = Seq(list(eng.sub(st, v, r.lo, r.hi)))
    return text(v)


# ------------------------------------------------------------------- parser
def with_name(eng, st, args, call):
    return [(st, Agg("clarg", None, 0, None, (E.tup(args[0]),), ("name",)))]


def arg_method(name):
    def f(eng, st, args, call):
        a = args[0]
        if not (isinstance(a, Agg) and a.kind == "clarg"):
            return None
        return [(st, Agg("clarg", None, 0, None, a.fields + (E.tup(*args[1:]),), a.names + (name,)))]
    return f


def app_new(eng, st, args, call):
    return [(st, Agg("app", None, 0, None, ()))]


def app_arg(eng, st, args, call):
    a = args[0]
    if not (isinstance(a, Agg) and a.kind == "app"):
        return None
    return [(st, Agg("app", None, 0, None, a.fields + (args[1],)))]


def app_same(eng, st, args, call):
    return [(st, args[0])]


def get_matches(eng, st, args, call):
    if not (isinstance(args[0], Agg) and args[0].kind == "app"):
        return None
    st.mem[APPS] = args[0]
    return [(st, SymV(("matches",), None))]


def declared(eng, st):
    """name -> {method: arguments} of every declared argument"""
    out = {}
    app = st.mem.get(APPS)
    for a in (app.fields if app is not None else ()):
        if not (isinstance(a, Agg) and a.kind == "clarg"):
            continue
        d = {n: x.fields for n, x in zip(a.names, a.fields)}
        out[lit(eng, st, d["name"][0])] = d
    return out


def value_of(eng, st, args, call):
    n = lit(eng, st, args[1])
    if n is None:
        return None
    d = declared(eng, st).get(n)
    if d is None:
        return [(st, NONE)]
    root = ("arg", n)
    s = st.copy()
    s.mem[root] = SymV(("arg", n), None)
    out = [(s, E.some(Ref(root)))]
    s.note("%s: %s is given" % (call.span, n))
    if not (d.get("required") and d["required"][0] == TRUE) and "default_value" not in d:
        st = st.copy()
        st.note("%s: %s is not given" % (call.span, n))
        out.append((st, NONE))
    return out


# ------------------------------------------------------------------- strings
def bare(eng, st, v):
    for _ in range(6):
        if not isinstance(v, Ref):
            return v
        v = M.val(eng, st, v)
    return v


def from_str(eng, st, args, call):
    """what the validator let through parses"""
    v = bare(eng, st, args[0])
    if not isinstance(v, SymV) or v.term[0] != "arg":
        return None
    t = call.dest_ty
    t = t[2][0] if t and t[0] == "adt" and t[1] == RES else None
    if t == ("adt", "alloc::string::String", ()):
        return [(st, E.ok(v))]
    if t is not None and t[0] == "int":
        return [(st, E.ok(Lin.atom(atom_of(v.term, t))))]
    return None


def atom_of(term, t):
    a = ("v", ("parsed", t[1], term))
    E.BOUND.setdefault(a, E.INT_RANGE[t[1]])
    return a


def keep(eng, st, args, call):
    v = bare(eng, st, args[0])
    if isinstance(v, SymV) and v.term[0] == "arg" or isinstance(v, Agg) and v.kind == "str":
        if call.dest_ty is not None and call.dest_ty[0] == "ref":
            return [(st, M.new_root(eng, st, v))]
        return [(st, v)]
    return None


def trim(eng, st, args, call):
    v = bare(eng, st, args[0])
    if not (isinstance(v, Agg) and v.kind == "str"):
        return None
    lead, core, trail = v.fields
    m = call.path.split("::")[-1]
    if core is None:
        # blanks only: any of the three leaves nothing
        v = piece(False, None, False)
    else:
        v = piece(lead and m == "trim_end", core, trail and m == "trim_start")
    return [(st, M.new_root(eng, st, v))]


def is_empty(eng, st, args, call):
    v = bare(eng, st, args[0])
    if not (isinstance(v, Agg) and v.kind == "str"):
        return None
    return [(st, TRUE if v.fields == (False, None, False) else FALSE)]


def changed(eng, st, args, call):
    v = bare(eng, st, args[0])
    if not (isinstance(v, Agg) and v.kind == "str"):
        return None
    lead, core, trail = v.fields
    return [(st, piece(lead, core if core is None else (call.path.split("::")[-1], core), trail))]


def piece(lead, core, trail):
    return Agg("str", None, 0, None, (lead, core, trail))


def split(eng, st, args, call):
    v = bare(eng, st, args[0])
    p = bare(eng, st, args[1])
    return [(st, M.it("split", v, p, call.path.split("::")[-1]))]


def collect(eng, st, args, call):
    i = args[0]
    j = i
    while isinstance(j, Agg) and j.kind == "it" and j.path in ("map", "filter", "filtermap", "rev", "take", "skip", "skipwhile", "takewhile", "copied", "cloned", "peekable"):
        j = j.fields[0]
    if not (isinstance(j, Agg) and j.kind == "it" and j.path == "split"):
        return None
    return [(st, Agg("pieces", None, 0, None, (i,)))]


def filter_map(eng, st, args, call):
    return [(st, M.it("filtermap", args[0], args[1]))] if isinstance(args[0], Agg) and args[0].kind == "it" else None


def unwrap_or_default(eng, st, args, call):
    v = args[0]
    t = call.dest_ty
    if t == ("adt", "alloc::string::String", ()) and isinstance(v, Agg) and v.path == OPT:
        return [(st, v.fields[0] if v.variant == 1 else Seq())]
    return None


# --------------------------------------------------------------------- server
def server_new(eng, st, args, call):
    st = st.copy()
    g = st.mem.get(GOT)
    st.mem[GOT] = Agg("got", None, 0, None, (g.fields if g is not None else ()) + (args[0],))
    return [(st, SymV(("server",), None))]


def server_start(eng, st, args, call):
    st = st.copy()
    W.event(st, "start", bare(eng, st, args[0]))
    return [(st, UNIT)]


def opaque(eng, st, args, call):
    return [(st, UNIT if call.dest_ty == ("tuple", ()) else SymV(("opaque", call.path), call.dest_ty))]


CONTRACTS = {ARG + "with_name": with_name, APP + "new": app_new, APP + "with_name": app_new, APP + "arg": app_arg,
             AM + "value_of": value_of, AM + "value_of_os": value_of, "core::str::traits::FromStr::from_str": from_str, "str::parse": from_str,
             SERVER + "::new": server_new, SERVER + "::start": server_start, "meerkat::build::short_info": opaque, "meerkat::build::long_info": opaque,
             "std::io::stdio::_print": opaque, "std::io::stdio::_eprint": opaque, "core::option::Option::unwrap_or_default": unwrap_or_default,
             "core::iter::traits::iterator::Iterator::collect": collect, "core::iter::traits::iterator::Iterator::filter_map": filter_map}
for _m in ("takes_value", "multiple", "required", "help", "long_help", "long", "short", "env", "env_os", "default_value", "validator", "validator_os", "index", "possible_values",
           "case_insensitive", "hidden", "number_of_values", "require_delimiter", "use_delimiter", "value_delimiter", "overrides_with", "conflicts_with", "global",
           "hide_env_values", "allow_hyphen_values", "empty_values", "value_name", "aliases", "alias", "visible_alias"):
    CONTRACTS[ARG + _m] = arg_method(_m)
for _m in ("version", "about", "author", "long_about", "global_setting", "setting", "settings", "global_settings", "template", "help_template", "bin_name", "usage", "after_help", "name"):
    CONTRACTS[APP + _m] = app_same
for _m in ("get_matches", "get_matches_from"):
    CONTRACTS[APP + _m] = get_matches
for _p in ("core::convert::From::from", "core::convert::Into::into", "core::convert::AsRef::as_ref", "core::ops::deref::Deref::deref", "alloc::string::ToString::to_string",
           "alloc::borrow::ToOwned::to_owned", "core::clone::Clone::clone", "alloc::string::String::as_str", "core::borrow::Borrow::borrow", "std::path::Path::to_path_buf",
           "std::path::Path::new", "str::to_string", "alloc::str::to_owned", "std::ffi::os_str::OsStr::to_os_string", "core::option::Option::as_deref"):
    CONTRACTS[_p] = keep
for _m in ("trim", "trim_start", "trim_end", "trim_left", "trim_right"):
    CONTRACTS["str::" + _m] = trim
for _p in ("str::is_empty", "alloc::string::String::is_empty"):
    CONTRACTS[_p] = is_empty
for _m in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase"):
    for _p in ("str::", "alloc::str::"):
        CONTRACTS[_p + _m] = changed
for _m in ("split", "rsplit", "split_terminator", "splitn", "rsplitn", "split_inclusive"):
    CONTRACTS["str::" + _m] = split


class Unknown(Exception):
    pass


class Conf:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.eng = W.engine(ctx.P, CONTRACTS)
        self.ob = Ob(ctx, self.eng)

    def need(self, st, rule, cond, msg, where, vals=()):
        return self.ob.need(st, rule, cond, msg, vals, where, key="%s@%s" % (rule, where.split("::")[-1]))

    def run(self):
        eng, ctx = self.eng, self.ctx
        if ctx.need(MAIN) is None:
            return
        outs = S.call(eng, State({}, ()), MAIN, [])
        ctx.functions |= eng.analysed
        ctx.note("paths of main", len(outs))
        self.need(State({}, ()), "returns", bool(outs), "main never returns", MAIN)
        names = [f for f, _ in S.fields(self.P, CONFIG)]
        if sorted(names) != ["db_path", "gossip_port", "seeds"]:
            raise S.Shape("Config{db_path, gossip_port, seeds} expected")
        for s, _ in outs:
            g = s.mem.get(GOT)
            n = len(g.fields) if g is not None else 0
            self.need(s, "one-server", n == 1, lambda: "a run makes %d servers" % n, MAIN)
            ev = [e for e in W.events(s) if e.path == "start"]
            self.need(s, "started", len(ev) == 1, lambda: "a run starts the server %d times" % len(ev), MAIN)
            d = declared(eng, s)
            by = {lit(eng, s, x["long"][0]): (n2, x) for n2, x in d.items() if "long" in x}
            for opt, env in (("db-path", "MK_DB_PATH"), ("gossip-port", "MK_GOSSIP_PORT"), ("seeds", "MK_SEEDS")):
                x = by.get(opt, (None, {}))[1]
                self.need(s, "option", opt in by, lambda: "there is no option --%s (there are %s)" % (opt, sorted(map(str, by))), MAIN)
                e = lit(eng, s, x["env"][0]) if "env" in x else None
                self.need(s, "environment", e == env, lambda: "--%s is taken from the environment variable %s, documented is %s" % (opt, e, env), MAIN)
            if len(by) < 3 or n != 1:
                continue
            c = g.fields[0]
            if not (isinstance(c, Agg) and c.path == CONFIG):
                ctx.unsure("configuration", MAIN, "the configuration is %r" % (c,))
                continue
            f = dict(zip(c.names, c.fields))
            name, x = by["db-path"]
            v = bare(eng, s, f["db_path"])
            self.need(s, "db-path", v == SymV(("arg", name), None), lambda: "db_path is %r, not the value of --db-path" % (v,), MAIN, [v])
            self.need(s, "db-path-required", "default_value" not in x and x.get("required", (FALSE,))[0] == TRUE, lambda: "--db-path may be left out", MAIN)
            name, x = by["gossip-port"]
            v = f["gossip_port"]
            want = Lin.atom(atom_of(("arg", name), ("int", "u16")))
            self.need(s, "gossip-port", isinstance(v, Lin) and eng.ent_eq(s, v, want), lambda: "gossip_port is %r, not the number given with --gossip-port" % (v,), MAIN, [v])
            dv = lit(eng, s, x["default_value"][0]) if "default_value" in x else None
            self.need(s, "gossip-port-default", dv == "7775", lambda: "the default gossip port is %s, documented is 7775" % dv, MAIN)
            name, x = by["seeds"]
            self.need(s, "seeds-optional", "default_value" not in x and x.get("required", (FALSE,))[0] == FALSE, lambda: "--seeds cannot be left out", MAIN)
            self.seeds(s, f["seeds"], name)

    def seeds(self, s, v, name):
        eng, ctx = self.eng, self.ctx
        given = ("arg", name) in s.mem
        if isinstance(v, Seq):
            self.need(s, "seeds", not given and eng.ent_eq(s, v.len(), ZERO), lambda: "the seeds are %r" % (v,), MAIN, [v])
            return
        if not (isinstance(v, Agg) and v.kind == "pieces"):
            ctx.unsure("seeds", MAIN, "the seeds are %r" % (v,))
            return
        i, stages = v.fields[0], []
        while i.path != "split":
            stages.append(i)
            i = i.fields[0]
        stages.reverse()
        base, pat, how = i.fields
        src = SymV(("arg", name), None)
        empty = isinstance(base, Seq) and eng.ent_eq(s, base.len(), ZERO)
        self.need(s, "seeds-source", base == src if given else empty, lambda: "the seeds are the pieces of %r" % (base,), MAIN, [base])
        ch = pat.c if isinstance(pat, Lin) and pat.is_const() else text(pat) if isinstance(pat, Seq) else None
        if ch is None or how not in ("split", "rsplit"):
            ctx.unsure("seeds", MAIN, "%s by %r" % (how, pat))
            return
        self.need(s, "seeds-separator", ch in (44, ","), lambda: "the seeds are separated by %r, documented are commas" % (chr(ch) if isinstance(ch, int) else ch), MAIN)
        self.need(s, "seeds-in-order", how == "split" and not any(g.path == "rev" for g in stages), "the seeds are not kept in the order given", MAIN)
        for g in stages:
            if g.path in ("take", "skip", "skipwhile", "takewhile"):
                self.need(s, "all-seeds", False, "%s(): not every seed is kept" % g.path, MAIN)
                return
        for lead, core, trail in ((False, None, False), (True, None, False), (False, ("host",), False), (True, ("host",), False), (False, ("host",), True), (True, ("host",), True)):
            ctx.note("classes of pieces")
            res = self.through(s, stages, piece(lead, core, trail))
            for s2, x in res:
                x = bare(eng, s2, x) if x is not None else None
                what = "a %s piece" % ("blank" if core is None and lead else "missing" if core is None else "padded" if lead or trail else "plain")
                if core is None:
                    self.need(s2, "no-empty-seed", x is None, lambda: "%s becomes the seed %r" % (what, x), MAIN)
                else:
                    self.need(s2, "seed-kept", x is not None, lambda: "%s is dropped" % what, MAIN)
                    if x is not None:
                        ok = isinstance(x, Agg) and x.kind == "str" and x.fields == (False, core, False)
                        self.need(s2, "seed-as-given", ok, lambda: "%s becomes the seed %r" % (what, x), MAIN, [] if isinstance(x, Agg) and x.kind == "str" else [x])

    def through(self, s, stages, item):
        """[(state, item or None)] after the stages"""
        eng = self.eng
        cur = [(s.copy(), M.new_root(eng, s, item))]
        st0, x0 = cur[0]
        st0.mem.update({x0.root: item})
        for g in stages:
            nxt = []
            for s2, x in cur:
                if x is None or g.path in ("rev", "copied", "cloned", "peekable"):
                    nxt.append((s2, x))
                elif g.path == "map":
                    nxt += eng.call_value(s2, g.fields[1], [x], None, "?")
                elif g.path == "filter":
                    fs = g.fields[1]
                    s2 = s2.copy()
                    r = M.new_root(eng, s2, x)
                    for s3, b in eng.call_value(s2, fs, [r], None, "?"):
                        c = eng.as_cond(s3, b)
                        nxt += [(s4, x) for s4 in eng.assume(s3.copy(), c)] + [(s4, None) for s4 in eng.assume(s3, L.neg(c))]
                elif g.path == "filtermap":
                    for s3, o in eng.call_value(s2, g.fields[1], [x], None, "?"):
                        for s4, w in M.fork_enum(eng, s3, o, OPT):
                            nxt.append((s4, w.fields[0] if isinstance(w, Agg) and w.variant == 1 else None))
                else:
                    s2.flag("unmodelled:" + g.path)
                    nxt.append((s2, x))
            cur = nxt
        return cur


def rule(ctx):
    ctx.rule("on every path of main the one server is made with db_path = value of --db-path, gossip_port = number given with --gossip-port (default 7775), seeds = the pieces of --seeds between commas, trimmed, without empty ones, in order; options and environment variables as documented")
    guarded(ctx, MAIN, lambda: Conf(ctx).run())
