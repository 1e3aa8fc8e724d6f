"""Obligations of an abstract run, reported into a check context."""
import lin as L
from lin import neg
import engine as E
from engine import val_atoms, cond_atoms


class Ob:
    def __init__(self, ctx, eng, where=None):
        self.ctx, self.eng, self.where = ctx, eng, where
        eng.reach = ctx.functions

    def need(self, st, rule, cond, msg, vals=(), where=None, key=None, span=None):
        """cond: python bool or linear condition, in state st"""
        eng, ctx = self.eng, self.ctx
        w = where or self.where
        atoms = set()
        if isinstance(cond, tuple):
            cond_atoms(cond, atoms)
            res = eng.entails(st, cond)
        else:
            res = bool(cond)
        if res:
            ctx.ok(rule, w, "")
            return True
        for v in vals:
            val_atoms(v, atoms)
        t = eng.taint(st, atoms)
        m = msg() if callable(msg) else msg
        if t:
            ctx.unsure(rule, w, "%s (depends on %s)" % (m, t))
            return False
        ctx.bad(rule, w, m, span=span, path=st.path(), key=key or "%s@%s" % (rule, short(w)), soft="summarised" in st.flags)
        return False

    def no_panic(self, rule, ignore=(), when=None):
        """install hooks: any panic reachable in the run (in a state `when` accepts) is a violation"""
        eng = self.eng

        def rep(st, what, span):
            if eng.quiet or when is not None and not when(st):
                return
            t = eng.taint(st, set())
            w = eng.where()[0]
            if t:
                self.ctx.unsure(rule, w, "possible panic (%s), depends on %s" % (what, t))
                return
            self.ctx.bad(rule, w, "a panic is reachable here: %s" % what, span=span, path=st.path(),
                         key="%s@%s@%s" % (rule, short(self.where or "?"), short(w)), soft="summarised" in st.flags)

        def pan(e, st, what, span):
            if e.tasks:
                s = st.copy()
                s.note("%s: the blocking task panics (%s)" % (span, what))
                e.tasks[-1].append(s)
                return
            rep(st, what, span)

        def ass(e, st, fr, what, c, span):
            if eng.quiet:
                return
            if what and what[0] == "overflow" and what[1] != "Sub":
                return
            if not eng.entails(st, c):
                if e.tasks:
                    for s in eng.assume(st.copy(), neg(c)):
                        pan(e, s, "arithmetic underflow" if what[0] == "overflow" else str(what[0]), span)
                    return
                rep(st, "arithmetic underflow" if what[0] == "overflow" else "index out of bounds" if what[0] == "bounds" else str(what), span)
        eng.hooks["panic"] = pan
        eng.hooks["assert"] = ass


def short(w):
    return str(w).replace(" ", "").replace("meerkat::", "")
