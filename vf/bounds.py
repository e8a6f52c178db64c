"""Accesses stay inside their arrays: one obligation per array access, sub-array and copy."""
from . import expr as X
from .expr import TRUE, band, bnot
from .models import Ob


class Bounds:
    def __init__(self, ev):
        self.ev = ev
        self.seen = {}
        self.decided = 0
        ev.hooks["anycontents"] = True  # whatever the arrays contain
        ev.hooks["access"] = self.access
        ev.hooks["subview"] = self.subview
        ev.hooks["copy"] = self.copy

    def state(self, what, cond, g):
        ev = self.ev
        c = ev.simpb(cond, g)
        if c is TRUE:
            self.decided += 1
            return
        ev.oblig.append(Ob(what, c, TRUE, g, ev.where(), "bool", list(ev.facts)))

    def inside(self, what, i, n, g):
        ev = self.ev
        i = ev.simp(i)
        self.state(what + " is not negative: " + X.show(i), bnot(X.icmp("slt", i, 0)), g)
        self.state(what + " is below the extent: " + X.show(i) + " < " + (X.show(n)), X.icmp("slt", i, n), g)

    def access(self, st, base, idx, write):
        if base.ext is None:
            return
        for d, (i, n) in enumerate(zip(idx, base.ext)):
            self.inside("index %d of %s %s" % (d, base.name, "(written)" if write else "(read)"), i, n, st.g)

    def subview(self, st, v, spec, ext):
        for d, s in enumerate(spec):
            if s[0] == "f":
                self.inside("index %d of a part of %s" % (d, v.base.name), s[1], v.ext[d], st.g)
            elif s[2] != 0 or ext[s[1]] is not v.ext[d]:
                n = "direction %d of a part of %s" % (d, v.base.name)
                e = ext[s[1]]
                self.state(n + " does not begin before it: " + X.show(s[2]), bnot(X.icmp("slt", s[2], 0)), st.g)
                self.state(n + " does not end before it begins: " + X.show(e), bnot(X.icmp("slt", e, 0)), st.g)
                self.state(n + " does not end behind it: %s + %s <= %s" % (X.show(s[2]), X.show(e), X.show(v.ext[d])), bnot(X.icmp("slt", v.ext[d], X.iadd(s[2], e))), st.g)

    def copy(self, st, d, s):
        for k, (m, n) in enumerate(zip(d.ext, s.ext)):
            if m is not n:
                self.state("copy of %s to %s: direction %d has the same size: %s and %s" % (s.base.name, d.base.name, k, X.show(n), X.show(m)), X.icmp("eq", m, n), st.g)
