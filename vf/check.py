"""Driver of one property check: compile, interpret, discharge obligations, report, write evidence."""
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import compare, expr as X, onevar
from .compare import Assume, Stats, Undecided, differ
from .eval import DEAD, Eval, Opaque, Ptr, State, Str, UNDEF, Unsupported, showterm
from .expr import FALSE, TRUE, B, E, band, bnot
from .ir import BUILD, HERE, REPO, BuildError, Builder, Config
from . import h5, ini, mpi, pdi, streams  # noqa: F401
from .models import Ob, cat as strcat, streq


class Vacuous(Exception):
    """an anchor vanished or a rule matched nothing: no verdict"""


class Check:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.b = Builder()
        self.viol = []
        self.known = []
        self.counts = {}
        self.rules = []
        self.undecided = []
        self.funcs = set()
        self.notes = []
        self.stats = Stats()
        self.samples = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def violation(self, what, where, detail, key=None):
        self.viol.append({"what": what, "where": where, "detail": detail, "key": key or what})

    def need(self, cond, what):
        if not cond:
            raise Vacuous(what)

    # ------------------------------------------------------------------ running drivers
    def program(self, srcs, cfg, extra=()):
        srcs = [os.path.join(HERE, "spec", s) if s.startswith("d_") else s for s in srcs]
        return self.b.program(srcs, cfg, extra)

    def eval_fn(self, prog, name, setup=None, ctors=True):
        X.ORDERED[0] = True
        ev = Eval(prog)
        st = State()
        if setup:
            setup(ev, st)
        f = prog.funcs.get(name)
        if f is None or f.decl:
            raise Vacuous("driver function %s not found" % name)
        args = []
        s, v = ev.call_function(f, args, st)
        for n in ev.inlined:
            g = prog.funcs[n]
            if g.file.startswith(REPO):
                self.funcs.add(g.dem.split("(")[0])
        self.count("IR instructions interpreted", ev.steps)
        ev.final = s
        ev.ret = v
        bad = [n for n in ev.opaque_calls if not ev.hooks.get("unknown_ok") or not ev.hooks["unknown_ok"](n)]
        if bad:
            raise Vacuous("%s calls a function without body or model: %s" % (name, ", ".join(bad[:4])))
        if s is None and ev.expect is None and not ev.hooks.get("may_diverge"):
            raise Vacuous("driver %s never returns" % name)
        if ev.expect is not None:
            cond, g0 = ev.expect
            alive = FALSE if s is None else X.constrain(s.g, g0)
            ev.oblig.append(Ob("terminates by an exception exactly when required", bnot(alive), cond, g0, "", "bool", ev.facts))
        return ev

    def run(self, srcs, fns, cfgs, setup=None, budget=40000, extra=()):
        """interpret driver functions in every configuration and discharge what they state"""
        for cfg in cfgs:
            p = self.program(srcs, cfg, extra)
            for f in fns:
                ev = self.eval_fn(p, f, setup)
                n = self.discharge(ev, "%s [%s]" % (f, cfg), budget)
                self.need(n, "%s states no obligation" % f)

    def holds(self, ev, ob):
        try:
            return differ(ob.a, ob.b, self.assume(ev, ob), Stats(), 4000, ob.g) is None
        except Undecided:
            return False

    def assume(self, ev, ob):
        pos = ev.positive
        a = Assume(lambda n: n in pos or (isinstance(n, tuple) and n[0] == "fn" and ("fn:" + str(n[1])) in pos))
        for f in ob.facts:
            a.add(f, 0, (0, 1), True)
        return a

    def discharge(self, ev, tag="", budget=40000):
        """every obligation recorded by the driver"""
        global _job
        todo = []
        for ob in ev.oblig:
            self.count("obligations")
            what = (tag + ": " if tag else "") + showterm(ob.what).strip("'")
            if ob.kind == "str":
                for ga, ta in strleaves(ob.a.t, ob.g):
                    for gb, tb in strleaves(ob.b.t, ga):
                        (_, ta), (_, tb) = strleaves(ta, gb)[0], strleaves(tb, gb)[0]
                        if ta != tb and gb is not FALSE:
                            w = "strings differ: %s  vs  %s" % (showterm(ta), showterm(tb))
                            if gb is TRUE:
                                self.violation(what, ob.where, w)
                            else:
                                todo.append(("%s (%s)" % (what, w), Ob(what, FALSE, TRUE, gb, ob.where, "bool", ob.facts)))
                continue
            if ob.g is FALSE or (ob.a is ob.b):
                continue
            todo.append((what, ob))
        _job = (self, ev, todo, budget)
        if len(todo) >= 4 and JOBS > 1:
            with multiprocessing.get_context("fork").Pool(min(JOBS, len(todo))) as pool:
                res = pool.map(_discharge_one, range(len(todo)), 1)
        else:
            res = [_discharge_one(i) for i in range(len(todo))]
        for (what, ob), (w, und, st) in zip(todo, res):
            self.stats.leaves += st[0]
            self.stats.skipped += st[1]
            self.stats.infeasible += st[2]
            if und:
                self.undecided.append("%s: %s" % (what, und))
                continue
            if len(self.samples) < 6:
                self.samples.append("%s: %s" % (what, X.show(ob.a, 4)[:160]))
            if w is not None:
                self.violation(what, ob.where, "differs when: %s\n   code: %s\n   rule: %s" % (w[:1500], X.show(ob.a, 9)[:1500], X.show(ob.b, 9)[:1500]))
        return len(ev.oblig)


def strleaves(t, g):
    """cases of a string term: [(guard, term without conditionals)]"""
    if isinstance(t, tuple) and t and t[0] == "ite":
        c = X.constrain(t[1], g)
        r = []
        if c is not FALSE:
            r += strleaves(t[2], band(g, t[1]))
        if c is not TRUE:
            r += strleaves(t[3], band(g, bnot(t[1])))
        return r
    if isinstance(t, tuple) and t and t[0] in ("cat", "lower", "upper"):
        acc = [(g, ())]
        for x in t[1:]:
            acc = [(g2, pre + (y,)) for g1, pre in acc for g2, y in strleaves(x, g1)]
        out = []
        for g1, parts in acc:
            if t[0] == "cat":
                r = ""
                for y in parts:
                    if isinstance(y, str) or X.constrain(streq(y, ""), g1) is not TRUE:
                        r = strcat(r, y)
                out.append((g1, r))
            else:
                out.append((g1, ini.change_case(t[0], parts[0])))
        return out
    if not isinstance(t, str) and X.constrain(streq(t, ""), g) is TRUE:
        t = ""
    return [(g, t)]


JOBS = int(os.environ.get("VF_JOBS", "8"))
_job = None


def _discharge_one(i):
    c, ev, todo, budget = _job
    what, ob = todo[i]
    st = Stats()
    try:
        if ev.hooks.get("exact") and ob.kind == "bool":
            try:
                return onevar.decide(ob.a, ob.b, ob.g, ob.facts), None, (1, 0, 0)
            except onevar.NotOne:
                raise Undecided("integer obligation over more than one quantity")
        w = differ(ob.a, ob.b, c.assume(ev, ob), st, budget, ob.g, ob.kind == "near")
        return w, None, (st.leaves, st.skipped, st.infeasible)
    except Undecided as e:
        return None, str(e), (st.leaves, st.skipped, st.infeasible)


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main(prop, title, fn, level_text, argv=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in (argv or sys.argv):
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(prop, tier)
    code = 0
    try:
        fn(c)
        if c.undecided:
            raise Vacuous("undecided obligations: " + "; ".join(c.undecided[:5]))
        if not c.counts.get("obligations"):
            raise Vacuous("no obligation was generated")
    except (BuildError, Vacuous, Unsupported, Undecided) as e:
        if not c.viol:
            print("ANALYSIS-BROKEN property=%s %s: %s" % (prop, type(e).__name__, e))
            if os.environ.get("VF_DEBUG"):
                traceback.print_exc()
            code = 2
        else:
            print("note: analysis incomplete: %s: %s" % (type(e).__name__, e))
    except Exception as e:
        print("ANALYSIS-BROKEN property=%s internal error: %r" % (prop, e))
        traceback.print_exc(limit=None if os.environ.get("VF_DEBUG") else -3)
        code = 2 if not c.viol else 0
    finally:
        c.b.close()
    kf = [k for k in known_findings() if k["property"] == prop and not k.get("fixed")]
    new = []
    hit = set()
    for v in c.viol:
        m = None
        for i, k in enumerate(kf):
            if k["key"] == v["key"]:
                m = i
        if m is None:
            new.append(v)
        else:
            hit.add(m)
    for i in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[i]["what"]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if new:
        rp = os.path.join(HERE, "evidence", "%s.replay.txt" % prop)
        with open(rp, "w") as f:
            f.write("property %s: %s\n" % (prop, title))
            for v in new:
                f.write("\n* %s\n  at %s\n  %s\n" % (v["what"], v["where"], v["detail"]))
        for v in new[:8]:
            print("  - %s\n    at %s\n    %s" % (v["what"], v["where"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        code = 1
    cov = {k: v for k, v in sorted(c.counts.items())}
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": level_text + " Rules: " + " | ".join(c.rules),
            "counts": dict(cov, **{"case leaves compared": c.stats.leaves, "infeasible orderings discarded": c.stats.infeasible,
                                   "orderings left to another interpretation point": c.stats.skipped}),
            "units": sorted(set(c.b.units)),
            "functions analysed": sorted(c.funcs)[:200],
            "sample obligations": c.samples,
            "notes": c.notes[:40],
        },
        "wall_s": round(time.time() - c.t0, 2),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s %s: %d obligations, %d functions, %d units, %.1f s -> exit %d" % (
        prop, title, c.counts.get("obligations", 0), len(c.funcs), len(set(c.b.units)), time.time() - c.t0, code))
    return code
