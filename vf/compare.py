"""Deciding equality of two value-graph nodes.

Method: global value numbering by random interpretation (Gulwani & Necula, POPL'04): each
guard-free node is mapped to a residue modulo the prime 2^521-1 at several pseudo-random points of its
atoms; two guard-free nodes are the same real-valued function iff their residues agree (error
probability < deg/2^512 per point).  Guards are resolved by Shannon splitting on the *sign* of the
canonical difference of the compared operands, so equality is decided per ordering of the finitely
many comparisons involved.  Orderings that no real/integer assignment can produce are discarded when a
positive combination of the chosen strict signs is a non-positive constant (Farkas certificate found by
linear algebra on the residues).  The program under analysis is never executed.
"""
import time
import hashlib
from fractions import Fraction
from functools import lru_cache
from itertools import combinations

from . import affine, near as nearby
from . import expr as X
from .expr import B, E

P = (1 << 521) - 1
K = 6
_hc = {}
_rev = {}
OPAQUE = ("fnI", "idiv", "irem")


def H(*key):
    r = _hc.get(key)
    if r is None:
        r = int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=64).digest(), "big") % P
        _hc[key] = r
    return r


@lru_cache(1 << 18)
def inv(a):
    return pow(a, -1, P) if a else 0


@lru_cache(1 << 17)
def invs(v):
    """inverses of several residues (zero stands for itself) with a single inversion"""
    pre, t = [], 1
    for q in v:
        pre.append(t)
        if q:
            t = t * q % P
    t = pow(t, -1, P)
    out = [0] * len(v)
    for k in range(len(v) - 1, -1, -1):
        if v[k]:
            out[k] = t * pre[k] % P
            t = t * v[k] % P
    return tuple(out)


_bit = {}
_mask = {0: 0, 1: 0}


def mask(x):
    """bit set of the atoms an expression or guard depends on"""
    if isinstance(x, E):
        m = _mask.get(x.id)
        if m is None:
            m = 0
            if x.op in ("sym", "ld"):
                # all elements of one array share a bit: the same element may be spelled in several ways
                m = 1 << _bit.setdefault(x.id if x.op == "sym" else ("ld", repr(x.a[0])), len(_bit))
            for y in x.a:
                if isinstance(y, (E, B, tuple)):
                    m |= mask(y)
            _mask[x.id] = m
        return m
    if isinstance(x, B):
        if x.id < 2:
            return 0
        m = _mask.get(("b", x.id))
        if m is None:
            m = mask(x.lo) | mask(x.hi)
            for y in X.VARS[x.v][1:]:
                if isinstance(y, (E, tuple)):
                    m |= mask(y)
            _mask[("b", x.id)] = m
        return m
    if isinstance(x, tuple):
        m = 0
        for y in x:
            m |= mask(y)
        return m
    return 0


@lru_cache(1 << 16)
def is_qr(a):
    return a == 0 or pow(a, (P - 1) // 2, P) == 1


@lru_cache(1 << 12)
def rat(f):
    return f.numerator % P * inv(f.denominator % P) % P


def unrat(v):
    """the rational with residue v, or None: numerators and denominators up to 2^220 cover every constant of a
    program, and a residue that is no constant passes for one with probability 2^-80"""
    bound = 1 << 220
    r0, r1, s0, s1 = P, v, 0, 1
    while r1 > bound:
        q = r0 // r1
        r0, r1, s0, s1 = r1, r0 - q * r1, s1, s0 - q * s1
    if s1 == 0 or abs(s1) > bound:
        return None
    return Fraction(r1, s1)


def circle(name, v):
    """sine, cosine and tangent of one angle: a point of the circle, symmetric for opposite angles"""
    w = min(v, P - v)
    t = H("angle", w) if v else 0
    if w != v:
        t = (P - t) % P
    d = inv((1 + t * t) % P)
    if name == "sin":
        return 2 * t * d % P
    if name == "cos":
        return (1 - t * t) * d % P
    return 2 * t * inv((1 - t * t) % P) % P


class Split(Exception):
    def __init__(self, kind, key, a, b, test, isint):
        self.kind, self.key, self.a, self.b, self.test, self.isint = kind, key, a, b, test, isint


class Undecided(Exception):
    pass


class NeedSeed(Exception):
    pass


class Assume:
    """facts that hold in every configuration of interest: positive atoms, integer inequalities."""

    def __init__(self, positive=None):
        self.positive = positive or (lambda name: False)
        self.facts = []  # (a, b, signset, isint): sign(a-b) in signset

    def add(self, a, b, signs, isint=False):
        self.facts.append((a, b, frozenset(signs), isint))
        return self

    def from_bool(self, b):
        """conjunction of comparison literals"""
        while b not in (X.TRUE, X.FALSE):
            v = X.VARS[b.v]
            if b.lo is X.FALSE:
                pol, nxt = True, b.hi
            elif b.hi is X.FALSE:
                pol, nxt = False, b.lo
            else:
                raise Undecided("assumption is not a conjunction of comparisons: " + X.showb(b))
            if v[0] == "IL":
                self.facts.append((v[1], 0, frozenset((-1,)) if pol else frozenset((0, 1)), True))
            elif v[0] == "IE":
                self.facts.append((v[1], 0, frozenset((0,)) if pol else frozenset((-1, 1)), True))
            elif v[0] == "L":
                self.facts.append((v[1], v[2], frozenset((-1,)) if pol else frozenset((0, 1)), False))
            elif v[0] == "E":
                self.facts.append((v[1], v[2], frozenset((0,)) if pol else frozenset((-1, 1)), False))
            else:
                self.facts.append(("P", v[1], v[2], pol))
            b = nxt
        return self


class Env:
    def __init__(self, assume, seed=0, fact_mode=False, lazy=False):
        self.assume = assume
        self.lazy = lazy
        self.fact_mode = fact_mode
        self.seed = seed
        self.dec = []  # (a, b, signs, isint)
        self.signs = {}  # projective key -> (ref residue, signs)
        self.preds = {}
        self.over = {}
        self.memo = {}
        self.bmemo = {}
        self._factors = {}
        self.bad = set()
        self.contradiction = False
        self.unsolved = False
        self.eqs = []
        self.pending = []
        for f in assume.facts:
            if f[0] == "P":
                self.preds[self.pkey(f[1], f[2])] = f[3]
            else:
                self.pending.append(f)
        self.learn()

    # ------------------------------------------------------------------ values
    def leafval(self, name, e):
        o = self.over.get(e.id)
        if o is not None:
            return o
        pos = self.assume.positive(name)
        r = []
        for k in range(K):
            v = H("atom", self.seed, k, name)
            r.append(v * v % P if pos else v)
        return tuple(r)

    def fp(self, x):
        if isinstance(x, int):
            return (x % P,) * K
        m = self.memo.get(x.id)
        if m is not None:
            return m
        r = self._fp(x)
        self.memo[x.id] = r
        if x.id not in _mask:
            mask(x)
        return r

    def _fp(self, x):
        o = x.op
        if o == "c":
            return (rat(x.a[0]),) * K
        if o == "add":
            a, b = self.fp(x.a[0]), self.fp(x.a[1])
            return tuple((p + q) % P for p, q in zip(a, b))
        if o == "mul":
            a, b = self.fp(x.a[0]), self.fp(x.a[1])
            return tuple(p * q % P for p, q in zip(a, b))
        if o == "neg":
            return tuple(-p % P for p in self.fp(x.a[0]))
        if o == "div":
            a, b = self.fp(x.a[0]), self.fp(x.a[1])
            return tuple(p * q % P if q else H("div0", p) for p, q in zip(a, invs(b)))
        if o == "ite":
            return self.fp(x.a[1]) if self.truth(x.a[0]) else self.fp(x.a[2])
        if o == "i2f":
            return self.fp(x.a[0])
        if o == "ip":
            acc = [0] * K
            for mono, c in x.a:
                t = [c % P] * K
                for at in mono:
                    f = self.fp(at)
                    t = [p * q % P for p, q in zip(t, f)]
                acc = [(p + q) % P for p, q in zip(acc, t)]
            return tuple(acc)
        if o == "sym":
            return self.leafval(x.a[0], x)
        if o == "ld":
            idx = [self.fp(y) for y in x.a[1:]]
            o = self.over.get((repr(x.a[0]), tuple(idx)))
            if o is not None:
                return o
            pos = self.assume.positive(x.a[0])
            r = []
            for k in range(K):
                v = H("ld", self.seed, k, repr(x.a[0]), tuple(i[k] for i in idx))
                r.append(v * v % P if pos else v)
            return tuple(r)
        if o == "fn":
            args = [self.fp(y) for y in x.a[1:]]
            if x.a[0] == "sqrt":
                r = []
                for k, v in enumerate(args[0]):
                    if is_qr(v):
                        r.append(pow(v, (P + 1) // 4, P))
                    else:
                        self.bad.add(k)
                        r.append(H("sqrt", v))
                return tuple(r)
            name = x.a[0]
            if name in ("sin", "cos", "tan"):
                return tuple(circle(name, v) for v in args[0])
            if name in ("exp", "sinh", "cosh"):
                r = []
                for k, v in enumerate(args[0]):
                    # exp(-x) = 1 / exp(x)
                    w = min(v, P - v)
                    h = H("fn", "exp", w) or 1
                    if self.assume.positive(("fn", "exp")):
                        h = h * h % P
                    if w != v:
                        h = inv(h)
                    if name != "exp":
                        h = (h + (inv(h) if name == "cosh" else P - inv(h))) * inv(2) % P
                    r.append(h)
                return tuple(r)
            if name in ("log10", "log2"):
                b = self.fp(X.fn("log", X.fconst(10 if name == "log10" else 2)))
                return tuple(H("fn", "log", v) * inv(q) % P for v, q in zip(args[0], b))
            if name == "log":
                return tuple(H("fn", "log", v) for v in args[0])
            if name in ("tanh", "atan", "asin"):
                # odd function
                r = []
                for v in args[0]:
                    w = min(v, P - v)
                    h = H("fn", name, w)
                    r.append(h if w == v else (P - h) % P)
                return tuple(r)
            if name == "pow":
                # x^-p = 1 / x^p
                r = []
                pos = self.assume.positive(("fn", name))
                for b, v in zip(*args):
                    w = min(v, P - v)
                    h = H("fn", name, b, w) or 1
                    if pos:
                        h = h * h % P
                    r.append(h if w == v else inv(h))
                return tuple(r)
            pos = self.assume.positive(("fn", x.a[0]))
            if isinstance(x.a[0], str) and x.a[0].startswith("inv:"):
                return self.invfn(x.a[0], args)
            srt = isinstance(x.a[0], str) and x.a[0].startswith("sym:")
            r = []
            for k in range(K):
                h = H("fn", k, x.a[0], tuple(sorted(a[k] for a in args)) if srt else tuple(a[k] for a in args))
                r.append(h * h % P if pos else h)
            return tuple(r)
        if o in ("nan", "inf"):
            return tuple(H(o, x.a) for _ in range(K))
        # opaque operators (idiv, f2i, ...)
        args = []
        for y in x.a:
            if isinstance(y, (E, int)):
                args.append(self.fp(y))
            elif isinstance(y, B):
                args.append((self.truth(y),) * K)
            else:
                args.append((repr(y),) * K)
        if o in OPAQUE:
            v = self.over.get((o, tuple(args)))
            if v is not None:
                return v
        return tuple(H("op", o, k, self.seed, tuple(a[k] for a in args)) for k in range(K))

    def invfn(self, name, args):
        """mutually inverse functions inv:f and inv:f' (in the last argument)"""
        back = name.endswith("'")
        other = name[:-1] if back else name + "'"
        r = []
        for k in range(K):
            par, y = tuple(a[k] for a in args[:-1]), args[-1][k]
            v = _rev.get((name, par, y))
            if v is None:
                v = H("fn", name, par, y)
                _rev[(other, par, v)] = y
            r.append(v)
        return tuple(r)

    # ------------------------------------------------------------------ guards
    def truth(self, b):
        while b.id > 1:
            b = b.hi if self.decide(b.v) else b.lo
        return b is X.TRUE

    def pkey(self, tag, y):
        return (tag, self.fp(y)) if isinstance(y, (E, int)) else (tag, repr(y))

    def proj(self, d):
        piv = next((v for v in d if v), 0)
        i = inv(piv)
        return tuple(v * i % P for v in d), piv

    def decide(self, v):
        desc = X.VARS[v]
        if desc[0] == "P":
            key = self.pkey(desc[1], desc[2])
            t = self.preds.get(key)
            if t is None:
                raise Split("P", key, desc[1], desc[2], None, False)
            return t
        if desc[0] in ("IL", "IE"):
            a, b, isint = desc[1], 0, True
        else:
            a, b, isint = desc[1], desc[2], False
        want = -1 if desc[0] in ("IL", "L") else 0
        s = self.sign(a, b, isint, desc)
        if s == {want}:
            return True
        if want not in s:
            return False
        if not isint and self.fact_mode:
            fl = self.factors(X.fsub(a, b))
            if fl is not None:
                for e in fl:
                    t = self.sign(e, X.ZERO, False)
                    if len(t) > 1:
                        raise Split("S", None, e, X.ZERO, -1 if -1 in t else 0, False)
        raise Split("S", None, a, b, want, isint)

    def factors(self, d):
        """expressions whose signs multiply to the sign of d, or None when d is a single factor.
        Denominators of unknown sign are cleared, products are split."""
        r = self._factors.get(d.id)
        if r is None:
            out = []
            n, den = self._frac(d)
            for e in [n] + den:
                self._split_mul(e, out)
            r = None if len(out) == 1 and (out[0] is d or not den and out[0].op != "neg" and self.fp(out[0]) == self.fp(d)) else out
            self._factors[d.id] = r if r is not None else False
        return r if r is not False else None

    def _split_mul(self, e, out):
        if e.op == "mul" or e.op == "div":
            self._split_mul(e.a[0], out)
            self._split_mul(e.a[1], out)
        elif e.op == "neg":
            out.append(X.fconst(-1))
            self._split_mul(e.a[0], out)
        elif e.op == "ite":
            self._split_mul(e.a[1] if self.truth(e.a[0]) else e.a[2], out)
        else:
            out.append(e)

    def _frac(self, x):
        """x = n / prod(den), den: denominators whose sign is not known to be positive"""
        if x.op == "ite":
            return self._frac(x.a[1] if self.truth(x.a[0]) else x.a[2])
        if x.op == "neg":
            n, d = self._frac(x.a[0])
            return (x, []) if not d else (X.fneg(n), d)
        if x.op == "div":
            n, d = self._frac(x.a[0])
            m, c = self._frac(x.a[1])
            if not d and not c and self._ss(x.a[1]) == {1}:
                return x, []
            for y in c:
                n = X.fmul(n, y)
            return n, d + [m]
        if x.op == "mul":
            n, d = self._frac(x.a[0])
            m, c = self._frac(x.a[1])
            return (x, []) if not d and not c else (X.fmul(n, m), d + c)
        if x.op == "add":
            n, d = self._frac(x.a[0])
            m, c = self._frac(x.a[1])
            if not d and not c:
                return x, []
            rest = list(c)
            extra = []
            for y in d:
                if y in rest:
                    rest.remove(y)
                else:
                    extra.append(y)
            for y in rest:
                n = X.fmul(n, y)
            for y in extra:
                m = X.fmul(m, y)
            return X.fadd(n, m), d + rest
        return x, []

    def sign(self, a, b, isint, desc=None):
        fa, fb = self.fp(a), self.fp(b)
        d = tuple((p - q) % P for p, q in zip(fa, fb))
        if not any(d):
            return {0}
        if all(v == d[0] for v in d):
            r = unrat(d[0])
            if r is not None:
                return {1} if r > 0 else {-1}
        key, piv = self.proj(d)
        known = self.signs.get(key)
        st = self.static_sign(a, b)
        cur = {-1, 0, 1} if st is None else set(st)
        if known is not None:
            r = unrat(piv * inv(known[0]) % P)
            if r is not None:
                ks = known[1] if r > 0 else {-x for x in known[1]}
                cur &= ks
        if len(cur) > 1 and self.fact_mode and not isint and isinstance(a, E) and isinstance(b, E):
            fl = self.factors(X.fsub(a, b))
            if fl is not None:
                t = {1}
                for e in fl:
                    se = self.sign(e, X.ZERO, False)
                    t = {p * q for p in t for q in se}
                cur &= t
        return cur

    def static_sign(self, a, b):
        """cheap structural sign of a-b from positive atoms"""
        if b == 0 or (isinstance(b, E) and b.op == "c" and b.a[0] == 0):
            return self._ss(a)
        if isinstance(a, E) and a.op == "c" and a.a[0] == 0:
            s = self._ss(b)
            return None if s is None else {-x for x in s}
        return None

    def _ss(self, x):
        if isinstance(x, int):
            return {(x > 0) - (x < 0)}
        o = x.op
        if o == "c":
            return {(x.a[0] > 0) - (x.a[0] < 0)}
        if o == "sym":
            return {1} if self.assume.positive(x.a[0]) else None
        if o == "ld":
            return {1} if self.assume.positive(x.a[0]) else None
        if o == "neg":
            s = self._ss(x.a[0])
            return None if s is None else {-v for v in s}
        if o in ("mul", "div"):
            if o == "mul" and x.a[0] is x.a[1]:
                s = self._ss(x.a[0])
                return {0, 1} if s is None else {v * v for v in s}
            s, t = self._ss(x.a[0]), self._ss(x.a[1])
            if s is None or t is None:
                return None
            return {p * q for p in s for q in t}
        if o == "add":
            s, t = self._ss(x.a[0]), self._ss(x.a[1])
            if s is None or t is None:
                return None
            if s <= {0, 1} and t <= {0, 1}:
                return {1} if (s == {1} or t == {1}) else {0, 1}
            if s <= {0, -1} and t <= {0, -1}:
                return {-1} if (s == {-1} or t == {-1}) else {0, -1}
            return None
        if o == "fn":
            if x.a[0] == "sqrt":
                s = self._ss(x.a[1])
                return {1} if s == {1} else {0, 1}
            if x.a[0] in ("exp", "cosh"):
                return {1}
            if x.a[0] == "pow" and self._ss(x.a[1]) == {1}:
                return {1}
            if self.assume.positive(("fn", x.a[0])):
                return {1}
        if o == "ite":
            try:
                return self._ss(x.a[1] if self.truth(x.a[0]) else x.a[2])
            except Split:
                s, t = self._ss(x.a[1]), self._ss(x.a[2])
                return None if s is None or t is None else s | t
        return None

    def _record(self, a, b, signs, isint):
        self.dec.append((a, b, frozenset(signs), isint, self.base))
        fa, fb = self.fp(a), self.fp(b)
        d = tuple((p - q) % P for p, q in zip(fa, fb))
        if not any(d):
            if 0 not in signs:
                self.contradiction = True
            return
        key, piv = self.proj(d)
        known = self.signs.get(key)
        if known is None:
            self.signs[key] = (piv, set(signs))
        else:
            r = unrat(piv * inv(known[0]) % P)
            if r is None:
                raise Undecided("incommensurable comparisons")
            s = set(signs) if r > 0 else {-x for x in signs}
            s &= known[1]
            self.signs[key] = (known[0], s)
            if not s:
                self.contradiction = True

    def learn(self):
        """record the assumptions; some have terms that hang on decisions not yet taken"""
        todo, self.pending = self.pending, []
        self.base = True
        for f in todo:
            n = len(self.dec)
            try:
                self._record(*f)
            except Split:
                del self.dec[n:]
                self.pending.append(f)
        self.base = False

    def child(self):
        e = Env.__new__(Env)
        e.assume, e.seed, e.fact_mode, e.lazy = self.assume, self.seed, self.fact_mode, self.lazy
        e.dec = list(self.dec)
        e.signs = dict(self.signs)
        e.preds = dict(self.preds)
        e.over = dict(self.over)
        e.memo = dict(self.memo)
        e.bmemo = {}
        e._factors = {}
        e.bad = set(self.bad)
        e.contradiction = self.contradiction
        e.unsolved = self.unsolved
        e.eqs = list(self.eqs)
        e.pending = list(self.pending)
        e.base = False
        return e

    def split(self, s):
        out = []
        if s.kind == "P":
            for t in (True, False):
                c = self.child()
                c.preds[s.key] = t
                c.dec.append((s.a, s.b, t, None, False))
                if c.pending:
                    c.learn()
                if not c.contradiction:
                    out.append(c)
            return out
        cur = self.sign(s.a, s.b, s.isint)
        parts = [{s.test}, cur - {s.test}]
        for part in parts:
            if not part:
                continue
            c = self.child()
            c._record(s.a, s.b, part, s.isint)
            if c.pending:
                c.learn()
            if part == {0} and not self.lazy:
                c.impose(s.a, s.b, s.isint)
            if not c.contradiction:
                out.append(c)
        return out

    def impose(self, a, b, isint):
        """specialise the interpretation points so that a == b holds"""
        self.eqs.append((a, b, isint))
        for _ in range(3):
            ok = True
            try:
                for (p, q, _i) in self.eqs:
                    fa, fb = self.fp(p), self.fp(q)
                    if fa == fb:
                        continue
                    if not self._solve(p, q):
                        ok = False
                if ok and all(self.fp(p) == self.fp(q) for p, q, _i in self.eqs):
                    break
            except Split:  # a side hangs on a further decision
                pass
        else:
            self.unsolved = True
        # rebuild the sign table
        dec, self.dec, self.signs = self.dec, [], {}
        for d in dec:
            if d[3] is None:
                self.dec.append(d)
            else:
                self.base = d[4]
                try:
                    self._record(*d[:4])
                except Split:
                    self.unsolved = True
                    self.dec.append(d)
        self.base = False

    def _fnikey(self, x):
        """an application of an uninterpreted integer function, by its arguments' values"""
        return (x.op, tuple(self.fp(y) if isinstance(y, (E, int)) else (self.truth(y),) * K if isinstance(y, B) else (repr(y),) * K for y in x.a))

    def _solve(self, a, b):
        top = set()
        _top_atoms(a, top)
        _top_atoms(b, top)
        cands = sorted(X.atoms(a) | X.atoms(b), key=lambda e: (e.id not in top, self.assume.positive(e.a[0]), e.op != "sym", -e.id))
        for at in cands + [e for e in (a, b) for e in _top_fni(e)]:
            try:
                key = self._fnikey(at) if at.op in OPAQUE else at.id if at.op == "sym" else (repr(at.a[0]), tuple(self.fp(y) for y in at.a[1:]))
            except Split:
                continue
            if key in self.over:
                continue
            save_over, save_memo = dict(self.over), self.memo
            try:
                v0 = self.fp(at)

                bit = mask(at)
                keep = {i: v for i, v in save_memo.items() if not _mask.get(i, -1) & bit}

                def diff(val):
                    self.over[key] = val
                    self.memo = dict(keep)
                    fa, fb = self.fp(a), self.fp(b)
                    return tuple((p - q) % P for p, q in zip(fa, fb))

                d0 = diff(v0)
                d1 = diff(tuple((v + 1) % P for v in v0))
                d2 = diff(tuple((v + 2) % P for v in v0))
                sl = [(q - p) % P for p, q in zip(d0, d1)]
                if any(s == 0 for s in sl) or any((r - q) % P != s for q, r, s in zip(d1, d2, sl)):
                    raise ValueError
                nv = tuple((v - d * inv(s)) % P for v, d, s in zip(v0, d0, sl))
                if any(diff(nv)):
                    raise ValueError
                return True
            except (ValueError, Split):
                self.over, self.memo = save_over, save_memo
        return False

    # ------------------------------------------------------------------ feasibility
    def infeasible(self):
        if self.contradiction:
            return True

        def truth(b):
            try:
                return self.truth(b)
            except Split:
                return None

        def signs_of(a, b, s):
            try:
                return set(s) & self.sign(a, b, True)
            except Split:
                return set(s)

        if affine.infeasible(self.dec, truth, signs_of):
            return True
        cons = []
        for a, b, signs, isint, base in self.dec:
            if isint is None:
                continue
            s = set(signs)
            try:
                s &= self.sign(a, b, isint)
            except Split:
                pass
            if not s:
                return True
            if s == {-1, 0, 1} or s == {-1, 1}:
                continue
            try:
                fa, fb = self.fp(a), self.fp(b)
            except Split:
                continue
            d = [(p - q) % P for p, q in zip(fa, fb)]
            if not any(d):
                continue
            if s <= {-1, 0}:
                d = [-v % P for v in d]
                s = {-x for x in s}
            # d >= 0 or d > 0 (or == 0, both directions)
            cons.append((d, 0 not in s, isint))
            if s == {0}:
                cons.append(([-v % P for v in d], False, isint))
        for e in self.pos_terms():
            try:
                cons.append((list(self.fp(e)), True, False))
            except Split:
                pass
        seen = {}
        for c in cons:
            k = tuple(c[0])
            if k not in seen or (c[1] and not seen[k][1]):
                seen[k] = c
        cons = list(seen.values())
        # positive atoms as constraints come in through facts; search small positive combinations that
        # are a constant contradicting the signs
        for n in (2, 3, 4):
            if (len(cons) > 18 and n > 3) or (len(cons) > 40 and n > 2):
                break
            for sub in combinations(cons, n):
                lam = _relation([c[0] for c in sub])
                if lam is None:
                    continue
                l, const = lam  # sum l_i d_i = const
                if all(v > 0 for v in l):
                    pass
                elif all(v < 0 for v in l):
                    l = [-v for v in l]
                    const = -const
                else:
                    continue
                strict = any(c[1] for c in sub)
                lowint = sum((v for v, c in zip(l, sub) if c[1] and c[2]), Fraction(0))
                if const < 0 or (const == 0 and strict):
                    return True
                if lowint > const and all(c[2] for c in sub):
                    return True
        return False

    def pos_terms(self):
        """positive atoms that occur as top-level terms of the recorded comparisons"""
        out = {}

        def top(x, depth):
            if not isinstance(x, E) or depth > 8:
                return
            if x.op in ("add", "neg"):
                for y in x.a:
                    top(y, depth + 1)
            elif x.op == "ite":
                try:
                    top(x.a[1] if self.truth(x.a[0]) else x.a[2], depth + 1)
                except Split:
                    pass
            elif x.op != "c" and self._ss(x) == {1}:
                out[x.id] = x

        for a, b, signs, isint, base in self.dec:
            if isint is not None and not isint:
                top(a, 0)
                top(b, 0)
        return list(out.values())[:12]

    def describe(self):
        out = []
        for a, b, signs, isint, base in self.dec:
            if base:
                continue
            if isint is None:
                out.append(("" if signs is True else "not ") + "%s(%s)" % (a, X.show(b, 5)))
            else:
                rel = {(-1,): "<", (0,): "==", (1,): ">", (-1, 0): "<=", (0, 1): ">=", (-1, 1): "!="}.get(tuple(sorted(signs)), "?")
                out.append("%s %s %s" % (X.show(a, 6), rel, X.show(b, 6)))
        return "; ".join(out)


def _top_atoms(x, out, seen=None):
    """atoms an expression may depend on linearly"""
    seen = set() if seen is None else seen
    if not isinstance(x, E) or x.id in seen:
        return
    seen.add(x.id)
    if x.op in ("sym", "ld"):
        out.add(x.id)
    elif x.op in ("add", "mul", "div", "neg", "ite", "i2f"):
        for y in x.a:
            _top_atoms(y, out, seen)
    elif x.op == "ip":
        for mono, _c in x.a:
            for y in mono:
                _top_atoms(y, out, seen)


def _top_fni(x, out=None):
    """uninterpreted integer applications an expression may depend on linearly"""
    out = [] if out is None else out
    if isinstance(x, E):
        if x.op in OPAQUE:
            out.append(x)
        elif x.op in ("add", "neg", "i2f"):
            for y in x.a:
                _top_fni(y, out)
        elif x.op == "ip":
            for mono, _c in x.a:
                for y in mono:
                    _top_fni(y, out)
    return out


def _relation(vs):
    """find lambda (all non-zero, unique up to scale) and const with sum lambda_i v_i = const at every point"""
    n = len(vs)
    # unknowns lambda_0..n-1, const ; equations: K
    rows = [[v[k] for v in vs] + [P - 1] for k in range(K)]
    m = n + 1
    piv = []
    r = 0
    for c in range(m):
        pr = next((i for i in range(r, K) if rows[i][c] % P), None)
        if pr is None:
            continue
        rows[r], rows[pr] = rows[pr], rows[r]
        iv = inv(rows[r][c])
        rows[r] = [v * iv % P for v in rows[r]]
        for i in range(K):
            if i != r and rows[i][c]:
                f = rows[i][c]
                rows[i] = [(p - f * q) % P for p, q in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
        if r == K:
            break
    free = [c for c in range(m) if c not in piv]
    if len(free) != 1:
        return None
    f = free[0]
    sol = [0] * m
    sol[f] = 1
    for i, c in enumerate(piv):
        sol[c] = -rows[i][f] % P
    out = []
    for v in sol:
        q = unrat(v)
        if q is None:
            return None
        out.append(q)
    l, const = out[:n], out[n]
    if any(v == 0 for v in l):
        return None
    return l, const


# ----------------------------------------------------------------------------- driver


class Stats:
    def __init__(self):
        self.leaves = 0
        self.skipped = 0
        self.infeasible = 0


LIMIT = [None]  # when to give up


def differ(a, b, assume, stats=None, budget=60000, guard=X.TRUE, near=False):
    """None if a == b for every assignment satisfying guard and the assumptions, else a textual witness."""
    stats = stats or Stats()
    for seed in range(24):
        st = Stats()
        try:
            # first without specialising the points to the equalities assumed on the way: agreement there
            # is agreement a fortiori
            r = _differ(a, b, Env(assume, seed, lazy=True), st, budget, guard, near)
            if r is not None:
                r = _differ(a, b, Env(assume, seed), st, budget, guard, near)
            if r is not None:
                # a second look with comparisons of products and quotients resolved factor by factor
                r = _differ(a, b, Env(assume, seed, True), st, budget, guard, near)
            stats.leaves += st.leaves
            stats.skipped += st.skipped
            stats.infeasible += st.infeasible
            return r
        except NeedSeed:
            continue
    raise Undecided("no interpretation point with rational square roots")


def _val(x, env):
    if isinstance(x, B):
        return ("b", env.truth(x))
    if isinstance(x, (tuple, list)):
        while isinstance(x, tuple) and len(x) == 4 and x[0] == "ite" and isinstance(x[1], B):
            x = x[2] if env.truth(x[1]) else x[3]
        if not isinstance(x, (tuple, list)):
            return _val(x, env)
        return tuple(_val(y, env) for y in x)
    if isinstance(x, (E, int)):
        return env.fp(x)
    return repr(x)


def _agree(u, v, bad):
    if isinstance(u, tuple) and isinstance(v, tuple) and len(u) == K and len(v) == K and all(isinstance(q, int) for q in u) and all(isinstance(q, int) for q in v):
        return all(p == q for k, (p, q) in enumerate(zip(u, v)) if k not in bad)
    if isinstance(u, tuple) and isinstance(v, tuple):
        return len(u) == len(v) and all(_agree(p, q, bad) for p, q in zip(u, v))
    return u == v


def _differ(a, b, env, st, budget, guard, near=False):
    stack = [env]
    while stack:
        env = stack.pop()
        if env.contradiction:
            continue
        if LIMIT[0] is not None and time.monotonic() > LIMIT[0]:
            raise Undecided("time exhausted")
        try:
            if guard is not X.TRUE and not env.truth(guard):
                continue
            u, v = _val(a, env), _val(b, env)
        except Split as s:
            stack.extend(reversed(env.split(s)))
            continue
        st.leaves += 1
        if st.leaves > budget:
            raise Undecided("case budget exhausted")
        if u == v:
            continue
        if near:
            try:
                if nearby.agree(a, b, env.truth):
                    continue
            except Split as s:
                stack.extend(reversed(env.split(s)))
                continue
        if len(env.bad) >= K:
            raise NeedSeed
        if env.bad and _agree(u, v, env.bad):
            continue
        if env.unsolved and not any(e[2] for e in env.eqs):  # a tie between two computed real numbers
            st.skipped += 1
            continue
        if env.infeasible():
            st.infeasible += 1
            continue
        if env.unsolved:
            raise Undecided("no interpretation point satisfies: " + env.describe())
        return env.describe() or "unconditionally"
    return None
