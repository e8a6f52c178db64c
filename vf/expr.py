"""Value-graph domain: hash-consed expressions, integer polynomials, decision-diagram guards.

Two kinds of expression share one node class:
  * real-valued nodes (LLVM f64/f32), kept as a DAG of c/sym/add/mul/neg/div/fn/ite/i2f/ld nodes;
  * integer-valued nodes, kept canonical as polynomials ('ip') over integer atoms.
Integer constants are plain Python ints.  Booleans (i1) are nodes of a reduced ordered
decision diagram (class B) whose variables are comparisons or opaque predicates.
"""
import math
import struct
from fractions import Fraction

# ----------------------------------------------------------------------------- nodes


class E:
    __slots__ = ("op", "a", "id", "k", "ite")

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def mk(op, args, kind):
    key = (op, kind) + tuple(_k(x) for x in args)
    e = _tab.get(key)
    if e is None:
        e = E()
        e.op = op
        e.a = tuple(args)
        e.k = kind
        _cnt[0] += 1
        e.id = _cnt[0]
        _tab[key] = e
    return e


def _k(x):
    if isinstance(x, E):
        return ("e", x.id)
    if isinstance(x, B):
        return ("b", x.id)
    if isinstance(x, tuple):
        return tuple(_k(y) for y in x)
    return (type(x).__name__, x)


# ----------------------------------------------------------------------------- decision diagrams


class B:
    __slots__ = ("v", "lo", "hi", "id")

    def __repr__(self):
        return showb(self)


_bt = {}
VARS = []  # index -> descriptor
_vidx = {}

FALSE = B()
FALSE.v, FALSE.lo, FALSE.hi, FALSE.id = 1 << 60, None, None, 0
TRUE = B()
TRUE.v, TRUE.lo, TRUE.hi, TRUE.id = 1 << 60, None, None, 1
_bc = [2]


def _bnode(v, lo, hi):
    if lo is hi:
        return lo
    key = (v, lo.id, hi.id)
    n = _bt.get(key)
    if n is None:
        n = B()
        n.v, n.lo, n.hi, n.id = v, lo, hi, _bc[0]
        _bc[0] += 1
        _bt[key] = n
    return n


def bvar(desc):
    """desc: ('L',a,b) | ('E',a,b) | ('U',a,b) over reals, ('IL',d) | ('IE',d) over ints, ('P',tag,E) opaque."""
    key = _k(desc)
    i = _vidx.get(key)
    if i is None:
        i = len(VARS)
        VARS.append(desc)
        _vidx[key] = i
    return _bnode(i, FALSE, TRUE)


_im = {}


def bite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    key = (f.id, g.id, h.id)
    r = _im.get(key)
    if r is None:
        v = min(f.v, g.v, h.v)
        f0, f1 = (f.lo, f.hi) if f.v == v else (f, f)
        g0, g1 = (g.lo, g.hi) if g.v == v else (g, g)
        h0, h1 = (h.lo, h.hi) if h.v == v else (h, h)
        r = _bnode(v, bite(f0, g0, h0), bite(f1, g1, h1))
        _im[key] = r
    return r


def band(a, b):
    return bite(a, b, FALSE)


def bor(a, b):
    return bite(a, TRUE, b)


def bnot(a):
    return bite(a, FALSE, TRUE)


def bxor(a, b):
    return bite(a, bnot(b), b)


_cm = {}


def constrain(f, c):
    """generalised cofactor of f by c (c != FALSE): agrees with f wherever c holds."""
    if c is TRUE or f is TRUE or f is FALSE:
        return f
    if f is c:
        return TRUE
    key = (f.id, c.id)
    r = _cm.get(key)
    if r is not None:
        return r
    v = min(f.v, c.v)
    f0, f1 = (f.lo, f.hi) if f.v == v else (f, f)
    c0, c1 = (c.lo, c.hi) if c.v == v else (c, c)
    if c0 is FALSE:
        r = constrain(f1, c1)
    elif c1 is FALSE:
        r = constrain(f0, c0)
    elif f.v > v:
        # restrict: f does not depend on v
        r = constrain(f, bor(c0, c1))
    else:
        r = _bnode(v, constrain(f0, c0), constrain(f1, c1))
    _cm[key] = r
    return r


def bsupport(b, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if b.id < 2 or b.id in seen:
        return acc
    seen.add(b.id)
    acc.add(b.v)
    bsupport(b.lo, acc, seen)
    bsupport(b.hi, acc, seen)
    return acc


# ----------------------------------------------------------------------------- constants


def nice(x):
    """Fraction standing for the double x; recognises small denominators and short decimals."""
    if x == 0:
        return Fraction(0)
    for den in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 18, 20, 24, 32, 36, 64, 100, 128):
        num = round(x * den)
        if num != 0 and abs(num) < 1 << 53 and num / den == x:
            return Fraction(num, den)
    return Fraction(repr(x))


_bases = []
_known = {}


def commensurate(x):
    """Fraction standing for the double x: constants whose ratio is a small fraction up to the rounding of the double,
    as products folded in another order give, are given that exact ratio"""
    f = _known.get(x)
    if f is not None:
        return f
    f = nice(x)
    if f and f.denominator.bit_length() + f.numerator.bit_length() > 40:
        for y, b in _bases:
            r = x / y
            q = Fraction(r).limit_denominator(64) if 0.015 < abs(r) < 65 else 0
            if q and abs(q.numerator) <= 64 and abs(float(q) * y - x) <= 4.5e-16 * abs(x):
                f = b * q
                break
        else:
            f = _folded(x) or f
            _bases.append((x, f))
    _known[x] = f
    return f


def _folded(x):
    """the same for a product or quotient of two constants"""
    for y, b in _bases:
        for z, d in _bases:
            for w, e in ((y * z, 1), (y / z, -1)):
                if not w or not 0.08 < abs(x / w) < 12.5:
                    continue
                r = x / w
                for den in (1, 2, 3, 4, 6, 8, 12):
                    num = round(r * den)
                    if num and abs(r * den - num) <= 1e-15 * abs(num):
                        return b * Fraction(num, den) * (d if e == 1 else 1 / d)
    return None


def fconst(x):
    if isinstance(x, Fraction):
        return mk("c", (x,), "f")
    if isinstance(x, int):
        return mk("c", (Fraction(x),), "f")
    if math.isnan(x):
        return mk("nan", (), "f")
    if math.isinf(x):
        return mk("inf", (1 if x > 0 else -1,), "f")
    q = x / math.pi
    for den in (1, 2, 3, 4, 6, 8, 12, 16, 180):
        num = round(q * den)
        if num != 0 and abs(num) <= 4096:
            r = num * math.pi / den
            if abs(r - x) <= 4e-16 * abs(x):
                return fmul(mk("c", (Fraction(num, den),), "f"), PI)
    return mk("c", (commensurate(x),), "f")


PI = mk("sym", ("PI",), "f")
ZERO = fconst(0)
ONE = fconst(1)


def is_c(e):
    return e.op == "c"


def sym(name, kind="f"):
    if kind == "f":
        return mk("sym", (name,), "f")
    return ipoly_atom(mk("sym", (name,), "i"))


# ----------------------------------------------------------------------------- reals


def fadd(a, b):
    if a.op == "nan" or b.op == "nan":
        return a if a.op == "nan" else b
    if a.op == "c" and b.op == "c":
        return fconst(a.a[0] + b.a[0])
    if a.op == "c" and a.a[0] == 0:
        return b
    if b.op == "c" and b.a[0] == 0:
        return a
    if a.op == "neg" and a.a[0] is b or b.op == "neg" and b.a[0] is a:
        return ZERO
    if b.id < a.id:
        a, b = b, a
    return mk("add", (a, b), "f")


def fneg(a):
    if a.op == "c":
        return fconst(-a.a[0])
    if a.op == "neg":
        return a.a[0]
    if a.op == "inf":
        return mk("inf", (-a.a[0],), "f")
    if a.op == "nan":
        return a
    return mk("neg", (a,), "f")


def fsub(a, b):
    if a is b:
        return ZERO
    return fadd(a, fneg(b))


def fmul(a, b):
    if a.op == "nan" or b.op == "nan":
        return a if a.op == "nan" else b
    if a.op == "c" and b.op == "c":
        return fconst(a.a[0] * b.a[0])
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        if a.a[0] == 0:
            return ZERO
        if a.a[0] == 1:
            return b
        if a.a[0] == -1:
            return fneg(b)
    elif b.id < a.id:
        a, b = b, a
    return mk("mul", (a, b), "f")


def fdiv(a, b):
    if a.op == "nan" or b.op == "nan":
        return a if a.op == "nan" else b
    if b.op == "c" and b.a[0] != 0:
        return fmul(fconst(1 / b.a[0]), a)
    if a.op == "c" and a.a[0] == 0:
        return ZERO
    if a is b:
        return ONE
    return mk("div", (a, b), "f")


def fn(name, *args):
    if name == "sqrt" and args[0].op == "c":
        v = args[0].a[0]
        if v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return fconst(Fraction(n, d))
    if name == "hypot":
        r = ZERO
        for y in args:
            r = fadd(r, fmul(y, y))
        return fn("sqrt", r)
    if name == "cbrt":
        return fn("pow", args[0], fconst(Fraction(1, 3)))
    if name == "pow" and args[1].op == "c":
        p = args[1].a[0]
        if p.denominator == 1 and abs(p) <= 16:
            n = abs(int(p))
            r = ONE
            for _ in range(n):
                r = fmul(r, args[0])
            return r if p >= 0 else fdiv(ONE, r)
        if p.denominator == 2 and abs(p) <= 8:
            r = fn("sqrt", args[0])
            for _ in range(int(abs(p))):
                r = fmul(r, args[0])
            return r if p >= 0 else fdiv(ONE, r)
    if name == "pow" and args[0].op == "c" and args[0].a[0] == 1:
        return ONE
    if name == "cos" and args[0].op == "neg":
        return fn("cos", args[0].a[0])
    if name in ("sin", "tan", "tanh", "atan", "sinh") and args[0].op == "neg":
        return fneg(fn(name, args[0].a[0]))
    if args and args[0].op == "c" and args[0].a[0] == 0:
        if name in ("sin", "tan", "tanh", "atan", "sinh"):
            return ZERO
        if name in ("cos", "exp", "cosh"):
            return ONE
    return mk("fn", (name,) + args, "f")


def i2f(i):
    if isinstance(i, int):
        return fconst(i)
    if i.op == "ip" and len(i.a) == 1 and i.a[0][1] == 1 and len(i.a[0][0]) == 1:
        at = i.a[0][0][0]
        if at.op == "ite":
            return ite(at.a[0], i2f(at.a[1]), i2f(at.a[2]))
    return mk("i2f", (i,), "f")


# ----------------------------------------------------------------------------- integers (polynomials)
# an 'ip' node: args = (((atom,...), coeff), ...), sorted


def _ip(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return 0
    if len(items) == 1 and items[0][0] == ():
        return items[0][1]
    items.sort(key=lambda mc: tuple(x.id for x in mc[0]))
    return mk("ip", tuple(items), "i")


def ipoly_atom(at):
    return _ip({(at,): 1})


def _terms(x):
    if isinstance(x, int):
        return {(): x} if x else {}
    assert x.op == "ip", x.op
    return dict(x.a)


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    d = _terms(a)
    for m, c in _terms(b).items():
        d[m] = d.get(m, 0) + c
    return _ip(d)


def ineg(a):
    if isinstance(a, int):
        return -a
    return _ip({m: -c for m, c in a.a})


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return iadd(a, ineg(b))


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    d = {}
    for m1, c1 in _terms(a).items():
        for m2, c2 in _terms(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + c1 * c2
    return _ip(d)


def _cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def idiv(a, b):
    if isinstance(a, int) and isinstance(b, int) and b != 0:
        return _cdiv(a, b)
    if b == 1:
        return a
    if isinstance(b, int) and b != 0 and not isinstance(a, int):
        if all(c % b == 0 for _, c in a.a):
            return _ip({m: c // b for m, c in a.a})
    if a is b:
        return 1
    return ipoly_atom(mk("idiv", (a, b), "i"))


def irem(a, b):
    if isinstance(a, int) and isinstance(b, int) and b != 0:
        return a - b * _cdiv(a, b)
    return isub(a, imul(b, idiv(a, b)))


def iatom(op, *args):
    return ipoly_atom(mk(op, args, "i"))


def isconst(x):
    return isinstance(x, int)


# ----------------------------------------------------------------------------- ite


def kind(x):
    if isinstance(x, int):
        return "i"
    return x.k


def ite(c, a, b):
    """select over int/real expressions."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    if kind(a) == "i":
        # simplify nested selects on the same guard
        x = _only_ite(a)
        if x is not None and x.a[0] is c:
            a = x.a[1]
        y = _only_ite(b)
        if y is not None and y.a[0] is c:
            b = y.a[2]
        if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
            return a
        return ipoly_atom(mk("ite", (c, a, b), "i"))
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), "f")


def _only_ite(i):
    if isinstance(i, int):
        return None
    if i.op == "ip" and len(i.a) == 1 and i.a[0][1] == 1 and len(i.a[0][0]) == 1 and i.a[0][0][0].op == "ite":
        return i.a[0][0][0]
    return None


# ----------------------------------------------------------------------------- comparisons

ORDERED = [True]  # real comparisons are never unordered


def _fl(a, b):
    """a < b (ordered)"""
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if a.a[0] < b.a[0] else FALSE
    if a.op == "inf" and b.op == "inf":
        return TRUE if a.a[0] < b.a[0] else FALSE
    if a.op == "inf" and b.op == "c":
        return TRUE if a.a[0] < 0 else FALSE
    if b.op == "inf" and a.op == "c":
        return TRUE if b.a[0] > 0 else FALSE
    if ORDERED[0]:
        if a.op == "inf":
            return TRUE if a.a[0] < 0 else FALSE
        if b.op == "inf":
            return TRUE if b.a[0] > 0 else FALSE
    sw = b.id < a.id
    x, y = (b, a) if sw else (a, b)
    u = funo(a, b)
    L = bvar(("L", x, y))
    Q = bvar(("E", x, y))
    r = L if not sw else band(bnot(L), bnot(Q))
    return band(bnot(u), r)


def _fe(a, b):
    if a is b:
        return bnot(funo(a, b))
    if a.op == "c" and b.op == "c":
        return TRUE if a.a[0] == b.a[0] else FALSE
    if a.op in ("inf", "c") and b.op in ("inf", "c") or ORDERED[0] and (a.op == "inf") != (b.op == "inf"):
        return FALSE
    x, y = (b, a) if b.id < a.id else (a, b)
    return band(bnot(funo(a, b)), band(bnot(bvar(("L", x, y))), bvar(("E", x, y))))


def funo(a, b):
    if a.op == "nan" or b.op == "nan":
        return TRUE
    if ORDERED[0]:
        return FALSE
    na = FALSE if a.op in ("c", "inf") else bvar(("P", "isnan", a))
    nb = FALSE if b.op in ("c", "inf") else bvar(("P", "isnan", b))
    return bor(na, nb)


def fcmp(pred, a, b):
    if pred == "false":
        return FALSE
    if pred == "true":
        return TRUE
    u = funo(a, b)
    if pred == "uno":
        return u
    if pred == "ord":
        return bnot(u)
    if u is TRUE:
        return TRUE if pred[0] == "u" else FALSE
    o, p = pred[0], pred[1:]
    if p == "lt":
        r = _fl(a, b)
    elif p == "gt":
        r = _fl(b, a)
    elif p == "le":
        r = bor(_fl(a, b), _fe(a, b))
    elif p == "ge":
        r = bor(_fl(b, a), _fe(a, b))
    elif p == "eq":
        r = _fe(a, b)
    else:  # ne
        r = band(bnot(u), bnot(_fe(a, b)))
    return bor(u, r) if o == "u" else r


def _norm_int(d):
    """-> (canonical poly with positive leading coefficient and unit content, sign)"""
    sg = 1
    items = d.a
    lead = [c for m, c in items if m != ()][0]
    if lead < 0:
        sg = -1
    if sg < 0:
        d = ineg(d)
    return d, sg


def ilt0(d):
    """d < 0"""
    if isinstance(d, int):
        return TRUE if d < 0 else FALSE
    n, s = _norm_int(d)
    L = FALSE if _sizes(n) else bvar(("IL", n))
    if s > 0:
        return L
    return band(bnot(L), bnot(bvar(("IE", n))))


def ieq0(d):
    if isinstance(d, int):
        return TRUE if d == 0 else FALSE
    it = _only_ite_aff(d)
    if it is not None:
        return it
    n, s = _norm_int(d)
    if _sizes(n):
        return bvar(("IE", n))
    return band(bnot(bvar(("IL", n))), bvar(("IE", n)))


def _sizes(n):
    """a sum of lengths: never negative"""
    for m, c in n.a:
        if c < 0:
            return False
        for x in m:
            if x.op != "sym" or not (isinstance(x.a[0], str) and x.a[0].startswith("len(")):
                return False
    return True


def _only_ite_aff(d):
    """d = c0 + k * ite(b, m, n) with integer constants m, n: decide directly."""
    c0 = 0
    it = None
    for m, c in d.a:
        if m == ():
            c0 = c
        elif len(m) == 1 and m[0].op == "ite" and it is None:
            it = (m[0], c)
        else:
            return None
    if it is None:
        return None
    at, k = it
    if isinstance(at.a[1], int) and isinstance(at.a[2], int):
        t = TRUE if c0 + k * at.a[1] == 0 else FALSE
        f = TRUE if c0 + k * at.a[2] == 0 else FALSE
        return bite(at.a[0], t, f)
    return None


def icmp(pred, a, b):
    d = isub(a, b)
    if pred == "eq":
        return ieq0(d)
    if pred == "ne":
        return bnot(ieq0(d))
    p = pred[1:]
    if p == "lt":
        return ilt0(d)
    if p == "gt":
        return ilt0(ineg(d))
    if p == "le":
        return bnot(ilt0(ineg(d)))
    if p == "ge":
        return bnot(ilt0(d))
    raise ValueError(pred)


# ----------------------------------------------------------------------------- substitution


def subst(x, m, memo=None):
    """replace atoms (E nodes, op sym, by id) by expressions; m: {atom.id: E|int}"""
    if memo is None:
        memo = {}
    if isinstance(x, (int, str, Fraction, float)) or x is None:
        return x
    if isinstance(x, tuple):
        return tuple(subst(y, m, memo) for y in x)
    if isinstance(x, B):
        return bsubst(x, m, memo)
    if not isinstance(x, E):
        return x
    r = memo.get(x.id)
    if r is not None:
        return r
    op = x.op
    if op == "ip":
        r = 0
        for mono, c in x.a:
            t = c
            for at in mono:
                t = imul(t, subst_atom(at, m, memo))
            r = iadd(r, t)
    elif x.id in m:
        r = m[x.id]
    elif op in ("c", "sym", "nan", "inf"):
        r = x
    elif op == "add":
        r = fadd(subst(x.a[0], m, memo), subst(x.a[1], m, memo))
    elif op == "mul":
        r = fmul(subst(x.a[0], m, memo), subst(x.a[1], m, memo))
    elif op == "div":
        r = fdiv(subst(x.a[0], m, memo), subst(x.a[1], m, memo))
    elif op == "neg":
        r = fneg(subst(x.a[0], m, memo))
    elif op == "i2f":
        r = i2f(subst(x.a[0], m, memo))
    elif op == "ite":
        r = ite(bsubst(x.a[0], m, memo), subst(x.a[1], m, memo), subst(x.a[2], m, memo))
    elif op == "fn":
        r = fn(x.a[0], *[subst(y, m, memo) for y in x.a[1:]])
    elif op == "ld" and "ld" in m and isinstance(x.a[0], str):
        r = mk(op, (m["ld"](x.a[0]),) + tuple(subst(y, m, memo) for y in x.a[1:]), x.k)
    else:
        r = mk(op, tuple(subst(y, m, memo) for y in x.a), x.k)
    memo[x.id] = r
    return r


def subst_atom(at, m, memo):
    """integer atom -> integer polynomial"""
    if at.id in m:
        return m[at.id]
    key = ("at", at.id)
    r = memo.get(key)
    if r is not None:
        return r
    if at.op == "sym":
        r = ipoly_atom(at)
    elif at.op == "ite":
        r = ite(bsubst(at.a[0], m, memo), subst(at.a[1], m, memo), subst(at.a[2], m, memo))
    elif at.op == "idiv":
        r = idiv(subst(at.a[0], m, memo), subst(at.a[1], m, memo))
    else:
        r = ipoly_atom(mk(at.op, tuple(subst(y, m, memo) for y in at.a), "i"))
    memo[key] = r
    return r


def bsubst(b, m, memo):
    if b.id < 2:
        return b
    key = ("b", b.id)
    r = memo.get(key)
    if r is not None:
        return r
    v = var_subst(b.v, m, memo)
    r = bite(v, bsubst(b.hi, m, memo), bsubst(b.lo, m, memo))
    memo[key] = r
    return r


def var_subst(i, m, memo):
    key = ("v", i)
    r = memo.get(key)
    if r is not None:
        return r
    d = VARS[i]
    if d[0] == "IL":
        r = ilt0(subst(d[1], m, memo))
    elif d[0] == "IE":
        r = ieq0(subst(d[1], m, memo))
    elif d[0] in ("L", "E"):
        a, b = subst(d[1], m, memo), subst(d[2], m, memo)
        if a is d[1] and b is d[2]:
            r = bvar(d)
        elif d[0] == "L":
            r = _fl(a, b)
        else:
            r = _fe(a, b)
    else:
        y = subst(d[2], m, memo)
        if d[1] == "isnan":
            r = bvar(d) if y is d[2] else funo(y, ZERO)
        else:
            r = bvar((d[0], d[1], y))
    memo[key] = r
    return r


def atoms(x, acc=None, seen=None):
    """all sym/ld atoms reachable (through guards too)"""
    if acc is None:
        acc, seen = set(), set()
    if isinstance(x, tuple):
        for y in x:
            atoms(y, acc, seen)
        return acc
    if isinstance(x, B):
        for v in bsupport(x):
            if ("v", v) not in seen:
                seen.add(("v", v))
                atoms(tuple(VARS[v][1:]), acc, seen)
        return acc
    if not isinstance(x, E) or x.id in seen:
        return acc
    seen.add(x.id)
    if x.op in ("sym", "ld"):
        acc.add(x)
    for y in x.a:
        atoms(y, acc, seen)
    return acc


# ----------------------------------------------------------------------------- printing


def show(x, depth=12):
    if isinstance(x, B):
        return showb(x, depth)
    if not isinstance(x, E):
        if isinstance(x, tuple):
            return "(" + ",".join(show(y, depth) for y in x) + ")"
        return str(x)
    if depth <= 0:
        return "..."
    o = x.op
    d = depth - 1
    if o == "c":
        v = x.a[0]
        return str(v) if v.denominator < 10000 else repr(float(v))
    if o == "sym":
        return str(x.a[0]) if not isinstance(x.a[0], tuple) else ".".join(show(y, d) for y in x.a[0])
    if o == "ld":
        return "%s(%s)" % (show(x.a[0], d), ",".join(show(y, d) for y in x.a[1:]))
    if o == "add":
        return "(%s + %s)" % (show(x.a[0], d), show(x.a[1], d))
    if o == "mul":
        return "%s*%s" % (show(x.a[0], d), show(x.a[1], d))
    if o == "div":
        return "%s/(%s)" % (show(x.a[0], d), show(x.a[1], d))
    if o == "neg":
        return "-%s" % show(x.a[0], d)
    if o == "ip":
        ts = []
        for m, c in x.a:
            mm = "*".join(show(y, d) for y in m)
            ts.append(str(c) if not m else (mm if c == 1 else "%d*%s" % (c, mm)))
        return "+".join(ts).replace("+-", "-")
    if o == "ite":
        return "{%s ? %s : %s}" % (showb(x.a[0], d), show(x.a[1], d), show(x.a[2], d))
    if o == "fn":
        return "%s(%s)" % (x.a[0], ",".join(show(y, d) for y in x.a[1:]))
    return "%s(%s)" % (o, ",".join(show(y, d) for y in x.a))


def showvar(i, d=4):
    v = VARS[i]
    if v[0] == "L":
        return "%s<%s" % (show(v[1], d), show(v[2], d))
    if v[0] == "E":
        return "%s==%s" % (show(v[1], d), show(v[2], d))
    if v[0] == "IL":
        return "%s<0" % show(v[1], d)
    if v[0] == "IE":
        return "%s==0" % show(v[1], d)
    return "%s(%s)" % (v[1], show(v[2], d))


def showb(b, d=4):
    if b is TRUE:
        return "true"
    if b is FALSE:
        return "false"
    if d <= 0:
        return "..."
    c = showvar(b.v, d)
    if b.lo is FALSE and b.hi is TRUE:
        return c
    if b.lo is TRUE and b.hi is FALSE:
        return "!(%s)" % c
    if b.lo is FALSE:
        return "%s && %s" % (c, showb(b.hi, d - 1))
    if b.hi is FALSE:
        return "!(%s) && %s" % (c, showb(b.lo, d - 1))
    if b.hi is TRUE:
        return "(%s || %s)" % (c, showb(b.lo, d - 1))
    return "(%s ? %s : %s)" % (c, showb(b.hi, d - 1), showb(b.lo, d - 1))


def bits2f(s):
    return struct.unpack("<d", struct.pack("<Q", int(s) & ((1 << 64) - 1)))[0]
