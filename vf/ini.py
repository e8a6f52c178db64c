"""Models used by the configuration checks: the input file as an uninterpreted map, std::map<string,string>,
number parsing, and the iterator form of tolower."""
import re

from . import expr as X
from .eval import HOOK, DEAD, NULL, UNDEF, Agg, Obj, PIte, Ptr, Str, Unsupported, showterm, vite
from .expr import FALSE, TRUE, B, E, band, bnot, bor, isconst
from .models import S, SE, cat, isstr, model, rx, slen, streq

# ------------------------------------------------------------------ INIReader as an uninterpreted map
# applies when INIReader.cpp is not part of the analysed program


def rdtok(ev, st, p):
    if isinstance(p, PIte):
        return ("ite", p.c, rdtok(ev, st, p.a), rdtok(ev, st, p.b))
    return showterm(ev.getstr(st, p))


@rx(r"^INIReader::INIReader\(INIReader( const)?&&?\)$")
def _(ev, st, a, I, f):
    ev.setstr(st, a[0], ev.getstr(st, a[1]))
    return UNDEF


@rx(r"^INIReader::operator=\(INIReader( const)?&&?\)$")
def _(ev, st, a, I, f):
    ev.setstr(st, a[0], ev.getstr(st, a[1]))
    return a[0]


@rx(r"^INIReader::~INIReader\(\)$")
def _(ev, st, a, I, f):
    return UNDEF


def keyname(ev, st, p):
    t = ev.getstr(st, p)
    return t.lower() if isstr(t) else showterm(("lower", t))


@rx(r"^INIReader::Get\(")
def _(ev, st, a, I, f):
    if not f.decl:
        return NotImplemented
    tok, s, n = rdtok(ev, st, a[1]), keyname(ev, st, a[2]), keyname(ev, st, a[3])
    ev.event(st, "ini", ("str", s, n))
    ev.setstr(st, a[0], ("ini", tok, s, n, ev.getstr(st, a[4])))
    return UNDEF


@rx(r"^INIReader::Get(Integer|Real|Boolean)\(")
def _(ev, st, a, I, f):
    if not f.decl:
        return NotImplemented
    ty = f.dem.rsplit(", ", 1)[1].split(")")[0]
    tok, s, n = rdtok(ev, st, a[0]), keyname(ev, st, a[1]), keyname(ev, st, a[2])
    ev.event(st, "ini", (ty, s, n))
    nm = "ini:%s:%s:%s:%s" % (ty, tok, s, n)
    d = a[3]
    if ty == "bool":
        d = ev.tobool(d)
        return X.bvar(("P", nm + (":t" if d is TRUE else ":f" if d is FALSE else ":" + X.showb(d)), X.sym(nm)))
    if ty in ("double", "float", "long double"):
        return X.fn(nm, d)
    return X.iatom("fnI", nm, d)


# ------------------------------------------------------------------ number parsing

NUM = {"stoi": "i", "stol": "i", "stoll": "i", "stoul": "i", "stoull": "i", "stof": "f", "stod": "f", "stold": "f"}


def reduce_term(t, g):
    """string term under the guard g"""
    while isinstance(t, tuple) and t[0] == "ite":
        c = X.constrain(t[1], g)
        if c is TRUE:
            t = t[2]
        elif c is FALSE:
            t = t[3]
        else:
            a, b = reduce_term(t[2], band(g, c)), reduce_term(t[3], band(g, bnot(c)))
            return a if a == b else ("ite", c, a, b)
    return t


def number(ev, st, which, t, base, g=TRUE):
    """value of which(t, base) and the condition under which it does not throw"""
    t = reduce_term(t, g)
    if isinstance(t, tuple) and t[0] == "ite":
        o1, v1 = number(ev, st, which, t[2], base, band(g, t[1]))
        o2, v2 = number(ev, st, which, t[3], base, band(g, bnot(t[1])))
        return X.bite(t[1], o1, o2), X.ite(t[1], v1, v2)
    it = X._only_ite(base) if isinstance(base, E) else None
    if it is not None:
        c, x, y = it.a
        c2 = X.constrain(c, g)
        if c2 is TRUE:
            return number(ev, st, which, t, x, g)
        if c2 is FALSE:
            return number(ev, st, which, t, y, g)
        o1, v1 = number(ev, st, which, t, x, band(g, c))
        o2, v2 = number(ev, st, which, t, y, band(g, bnot(c)))
        return X.bite(c, o1, o2), X.ite(c, v1, v2)
    if t == "":
        return FALSE, 0 if NUM[which] == "i" else X.ZERO
    key = "%s(%s%s)" % (which, showterm(t), "" if base is None else ",%s" % X.show(base))
    ok = X.bvar(("P", "parses:" + key, X.sym("parses:" + key)))
    v = X.iatom("fnI", key) if NUM[which] == "i" else X.fn(key)
    if "u" in which:
        ev.fact(v)
    return ok, v


@rx(r"^std::__cxx11::sto(i|l|ul|ll|ull|f|d|ld)\(" + SE + " const&")
def _(ev, st, a, I, f):
    which = re.match(r"std::__cxx11::(\w+)\(", f.dem).group(1)
    t = ev.getstr(st, a[0])
    pos = a[1] if len(a) > 1 else NULL
    ok, v = number(ev, st, which, t, a[2] if NUM[which] == "i" else None, st.g)
    g = band(st.g, ok)
    if g is FALSE:
        return DEAD
    if isinstance(pos, (Ptr, PIte)) and not (isinstance(pos, Ptr) and pos.o.kind == "null"):
        ev.store(st, pos, X.iatom("fnI", "consumed:%s(%s)" % (which, showterm(t))), 8, "i64")
    st.g = g
    return v


@model("hv_parses")
def _(ev, st, a, I, f):
    return number(ev, st, ev.cstr(st, a[0]), ev.getstr(st, a[1]), a[2] if NUM[ev.cstr(st, a[0])] == "i" else None, st.g)[0]


@model("hv_parsed_i", "hv_parsed_f")
def _(ev, st, a, I, f):
    return number(ev, st, ev.cstr(st, a[0]), ev.getstr(st, a[1]), a[2] if NUM[ev.cstr(st, a[0])] == "i" else None, st.g)[1]


# ------------------------------------------------------------------ characters of a std::string through iterators


def schars(ev, st, p, end):
    if isinstance(p, PIte):
        raise Unsupported("iterator of a merged string")
    tab = getattr(ev, "striters", None)
    if tab is None:
        tab = ev.striters = {}
    k = (p.o, p.off)
    if k not in tab:
        tab[k] = Obj("strit", "chars(%s)" % (p.o.name,), None, p)
    return Ptr(tab[k], slen(ev, ev.getstr(st, p)) if end else 0)


HOOK["strlen"] = lambda ev, t: slen(ev, t)
HOOK["recase"] = lambda k, t: change_case(k, t)
HOOK["chars"] = schars


def case(v, c):
    """which case a character is changed to"""
    while isinstance(v, E) and v.op == "ip" and len(v.a) == 1 and v.a[0][1] == 1 and len(v.a[0][0]) == 1:
        x = v.a[0][0][0]
        if x.op == "fnI" and x.a[0] in ("tolower", "toupper") and len(x.a) == 2:
            return x.a[0][2:] if x.a[1] is c else None
        return None
    return None


HOOK["case"] = case


def built(ev, L, init, nxt, sg):
    t = nxt.t
    if not (isinstance(init, Str) and isinstance(t, tuple) and t[0] == "cat" and len(t) == 3 and t[1] == sg.t and isinstance(t[2], tuple) and t[2][0] == "chr"):
        return None
    v = t[2][1]
    for o in ev.striters.values():
        s = ev.strcells.get(o)
        if s is None or ev.simp(X.isub(L.hi, slen(ev, s))) != 0:
            continue
        c = X.iatom("chr", "char:%r" % (s,), L.sym)
        k = case(v, c)
        if v is c or k:
            return cat(init.t, change_case(k, s) if k else s)
    return None


HOOK["built"] = built


@model("tolower", "toupper")
def _(ev, st, a, I, f):
    v = ev.asint(a[0])
    if isconst(v):
        return ord(getattr(chr(v), f.name[2:])()) if 0 <= v < 128 else v
    return X.iatom("fnI", f.name, v)


@rx("^" + SE + r"::c?(begin|end)\(\)( const)?$")
def _(ev, st, a, I, f):
    return schars(ev, st, a[0], "end()" in f.dem)


def fnname(ev, p):
    if isinstance(p, Ptr) and p.o.kind == "fn":
        return ev.p.funcs[p.o.name].dem
    return None


@rx(r"^__gnu_cxx::__normal_iterator<char\*, " + SE + r"> std::transform<__gnu_cxx::__normal_iterator<char( const)?\*, " + SE + r">, __gnu_cxx::__normal_iterator<char\*, " + SE + r">, ")
def _(ev, st, a, I, f):
    if len(a) < 4:
        return NotImplemented  # interpreted
    b, e, d, fn = a[:4]
    for p in (b, e, d):
        if not (isinstance(p, Ptr) and p.o.kind == "strit"):
            raise Unsupported("transform over %r" % (p,))
    nm = fnname(ev, fn)
    if nm and nm.split("(")[0] not in ("tolower", "std::tolower", "toupper"):
        return NotImplemented
    if nm is None or nm.split("(")[0] not in ("tolower", "std::tolower", "toupper"):
        raise Unsupported("transform with %r" % (fn,))
    t = ev.getstr(st, b.o.x)
    if e.o is not b.o or b.off != 0 or e.off is not slen(ev, t) and e.off != slen(ev, t) or d.off != 0:
        raise Unsupported("transform of part of a string")
    old = ev.getstr(st, d.o.x)
    k = nm.split("(")[0].replace("std::", "").replace("to", "")
    if not same_len(ev, old, t):
        raise Unsupported("transform into a string of another length")
    ev.setstr(st, d.o.x, change_case(k, t))
    return d


def same_len(ev, a, b):
    x, y = slen(ev, a), slen(ev, b)
    return x is y or x == y


def change_case(k, t):
    if isstr(t):
        return t.lower() if k == "lower" else t.upper()
    if isinstance(t, tuple) and t[0] == "cat":
        r = ""
        for x in t[1:]:
            r = cat(r, change_case(k, x))
        return r
    if isinstance(t, tuple) and t[0] == "ite":
        return ("ite", t[1], change_case(k, t[2]), change_case(k, t[3]))
    if isinstance(t, tuple) and t[0] == k:
        return t
    return (k, t)


# ------------------------------------------------------------------ std::map<std::string, std::string>
# a node per key term; a node is an object with the key at +32, the value at +64 and its presence at -8

MAP = r"std::map<" + SE + ", " + SE + r", std::less<" + SE + r">, std::allocator<std::pair<" + SE + r" const, " + SE + r">>>::"


def mapnode(ev, st, m, t):
    if isinstance(m, PIte):
        raise Unsupported("merged map")
    tab = getattr(ev, "mapnodes", None)
    if tab is None:
        tab = ev.mapnodes = {}
    key = (m.o, m.off, showterm(t))
    if key not in tab:
        tab[key] = ev.symobj("node(%s,%s)" % (m.o.name, key[2]))
    o = tab[key]
    mem = ev.getmem(st, o)
    if -8 not in mem.cells:
        w = ev.wmem(st, o)
        empty = bool(getattr(ev, "emptymaps", {}).get((m.o, m.off)))
        has = FALSE if empty else X.bvar(("P", "has(%s,%s)" % (m.o.name, key[2]), X.sym("has(%s,%s)" % (m.o.name, key[2]))))
        w.cells[-8] = (1, has)
        w.cells[32] = (32, Str(t))
        w.cells[64] = (32, Str("" if empty else ("mapval", str(m.o.name), t)))
    return o


def present(ev, st, o):
    return X.constrain(ev.tobool(ev.getmem(st, o).cells[-8][1]), st.g)


@rx("^" + re.escape("std::map<") + SE + ", " + SE + r", .*::map\(\)$")
def _(ev, st, a, I, f):
    ev.emptymaps = getattr(ev, "emptymaps", {})
    ev.emptymaps[(a[0].o, a[0].off)] = True
    return UNDEF


@rx("^" + MAP + r"(count|contains)\(" + SE + r" const&\) const$")
def _(ev, st, a, I, f):
    b = present(ev, st, mapnode(ev, st, a[0], ev.getstr(st, a[1])))
    return b if "contains" in f.dem else X.ite(b, 1, 0)


@rx("^" + MAP + r"find\(" + SE + r" const&\)( const)?$")
def _(ev, st, a, I, f):
    o = mapnode(ev, st, a[0], ev.getstr(st, a[1]))
    return vite(X.constrain(present(ev, st, o), st.g), Ptr(o, 0), mapend(ev, a[0]))


def mapend(ev, m):
    return ev.padd(m, 8)


@rx("^" + MAP + r"c?end\(\)( const)?$")
def _(ev, st, a, I, f):
    return mapend(ev, a[0])


@rx("^" + MAP + r"at\(" + SE + r" const&\)( const)?$")
def _(ev, st, a, I, f):
    o = mapnode(ev, st, a[0], ev.getstr(st, a[1]))
    g = band(st.g, present(ev, st, o))
    if g is FALSE:
        return DEAD
    st.g = g
    return Ptr(o, 64)


@rx("^" + MAP + r"operator\[\]\(" + SE + r"( const&|&&)\)$")
def _(ev, st, a, I, f):
    o = mapnode(ev, st, a[0], ev.getstr(st, a[1]))
    has = present(ev, st, o)
    if has is not TRUE:
        old = ev.getstr(st, Ptr(o, 64))
        ev.setstr(st, Ptr(o, 64), old if has is TRUE else "" if has is FALSE else ("ite", has, old, ""))
        w = ev.wmem(st, o)
        w.cells[-8] = (1, TRUE)
    return Ptr(o, 64)


@model("hv_lower")
def _(ev, st, a, I, f):
    ev.setstr(st, a[0], change_case("lower", ev.getstr(st, a[1])))
    return UNDEF
