"""Input string streams over known text: state = (remaining text, eof, fail)."""
from .eval import Str, UNDEF, Unsupported
from .expr import FALSE, TRUE
from .models import rx, stream_key

WS = " \t\n\v\f\r"


def get(ev, st, p):
    """(text not yet read, eof, fail)"""
    k = stream_key(ev, st, p)
    if k is None:
        raise Unsupported("input from %r" % (p,))
    c = ev.getmem(st, p.o).cells
    t = c[k][1].t
    if not isinstance(t, str):
        raise Unsupported("stream over text that is not known")
    r = c[k - 32][1].t
    if not (isinstance(r, tuple) and r[0] == "read"):
        raise Unsupported("stream in an unknown state")
    return t[r[1]:], r[2], r[3]


def put(ev, st, p, text, eof, fail):
    k = stream_key(ev, st, p)
    m = ev.wmem(st, p.o)
    n = len(m.cells[k][1].t) - len(text)
    m.cells[k - 32] = (32, Str(("read", n, eof, fail)))


@rx(r"std::__cxx11::basic_i?stringstream<char, .*>::str\(std::__cxx11::basic_string<.*\)$")
def _(ev, st, a, I, f):
    k = stream_key(ev, st, a[0])
    m = ev.wmem(st, a[0].o)
    m.cells[k] = (16, Str(ev.getstr(st, a[1])))
    m.cells[k - 32] = (32, Str(("read", 0, False, False)))
    return UNDEF


def skipws(t):
    i = 0
    while i < len(t) and t[i] in WS:
        i += 1
    return t[i:]


@rx(r".*std::operator>><char, .*>\(std::basic_istream<.*>&, std::__cxx11::basic_string<")
def _(ev, st, a, I, f):
    t, eof, fail = get(ev, st, a[0])
    if eof or fail:
        put(ev, st, a[0], t, eof, True)
        return a[0]
    t = skipws(t)
    i = 0
    while i < len(t) and t[i] not in WS:
        i += 1
    ev.setstr(st, a[1], t[:i])
    put(ev, st, a[0], t[i:], i == len(t), i == 0)
    return a[0]


@rx(r".*std::getline<char, .*>\(std::basic_istream<.*>&, std::__cxx11::basic_string<")
def _(ev, st, a, I, f):
    d = "\n"
    if len(a) > 2:
        if not isinstance(a[2], int):
            raise Unsupported("getline with unknown delimiter")
        d = chr(a[2])
    t, eof, fail = get(ev, st, a[0])
    if eof or fail:
        put(ev, st, a[0], t, eof, True)
        return a[0]
    i = t.find(d)
    if i < 0:
        ev.setstr(st, a[1], t)
        put(ev, st, a[0], "", True, t == "")
    else:
        ev.setstr(st, a[1], t[:i])
        put(ev, st, a[0], t[i + 1:], False, False)
    return a[0]


@rx(r".*std::ws<char, .*>\(std::basic_istream<")
def _(ev, st, a, I, f):
    t, eof, fail = get(ev, st, a[0])
    t = skipws(t)
    put(ev, st, a[0], t, eof or t == "", fail)
    return a[0]


def flag(name, fn):
    @rx(r"std::basic_ios<char, .*>::%s\(\) const" % name)
    def _(ev, st, a, I, f):
        t, eof, fail = get(ev, st, a[0])
        return TRUE if fn(eof, fail) else FALSE


flag("good", lambda e, f: not (e or f))
flag("eof", lambda e, f: e)
flag("fail", lambda e, f: f)
flag("bad", lambda e, f: False)
flag("operator bool", lambda e, f: not f)
flag("operator!", lambda e, f: f)
