"""Symbolic strings: white space, a core that neither starts nor ends with white space, white
space.  Membership in the languages of the package's regular expressions is decided by the
solver; any other operation continues with one concrete string per path (noted as partial)."""
import re as _re
import types
import z3
from . import engine as E
from . import rx
from . import terms as tm
from . import values as V

ALPHABET = rx.chars((9, 10), (32, 126))
_Z = {}


def to_re(x):
    r = _Z.get(x)
    if r is not None:
        return r
    op = x[0]
    if op == "set":
        parts = [z3.Range(_zc(max(lo, 0)), _zc(hi)) if lo != hi else z3.Re(_zc(lo)) for lo, hi in x[1]]
        r = z3.Union(*parts) if len(parts) > 1 else parts[0] if parts else z3.Empty(z3.ReSort(z3.StringSort()))
    elif op == "cat":
        parts = [to_re(y) for y in x[1]]
        r = z3.Concat(*parts) if len(parts) > 1 else parts[0] if parts else z3.Re("")
    elif op == "alt":
        parts = [to_re(y) for y in x[1]]
        r = z3.Union(*parts) if len(parts) > 1 else parts[0]
    else:
        _, y, lo, hi = x
        y = to_re(y)
        if (lo, hi) == (0, None):
            r = z3.Star(y)
        elif (lo, hi) == (1, None):
            r = z3.Plus(y)
        elif (lo, hi) == (0, 1):
            r = z3.Option(y)
        elif hi is None:
            r = z3.Concat(z3.Loop(y, lo, lo), z3.Star(y))
        else:
            r = z3.Loop(y, lo, hi)
    _Z[x] = r
    return r


def _zc(o):
    return z3.StringVal(chr(o)) if 32 <= o < 127 and chr(o) != "\\" else z3.StringVal("\\u{%x}" % o)


def in_re(s, lang):
    """Term: the symbolic string (a SymStr) is in the language."""
    parts = s.parts
    while parts and parts[0][:1] == "=":            # known characters in front
        for c in parts[0][1:]:
            lang = rx.derive(lang, c)
        parts = parts[1:]
    if lang == rx.NONE:
        return False
    if not parts:
        return rx.nullable(lang)
    return tm.inre(parts, lang)


def value(p, model):
    return p[1:] if p[:1] == "=" else tm.ev(tm.svar(p), model)


class SymStr(str):
    """parts: names of string variables, whose values are strung together, or "=" and characters.
    core: the parts between the white space."""

    def __new__(cls, parts, core):
        o = str.__new__(cls, "\ue900")
        o.parts, o.core = tuple(parts), tuple(core)
        return o

    def strip(self, *a):
        if a and a != (None,):
            return _concrete(self).strip(*a)
        return SymStr(self.core, self.core)

    def __eq__(self, o):
        if type(o) is SymStr:
            return self.parts == o.parts or _concrete(self) == o
        if isinstance(o, str):
            return E.cur().branch(in_re(self, rx.lit(o)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(_concrete(self))

    def __str__(self):
        return self

    def __format__(self, spec):
        return "\ue900"

    def __repr__(self):
        return "'\ue900'"


def _concrete(s):
    """One string of the path; what follows is decided for that string only."""
    eng = E.cur()
    eng.stats.note("a symbolic string was made concrete")
    eng.partial = True
    v = "".join(value(p, eng.model) for p in s.parts)
    eng.assume(tm.and_(*[tm.inre((p,), rx.lit(value(p, eng.model))) for p in s.parts if p[:1] != "="]))
    return v


def _delegate(name):
    f = getattr(str, name)

    def m(self, *a, **k):
        return f(_concrete(self), *[_concrete(x) if type(x) is SymStr else x for x in a], **k)
    m.__name__ = name
    return m


for _n in dir(str):
    if _n not in SymStr.__dict__ and _n not in ("__class__", "__new__", "__init__", "__getattribute__", "__setattr__", "__delattr__",
                                                "__init_subclass__", "__subclasshook__", "__dir__", "__doc__", "__reduce__",
                                                "__reduce_ex__", "__getnewargs__", "__sizeof__", "__getstate__"):
        setattr(SymStr, _n, _delegate(_n))


class _Match:
    def __init__(self, s):
        self.string = s

    def __bool__(self):
        return True

    def group(self, *a):
        if a in ((), (0,)):
            return self.string
        raise E.Unsupported("group of a symbolic match")

    def __getattr__(self, n):
        raise E.Unsupported("%s of a symbolic match" % n)


class SxPattern:
    """A compiled pattern that also accepts symbolic strings."""

    def __init__(self, p):
        self._p = p
        self._lang = None

    def _try(self, s, how, rest):
        if type(s) is not SymStr:
            return getattr(self._p, how)(s, *rest)
        if self._lang is None:
            try:
                self._lang = rx.read(self._p.pattern, self._p.flags & ~_re.UNICODE)
            except rx.Unreadable:
                self._lang = False
        if self._lang is False or rest:
            return getattr(self._p, how)(_concrete(s), *rest)
        lang = self._lang
        if how == "match":
            lang = rx.cat(lang, rx.star(rx.ANY))
        elif how == "search":
            lang = rx.cat(rx.star(rx.ANY), lang, rx.star(rx.ANY))
        return _Match(s) if E.cur().branch(in_re(s, lang)) else None

    def fullmatch(self, s, *r):
        return self._try(s, "fullmatch", r)

    def match(self, s, *r):
        return self._try(s, "match", r)

    def search(self, s, *r):
        return self._try(s, "search", r)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = getattr(self._p, n)
        if callable(f):
            return lambda *a, **k: f(*[_concrete(x) if type(x) is SymStr else x for x in a], **k)
        return f

    def __eq__(self, o):
        return type(o) is SxPattern and self._p == o._p

    def __hash__(self):
        return hash(self._p)

    def __deepcopy__(self, m):
        return self

    def __repr__(self):
        return repr(self._p)


def re_module():
    """The re module as the package sees it."""
    m = types.ModuleType("re")
    m.__dict__.update({k: v for k, v in vars(_re).items() if not k.startswith("__")})

    def compile_(p, flags=0):
        return p if type(p) is SxPattern else SxPattern(_re.compile(p, flags))
    m.compile = compile_
    for how in ("match", "fullmatch", "search", "findall", "finditer", "split", "sub", "subn"):
        def f(p, *a, _how=how, flags=0, **k):
            return getattr(compile_(p, flags), _how)(*a, **k)
        if how in ("match", "fullmatch", "search"):
            def f(p, s, flags=0, _how=how):
                return getattr(compile_(p, flags), _how)(s)
        setattr(m, how, f)
    return m
