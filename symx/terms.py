"""Hash-consed integer and Boolean terms, translated to Z3 only when a query needs them.

Integer terms are a Python int or a T; linear sums are kept in a normal form, so
that `x > 0`, `x >= 1` and `not x < 1` are one and the same decision.
Boolean terms are a Python bool or a T.
"""
from hashlib import blake2b
from math import gcd
import re
import z3
from . import rx

_T = {}            # intern table: key -> T


class T:
    __slots__ = ("op", "a", "uid", "z")

    def __init__(self, op, a, key):
        self.op = op
        self.a = a
        # the same in every process, whatever was built before: normal forms order by it,
        # and a decision prefix handed to another process must mean the same there
        self.uid = int.from_bytes(blake2b(repr(key).encode(), digest_size=8).digest(), "big")
        self.z = None

    def __repr__(self):
        return show(self)


_LE = {}           # (x, y) -> le(x, y); constants and terms by identity number
_EQ = {}


def reset():
    _T.clear()
    _LE.clear()
    _EQ.clear()


def _mk(op, a, key):
    t = _T.get(key)
    if t is None:
        t = _T[key] = T(op, a, key)
    return t


def _uid(x):
    return x.uid if type(x) is T else ("c", x)


# ---------------------------------------------------------------- integers
def var(name):
    return _mk("var", name, ("var", name))


def app(f, *args):
    """Uninterpreted integer function application."""
    return _mk("app", (f, args), ("app", f) + tuple(_uid(x) for x in args))


def lin_of(x):
    if type(x) is not T:
        return x, ()
    if x.op == "lin":
        return x.a
    return 0, ((x, 1),)


def _mklin(c, items):
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return _mk("lin", (c, items), ("lin", c) + tuple((t.uid, k) for t, k in items))


def _comb(x, y, k):
    """x + k*y"""
    cx, ix = lin_of(x)
    cy, iy = lin_of(y)
    if not iy:
        return _mklin(cx + k * cy, ix)
    d = {t.uid: [t, v] for t, v in ix}
    for t, v in iy:
        e = d.get(t.uid)
        if e is None:
            d[t.uid] = [t, k * v]
        else:
            e[1] += k * v
    items = tuple((t, v) for _, (t, v) in sorted(d.items()) if v)
    return _mklin(cx + k * cy, items)


def add(x, y):
    return _comb(x, y, 1)


def sub(x, y):
    return _comb(x, y, -1)


def mulc(x, k):
    if k == 0:
        return 0
    c, items = lin_of(x)
    return _mklin(c * k, tuple((t, v * k) for t, v in items))


def neg(x):
    return mulc(x, -1)


def div(x, k):
    """floor division by a positive constant"""
    if type(x) is not T:
        return x // k
    return _mk("div", (x, k), ("div", x.uid, k))


def ite(c, x, y):
    if c is True:
        return x
    if c is False:
        return y
    if x is y or (type(x) is not T and type(y) is not T and x == y):
        return x
    if c.op == "not":
        c, x, y = c.a, y, x
    return _mk("ite", (c, x, y), ("ite", c.uid, _uid(x), _uid(y)))


# ---------------------------------------------------------------- booleans
def papp(f, *args):
    """Uninterpreted predicate application."""
    return _mk("papp", (f, args), ("papp", f) + tuple(_uid(x) for x in args))


def svar(name):
    """A string variable."""
    return _mk("svar", name, ("svar", name))


def inre(parts, lang):
    """The concatenation of string variables is in a regular language (see rx.py)."""
    return _mk("inre", (parts, lang), ("inre", parts, lang))


def not_(b):
    if b is True:
        return False
    if b is False:
        return True
    if b.op == "not":
        return b.a
    return _mk("not", b, ("not", b.uid))


def le(x, y):
    k = (_uid(x), _uid(y))
    r = _LE.get(k)
    if r is None:
        r = _LE[k] = _le(x, y)
    return r


def _le(x, y):
    d = _comb(x, y, -1)
    if type(d) is not T:
        return d <= 0
    c, items = lin_of(d)
    g = 0
    for _, v in items:
        g = gcd(g, v)
    if g > 1:
        items = tuple((t, v // g) for t, v in items)
        c = -((-c) // g)            # sum <= floor(-c/g)
    if items[0][1] < 0:             # -e + c <= 0  <=>  not (e - c + 1 <= 0)
        d = _mklin(-c + 1, tuple((t, -v) for t, v in items))
        return not_(_mk("le", d, ("le", d.uid)))
    d = _mklin(c, items)
    return _mk("le", d, ("le", d.uid))


def lt(x, y):
    return not_(le(y, x))


def eq(x, y):
    k = (_uid(x), _uid(y))
    r = _EQ.get(k)
    if r is None:
        r = _EQ[k] = _eq(x, y)
    return r


def _eq(x, y):
    d = _comb(x, y, -1)
    if type(d) is not T:
        return d == 0
    c, items = lin_of(d)
    g = 0
    for _, v in items:
        g = gcd(g, v)
    if g > 1:
        if c % g:
            return False
        items = tuple((t, v // g) for t, v in items)
        c //= g
    if items[0][1] < 0:
        items = tuple((t, -v) for t, v in items)
        c = -c
    d = _mklin(c, items)
    return _mk("eq", d, ("eq", d.uid))


def and_(*bs):
    out = []
    seen = set()
    for b in bs:
        if b is True:
            continue
        if b is False:
            return False
        parts = b.a if b.op == "and" else (b,)
        for p in parts:
            if p.uid not in seen:
                seen.add(p.uid)
                out.append(p)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    for p in out:
        if p.op == "not" and p.a.uid in seen:
            return False
    return _mk("and", tuple(out), ("and",) + tuple(p.uid for p in out))


def or_(*bs):
    r = and_(*[not_(b) for b in bs])
    return not_(r)


def iff(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return not_(b)
    if b is False:
        return not_(a)
    if a is b:
        return True
    flip = False
    if a.op == "not":
        a, flip = a.a, not flip
    if b.op == "not":
        b, flip = b.a, not flip
    if a is b:
        return not flip
    if a.uid > b.uid:
        a, b = b, a
    t = _mk("iff", (a, b), ("iff", a.uid, b.uid))
    return not_(t) if flip else t


# ---------------------------------------------------------------- Z3
_FUN = {}


def zfun(f, n, pred):
    k = (f, n, pred)
    r = _FUN.get(k)
    if r is None:
        I = z3.IntSort()
        r = _FUN[k] = z3.Function(f, *([I] * n + [z3.BoolSort() if pred else I]))
    return r


_ZI = {}


def _zint(n):
    r = _ZI.get(n)
    if r is None:
        r = _ZI[n] = z3.IntVal(n)
    return r


def to_z3(t):
    ty = type(t)
    if ty is not T:
        if ty is bool:
            return z3.BoolVal(t)
        return _zint(t)
    if t.z is not None:
        return t.z
    op, a = t.op, t.a
    if op == "var":
        r = z3.Int(a)
    elif op == "app" or op == "papp":
        r = zfun(a[0], len(a[1]), op == "papp")(*[to_z3(x) for x in a[1]])
    elif op == "lin":
        c, items = a
        parts = [to_z3(x) if k == 1 else _zint(k) * to_z3(x) for x, k in items]
        if c:
            parts.append(_zint(c))
        r = z3.Sum(parts) if len(parts) > 1 else parts[0]
    elif op == "div":
        r = to_z3(a[0]) / _zint(a[1])
    elif op == "ite":
        r = z3.If(to_z3(a[0]), to_z3(a[1]), to_z3(a[2]))
    elif op == "le":
        c, items = lin_of(a)
        r = to_z3(_mklin(0, items)) <= _zint(-c)
    elif op == "eq":
        c, items = lin_of(a)
        # x - y + c = 0 reads better as x = y - c
        if len(items) == 2 and items[0][1] == 1 and items[1][1] == -1:
            rhs = to_z3(_mklin(-c, ((items[1][0], 1),)))
            r = to_z3(items[0][0]) == rhs
        else:
            r = to_z3(_mklin(0, items)) == _zint(-c)
    elif op == "not":
        r = z3.Not(to_z3(a))
    elif op == "and":
        r = z3.And(*[to_z3(x) for x in a])
    elif op == "iff":
        r = to_z3(a[0]) == to_z3(a[1])
    elif op == "svar":
        r = z3.String(a)
    elif op == "inre":
        from . import strings
        vs = [z3.String(n) if n[:1] != "=" else z3.StringVal(n[1:]) for n in a[0]]
        r = z3.InRe(z3.Concat(*vs) if len(vs) > 1 else vs[0], strings.to_re(a[1]))
    else:
        raise AssertionError(op)
    t.z = r
    return r


# ---------------------------------------------------------------- evaluation
class Model:
    """A Z3 model as Python data; absent symbols are 0 / False."""
    __slots__ = ("vals", "funs", "memo")

    def __init__(self, m):
        self.vals = vals = {}
        self.funs = funs = {}
        self.memo = {}
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                vals[d.name()] = v.as_long() if z3.is_int_value(v) else \
                    _zstr(v) if z3.is_string_value(v) else z3.is_true(v)
            else:
                fi = m[d]
                tab = {}
                for i in range(fi.num_entries()):
                    e = fi.entry(i)
                    tab[tuple(e.arg_value(j).as_long() for j in range(e.num_args()))] = _pyv(e.value())
                funs[d.name()] = (tab, _pyv(fi.else_value()))


def _zstr(v):
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), v.as_string())


def _pyv(v):
    if v is None:
        return 0
    if z3.is_int_value(v):
        return v.as_long()
    return z3.is_true(v)


def ev(t, m):
    if type(t) is not T:
        return t
    memo = m.memo
    r = memo.get(t.uid)
    if r is not None:
        return r
    op, a = t.op, t.a
    if op == "var":
        r = m.vals.get(a, 0)
    elif op == "lin":
        r, items = a
        for x, k in items:
            r += k * ev(x, m)
    elif op == "app":
        f = m.funs.get(a[0])
        r = 0 if f is None else f[0].get(tuple([ev(x, m) for x in a[1]]), f[1])
    elif op == "papp":
        f = m.funs.get(a[0])
        r = False if f is None else bool(f[0].get(tuple([ev(x, m) for x in a[1]]), f[1]))
    elif op == "le":
        r = ev(a, m) <= 0
    elif op == "eq":
        r = ev(a, m) == 0
    elif op == "not":
        r = not ev(a, m)
    elif op == "and":
        r = True
        for x in a:
            if not ev(x, m):
                r = False
                break
    elif op == "ite":
        r = ev(a[1], m) if ev(a[0], m) else ev(a[2], m)
    elif op == "div":
        r = ev(a[0], m) // a[1]
    elif op == "iff":
        r = ev(a[0], m) == ev(a[1], m)
    elif op == "svar":
        r = m.vals.get(a, "")
    elif op == "inre":
        r = rx.full(a[1], "".join(m.vals.get(n, "") if n[:1] != "=" else n[1:] for n in a[0]))
    else:
        raise AssertionError(op)
    memo[t.uid] = r
    return r


def show(t):
    if type(t) is not T:
        return str(t)
    op, a = t.op, t.a
    if op == "var":
        return a
    if op in ("app", "papp"):
        return "%s(%s)" % (a[0], ",".join(show(x) for x in a[1]))
    if op == "lin":
        s = " + ".join("%s%s" % ("" if k == 1 else "%d*" % k, show(x)) for x, k in a[1])
        return "(%s%s)" % (s, " + %d" % a[0] if a[0] else "")
    if op == "le":
        return "%s<=0" % show(a)
    if op == "eq":
        return "%s==0" % show(a)
    if op == "not":
        return "!(%s)" % show(a)
    if op == "and":
        return "(%s)" % " & ".join(show(x) for x in a)
    return "%s%r" % (op, a)
