"""Regular languages as small syntax trees: read from the patterns the package compiles,
matched on concrete strings here, and turned into solver terms by strings.py.

  ("set", ((lo, hi), ...))   one character in the ranges
  ("cat", (x, ...))  ("alt", (x, ...))  ("rep", x, lo, hi or None)
"""
try:
    import re._parser as sre
    import re._constants as sc
except ImportError:                 # Python < 3.11
    import sre_parse as sre
    import sre_constants as sc
import re

WS = ((9, 13), (28, 32))            # ASCII white space, as str.strip() and \s see it
EPS = ("cat", ())


class Unreadable(Exception):
    pass


def chars(*ranges):
    return ("set", tuple(sorted(ranges)))


def lit(s, ignore_case=False):
    return ("cat", tuple(_char(ord(c), ignore_case) for c in s))


def _char(o, ic):
    cs = {o}
    if ic:
        c = chr(o)
        cs |= {ord(x) for x in (c.lower(), c.upper()) if len(x) == 1}
    return ("set", tuple(sorted((x, x) for x in cs)))


def cat(*xs):
    return ("cat", tuple(xs))


def alt(*xs):
    return ("alt", tuple(xs))


def star(x):
    return ("rep", x, 0, None)


def plus(x):
    return ("rep", x, 1, None)


def opt(x):
    return ("rep", x, 0, 1)


ws = chars(*WS)
ANY = chars((0, 0x2FFFF))

_CATS = {"category_space": WS, "category_digit": ((48, 57),), "category_word": ((48, 57), (65, 90), (95, 95), (97, 122))}


def _neg(ranges):
    out, p = [], 0
    for lo, hi in sorted(ranges):
        if lo > p:
            out.append((p, lo - 1))
        p = max(p, hi + 1)
    if p <= 0x2FFFF:
        out.append((p, 0x2FFFF))
    return tuple(out)


def _cat_ranges(c):
    n = str(c).lower()
    if n in _CATS:
        return _CATS[n]
    if "not_" in n and n.replace("not_", "") in _CATS:
        return _neg(_CATS[n.replace("not_", "")])
    raise Unreadable(n)


def _read(seq, ic):
    out = []
    for op, av in seq:
        n = str(op).lower()
        if n == "literal":
            out.append(_char(av, ic))
        elif n == "not_literal":
            out.append(("set", _neg(_char(av, ic)[1])))
        elif n == "any":
            out.append(("set", _neg(((10, 10),))))
        elif n == "in":
            rs, neg = [], False
            for o2, a2 in av:
                m = str(o2).lower()
                if m == "negate":
                    neg = True
                elif m == "literal":
                    rs.extend(_char(a2, ic)[1])
                elif m == "range":
                    for x in range(a2[0], min(a2[1], 0x250) + 1):
                        rs.extend(_char(x, ic)[1])
                    if a2[1] > 0x250:
                        rs.append((max(a2[0], 0x250), a2[1]))
                elif m == "category":
                    rs.extend(_cat_ranges(a2))
                else:
                    raise Unreadable(m)
            out.append(("set", _neg(rs) if neg else tuple(sorted(set(rs)))))
        elif n == "category":
            out.append(("set", _cat_ranges(av)))
        elif n == "branch":
            out.append(("alt", tuple(_read(x, ic) for x in av[1])))
        elif n == "subpattern":
            group, add, rem, p = av
            if add & ~re.IGNORECASE or rem & ~re.IGNORECASE:
                raise Unreadable("flags")
            out.append(_read(p, (ic or bool(add & re.IGNORECASE)) and not rem & re.IGNORECASE))
        elif n in ("max_repeat", "min_repeat"):
            lo, hi, p = av
            out.append(("rep", _read(p, ic), lo, None if hi == sc.MAXREPEAT else hi))
        elif n == "atomic_group" or n == "possessive_repeat" or n == "assert" or n == "assert_not" or n == "groupref":
            raise Unreadable(n)
        elif n == "at" and str(av).lower() in ("at_beginning_string", "at_end_string"):
            raise Unreadable("anchor")
        else:
            raise Unreadable(n)
    return out[0] if len(out) == 1 else ("cat", tuple(out))


def read(pattern, flags=0):
    """The language a pattern matches in full."""
    t = sre.parse(pattern, flags)
    fl = t.state.flags
    if fl & (re.MULTILINE | re.DOTALL | re.VERBOSE | re.LOCALE):
        raise Unreadable("flags")
    return _read(t, bool(fl & re.IGNORECASE))


def ends(x, s, i, memo):
    """Positions where a match of x starting at i may end."""
    k = (id(x), i)
    r = memo.get(k)
    if r is not None:
        return r
    op = x[0]
    if op == "set":
        r = frozenset([i + 1]) if i < len(s) and any(lo <= ord(s[i]) <= hi for lo, hi in x[1]) else frozenset()
    elif op == "cat":
        cur = {i}
        for y in x[1]:
            cur = {e for p in cur for e in ends(y, s, p, memo)}
            if not cur:
                break
        r = frozenset(cur)
    elif op == "alt":
        r = frozenset(e for y in x[1] for e in ends(y, s, i, memo))
    else:
        _, y, lo, hi = x
        cur, n, out, seen = {i}, 0, set(), set()
        if lo == 0:
            out.add(i)
        while cur and (hi is None or n < hi):
            cur = {e for p in cur for e in ends(y, s, p, memo)}
            n += 1
            if n >= lo:
                new = cur - out
                out |= cur
                if hi is None:
                    cur = new
            if n > len(s) + lo + 2:
                break
        r = frozenset(out)
    memo[k] = r
    return r


def full(x, s):
    return len(s) in ends(x, s, 0, {})


# ------------------------------------------------------------------ derivatives
NONE = ("set", ())


def nullable(x):
    op = x[0]
    if op == "set":
        return False
    if op == "cat":
        return all(nullable(y) for y in x[1])
    if op == "alt":
        return any(nullable(y) for y in x[1])
    return x[2] == 0 or nullable(x[1])


def _scat(*xs):
    out = []
    for x in xs:
        if x == NONE:
            return NONE
        if x[0] == "cat":
            out.extend(x[1])
        else:
            out.append(x)
    return out[0] if len(out) == 1 else ("cat", tuple(out))


def _salt(xs):
    out = []
    for x in xs:
        for y in (x[1] if x[0] == "alt" else (x,)):
            if y != NONE and y not in out:
                out.append(y)
    return NONE if not out else out[0] if len(out) == 1 else ("alt", tuple(out))


def derive(x, c):
    """The language of the rests of the strings of x that start with the character c."""
    op = x[0]
    if op == "set":
        return EPS if any(lo <= ord(c) <= hi for lo, hi in x[1]) else NONE
    if op == "cat":
        alts, ys = [], x[1]
        for i, y in enumerate(ys):
            alts.append(_scat(derive(y, c), *ys[i + 1:]))
            if not nullable(y):
                break
        return _salt(alts)
    if op == "alt":
        return _salt([derive(y, c) for y in x[1]])
    _, y, lo, hi = x
    if hi == 0:
        return NONE
    rest = ("rep", y, max(lo - 1, 0), None if hi is None else hi - 1)
    return _scat(derive(y, c), EPS if rest[3] == 0 else rest)
