"""Strings of lists parse back to the same list, with the same groups."""
from .common import *

BOOKS = (8, 40)


def elements(sx, eff, plan, span, inner, xspan=1, tag="", books=None):
    """plan: one entry per range: (start book, end book) as indexes into BOOKS."""
    ps, rs = [], []
    books = books or (BOOKS if xspan == 1 else (8, 9))
    for i, (x, y) in enumerate(plan):
        p = point(sx, "s%s%d" % (tag, i), eff, book=sx.fix(sx.book_at(books[x])))
        q = point(sx, "e%s%d" % (tag, i), eff, book=sx.fix(sx.book_at(books[y])))
        sx.assume(k_le(sx, p.key(sx), q.key(sx)))
        if inner:
            sx.assume(p.c > 1)
            sx.assume(q.c < sx.nch(q.b))
        if x == y:
            sx.assume(q.c <= p.c + span)
        else:
            sx.assume(p.c + xspan > sx.nch(p.b))
            sx.assume(q.c <= xspan)
        ps.append((p, q))
        rs.append(mkrange(sx, p, q))
    return ps, rs


def cut(items, shape):
    out, i = [], 0
    for n in shape:
        out.append(items[i:i + n])
        i += n
    return out


def trip(sx, g, a, plan, shape, preserve, fmt=(), force=False, span=1, inner=False, xspan=1):
    eff, arg = begin(sx, g, a)
    ps, rs = elements(sx, eff, plan, span, inner, xspan)
    lst = sx.br.BibleRangeList(cut(rs, shape))
    s = lst.str(preserve_groups=preserve, force_start_verses=force, flags=arg, **{f: True for f in fmt})
    sx.check(not ("nospace" in fmt and " " in s), "no spaces when asked for none", text=s)
    back = sx.br.BibleRangeList(s, flags=arg)
    out = list(back)
    sx.check(len(out) == len(rs), "as many ranges", text=s, got=out)
    for (p, q), r in zip(ps, out):
        sx.check(sx.And(is_verse(sx, r.start, p), is_verse(sx, r.end, q)), "each range parses back", text=s, got=out)
    if preserve:
        sx.check([len(x) for x in back.groups] == list(shape), "the groups parse back", text=s)
        if a is None:
            sx.check(back == lst, "equal to the original list", text=s)
            if not fmt and not force:
                sx.check(str(lst) == s, "str() is the plain form")
    sx.check([len(x) for x in lst.groups] == list(shape) and all(x is y for x, y in zip(lst, rs)), "the list is unchanged")


def plan(tier):
    quick = tier == "quick"
    cases = []
    A, B, X = (0, 0), (1, 1), (0, 1)

    def add(m, pl, shape, preserve, force, **k):
        cases.append(("trip", dict(m, plan=pl, shape=shape, preserve=preserve, force=force, **k), {}))

    # two ranges, in one book or two
    for m in [{"g": 0, "a": None}, {"g": 3, "a": 0}]:
        for pl in ([A], [A, A], [B, A]):
            for shape in ([1],) if len(pl) == 1 else ([2], [1, 1]):
                for preserve in (True, False):
                    for force in (False, True):
                        add(m, pl, shape, preserve, force)
    # with verse 0s
    for m in [{"g": 1, "a": 2}] if quick else [{"g": 1, "a": 2}, {"g": 2, "a": None}, {"g": 0, "a": 3}, {"g": 3, "a": None}]:
        for pl in ([A], [A, A]) if quick else ([A], [A, A], [A, B], [B, A]):
            for shape in ([1],) if len(pl) == 1 else ([2], [1, 1]):
                for preserve in (True, False):
                    for force in (False, True):
                        add(m, pl, shape, preserve, force)
    # across books
    for m in [{"g": 1, "a": None}, {"g": 0, "a": 3}]:
        for pl in ([X], [X, B], [X, A], [A, X]):
            for shape in ([1],) if len(pl) == 1 else ([2], [1, 1]):
                for preserve in (True, False):
                    for force in (False, True):
                        if quick and len(pl) > 1 and (m["a"] is not None or force == preserve):
                            continue
                        add(m, pl, shape, preserve, force, inner=quick and len(pl) > 1, xspan=2 if len(pl) > 1 else 1)
    # three ranges
    for m in [{"g": 0, "a": None}]:
        for pl in ([A, A, A],) if quick else ([A, A, A], [A, A, B], [A, B, A], [A, B, B]):
            for shape in ([3], [2, 1], [1, 2], [1, 1, 1]):
                for preserve in (True, False):
                    for force in (False, True):
                        if quick and (not preserve and shape != [3] or force and shape in ([1, 1, 1], [2, 1])):
                            continue
                        add(m, pl, shape, preserve, force, inner=True)
    for pl in ([A], [A, A], [A, B]):
        for f in (("abbrev",), ("alt_sep",), ("nospace",), ("abbrev", "alt_sep", "nospace")):
            shape = [len(pl)]
            if quick and len(pl) == 2 and f[0] != "nospace" and len(f) == 1:
                continue
            add({"g": 0, "a": None}, pl, shape, True, False, fmt=f, inner=quick)
    if not quick:
        for pl in ([A, A],):
            for shape in ([2], [1, 1]):
                add({"g": 0, "a": None}, pl, shape, True, False, span=4)
        for shape in ([4], [2, 2], [1, 3], [1, 1, 1, 1]):
            add({"g": 0, "a": None}, [A] * 4, shape, True, False, inner=True)
    return {"cases": cases,
            "bounds": "lists of up to %d ranges in every grouping, of one or two books, each range over at most %s "
                      "chapters of a book (or to the next book); three or more ranges: away from the ends of the book; "
                      "any chapter and verse numbers, arbitrary tables"
                      % (3 if quick else 4, "two" if quick else "two (two ranges: five)")}
