"""Strings of verses and ranges parse back to the same verse or range."""
from .common import *

# positions of the representative books: plain, numbered, with spaces, one chapter (twice), last
REPS = (0, 8, 21, 30, 61, 65)


def fmt(sx, *names):
    return {n: sx.flag(n) for n in names}


def a_book(sx, n, books):
    """A book whose name is known on the path (every choice is a path)."""
    return sx.fix(sx.book_at(sx.choice(n, books)))


def same_range(sx, back, p, q, s):
    sx.check(isinstance(back, sx.br.BibleRange), "a range")
    sx.check(sx.And(is_verse(sx, back.start, p), is_verse(sx, back.end, q)), "range string parses back to the range", text=s)


def verse_trip(sx, g, a, lo=0, hi=65):
    eff, arg = begin(sx, g, a)
    p, v = verse(sx, "v", eff, book=a_book(sx, "b", range(lo, hi + 1)))
    k = fmt(sx, "abbrev", "alt_sep", "nospace")
    s = v.str(**k)
    sx.check(not (k["nospace"] and " " in s), "no spaces when asked for none", text=s)
    back = sx.br.BibleVerse(s, flags=arg)
    sx.check(is_verse(sx, back, p), "verse string parses back to the verse", text=s)
    if not any(k.values()):
        sx.check(str(v) == s, "str() is the plain form")


def whole_trip(sx, g, a, lo=0, hi=65):
    """Whole books and chapters of every book."""
    eff, arg = begin(sx, g, a)
    b = a_book(sx, "b", range(lo, hi + 1))
    k = fmt(sx, "abbrev", "nospace", "force_start_verses")
    if sx.flag("chapter"):
        c = sx.int("c", 1, 150)
        sx.assume(c <= sx.nch(b))
        p, q = Pt(b, c, 0), Pt(b, c, sx.mv(b, c))
    else:
        p, q = Pt(b, 1, 0), Pt(b, sx.nch(b), sx.mv(b, sx.nch(b)))
    p.v = first_of(sx, p.b, p.c, eff)
    r = mkrange(sx, p, q)
    s = r.str(flags=arg, **k)
    same_range(sx, sx.br.BibleRange(s, flags=arg), p, q, s)
    same_range(sx, sx.br.BibleRangeList(s, flags=arg)[0], p, q, s)


def first_of(sx, b, c, eff):
    from .common import lo
    return lo(sx, b, c, eff)


def range_trip(sx, g, a, first, second=None, via="range", force=False):
    """second: None (same book), or positions to choose the second book from."""
    eff, arg = begin(sx, g, a)
    p = point(sx, "s", eff, book=a_book(sx, "sb", first))
    if second is None:
        q = point(sx, "e", eff, book=p.b)
    else:
        q = point(sx, "e", eff, book=a_book(sx, "eb", second))
        sx.assume(sx.pos(p.b) < sx.pos(q.b))
    sx.assume(k_le(sx, p.key(sx), q.key(sx)))
    k = fmt(sx, "abbrev", "alt_sep", "nospace")
    k["force_start_verses"] = force
    r = mkrange(sx, p, q)
    s = r.str(flags=arg, **k)
    sx.check(not (k["nospace"] and " " in s), "no spaces when asked for none", text=s)
    if via == "range":
        back = sx.br.BibleRange(s, flags=arg)
    else:
        lst = sx.br.BibleRangeList(s, flags=arg)
        sx.check(len(lst) == 1 and len(lst.groups) == 1, "a single range", text=s)
        back = lst[0]
    same_range(sx, back, p, q, s)
    if a is None and not any(k.values()):
        sx.check(str(r) == s, "str() is the plain form")
    sx.reach("trip")


def plan(tier):
    quick = tier == "quick"
    cases = []
    for m in modes((0, 3) if quick else (0, 1, 2, 3)):
        for l in range(0, 66, 22):
            cases.append(("verse_trip", dict(m, lo=l, hi=l + 21), {}))
    for m in modes((0, 2) if quick else (0, 1, 2, 3)):
        for l in range(0, 66, 22):
            cases.append(("whole_trip", dict(m, lo=l, hi=l + 21), {}))
    for m in modes((0, 2) if quick else (0, 1, 2, 3)):
        for i in (8, 30, 21) if quick else REPS:
            for force in (False, True):
                cases.append(("range_trip", dict(m, first=[i], force=force), {}))
    for m in modes((1, 3)):
        pairs = ((0, 65), (8, 21), (21, 30), (30, 61)) if quick else [(i, j) for i in REPS for j in REPS if i < j]
        for i, j in pairs:
            for force in (False, True):
                if quick and force != (i in (0, 21)):
                    continue
                cases.append(("range_trip", dict(m, first=[i], second=[j], force=force), {}))
    cases.append(("range_trip", dict(g=3, a=None, first=[9], second=[21], via="list"), {}))
    cases.append(("range_trip", dict(g=0, a=None, first=[45], via="list"), {}))
    return {"cases": cases, "witnesses": ["trip"],
            "bounds": "every book name, any chapter and verse numbers, all string formats; whole books and chapters of "
                      "every book; ranges within and between representative books (plain, numbered, several words); "
                      "arbitrary tables, so any book may have a single chapter"}
