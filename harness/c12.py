"""Chapter and book counts."""
from .common import *
from .c06 import universe, free_range


def chapters(sx, p, q, hops):
    """Number of chapters from p's to q's; assumes at most hops+1."""
    b, c = p.b, p.c
    for i in range(hops + 1):
        if sx.And(sx.pos(b) == sx.pos(q.b), c == q.c):
            return i + 1
        nx = next_chap(sx, b, c, True)
        if nx is None:
            break
        b, c = nx
    sx.assume(False)


def whole_chaps(sx, p, q, n, eff):
    cut_s = p.v != lo(sx, p.b, p.c, eff)
    cut_e = q.v != sx.mv(q.b, q.c)
    if n == 1:
        return sx.If(sx.Or(cut_s, cut_e), 0, 1)
    return n - sx.If(cut_s, 1, 0) - sx.If(cut_e, 1, 0)


def whole_books(sx, p, q, n, eff):
    cut_s = sx.Or(p.c != 1, p.v != lo(sx, p.b, 1, eff))
    cut_e = sx.Or(q.c != sx.nch(q.b), q.v != sx.mv(q.b, q.c))
    if n == 1:
        return sx.If(sx.Or(cut_s, cut_e), 0, 1)
    return n - sx.If(cut_s, 1, 0) - sx.If(cut_e, 1, 0)


def books(sx, p, q, hops):
    d = sx.pos(q.b) - sx.pos(p.b)
    for i in range(hops + 1):
        if d == i:
            return i + 1
    sx.assume(False)


def one(sx, g, a, what, hops):
    eff, arg = begin(sx, g, a)
    p, q, r = range_(sx, "r", eff, multibook=True)
    if what == "chaps":
        n = chapters(sx, p, q, hops)
        sx.check(r.chap_count(flags=arg) == n, "chapters of a range")
        sx.check(r.chap_count(whole=False, flags=arg) == n, "chapters of a range, whole=False")
        sx.check(r.chap_count(whole=True, flags=arg) == whole_chaps(sx, p, q, n, eff), "whole chapters of a range")
    else:
        n = books(sx, p, q, hops)
        sx.check(r.book_count(flags=arg) == n, "books of a range")
        sx.check(r.book_count(whole=True, flags=arg) == whole_books(sx, p, q, n, eff), "whole books of a range")
    if n > 2:
        sx.reach(what + " over three")


def lists(sx, g, a, what, hops, k):
    eff, arg = begin(sx, g, a)
    whole = sx.flag("whole")
    want, rs = 0, []
    for i in range(k):
        p, q, r = range_(sx, "r%d" % i, eff, multibook=True)
        rs.append(r)
        if what == "chaps":
            n = chapters(sx, p, q, hops)
            want = want + (whole_chaps(sx, p, q, n, eff) if whole else n)
        elif what == "books":
            n = books(sx, p, q, hops)
            want = want + (whole_books(sx, p, q, n, eff) if whole else n)
        else:
            want = want + count(sx, p, q, eff, hops)
    lst = sx.br.BibleRangeList(rs)
    if what == "verses":
        sx.check(lst.verse_count(flags=arg) == want, "verses of a list")
    elif what == "chaps":
        sx.check(lst.chap_count(whole=whole, flags=arg) == want, "chapters of a list")
    else:
        sx.check(lst.book_count(whole=whole, flags=arg) == want, "books of a list")


def book(sx, g, a):
    """Counts of a single book."""
    eff, arg = begin(sx, g, a)
    b = sx.book("b")
    sx.check(b.chap_count() == sx.nch(b), "chapters of a book")
    sx.check(sx.And(b.min_chap_num() == 1, b.max_chap_num() == sx.nch(b)), "first and last chapter")


def book_verses(sx, g, a, n):
    eff, arg = begin(sx, g, a)
    b = sx.book("b")
    sx.assume(sx.nch(b) <= n)
    want = 0
    for c in range(1, n + 1):
        if c <= sx.nch(b):
            want = want + sx.mv(b, c) - lo(sx, b, c, eff) + 1
    sx.check(b.verse_count(flags=arg) == want, "verses of a book")


def plan(tier):
    quick = tier == "quick"
    h = 3 if quick else 6
    cases = []
    for m in modes():
        cases.append(("one", dict(m, what="chaps", hops=h), {}))
        cases.append(("one", dict(m, what="books", hops=h), {}))
        cases.append(("book", m, {}))
        cases.append(("book_verses", dict(m, n=5 if quick else 20), {}))
    for m in [{"g": 0, "a": 3}, {"g": 2, "a": None}] if quick else modes():
        for what in ("verses", "chaps", "books"):
            for k in (0, 1, 2):
                cases.append(("lists", dict(m, what=what, hops=1 if k == 2 else 2, k=k), {}))
    cases = [(f, c, dict(o, stub_regroup=True)) for f, c, o in cases]
    return {"cases": cases, "witnesses": ["chaps over three", "books over three"],
            "bounds": "ranges over up to %d chapters (chapter counts) or %d books of any size (book counts), lists of up "
                      "to two ranges, verse totals of books of up to %d chapters; arbitrary tables"
                      % (h + 1, h + 1, 5 if quick else 20),
            "assumptions": ["regrouping keeps the elements of a list (decided by C17)"]}
