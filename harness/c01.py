from .common import *


def verse_valid(sx, g, a):
    eff, arg = begin(sx, g, a)
    br = sx.br
    b = sx.book("b")
    c = sx.int("c", -3, 160)
    v = sx.int("v", -3, 210)
    kind, r = sx.run(br.BibleVerse, b, c, v, flags=arg)
    ok = valid(sx, Pt(b, c, v), eff)
    if kind == "ok":
        sx.reach("accepted")
        sx.check(ok, "accepted a verse that does not exist", got=r)
        sx.check(sx.And(r.book == b, r.chap_num == c, r.verse_num == v), "fields are the arguments")
        r2 = br.BibleVerse(r)
        sx.check(sx.And(r2.book == b, r2.chap_num == c, r2.verse_num == v), "a copy has the same fields")
    else:
        sx.reach("rejected")
        sx.check(isinstance(r, br.ref.InvalidReferenceError), "type of the error", err=repr(r))
        sx.check(sx.Not(ok), "rejected an existing verse")


def chapter_bounds(sx, g, a):
    eff, arg = begin(sx, g, a)
    br = sx.br
    b = sx.book("b")
    c = sx.int("c", -3, 160)
    ok = sx.And(c >= 1, c <= sx.nch(b))
    sx.check(b.min_chap_num() == 1, "first chapter is 1")
    sx.check(b.max_chap_num() == sx.nch(b), "last chapter")
    sx.check(b.chap_count() == sx.nch(b), "number of chapters")
    what = sx.choice("what", ("min", "max", "first", "last", "range"))
    f = {"min": lambda: b.min_verse_num(c, flags=arg), "max": lambda: b.max_verse_num(c),
         "first": lambda: b.first_verse(c, flags=arg), "last": lambda: b.last_verse(c),
         "range": lambda: b.chap_range(c, flags=arg)}[what]
    kind, r = sx.run(f)
    if kind == "exc":
        sx.check(isinstance(r, br.ref.InvalidReferenceError), "type of the error", err=repr(r), what=what)
        sx.check(sx.Not(ok), "rejected an existing chapter", what=what, err=repr(r))
        return
    sx.check(ok, "accepted a chapter that does not exist", what=what)
    first, last = lo(sx, b, c, eff), sx.mv(b, c)
    if what == "min":
        sx.check(r == first, "lowest verse number")
    elif what == "max":
        sx.check(r == last, "highest verse number")
    elif what == "first":
        sx.check(is_verse(sx, r, Pt(b, c, first)), "first verse of a chapter", got=r)
    elif what == "last":
        sx.check(is_verse(sx, r, Pt(b, c, last)), "last verse of a chapter", got=r)
    else:
        sx.check(sx.And(is_verse(sx, r.start, Pt(b, c, first)), is_verse(sx, r.end, Pt(b, c, last))),
                 "range of a chapter", got=r)


def book_bounds(sx, g, a):
    eff, arg = begin(sx, g, a)
    b = sx.book("b")
    n = sx.nch(b)
    first, last = Pt(b, 1, lo(sx, b, 1, eff)), Pt(b, n, sx.mv(b, n))
    what = sx.choice("what", ("first", "last", "range", "count"))
    if what == "first":
        sx.check(is_verse(sx, b.first_verse(flags=arg), first), "first verse of a book")
    elif what == "last":
        sx.check(is_verse(sx, b.last_verse(), last), "last verse of a book")
    elif what == "range":
        r = b.range(flags=arg)
        sx.check(sx.And(is_verse(sx, r.start, first), is_verse(sx, r.end, last)), "range of a book", got=r)
    else:
        got = b.verse_count(flags=arg)
        want = 0
        c = 1
        while c <= n:
            want = want + (sx.mv(b, c) - lo(sx, b, c, eff) + 1)
            c += 1
        sx.check(got == want, "verse count of a book")


def verse_queries(sx, g, a):
    """First/last-in-chapter/book queries of a verse."""
    eff, arg = begin(sx, g, a)
    p, v = verse(sx, "x", eff)
    b, c = p.b, p.c
    n = sx.nch(b)
    sx.check(sx.Iff(v.is_first_in_chap(flags=arg), p.v == lo(sx, b, c, eff)), "is first in chapter")
    sx.check(sx.Iff(v.is_last_in_chap(), p.v == sx.mv(b, c)), "is last in chapter")
    sx.check(sx.Iff(v.is_first_in_book(flags=arg), sx.And(c == 1, p.v == lo(sx, b, 1, eff))), "is first in book")
    sx.check(sx.Iff(v.is_last_in_book(), sx.And(c == n, p.v == sx.mv(b, n))), "is last in book")
    sx.check(is_verse(sx, v.first_verse(flags=arg), Pt(b, c, lo(sx, b, c, eff))), "first verse of own chapter")
    sx.check(is_verse(sx, v.last_verse(), Pt(b, c, sx.mv(b, c))), "last verse of own chapter")
    sx.check(sx.And(v.min_chap_num() == 1, v.max_chap_num() == n), "chapter numbers of own book")
    sx.check(v.min_verse_num(flags=arg) == lo(sx, b, c, eff), "lowest verse number of own chapter")
    sx.check(v.max_verse_num(c) == sx.mv(b, c), "highest verse number of own chapter")
    sx.check(v.max_verse_num() == sx.mv(b, c), "highest verse number of own chapter, by default")


def other_chapter(sx, g, a):
    """The same queries about a given chapter or book."""
    eff, arg = begin(sx, g, a)
    p, v = verse(sx, "x", eff)
    b = p.b
    c = sx.int("c", 1, 150)
    sx.assume(c <= sx.nch(b))
    first, last = Pt(b, c, lo(sx, b, c, eff)), Pt(b, c, sx.mv(b, c))
    sx.check(is_verse(sx, v.first_verse(c, flags=arg), first), "first verse of a chapter")
    sx.check(is_verse(sx, v.last_verse(c), last), "last verse of a chapter")
    sx.check(v.min_verse_num(c, flags=arg) == first.v, "lowest verse number of a chapter")
    sx.check(v.max_verse_num(c) == last.v, "highest verse number of a chapter")
    sx.check(sx.Iff(v.is_first_in_chap(c, flags=arg), k_eq(sx, p.key(sx), first.key(sx))), "is first in a chapter")
    sx.check(sx.Iff(v.is_last_in_chap(c), k_eq(sx, p.key(sx), last.key(sx))), "is last in a chapter")
    o = sx.book("o")
    n = sx.nch(o)
    sx.check(sx.Iff(v.is_first_in_book(o, flags=arg), k_eq(sx, p.key(sx), Pt(o, 1, lo(sx, o, 1, eff)).key(sx))), "is first in a book")
    sx.check(sx.Iff(v.is_last_in_book(o), k_eq(sx, p.key(sx), Pt(o, n, sx.mv(o, n)).key(sx))), "is last in a book")


def plan(tier):
    n = 5 if tier == "quick" else 9
    cases = [(f, m, {}) for m in modes() for f in ("verse_valid", "chapter_bounds", "verse_queries", "other_chapter")]
    cases += [("book_bounds", m, {"max_ch": n}) for m in modes()]
    # and once more against the package's own tables
    cases += [("verse_valid", m, {"real": True}) for m in modes((0, 2), both=False)]
    return {"cases": cases, "witnesses": ["accepted", "rejected"],
            "bounds": "any of the 66 books; chapter in [-3,160], verse in [-3,210]; arbitrary tables with up to 150 "
                      "chapters of up to 200 verses and any set of verse-0 chapters; verse_count: up to %d chapters" % n}
