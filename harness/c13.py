"""The ranges spanning a chapter, a book, a list."""
from .common import *
from .c10 import ranges


def check_range(sx, r, s, e, label):
    sx.check(isinstance(r, sx.br.BibleRange), label + " is a range", got=r)
    sx.check(sx.And(is_verse(sx, r.start, s), is_verse(sx, r.end, e)), label, got=r)


def chap_start(sx, p, eff):
    return Pt(p.b, p.c, lo(sx, p.b, p.c, eff))


def chap_end(sx, p):
    return Pt(p.b, p.c, sx.mv(p.b, p.c))


def book_start(sx, b, eff):
    return Pt(b, 1, lo(sx, b, 1, eff))


def book_end(sx, b):
    return Pt(b, sx.nch(b), sx.mv(b, sx.nch(b)))


def of_verse(sx, g, a):
    eff, arg = begin(sx, g, a)
    p, v = verse(sx, "v", eff)
    check_range(sx, v.chap_range(flags=arg), chap_start(sx, p, eff), chap_end(sx, p), "chapter of a verse")
    check_range(sx, v.book_range(flags=arg), book_start(sx, p.b, eff), book_end(sx, p.b), "book of a verse")
    check_range(sx, p.b.range(flags=arg), book_start(sx, p.b, eff), book_end(sx, p.b), "range of a book")
    check_range(sx, p.b.chap_range(p.c, flags=arg), chap_start(sx, p, eff), chap_end(sx, p), "chapter of a book")


def of_range(sx, g, a):
    eff, arg = begin(sx, g, a)
    p, q, r = range_(sx, "r", eff, multibook=True)
    check_range(sx, r.chap_range(flags=arg), chap_start(sx, p, eff), chap_end(sx, q), "chapters of a range")
    check_range(sx, r.book_range(flags=arg), book_start(sx, p.b, eff), book_end(sx, q.b), "books of a range")


def of_bible(sx, g, a):
    eff, arg = begin(sx, g, a)
    f, l = sx.book_at(0), sx.book_at(sx.n_books - 1)
    check_range(sx, sx.br.BibleRange.whole_bible(flags=arg), book_start(sx, f, eff), book_end(sx, l), "the whole Bible")


def existing_0(sx, g, a):
    """References that start at an existing verse 0 keep it, whatever the flags."""
    eff, arg = begin(sx, g, a)
    p, q, r = range_(sx, "r", V0, multibook=True)
    sx.assume(p.v == 0)
    V, L = r.start, sx.br.BibleRangeList([r])
    o, u, r2 = range_(sx, "o", eff, multibook=True)
    sx.assume(k_le(sx, p.key(sx), o.key(sx)))
    sx.assume(k_le(sx, u.key(sx), q.key(sx)))
    L2 = sx.br.BibleRangeList([r2, r])
    for x, end in ((V, p), (r, q), (L, q), (L2, q)):
        check_range(sx, x.chap_range(flags=arg), p, chap_end(sx, end), "chapters of a reference starting at verse 0")
        check_range(sx, x.book_range(flags=arg), book_start(sx, p.b, V0), book_end(sx, end.b), "books of a reference starting at verse 0")


def of_list(sx, g, a, k, what):
    eff, arg = begin(sx, g, a)
    mb = sx.flag("multibook")
    u = V0 if what == "range" else eff
    ps, rs = ranges(sx, "l", u, k, mb)
    lst = sx.br.BibleRangeList(rs)
    if what == "range":
        r = lst.range()
    elif what == "chap":
        r = lst.chap_range(flags=arg)
    else:
        r = lst.book_range(flags=arg)
    sx.check(isinstance(r, sx.br.BibleRange), "a range", got=r)
    s, e = key(sx, r.start), key(sx, r.end)
    starts, ends = [], []
    for p, q in ps:
        if what == "range":
            starts.append(p)
            ends.append(q)
        elif what == "chap":
            starts.append(chap_start(sx, p, eff))
            ends.append(chap_end(sx, q))
        else:
            starts.append(book_start(sx, p.b, eff))
            ends.append(book_end(sx, q.b))
    for x in starts:
        sx.check(k_le(sx, s, x.key(sx)), "spans the start of every range", got=r)
    for x in ends:
        sx.check(k_le(sx, x.key(sx), e), "spans the end of every range", got=r)
    sx.check(sx.Or(*[k_eq(sx, s, x.key(sx)) for x in starts]), "no earlier than needed", got=r)
    sx.check(sx.Or(*[k_eq(sx, e, x.key(sx)) for x in ends]), "no later than needed", got=r)
    for i, x in enumerate(lst):
        sx.check(x is rs[i], "the list is unchanged")


def spans(sx, g, a):
    """is_whole_chap and friends."""
    eff, arg = begin(sx, g, a)
    p, q, r = range_(sx, "r", eff, multibook=True)
    at_s = k_eq(sx, p.key(sx), chap_start(sx, p, eff).key(sx))
    at_e = k_eq(sx, q.key(sx), chap_end(sx, q).key(sx))
    same_c = sx.And(sx.pos(p.b) == sx.pos(q.b), p.c == q.c)
    same_b = sx.pos(p.b) == sx.pos(q.b)
    bs, be = book_start(sx, p.b, eff).key(sx), book_end(sx, q.b).key(sx)
    sx.check(sx.Iff(r.is_whole_chap(arg), sx.And(same_c, at_s, at_e)), "is a whole chapter")
    sx.check(sx.Iff(r.spans_start_chap(arg), sx.And(at_s, k_le(sx, chap_end(sx, p).key(sx), q.key(sx)))), "spans its first chapter")
    sx.check(sx.Iff(r.spans_end_chap(arg), sx.And(at_e, k_le(sx, p.key(sx), chap_start(sx, q, eff).key(sx)))), "spans its last chapter")
    sx.check(sx.Iff(r.is_whole_book(arg), sx.And(same_b, k_eq(sx, p.key(sx), bs), k_eq(sx, q.key(sx), be))), "is a whole book")
    sx.check(sx.Iff(r.spans_start_book(arg), sx.And(k_eq(sx, p.key(sx), bs), k_le(sx, book_end(sx, p.b).key(sx), q.key(sx)))), "spans its first book")
    sx.check(sx.Iff(r.spans_end_book(arg), sx.And(k_eq(sx, q.key(sx), be), k_le(sx, p.key(sx), book_start(sx, q.b, eff).key(sx)))), "spans its last book")
    sx.check(sx.Iff(r.is_single_verse(), k_eq(sx, p.key(sx), q.key(sx))), "is a single verse")


def plan(tier):
    quick = tier == "quick"
    cases = []
    for m in modes():
        for f in ("of_verse", "of_range", "of_bible", "spans"):
            cases.append((f, m, {}))
        cases.append(("existing_0", m, {}))
        for what in ("range", "chap", "book"):
            for k in (1, 2, 3) if quick else (1, 2, 3, 4):
                if k < 3 or not quick or (m["a"] is None and m["g"] in (0, 3)):
                    cases.append(("of_list", dict(m, k=k, what=what), {}))
    return {"cases": cases,
            "bounds": "any verse, any range over any chapters and books, lists of up to %d ranges; arbitrary tables"
                      % (3 if quick else 4)}
