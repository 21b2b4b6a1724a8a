"""The strings of verses, ranges and lists are the conventional ones."""
from .common import *
from .c16 import elements, cut
from .c17 import starts_whole, ends_at_verse

FMTS = ((), ("abbrev",), ("alt_sep",), ("nospace",), ("abbrev", "alt_sep", "nospace"))


class Style:
    def __init__(self, sx, fmt):
        d = sx.br.bible_data()
        self.sx, self.fmt = sx, fmt
        self.sep = d.verse_sep_alt if "alt_sep" in fmt else d.verse_sep_std
        self.other = d.verse_sep_std if "alt_sep" in fmt else d.verse_sep_alt
        self.rs, self.major, self.minor = d.range_sep, d.major_list_sep, d.minor_list_sep

    def name(self, b):
        n = b.abbrev if "abbrev" in self.fmt else b.title
        return n.replace(" ", "") if "nospace" in self.fmt else n

    def kw(self):
        return {f: True for f in self.fmt}

    def ref(self, name, c, v, one):
        """Text of a reference with the given parts; a one-chapter book shows no chapter."""
        nums = [str(x) for x in ((v,) if one else (c, v)) if x is not None]
        t = self.sep.join(nums)
        if not name:
            return t
        return name + ("" if "nospace" in self.fmt or not t else " ") + t


def first(sx, b, c, eff):
    return Pt(b, c, lo(sx, b, c, eff)).key(sx)


def last(sx, b, c):
    return Pt(b, c, sx.mv(b, c)).key(sx)


def kind(sx, p, q, eff):
    """"verse", "chap", "book" or None for the range p..q.  Forks."""
    if not sx.fix(sx.pos(p.b) == sx.pos(q.b)):
        return None
    pk, qk = p.key(sx), q.key(sx)
    if sx.fix(sx.And(k_eq(sx, pk, first(sx, p.b, 1, eff)), k_eq(sx, qk, last(sx, p.b, sx.nch(p.b))))):
        return "book"
    if sx.fix(sx.And(p.c == q.c, k_eq(sx, pk, first(sx, p.b, p.c, eff)), k_eq(sx, qk, last(sx, p.b, p.c)))):
        return "chap"
    return "verse" if sx.fix(sx.And(p.c == q.c, p.v == q.v)) else None


def starts_book(sx, p, q, eff):
    return sx.fix(sx.And(k_eq(sx, p.key(sx), first(sx, p.b, 1, eff)), k_le(sx, last(sx, p.b, sx.nch(p.b)), q.key(sx))))


def ends_book(sx, p, q, eff):
    return sx.fix(sx.And(k_eq(sx, q.key(sx), last(sx, q.b, sx.nch(q.b))), k_le(sx, p.key(sx), first(sx, q.b, 1, eff))))


def ends_chap(sx, p, q, eff):
    return sx.fix(sx.And(k_eq(sx, q.key(sx), last(sx, q.b, q.c)), k_le(sx, p.key(sx), first(sx, q.b, q.c, eff))))


def range_text(sx, st, p, q, eff, force):
    one = lambda b: sx.fix(sx.nch(b) == 1)
    k = kind(sx, p, q, eff)
    if k == "book":
        return st.name(p.b)
    if k == "chap":
        return st.ref(st.name(p.b), p.c, None, one(p.b))
    if k == "verse":
        return st.ref(st.name(p.b), p.c, p.v, one(p.b))
    same = sx.fix(sx.pos(p.b) == sx.pos(q.b))
    shown = force and not ends_chap(sx, p, q, eff)      # the end shows a verse, so the start has to
    if starts_book(sx, p, q, eff) and not shown:
        a, level = st.name(p.b), False
    elif starts_whole(sx, p, q, eff) and not shown:
        a, level = st.ref(st.name(p.b), p.c, None, one(p.b)), False
    else:
        a, level = st.ref(st.name(p.b), p.c, p.v, one(p.b)), True
    if not same and ends_book(sx, p, q, eff):
        b = st.name(q.b)
    else:
        verse = None if ends_chap(sx, p, q, eff) and not (same and level) else q.v
        chap = None if same and sx.fix(p.c == q.c) else q.c
        b = st.ref("" if same else st.name(q.b), chap, verse, one(q.b) or chap is None)
    return a + st.rs + b


def verse(sx, book, fmt):
    b = sx.fix(sx.book_at(book))
    p = point(sx, "p", V0, book=b)
    v = mkverse(sx, p)
    sx.set_flags(F(sx, V0))
    st = Style(sx, fmt)
    one = sx.fix(sx.nch(b) == 1)
    want = st.ref(st.name(b), p.c, p.v, one)
    sx.check(v.str(**st.kw()) == want, "the string of a verse", got=v.str(**st.kw()), want=want)
    P = sx.br.BibleVersePart
    parts = [("BOOK", (1, 0, 0)), ("CHAP", (0, 1, 0)), ("VERSE", (0, 0, 1)), ("BOOK_CHAP", (1, 1, 0)), ("BOOK_VERSE", (1, 0, 1)), ("CHAP_VERSE", (0, 1, 1))]
    n, (x, y, z) = sx.choice("parts", parts)
    want = st.ref(st.name(b) if x else "", p.c if y else None, p.v if z else None, one or not y)
    got = v.str(verse_parts=getattr(P, n), **st.kw())
    sx.check(got == want, "the string of parts of a verse", parts=n, got=got, want=want)
    if not fmt:
        sx.check(str(v) == v.str(), "str() is the plain form")


def range_(sx, g, a, books, fmt, force):
    eff, arg = begin(sx, g, a)
    p = point(sx, "s", eff, book=sx.fix(sx.book_at(books[0])))
    q = point(sx, "e", eff, book=sx.fix(sx.book_at(books[1])))
    sx.assume(k_le(sx, p.key(sx), q.key(sx)))
    r = mkrange(sx, p, q)
    st = Style(sx, fmt)
    want = range_text(sx, st, p, q, eff, force)
    got = r.str(force_start_verses=force, flags=arg, **st.kw())
    sx.check(got == want, "the string of a range", got=got, want=want)
    if not fmt and not force and a is None:
        sx.check(str(r) == want and repr(r) == "BibleRange(%s)" % want, "str() and repr()", got=repr(r))
    # a list of the range alone
    l = sx.br.BibleRangeList([r])
    got = l.str(force_start_verses=force, flags=arg, **st.kw())
    sx.check(got == want, "the string of a list of one range", got=got, want=want)
    if not fmt and not force and a is None:
        sx.check(repr(l) == 'BibleRangeList("%s")' % want, "repr() of a list", got=repr(l))
    sx.reach("range")


def pieces(st, text):
    """Pieces of a list string and the separators between them."""
    out, seps = [""], []
    for ch in text:
        if ch in (st.major, st.minor):
            seps.append(ch)
            out.append("")
        else:
            out[-1] += ch
    return out, seps


def words(t):
    return "".join(ch for ch in t if ch.isascii() and ch.isalpha())


def list_(sx, g, a, plan, shape, preserve, fmt=(), force=False, inner=False, xspan=1, books=None):
    eff, arg = begin(sx, g, a)
    ps, rs = elements(sx, eff, plan, 1, inner, xspan, books=books)
    lst = sx.br.BibleRangeList(cut(rs, shape))
    st = Style(sx, fmt)
    text = lst.str(preserve_groups=preserve, force_start_verses=force, flags=arg, **st.kw())
    got, seps = pieces(st, text)
    sx.check(len(got) == len(rs), "one piece per range", text=text)
    if preserve:
        want = []
        for n in shape:
            want += [st.minor] * (n - 1) + [st.major]
        sx.check(seps == want[:-1], "major separators between groups, minor ones within", text=text)
    for i, (p, q) in enumerate(ps):
        t = got[i]
        if i and "nospace" not in fmt:
            sx.check(t[:1] == " ", "a space after a separator", text=text)
            t = t[1:]
        sx.check(t == t.strip() and not ("nospace" in fmt and " " in t), "no other spaces around a reference", text=text)
        minor = i > 0 and seps[i - 1] == st.minor
        k = kind(sx, p, q, eff)
        a_, dash, b_ = t.partition(st.rs)
        if k is not None and not (k == "chap" and minor):
            sx.check(not dash, "a single verse, chapter or book is a single reference", text=text, piece=t)
            sx.reach("single")
        elif k is None:
            sx.check(dash == st.rs, "a range has two ends", text=text, piece=t)
            sx.reach("range")
        # names
        named = i == 0 or not sx.fix(sx.pos(ps[i - 1][1].b) == sx.pos(p.b)) or starts_book(sx, p, q, eff)
        nm = st.name(p.b)
        if named:
            sx.check(a_.startswith(nm), "the book is named when it is not the one before", text=text, piece=t)
            a_ = a_[len(nm):]
        sx.check(words(a_) == "", "the book is named once", text=text, piece=t)
        if dash and not sx.fix(sx.pos(p.b) == sx.pos(q.b)):
            nm = st.name(q.b)
            sx.check(b_.startswith(nm), "the book of the end is named when it is another", text=text, piece=t)
            b_ = b_[len(nm):]
        sx.check(words(b_) == "", "the book of the end is named once", text=text, piece=t)
        sx.check(st.other not in t, "only the separator asked for", text=text)
        if not starts_whole(sx, p, q, eff) and i and not sx.fix(sx.nch(p.b) == 1):
            pp, pq = ps[i - 1]
            here = sx.fix(sx.And(sx.pos(p.b) == sx.pos(pq.b), p.c == pq.c)) and (minor or not preserve)
            inside_ = sx.fix(sx.And(sx.pos(p.b) == sx.pos(q.b), p.c == q.c))
            if not (here and inside_):
                sx.check(st.sep in a_, "the start shows its chapter unless the range lies in the one before", text=text, piece=t)
            elif ends_at_verse(sx, pp, pq, eff):
                sx.check(st.sep not in a_, "the start shows no chapter in a list of verses of one chapter", text=text, piece=t)
                sx.reach("verse list")
        if k is None and starts_whole(sx, p, q, eff):
            if force and not ends_chap(sx, p, q, eff):
                sx.check(st.sep in a_ or (sx.fix(sx.nch(p.b) == 1) and a_.strip() != ""), "the start verse is shown when forced", text=text, piece=t)
                sx.reach("forced")
            elif not minor:
                sx.check(st.sep not in a_, "the start verse is left out", text=text, piece=t)


def plan(tier):
    quick = tier == "quick"
    cases = []
    for book in range(66):
        for fmt in FMTS if not quick or book in (8, 40, 64) else FMTS[0:1] + FMTS[3:]:
            cases.append(("verse", dict(book=book, fmt=fmt), {}))
    for m in modes((0, 2)) + modes((1, 3)):
        eff = m["a"] if m["a"] is not None else m["g"]
        for books in [(8, 8)] + ([(8, 40), (39, 40)] if eff & MB else []):
            if m == modes((0, 2))[0]:
                cases += [("range_", dict(m, books=(21, 21), fmt=fmt, force=False), {}) for fmt in FMTS[3:]]
            for force in (False, True):
                for fmt in FMTS[:1] if quick and m["g"] else FMTS:
                    cases.append(("range_", dict(m, books=books, fmt=fmt, force=force), {}))
    A, B, X = (0, 0), (1, 1), (0, 1)
    for m in [{"g": 0, "a": None}, {"g": 3, "a": 2}] if quick else modes((0, 2)):
        for pl in ([A, A], [A, B]) if quick else ([A, A], [A, B], [B, A]):
            for shape in ([2], [1, 1]):
                for preserve in (True, False):
                    for force in (False, True):
                        if quick and force and (pl != [A, A] or shape != [2]):
                            continue
                        cases.append(("list_", dict(m, plan=pl, shape=shape, preserve=preserve, force=force, inner=quick and pl != [A, A]), {}))
    for m in [{"g": 1, "a": None}] if quick else modes((1, 3)):
        for pl in ([X, B], [A, X]):
            for force in (False, True):
                cases.append(("list_", dict(m, plan=pl, shape=[2], preserve=not force, force=force, inner=quick, xspan=2), {}))
    for pl in ([A, A, A],) if quick else ([A, A, A], [A, A, B]):
        for shape in ([3], [1, 2]) if quick else ([3], [1, 2], [2, 1], [1, 1, 1]):
            cases.append(("list_", dict(g=0, a=None, plan=pl, shape=shape, preserve=True, inner=True), {}))
    cases.append(("list_", dict(g=0, a=None, plan=[A, B], shape=[2], preserve=True, fmt=FMTS[-1], inner=True), {}))
    for fmt in ((), FMTS[3]):
        cases.append(("list_", dict(g=0, a=None, plan=[A, B], shape=[2], preserve=True, fmt=fmt, inner=True, books=(21, 61)), {}))
    return {"cases": cases, "witnesses": ["single", "range", "forced", "verse list"],
            "bounds": "any verse; any range in one book or across three pairs of books; lists of up to 3 ranges of one or two books, each "
                      "over at most two chapters (or to the next book)"}
