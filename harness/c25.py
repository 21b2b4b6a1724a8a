"""Changed Bible data takes effect everywhere."""
import itertools
from symx import rx
from .common import *
from .c18 import name_lang

POOL = ("Mark", "Gen", "Jude", "Psa")


def books(sx, names=POOL):
    return [getattr(sx.br.BibleBook, n) for n in names]


def rows(sx, bs, chaps):
    """Arbitrary numbers of verses for the chapters of the books."""
    return {b: [sx.int("m%d_%d" % (i, j), 1, 30) for j in range(n)] for i, (b, n) in enumerate(zip(bs, chaps))}


def install(sx, order=None, mv=None, v0=None, again=False):
    """Sets the data.  again: other data is set before, and then its objects, changed, are set again."""
    d = sx.br.bible_data()
    if again:
        bs = books(sx)
        if order is not None:
            o = bs[::-1]
            d.book_order = o
            o[:] = order
            order = o
        if mv is not None:
            m = {b: [4 + i, 9] for i, b in enumerate(bs)}
            d.max_verses = m
            for b in bs:
                if b in mv:
                    m[b][:] = mv[b]
                else:
                    del m[b]
            mv = m
        if v0 is not None:
            z = {b: {1, 2} for b in bs}
            d.verse_0s = z
            for b in bs:
                if b in v0:
                    z[b].clear()
                    z[b].update(v0[b])
                else:
                    del z[b]
            v0 = z
    if order is not None:
        d.book_order = list(order)
    if mv is not None:
        d.max_verses = mv
    if v0 is not None:
        d.verse_0s = v0


def valid(sx, mv, v0, b, c, v, flags):
    if b not in mv:
        return False
    alts = [sx.And(c == j + 1, v >= (0 if flags & V0 and j + 1 in v0.get(b, ()) else 1), v <= m) for j, m in enumerate(mv[b])]
    return sx.Or(*alts)


def verses(sx, g, a, chaps, zero, again=False):
    """A verse exists exactly for the new verse numbers; books without any have none."""
    eff, arg = begin(sx, g, a)
    bs = books(sx)
    mv = rows(sx, bs[:len(chaps)], chaps)
    v0 = {bs[0]: set(zero)}
    install(sx, mv=mv, v0=v0, again=again)
    d = sx.br.bible_data()
    sx.check(d.max_verses == mv and d.verse_0s == v0, "the data set is the data read")
    b = sx.choice("b", bs + [sx.br.BibleBook.Rev])
    c, v = sx.int("c", -1, 5), sx.int("v", -1, 40)
    kind, r = sx.run(sx.br.BibleVerse, b, c, v, flags=arg)
    good = valid(sx, mv, v0, b, c, v, eff)
    if kind == "ok":
        sx.check(good, "only verses of the data exist", got=r)
        sx.reach("verse")
    else:
        sx.check(sx.Not(good), "every verse of the data exists", got=r)
        sx.check(isinstance(r, sx.br.ref.InvalidReferenceError), "other verses are invalid references", got=r, book=b)
    n = len(mv.get(b, ()))
    sx.check(b.chap_count() == n, "number of chapters", got=b.chap_count(), book=b)
    total = 0
    for j in range(n):
        total = total + mv[b][j] - (0 if eff & V0 and j + 1 in v0.get(b, ()) else 1) + 1
    sx.check(b.verse_count(flags=arg) == total, "number of verses", got=b.verse_count(flags=arg))
    kind, r = sx.run(sx.br.BibleRange, b, flags=arg)
    if n:
        sx.check(kind == "ok" and sx.And(r.start.chap_num == 1, r.end.chap_num == n, r.end.verse_num == mv[b][-1]), "the whole book", got=r)
    else:
        sx.check(kind == "exc" and isinstance(r, sx.br.ref.InvalidReferenceError), "a book without verse data is refused", got=r)
        sx.reach("no data")


def order(sx, g, n, chaps, again=False):
    """Everything follows the new order of the books."""
    sx.set_flags(F(sx, g | MB))
    bs = books(sx)
    new = [bs[i] for i in sx.choice("order", list(itertools.permutations(range(len(bs)), n)))]
    mv = rows(sx, bs, chaps)
    install(sx, order=new, mv=mv, v0={}, again=again)
    d = sx.br.bible_data()
    sx.check(list(d.book_order) == new, "the order set is the order read")
    for i, b in enumerate(new):
        sx.check(b.order == i, "position of a book", book=b)
        sx.check(b.next() is (new[i + 1] if i + 1 < n else None) and b.prev() is (new[i - 1] if i else None), "next and previous book", book=b)
    for b in sx.br.BibleBook:
        if b not in new:
            sx.check(b.order is None and b.next() is None and b.prev() is None, "a book left out has no place", book=b)
    i, j = sx.choice("i", range(n)), sx.choice("j", range(n))

    def a_verse(name, b):
        c, v = sx.int(name + "c", 1, 3), sx.int(name + "v", 1, 30)
        c = sx.fix(c)
        sx.assume(c <= len(mv[b]))
        sx.assume(v <= mv[b][c - 1])
        return c, v, sx.br.BibleVerse(b, c, v)
    pc, pv, p = a_verse("p", new[i])
    qc, qv, q = a_verse("q", new[j])
    less = i < j or (i == j and sx.Or(pc < qc, sx.And(pc == qc, pv < qv)))
    sx.check(sx.Iff(p < q, less), "verses compare in the new order", p=p, q=q)
    r = sx.br.BibleRange(start=p, end=q)
    sx.check(sx.If(less, 1, 0) == sx.If(sx.And(r.start == p, r.end == q, sx.Not(p == q)), 1, 0), "ranges run in the new order", got=r)
    # one step on from the last verse of a book
    last = new[i].last_verse()
    nx = last + 1
    if i + 1 < n:
        sx.check(nx is not None and nx.book is new[i + 1] and sx.And(nx.chap_num == 1, nx.verse_num == 1), "the next verse is in the next book", got=nx)
    else:
        sx.check(nx is None, "nothing after the last book", got=nx)
    w = sx.br.BibleRange.whole_bible()
    sx.check(w.start.book is new[0] and w.end.book is new[-1] and sx.And(w.start.chap_num == 1, w.start.verse_num == 1, w.end.verse_num == mv[new[-1]][-1]),
             "the whole Bible is all the books in order", got=w)
    sx.reach("order")


def zeros(sx, g, chaps, z1, z2):
    """Verse 0s are those set last."""
    sx.set_flags(F(sx, g))
    bs = books(sx)[:2]
    mv = rows(sx, bs, chaps)
    install(sx, mv=mv, v0={bs[0]: set(z1), bs[1]: {1}})
    install(sx, v0={bs[0]: set(z2)} if z2 is not None else {})
    v0 = {bs[0]: set(z2 or ())}
    b = sx.choice("b", bs)
    c = sx.choice("c", range(1, len(mv[b]) + 1))
    want = 0 if g & V0 and c in v0.get(b, ()) else 1
    sx.check(b.min_verse_num(c) == want, "first verse number", book=b, chapter=c)
    v = sx.br.BibleVerse(b, c, 1)
    sx.check(v.verse_1_to_0().verse_num == (0 if c in v0.get(b, ()) else 1), "verse 1 to 0", book=b, chapter=c)
    r = sx.br.BibleRange(b, c)
    sx.check(sx.And(r.start.verse_num == want, r.end.verse_num == mv[b][c - 1]), "the chapter", got=r)
    sx.reach("zeros")


NAMES = [
    {"Mark": ("Mk", "Markus", 3, ["Marc", "Mk"]), "Gen": ("1Mo", "1 Mose", 2, ["Genesis"]), "Exod": ("2Mo", "2 Mose", 2, []), "Song": ("Hld", "Das Hohe Lied", 5, ["Hohelied", "Hld"])},
    {"Jude": ("Jd", "Judas", 4, ["Jd"]), "Judg": ("Jdc", "Jueces", 3, ["Jdc"]), "IIIJn": ("3Jn", "3 Juan", 1, ["3Jn"]), "John": ("Jn", "Juan", 4, ["Jua", "Jn"])},
    # the usual titles, or those of the first set, with other abbreviations and least numbers of characters
    {"Mark": ("Mr", "Mark", 2, ["Mr", "Mrc"]), "John": ("Jo", "John", 2, []), "IJn": ("1Jo", "1 John", 2, ["1 Jhn"]), "Gen": ("Gs", "Genesis", 4, ["Gs"])},
    {"Mark": ("Mc", "Markus", 2, ["Mc"]), "Gen": ("1M", "1 Mose", 1, ["Urgeschichte"]), "Exod": ("2Mo", "2 Mose", 2, ["Exodos"]), "Song": ("Hl", "Das Hohe Lied", 8, ["Hl"])},
]


def set_names(sx, which, before=None, again=False):
    """Sets names, if given after other ones; again: in the same object, changed."""
    d = sx.br.bible_data()
    if before is not None:
        old = {getattr(sx.br.BibleBook, b): e for b, e in NAMES[before].items()}
        d.name_data = old
    nd = {getattr(sx.br.BibleBook, b): e for b, e in NAMES[which].items()}
    if again:
        old.clear()
        old.update(nd)
        d.name_data = old
    else:
        d.name_data = nd
    return nd


def names(sx, which, first, before=None, again=False, asked=False):
    """The new names, and only those, name the books.  asked: the string was read under other names before."""
    if asked:
        s = sx.text("s", first)
        core = s.strip()
        od = set_names(sx, before)
        b0 = sx.choice("b0", [b for b, e in od.items() if rx.derive(name_lang(e), first) != rx.NONE] + [None])
        if b0 is not None:
            sx.assume(sx.in_re(core, name_lang(od[b0])))
        # (cases told apart first, should the code go on with one string of each)
        new = {getattr(sx.br.BibleBook, b): e for b, e in NAMES[which].items()}
        for b, e in new.items():
            if sx.in_re(core, name_lang(e)):
                break
        r = sx.br.BibleBook.from_str(s)
        if b0 is not None:
            sx.check(r is b0, "the names set first name the books", string=s, got=r, book=b0)
        nd = set_names(sx, which)
    else:
        nd = set_names(sx, which, before, again)
        s = sx.text("s", first)
        core = s.strip()
    r = sx.br.BibleBook.from_str(s)
    for b, e in nd.items():
        sx.check(sx.Iff(r is b, sx.in_re(core, name_lang(e))), "the new names name the books", string=s, got=r, book=b)
    sx.check(r is None or r in nd, "books left out have no names", string=s, got=r)
    for b in sx.br.BibleBook:
        sx.check((b.abbrev, b.title) == (nd[b][:2] if b in nd else (None, None)), "abbreviation and title", book=b)
    sx.reach("none" if r is None else "named")


def trip(sx, which, fmt):
    """References are written and read with the new names."""
    sx.set_flags(sx.br.BibleFlag.NONE)
    nd = set_names(sx, which)
    b = sx.choice("b", list(nd))
    p = point(sx, "p", 0, book=b)
    v = mkverse(sx, p)
    s = v.str(**{f: True for f in fmt})
    name = nd[b][0 if "abbrev" in fmt else 1]
    sx.check(s.startswith(name.replace(" ", "") if "nospace" in fmt else name), "the new name is used", text=s)
    kind, back = sx.run(sx.br.BibleVerse, s)
    sx.check(kind == "ok" and is_verse(sx, back, p), "a reference with the new name parses back", text=s, got=back)
    sx.reach("trip")


def plan(tier):
    quick = tier == "quick"
    cases = []
    for m in modes((0, 2)):
        for chaps in ([1], [2, 1], [3, 1, 2]):
            for zero in ([], [1], [2]):
                cases.append(("verses", dict(m, chaps=chaps, zero=zero), {}))
    for n in (1, 2, 3, 4):
        cases.append(("order", dict(g=0, n=n, chaps=[1, 2, 1, 2]), {}))
    for g in (0, V0):
        for z1, z2 in (([1], [2]), ([1, 2], None), ([], [1])):
            cases.append(("zeros", dict(g=g, chaps=[2, 1], z1=z1, z2=z2), {}))
    firsts = [chr(c) for c in range(33, 127) if chr(c).isalnum()] if not quick else list("MmGgDdHhJj123IUEsu")
    for w in range(len(NAMES)):
        for f in firsts:
            cases.append(("names", dict(which=w, first=f), {}))
    for w, before, again in ((3, 0, False), (0, 3, True), (1, 2, True)):
        for f in firsts:
            cases.append(("names", dict(which=w, first=f, before=before, again=again), {}))
    for w, before in ((3, 0), (0, 3), (2, 1), (1, 2), (0, 1)):
        for f in firsts:
            cases.append(("names", dict(which=w, first=f, before=before, asked=True), {}))
    for m in modes((0, 2)):
        for chaps in ([1], [3, 1, 2]):
            for zero in ([], [2]):
                cases.append(("verses", dict(m, chaps=chaps, zero=zero, again=True), {}))
    cases.append(("order", dict(g=0, n=3, chaps=[1, 2, 1, 2], again=True), {}))
    for w in range(len(NAMES)):
        for fmt in ((), ("abbrev",), ("nospace",), ("abbrev", "nospace")):
            cases.append(("trip", dict(which=w, fmt=fmt), {}))
    return {"cases": cases, "witnesses": ["verse", "no data", "order", "zeros", "none", "named", "trip"],
            "bounds": "orders of up to %d of four books; books of up to three chapters of up to 30 verses each (any numbers); four sets of names, set in different orders and objects, any ASCII string" % 4}
