"""Shared pieces of the harnesses: inputs, flag modes and the reference model.

The reference model knows only the tables (chapters per book, verses per chapter,
which chapters may have a verse 0) and the order of the books.
"""
MB, V0 = 1, 2        # BibleFlag.MULTIBOOK / VERSE_0 as bits of a flag mode


def F(sx, bits):
    f = sx.br.BibleFlag.NONE
    if bits & MB:
        f |= sx.br.BibleFlag.MULTIBOOK
    if bits & V0:
        f |= sx.br.BibleFlag.VERSE_0
    return f


def modes(effs=(0, 1, 2, 3), both=True):
    """Flag modes (global bits, argument bits or None) giving each effective value.

    When the flags come as an argument, the global setting is the opposite in every bit."""
    out = []
    for e in effs:
        out.append({"g": e, "a": None})
        if both:
            out.append({"g": 3 - e, "a": e})
    return out


def begin(sx, g, a):
    """Set the flags; returns (effective bits, flags argument)."""
    sx.set_flags(F(sx, g))
    return (g if a is None else a), (None if a is None else F(sx, a))


# ------------------------------------------------------------------ verses
class Pt:
    """A verse position in the reference model: book object, chapter, verse."""

    def __init__(self, b, c, v):
        self.b, self.c, self.v = b, c, v

    def key(self, sx):
        return (sx.pos(self.b), self.c, self.v)


def key(sx, verse):
    return (sx.pos(verse.book), verse.chap_num, verse.verse_num)


def k_eq(sx, a, b):
    return sx.And(*[x == y for x, y in zip(a, b)])


def k_lt(sx, a, b):
    (a0, a1, a2), (b0, b1, b2) = a, b
    return sx.Or(a0 < b0, sx.And(a0 == b0, sx.Or(a1 < b1, sx.And(a1 == b1, a2 < b2))))


def k_le(sx, a, b):
    (a0, a1, a2), (b0, b1, b2) = a, b
    return sx.Or(a0 < b0, sx.And(a0 == b0, sx.Or(a1 < b1, sx.And(a1 == b1, a2 <= b2))))


def lo(sx, b, c, eff):
    """First verse number of a chapter."""
    if eff & V0:
        return sx.If(sx.v0(b, c), 0, 1)
    return 1


def point(sx, n, eff, book=None, books=None):
    """An arbitrary verse position valid under the effective flags."""
    if book is not None:
        b = book
    elif books is not None:
        b = sx.book(n + "b", *books)
    else:
        b = sx.book(n + "b")
    c = sx.int(n + "c", 1, 150)
    v = sx.int(n + "v", 0 if eff & V0 else 1, 200)
    sx.assume(c >= 1)
    sx.assume(c <= sx.nch(b))
    sx.assume(v <= sx.mv(b, c))
    if eff & V0:
        sx.assume(v >= 0)
        sx.assume(sx.Or(v >= 1, sx.v0(b, c)))
    else:
        sx.assume(v >= 1)
    return Pt(b, c, v)


def valid(sx, p, eff):
    return sx.And(p.c >= 1, p.c <= sx.nch(p.b), p.v >= lo(sx, p.b, p.c, eff), p.v <= sx.mv(p.b, p.c))


def mkverse(sx, p):
    return sx.mkverse(p.b, p.c, p.v)


def verse(sx, n, eff, **k):
    p = point(sx, n, eff, **k)
    return p, mkverse(sx, p)


def mkrange(sx, p, q):
    return sx.mkrange(mkverse(sx, p), mkverse(sx, q))


def range_(sx, n, eff, multibook=None, books=None, book=None):
    """An arbitrary range; in one book unless the flags (or multibook) allow more."""
    if multibook is None:
        multibook = bool(eff & MB)
    p = point(sx, n + "s", eff, books=books, book=book)
    if multibook:
        q = point(sx, n + "e", eff, books=books, book=book)
    else:
        q = point(sx, n + "e", eff, book=p.b)
    sx.assume(k_le(sx, p.key(sx), q.key(sx)))
    return p, q, mkrange(sx, p, q)


# ------------------------------------------------------------------ walking
def next_chap(sx, b, c, multibook):
    """The following chapter, or None at the end of the book / Bible.  Forks."""
    if c < sx.nch(b):
        return b, c + 1
    if not multibook:
        return None
    if sx.pos(b) < sx.n_books - 1:
        return sx.book_at(sx.pos(b) + 1), 1
    return None


def prev_chap(sx, b, c, multibook):
    if c > 1:
        return b, c - 1
    if not multibook:
        return None
    if sx.pos(b) > 0:
        nb = sx.book_at(sx.pos(b) - 1)
        return nb, sx.nch(nb)
    return None


def forward(sx, p, n, eff, multibook, hops):
    """The verse n after p, "none" past the end; assumes at most `hops` chapters on."""
    b, c = p.b, p.c
    left = n - (sx.mv(b, c) - p.v)      # verses needed beyond this chapter
    if left <= 0:
        return Pt(b, c, p.v + n)
    for _ in range(hops):
        nx = next_chap(sx, b, c, multibook)
        if nx is None:
            return None
        b, c = nx
        l = lo(sx, b, c, eff)
        size = sx.mv(b, c) - l + 1
        if left <= size:
            return Pt(b, c, l + left - 1)
        left = left - size
    sx.assume(next_chap(sx, b, c, multibook) is None)
    return None


def backward(sx, p, n, eff, multibook, hops):
    b, c = p.b, p.c
    left = n - (p.v - lo(sx, b, c, eff))
    if left <= 0:
        return Pt(b, c, p.v - n)
    for _ in range(hops):
        nx = prev_chap(sx, b, c, multibook)
        if nx is None:
            return None
        b, c = nx
        size = sx.mv(b, c) - lo(sx, b, c, eff) + 1
        if left <= size:
            return Pt(b, c, sx.mv(b, c) - left + 1)
        left = left - size
    sx.assume(prev_chap(sx, b, c, multibook) is None)
    return None


def is_verse(sx, r, p):
    """r is the verse at position p."""
    return isinstance(r, sx.br.BibleVerse) and k_eq(sx, key(sx, r), p.key(sx))


def count(sx, p, q, eff, hops):
    """Number of verses from p to q inclusive; assumes q is at most `hops` chapters on."""
    b, c, first = p.b, p.c, p.v
    total = 0
    for i in range(hops + 1):
        if sx.And(sx.pos(b) == sx.pos(q.b), c == q.c):
            return total + (q.v - first + 1)
        total = total + (sx.mv(b, c) - first + 1)
        if i == hops:
            break
        nx = next_chap(sx, b, c, True)
        if nx is None:
            break
        b, c = nx
        first = lo(sx, b, c, eff)
    sx.assume(False)


def adjacent(sx, p, q, eff):
    """q is the verse straight after p (formula, no forking)."""
    first = q.v == lo(sx, q.b, q.c, eff)
    last = p.v == sx.mv(p.b, p.c)
    same = sx.pos(p.b) == sx.pos(q.b)
    alts = [sx.And(same, q.c == p.c, q.v == p.v + 1),
            sx.And(same, q.c == p.c + 1, last, first)]
    if eff & MB:
        alts.append(sx.And(sx.pos(q.b) == sx.pos(p.b) + 1, p.c == sx.nch(p.b), last, q.c == 1, first))
    return sx.Or(*alts)


def pt(v):
    return Pt(v.book, v.chap_num, v.verse_num)


def inside(sx, x, r):
    """Position key x lies in range r (a BibleRange or a pair of Pt)."""
    if isinstance(r, tuple):
        s, e = r[0].key(sx), r[1].key(sx)
    else:
        s, e = key(sx, r.start), key(sx, r.end)
    return sx.And(k_le(sx, s, x), k_le(sx, x, e))


def in_any(sx, x, rs):
    return sx.Or(*[inside(sx, x, r) for r in rs])


def check_normal(sx, rs, eff):
    """Sorted, disjoint, non-adjacent, each start <= end, all verses valid."""
    for r in rs:
        sx.check(isinstance(r, sx.br.BibleRange), "result elements are ranges")
        sx.check(k_le(sx, key(sx, r.start), key(sx, r.end)), "result range start <= end", got=r)
        sx.check(sx.And(valid(sx, pt(r.start), eff), valid(sx, pt(r.end), eff)), "result verses exist", got=r)
    for a, b in zip(rs, rs[1:]):
        sx.check(k_lt(sx, key(sx, a.end), key(sx, b.start)), "result sorted and disjoint", a=a, b=b)
        sx.check(sx.Not(adjacent(sx, pt(a.end), pt(b.start), eff)), "result has no adjacent ranges", a=a, b=b)
