"""Texts built from references with arbitrary numbers, and what they mean.

The reference interpreter follows the package's documentation: a bare number after a
major separator is a chapter (a verse in a book of one chapter), after a minor one it is of
the same kind as the number before it; the book is the last one named."""
from .common import *

BOOKS = {"A": (40, "Mark"), "B": (8, "1 Sam")}
FORMS = ("X", "Xn", "Xn:m", "n", "n:m")


def singles(books="AB"):
    return [f.replace("X", b) for b in books for f in FORMS[:3]] + list(FORMS[3:])


class Txt:
    def __init__(self, sx, sep=":", zeros="", gap=""):
        self.sx, self.k = sx, 0
        self.sep, self.zeros, self.gap = sep, zeros, gap     # how it is written

    def num(self):
        self.k += 1
        return self.sx.int("n%d" % self.k, 0, 200)

    def single(self, form):
        """(text, parsed form (book letter or None, first number, second number))"""
        b = form[0] if form[0] in BOOKS else None
        rest = form[1:] if b else form
        n = self.num() if "n" in rest else None
        m = self.num() if "m" in rest else None
        t = BOOKS[b][1] if b else ""
        if n is not None:
            t += (" " if b else "") + self.gap + self.zeros + str(n)
        if m is not None:
            t += self.gap + self.sep + self.gap + self.zeros + str(m)
        return t, (b, n, m)


class Refused(Exception):
    pass


class Meaning:
    """The reference interpreter.  `ends` forks on the conditions that decide the meaning."""

    def __init__(self, sx, eff):
        self.sx, self.eff = sx, eff
        self.book = self.chap = None
        self.verses = False

    def yes(self, c):
        return self.sx.fix(c)

    def chapter(self, b, c):
        sx = self.sx
        if not self.yes(sx.And(c >= 1, c <= sx.nch(b))):
            raise Refused("chapter")
        return Pt(b, c, lo(sx, b, c, self.eff)), Pt(b, c, sx.mv(b, c))

    def verse(self, b, c, v):
        s, e = self.chapter(b, c)
        if not self.yes(self.sx.And(v >= s.v, v <= e.v)):
            raise Refused("verse")
        return Pt(b, c, v), Pt(b, c, v)

    def single(self, f):
        """(first, last) position of a reference."""
        sx = self.sx
        b, n, m = f
        if b is not None:
            self.book = sx.fix(sx.book_at(BOOKS[b][0]))
        elif self.book is None:
            raise Refused("no book")
        bk = self.book
        if n is None:
            self.verses = False
            return self.chapter(bk, 1)[0], self.chapter(bk, sx.nch(bk))[1]
        if m is not None:
            self.chap, self.verses = n, True
            return self.verse(bk, n, m)
        if self.yes(sx.nch(bk) == 1):
            if b is not None:
                self.verses = True
            self.chap = 1
            return self.verse(bk, 1, n)
        if b is not None:
            self.verses = False
        if self.verses:
            return self.verse(bk, self.chap, n)
        self.chap = n
        return self.chapter(bk, n)

    def ref(self, fs):
        sx = self.sx
        s, e = self.single(fs[0])
        if len(fs) > 1:
            _, e = self.single(fs[1])
            if not self.eff & MB and not self.yes(sx.pos(s.b) == sx.pos(e.b)):
                raise Refused("multi-book")
            if not self.yes(k_le(sx, s.key(sx), e.key(sx))):
                s, e = e, s                             # ends in the wrong order are swapped
        return s, e

    def text(self, refs, seps):
        """Groups of (first, last)."""
        out = [[]]
        for i, fs in enumerate(refs):
            if i and seps[i - 1] == ";":
                self.verses = False
                out.append([])
            out[-1].append(self.ref(fs))
        return out


def compare(sx, groups, lst, text):
    """lst has exactly the groups of the interpreter."""
    sx.check([len(g) for g in lst.groups] == [len(g) for g in groups], "the groups of the text", text=text, got=lst.to_nested_lists())
    for (s, e), r in zip([x for g in groups for x in g], lst):
        sx.check(sx.And(is_verse(sx, r.start, s), is_verse(sx, r.end, e)), "the references of the text", text=text, got=r)
