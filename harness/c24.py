"""A flags argument replaces the global flags for the call, and the global flags stay."""
import inspect
from .common import *

B1, B2 = 40, 41


def same(sx, x, y):
    """x and y are the same result (a condition)."""
    br = sx.br
    if isinstance(x, Exception) or isinstance(y, Exception):
        return type(x) is type(y)
    if isinstance(x, br.BibleVerse) and isinstance(y, br.BibleVerse):
        return k_eq(sx, key(sx, x), key(sx, y))
    if isinstance(x, br.BibleRange) and isinstance(y, br.BibleRange):
        return sx.And(k_eq(sx, key(sx, x.start), key(sx, y.start)), k_eq(sx, key(sx, x.end), key(sx, y.end)))
    if isinstance(x, br.BibleRangeList) and isinstance(y, br.BibleRangeList):
        if [len(g) for g in x.groups] != [len(g) for g in y.groups] or len(x) != len(y):
            return False
        return sx.And(*[same(sx, p, q) for p, q in zip(x, y)])
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and sx.And(*[same(sx, p, q) for p, q in zip(x, y)])
    if x is None or y is None:
        return x is y
    return x == y


def two_books(sx):
    return sx.fix(sx.book_at(B1)), sx.fix(sx.book_at(B2))


def a_verse(sx, n, b=None):
    return verse(sx, n, V0, book=b or two_books(sx)[0])[1]


def a_range(sx, n, cross=False, span=1):
    """Any range over at most `span` chapter boundaries, or from the last chapter of one book into the first of the next."""
    b, d = two_books(sx)
    p, q = point(sx, n + "s", V0, book=b), point(sx, n + "e", V0, book=d if cross else b)
    sx.assume(k_le(sx, p.key(sx), q.key(sx)))
    if cross:
        sx.assume(p.c == sx.nch(b))
        sx.assume(q.c == 1)
    else:
        sx.assume(q.c <= p.c + span)
    return mkrange(sx, p, q)


def number(sx, n, hi=200):
    return sx.int(n, 0, hi)


# name -> f(sx) -> (function of a flags keyword dict) ; inputs are made once, used by both calls
def M(make, name, *args):
    """A method of an object made by `make`; args: makers of the arguments."""
    def setup(sx):
        o = make(sx)
        a = [f(sx) for f in args]
        return lambda kw: getattr(o, name)(*a, **kw)
    return setup


def ML(make, name, *args):
    """An in-place method of a list: each call gets its own copy; the result is the list afterwards."""
    def setup(sx):
        rs = make(sx)
        a = [f(sx) for f in args]

        def call(kw):
            l = sx.br.BibleRangeList(rs)
            r = getattr(l, name)(*a, **kw)
            return [l, r if r is not l else None]
        return call
    return setup


def K(name, **fixed):
    def wrap(make):
        def setup(sx):
            o = make(sx)
            return lambda kw: getattr(o, name)(**dict(kw, **fixed))
        return setup
    return wrap


bk = lambda sx: two_books(sx)[0]
ve = lambda sx: a_verse(sx, "v")
ra = lambda sx: a_range(sx, "r")
rx_ = lambda sx: a_range(sx, "r", cross=True)
r2 = lambda sx: a_range(sx, "o")
r2x = lambda sx: a_range(sx, "o", cross=True)
v2 = lambda sx: a_verse(sx, "w", two_books(sx)[1])
v3 = lambda sx: a_verse(sx, "w")
ch = lambda sx: number(sx, "c")
num = lambda sx: sx.int("n", 0, 3)
one = lambda sx: [a_range(sx, "l0")]
two = lambda sx: [a_range(sx, "l0", span=0), a_range(sx, "l1", span=0)]
twox = lambda sx: [a_range(sx, "l0", span=0), a_range(sx, "l1", cross=True)]
mk = lambda f: (lambda sx: sx.br.BibleRangeList(f(sx)))


def vargs(sx):
    b, c, v = bk(sx), number(sx, "c"), number(sx, "x")
    return lambda kw: sx.br.BibleVerse(b, c, v, **kw)


def vtext(sx):
    t = "%s %s:%s" % (bk(sx).title, str(number(sx, "c")), str(number(sx, "x")))
    return lambda kw: sx.br.BibleVerse(t, **kw)


def rargs(sx):
    b, d = two_books(sx)
    form = sx.choice("form", range(5))
    n = [number(sx, "n%d" % i) for i in range(4)]
    args = [(b,), (b, n[0]), (b, n[0], n[1], None, n[2], n[3]), (b, n[0], n[1], d, n[2], n[3]), (b, None, None, d)][form]
    return lambda kw: sx.br.BibleRange(*args, **kw)


def rverses(sx):
    p, q = a_verse(sx, "v"), a_verse(sx, "w", two_books(sx)[1])
    return lambda kw: sx.br.BibleRange(start=p, end=q, **kw)


def texts(cls):
    def setup(sx):
        b, d = two_books(sx)
        n = [str(number(sx, "n%d" % i)) for i in range(4)]
        t = sx.choice("form", ["%s %s" % (b.title, n[0]), "%s %s:%s-%s:%s" % (b.title, n[0], n[1], n[2], n[3]),
                               "%s %s-%s %s:%s" % (b.title, n[0], d.title, n[1], n[2]), "%s; %s" % (b.title, n[0]), "%s-%s" % (b.title, d.title)])
        return lambda kw: getattr(sx.br, cls)(t, **kw)
    return setup


def whole_bible(sx):
    return lambda kw: sx.br.BibleRange.whole_bible(**kw)


SMALL = {"max_ch": 3}
CALLS = {
    "BibleBook.verse_count": [(M(bk, "verse_count"), SMALL)],
    "BibleBook.min_verse_num": [(M(bk, "min_verse_num", ch), {})],
    "BibleBook.first_verse": [(M(bk, "first_verse"), {}), (M(bk, "first_verse", ch), {})],
    "BibleBook.range": [(M(bk, "range"), {})],
    "BibleBook.chap_range": [(M(bk, "chap_range", ch), {})],
    "BibleBook.chap_ranges": [(M(bk, "chap_ranges"), SMALL)],
    "BibleVerse.__init__": [(vargs, {}), (vtext, {})],
    "BibleVerse.min_verse_num": [(M(ve, "min_verse_num"), {}), (M(ve, "min_verse_num", ch), {})],
    "BibleVerse.first_verse": [(M(ve, "first_verse"), {}), (M(ve, "first_verse", ch), {})],
    "BibleVerse.is_first_in_chap": [(M(ve, "is_first_in_chap"), {})],
    "BibleVerse.is_first_in_book": [(M(ve, "is_first_in_book"), {})],
    "BibleVerse.chap_range": [(M(ve, "chap_range"), {})],
    "BibleVerse.book_range": [(M(ve, "book_range"), {})],
    "BibleVerse.add": [(M(ve, "add", num), {"max_ch": 2})],
    "BibleVerse.subtract": [(M(ve, "subtract", num), {"max_ch": 2}), (M(ve, "subtract", v3), {"max_ch": 3}), (M(ve, "subtract", v2), {"max_ch": 2})],
    "BibleRange.__init__": [(rargs, {}), (rverses, {}), (texts("BibleRange"), {})],
    "BibleRange.whole_bible": [(whole_bible, {})],
    "BibleRange.is_whole_chap": [(M(ra, "is_whole_chap"), {}), (M(rx_, "is_whole_chap"), {})],
    "BibleRange.spans_start_chap": [(M(ra, "spans_start_chap"), {}), (M(rx_, "spans_start_chap"), {})],
    "BibleRange.spans_end_chap": [(M(ra, "spans_end_chap"), {}), (M(rx_, "spans_end_chap"), {})],
    "BibleRange.is_whole_book": [(M(ra, "is_whole_book"), {}), (M(rx_, "is_whole_book"), {})],
    "BibleRange.spans_start_book": [(M(ra, "spans_start_book"), {}), (M(rx_, "spans_start_book"), {})],
    "BibleRange.spans_end_book": [(M(ra, "spans_end_book"), {}), (M(rx_, "spans_end_book"), {})],
    "BibleRange.verse_count": [(M(ra, "verse_count"), {}), (M(rx_, "verse_count"), {})],
    "BibleRange.chap_count": [(M(ra, "chap_count"), {}), (K("chap_count", whole=True)(ra), {}), (K("chap_count", whole=True)(rx_), {})],
    "BibleRange.book_count": [(M(ra, "book_count"), {}), (K("book_count", whole=True)(ra), {}), (K("book_count", whole=True)(rx_), {})],
    "BibleRange.chap_range": [(M(ra, "chap_range"), {}), (M(rx_, "chap_range"), {})],
    "BibleRange.book_range": [(M(ra, "book_range"), {}), (M(rx_, "book_range"), {})],
    "BibleRange.split": [(K("split", by_chap=True)(ra), {}), (K("split", by_book=True)(rx_), {}), (K("split", num_verses=3)(ra), {"max_v": 4, "max_ch": 3}),
                         (K("split", by_chap=True, num_verses=2)(rx_), {"max_v": 4, "max_ch": 2})],
    "BibleRange.is_adjacent": [(M(ra, "is_adjacent", r2), {}), (M(ra, "is_adjacent", v2), {}), (M(ra, "is_adjacent", mk(lambda sx: [r2x(sx)])), {})],
    "BibleRange.union": [(M(ra, "union", r2), {"stub_regroup": True}), (M(ra, "union", r2x), {"stub_regroup": True})],
    "BibleRange.intersection": [(M(ra, "intersection", r2), {"stub_regroup": True}), (M(rx_, "intersection", r2x), {"stub_regroup": True})],
    "BibleRange.difference": [(M(ra, "difference", r2), {"stub_regroup": True}), (M(rx_, "difference", r2), {"stub_regroup": True})],
    "BibleRange.sym_difference": [(M(ra, "sym_difference", r2), {"stub_regroup": True}), (M(rx_, "sym_difference", r2), {"stub_regroup": True})],
    "BibleRange.str": [(M(ra, "str"), {}), (K("str", force_start_verses=True)(ra), {}), (K("str", force_start_verses=True)(rx_), {})],
    "BibleRangeList.__init__": [(texts("BibleRangeList"), {})],
    "BibleRangeList.verse_count": [(M(mk(two), "verse_count"), {})],
    "BibleRangeList.chap_count": [(M(mk(two), "chap_count"), {}), (K("chap_count", whole=True)(mk(one)), {})],
    "BibleRangeList.book_count": [(M(mk(twox), "book_count"), {}), (K("book_count", whole=True)(mk(twox)), {})],
    "BibleRangeList.range": [(M(mk(twox), "range"), {})],
    "BibleRangeList.chap_range": [(M(mk(twox), "chap_range"), {})],
    "BibleRangeList.book_range": [(M(mk(twox), "book_range"), {})],
    "BibleRangeList.merge": [(ML(two, "merge"), {"stub_regroup": True})],
    "BibleRangeList.contains": [(M(mk(two), "contains", r2), {"stub_regroup": True})],
    "BibleRangeList.regroup": [(ML(two, "regroup"), {}), (ML(twox, "regroup"), {})],
    "BibleRangeList.str": [(M(mk(two), "str"), {}), (K("str", preserve_groups=False, force_start_verses=True)(mk(two)), {})],
}
for _n in ("union", "intersection", "difference", "sym_difference"):
    _o = {"stub_regroup": True}
    CALLS["BibleRangeList." + _n] = [(M(mk(one), _n, r2), _o), (M(mk(one), _n, r2x), _o), (M(mk(two), _n, r2), dict(_o, deep=True))]
    CALLS["BibleRangeList.%s_update" % _n] = [(ML(one, _n + "_update", r2), _o), (ML(two, _n + "_update", r2), dict(_o, deep=True))]


def overrides(sx, call, i, g, a):
    cls, name = call.split(".")
    f = getattr(getattr(sx.br, cls), name, None)
    if f is None or "flags" not in inspect.signature(f).parameters:
        sx.reach("no flags argument")           # nothing promised
        return
    run = CALLS[call][i][0](sx)
    sx.set_flags(F(sx, a))
    k1, want = sx.run(run, {})
    sx.check(sx.br.flags == F(sx, a), "the global flags stay")
    sx.set_flags(F(sx, g))
    k2, got = sx.run(run, {"flags": F(sx, a)})
    sx.check(sx.br.flags == F(sx, g), "the global flags stay with a flags argument", got=sx.br.flags)
    sx.check(k1 == k2, "the call with the flags argument succeeds exactly as with those flags set globally", want=want, got=got)
    sx.check(same(sx, want, got), "the flags argument has the same effect as global flags", want=want, got=got)
    sx.reach(k1)


def iteration(sx, what, g):
    """The global flags stay while somebody iterates over a reference, to the end or not, or over two at once."""
    sx.set_flags(F(sx, g))
    b, d = two_books(sx)
    r = a_range(sx, "r") if what != "cross" else a_range(sx, "r", cross=True)
    o = {"range": lambda: r, "cross": lambda: r, "list": lambda: sx.br.BibleRangeList([[r], [r]]), "groups": lambda: sx.br.BibleRangeList([[r], [r]]).groups,
         "group": lambda: sx.br.BibleRangeList([[r, r]]).groups[0], "two": lambda: r, "chaps": lambda: b.chap_ranges(flags=F(sx, 3 - g))}[what]()
    stop = sx.int("stop", 1, 3)
    it = iter(o)
    other = iter(r) if what == "two" else None
    i = 0
    for x in it:
        sx.check(sx.br.flags == F(sx, g), "the global flags stay during an iteration", step=i, got=sx.br.flags)
        y = next(other, None) if other else None
        if isinstance(x, sx.br.BibleVerse):
            k, n = sx.run(b.min_verse_num, 1)
            sx.check(n == sx.If(sx.v0(b, 1), 0 if F(sx, g) & sx.br.BibleFlag.VERSE_0 else 1, 1), "other calls during an iteration go by the global flags", got=n)
            if other:
                sx.check(same(sx, x, y), "two iterations give the same verses", got=(x, y))
        i += 1
        if i == stop:
            break
    sx.check(sx.br.flags == F(sx, g), "the global flags stay after an iteration was left", got=sx.br.flags)
    del it, other
    sx.check(sx.br.flags == F(sx, g), "the global flags stay after an iteration was dropped", got=sx.br.flags)
    sx.reach("iterated")


def plan(tier):
    quick = tier == "quick"
    cases = []
    pairs = [(0, 3), (3, 0), (1, 2), (2, 1)] if quick else [(g, a) for g in range(4) for a in range(4) if g != a]
    for call in CALLS:
        for i, (_, opts) in enumerate(CALLS[call]):
            if quick and opts.get("deep"):
                continue
            for g, a in pairs:
                o = opts if quick else {k: v for k, v in opts.items() if k not in ("stub_regroup", "deep")}
                cases.append(("overrides", dict(call=call, i=i, g=g, a=a), o))
    for g in range(4):
        for what in ("range", "cross", "list", "groups", "group", "two", "chaps"):
            cases.append(("iteration", dict(what=what, g=g), {"max_ch": 3}))
    return {"cases": cases, "witnesses": ["ok", "exc", "iterated"],
            "bounds": "each of the %d methods that take flags, %s; ranges over at most two chapters or from one book to the next, lists of up to "
                      "two ranges, any numbers in texts; amounts up to 3" % (len(CALLS), "global and given flags differing in every bit" if quick else "every pair of flag settings")}
