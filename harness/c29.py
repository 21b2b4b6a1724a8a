"""An answer depends on the question alone, not on what was asked before."""
import inspect
from .common import *
from . import c24
from .listops import Lists, OPS, build


def eq(sx, x, y):
    """Two plain results are the same (a condition)."""
    if isinstance(x, list) or isinstance(y, list):
        if not (isinstance(x, list) and isinstance(y, list) and len(x) == len(y)):
            return False
        return sx.And(*[eq(sx, p, q) for p, q in zip(x, y)])
    if x is None or y is None:
        return x is y
    return x == y


class Other:
    """The inputs of a question about something else: another book, or other chapters, or other verses."""

    def __init__(self, sx, about):
        self._sx, self._about = sx, about
        self._shift = 1 if about == "book" else 0

    def __getattr__(self, n):
        return getattr(self._sx, n)

    def int(self, name, lo, hi):
        if name[-1:] == {"chapter": "c", "verse": "v"}.get(self._about, "-"):
            name = "z" + name
        return self._sx.int(name, lo, hi)

    def book_at(self, i):
        return self._sx.book_at(i + self._shift)


# questions without flags, or asked in several ways: name -> [(setup, opts)]
bk, ve, ra, rx_, r2, r2x, v2, v3, ch, num, one, two, twox, mk, M, K, ML = (
    c24.bk, c24.ve, c24.ra, c24.rx_, c24.r2, c24.r2x, c24.v2, c24.v3, c24.ch, c24.num, c24.one, c24.two, c24.twox, c24.mk, c24.M, c24.K, c24.ML)


def D(f, *makers):
    """Any function of things made by makers."""
    def setup(sx):
        a = [m(sx) for m in makers]
        return lambda kw: f(*a)
    return setup


def name(sx):
    s = sx.choice("name", ["mk", "Mark", "MR", "lk", "luke", "1 sam", "first samuel", "nobook"])
    return lambda kw: sx.br.BibleBook.from_str(s)


MORE = {
    "BibleBook": [(M(bk, "chap_count"), {}), (M(bk, "max_verse_num", ch), {}), (M(bk, "last_verse"), {}), (M(bk, "last_verse", ch), {}), (M(bk, "next"), {}), (M(bk, "prev"), {}),
                  (name, {}), (K("chap_ranges", regroup=False)(bk), {"max_ch": 3}), (D(lambda b: (b.title, b.abbrev, str(b)), bk), {})],
    "BibleVerse": [(M(ve, "max_verse_num"), {}), (M(ve, "max_verse_num", ch), {}), (M(ve, "last_verse"), {}), (M(ve, "is_last_in_chap"), {}), (M(ve, "is_last_in_book"), {}),
                   (M(ve, "verse_0_to_1"), {}), (M(ve, "verse_1_to_0"), {}), (M(ve, "str"), {}), (K("str", abbrev=True)(ve), {}), (K("str", alt_sep=True)(ve), {}),
                   (K("str", nospace=True)(ve), {}), (D(lambda v, w: (v < w, v <= w, v == w, hash(v) == hash(w) or v != w), ve, v3), {}), (D(lambda v: v + 1, ve), {}), (D(lambda v: v - 1, ve), {})],
    "BibleRange": [(M(ra, "is_single_verse"), {}), (M(ra, "verse_0_to_1"), {}), (M(ra, "verse_1_to_0"), {}), (K("str", abbrev=True)(ra), {}), (K("str", alt_sep=True)(ra), {}),
                   (K("str", nospace=True, abbrev=True)(rx_), {}), (M(ra, "is_disjoint", r2), {}), (M(ra, "contains", r2), {}), (M(ra, "contains", v3), {}), (M(ra, "surrounds", r2), {}),
                   (D(lambda r, v: v in r, ra, v3), {}), (D(lambda r, o: r == o, ra, r2), {}), (D(lambda r, o: r < o, ra, r2), {}),
                   (D(lambda r: [next(i) for i in [iter(r)]], ra), {}), (D(lambda r: list(r), lambda sx: c24.a_range(sx, "r")), {"max_ch": 2, "max_v": 3})],
    "BibleRangeList": [(M(mk(two), "is_disjoint", r2), {}), (D(lambda l, v: v in l, mk(one), v3), {"stub_regroup": True}), (D(lambda l: str(l), mk(two)), {}), (D(lambda l: repr(l), mk(one)), {}),
                       (K("str", abbrev=True)(mk(two)), {}), (K("str", nospace=True)(mk(two)), {}), (D(lambda l, m: l == m, mk(one), mk(lambda sx: [r2(sx)])), {}),
                       (ML(two, "sort"), {"stub_regroup": True}), (ML(two, "verse_1_to_0"), {}), (ML(two, "verse_0_to_1"), {})],
}
LIGHT = {
    "BibleRangeList.verse_count": [(M(mk(one), "verse_count"), {})],
    "BibleRangeList.chap_count": [(M(mk(one), "chap_count"), {}), (K("chap_count", whole=True)(mk(one)), {})],
    "BibleRangeList.book_count": [(M(mk(lambda sx: [rx_(sx)]), "book_count"), {}), (K("book_count", whole=True)(mk(lambda sx: [rx_(sx)])), {})],
    "BibleVerse.subtract": [(M(ve, "subtract", num), {"max_ch": 2}), (M(ve, "subtract", v3), {"max_ch": 2}), (M(ve, "subtract", v2), {"max_ch": 1})],
    "BibleRange.split": [(K("split", by_chap=True)(ra), {"max_ch": 2}), (K("split", by_book=True)(rx_), {}), (K("split", num_verses=2)(ra), {"max_v": 3, "max_ch": 2})],
}
ALL = {k: [x for x in v if not x[1].get("deep")] for k, v in list(c24.CALLS.items()) + list(LIGHT.items()) + list(MORE.items())}
# different ways to ask the same method: they must not disturb one another
WAYS = {
    "range.chap_count": (ra, "chap_count", [{}, {"whole": True}]),
    "range.book_count": (rx_, "book_count", [{}, {"whole": True}]),
    "range.split": (ra, "split", [{"by_chap": True}, {"by_book": True}, {"num_verses": 2}, {"by_chap": True, "num_verses": 2}, {"by_chap": True, "regroup": False}]),
    "range.str": (ra, "str", [{}, {"abbrev": True}, {"alt_sep": True}, {"nospace": True}, {"force_start_verses": True}]),
    "verse.str": (ve, "str", [{}, {"abbrev": True}, {"alt_sep": True}, {"nospace": True}, "parts"]),
    "list.chap_count": (mk(one), "chap_count", [{}, {"whole": True}]),
    "list.book_count": (mk(one), "book_count", [{}, {"whole": True}]),
    "list.str": (mk(two), "str", [{}, {"abbrev": True}, {"nospace": True}, {"force_start_verses": True}, {"preserve_groups": False}]),
    "book.chap_ranges": (bk, "chap_ranges", [{}, {"regroup": False}]),
}


def question(sx, call, i, mode):
    """setup, and the two ways to give flags: as an argument or globally."""
    setup = ALL[call][i][0]
    if mode == "arg":
        cls, meth = (call.split(".") + [""])[:2]
        f = getattr(getattr(sx.br, cls), meth, None)
        if f is None or "flags" not in inspect.signature(f).parameters:
            return setup, None
        return setup, lambda run, bits: sx.run(run, {"flags": F(sx, bits)})

    def ask(run, bits):
        sx.set_flags(F(sx, bits))
        return sx.run(run, {})
    return setup, ask


def asked(sx, call, i, mode, a, b, about):
    """Ask with flags b (about the same thing, or another one), then with flags a."""
    from symx.plain import plain
    sx.set_flags(F(sx, 0))
    setup, ask = question(sx, call, i, mode)
    if ask is None:
        sx.reach("no flags argument")
        return
    want = sx.fresh(lambda: ask(setup(sx), a)[1])[1]
    if about == "same":
        run = setup(sx)
        first = run
    else:
        first = setup(Other(sx, about))
        run = None
    data = sx.br.bible_data()
    before = [(n, v if isinstance(v, str) else id(v)) for n, v in sorted(vars(data).items()) if n.endswith("_sep") or "sep_" in n]
    ask(first, b)
    run = run or setup(sx)
    _, result = ask(run, a)
    got = plain(sx, result)
    sx.check(eq(sx, want, got), "the answer is the same as without the earlier question", want=want, got=got)
    sx.check(sx.br.flags == F(sx, a if mode == "global" else 0), "asking leaves the flags alone", got=sx.br.flags)
    sx.check(before == [(n, v if isinstance(v, str) else id(v)) for n, v in sorted(vars(data).items()) if n.endswith("_sep") or "sep_" in n], "asking leaves the separators alone")
    if about == "same":
        spoil(sx, call, result)
        _, got = ask(run, a)
        sx.check(eq(sx, want, plain(sx, got)), "asking again gives the same answer", want=want, got=got)
    sx.reach("asked")


def spoil(sx, call, result):
    """A list given as an answer is the asker's own: changing it changes no later answer."""
    if call.rpartition(".")[2] in ("BibleBook", "chap_ranges", "split", "union", "intersection", "difference", "sym_difference") and isinstance(result, sx.br.BibleRangeList):
        if len(result):
            result.clear()
        else:
            result.append(sx.br.BibleRange(sx.br.BibleVerse(sx.br.BibleBook.Mark, 1, 1).chap_range()))


def ways(sx, what, w1, w2, fl):
    """Ask one method in one way, then in another."""
    from symx.plain import plain
    make, meth, kws = WAYS[what]
    sx.set_flags(F(sx, fl))

    def kw(w):
        k = kws[w]
        return {"verse_parts": sx.br.BibleVersePart.CHAP_VERSE} if k == "parts" else k

    def ask(o, w):
        k, r = sx.run(getattr(o, meth), **kw(w))
        if isinstance(r, TypeError):
            return "no such argument"
        return r
    want = sx.fresh(lambda: ask(make(sx), w2))[1]
    o = make(sx)
    ask(o, w1)
    got = plain(sx, ask(o, w2))
    sx.check(eq(sx, want, got), "the answer is the same as without asking in another way first", want=want, got=got)
    sx.reach("ways")


LQ = {
    "verse_count": lambda sx, l, o: l.verse_count(), "chap_count": lambda sx, l, o: l.chap_count(), "whole": lambda sx, l, o: l.chap_count(whole=True), "book_count": lambda sx, l, o: l.book_count(),
    "range": lambda sx, l, o: l.range(), "chap_range": lambda sx, l, o: l.chap_range(), "book_range": lambda sx, l, o: l.book_range(), "str": lambda sx, l, o: l.str(),
    "str2": lambda sx, l, o: l.str(preserve_groups=False), "contains": lambda sx, l, o: l.contains(o), "disjoint": lambda sx, l, o: l.is_disjoint(o), "in": lambda sx, l, o: o.start in l,
    "len": lambda sx, l, o: len(l), "list": lambda sx, l, o: list(l), "nested": lambda sx, l, o: [list(g) for g in l.groups], "last": lambda sx, l, o: [l[-1], l[0]],
    "index": lambda sx, l, o: l.index(o), "count": lambda sx, l, o: l.count(o), "equals": lambda sx, l, o: l.equals([o]), "repr": lambda sx, l, o: repr(l),
    "intersection": lambda sx, l, o: l.intersection(o), "difference": lambda sx, l, o: l.difference(o), "union": lambda sx, l, o: l | o, "bool": lambda sx, l, o: bool(l),
    "reversed": lambda sx, l, o: list(reversed(l)), "bad": lambda sx, l, o: l[len(l)],
}
SETOPS = ["union_update", "intersection_update", "difference_update", "sym_difference_update", "merge", "regroup", "sort_regroup"]


def change(sx, L, gl, m, op):
    if op in OPS:
        OPS[op](L, gl, m, "0")
    elif op in ("merge", "regroup"):
        getattr(gl, op)()
    elif op == "sort_regroup":
        gl.sort()
    else:
        getattr(gl, op)(L.value("u"))


def changed(sx, shape, op, q):
    """Ask a list, change it, ask it again: as if it had not been asked before the change."""
    from symx.plain import plain
    sx.set_flags(F(sx, 0))

    def go(first):
        L = Lists(sx, "ranges")
        gl, m = build(L, shape)
        o = L.value("o")
        if first:
            sx.run(LQ[q], sx, gl, o)
        change(sx, L, gl, m, op)
        return sx.run(LQ[q], sx, gl, o)[1]
    want = sx.fresh(lambda: go(False))[1]
    got = plain(sx, go(True))
    sx.check(eq(sx, want, got), "the answer after a change is the same as without the earlier question", want=want, got=got)
    sx.reach("changed")


# lists of two ranges and the like: about the same list only (quick)
HEAVY = {("BibleRangeList." + m, i) for m in ("regroup", "str", "contains", "sym_difference", "sym_difference_update", "merge") for i in range(3)} | \
    {("BibleRangeList", i) for i in (0, 2, 4, 5, 7, 8, 9)}
HEAVY2 = {("BibleRange.sym_difference", 0), ("BibleRange.sym_difference", 1), ("BibleRange.chap_count", 1), ("BibleRange.chap_count", 2), ("BibleRange.book_count", 2),
          ("BibleRange.split", 0), ("BibleRange.split", 2), ("BibleRange.verse_count", 1)} | \
    {("BibleRangeList.%s_count" % m, i) for m in ("verse", "chap", "book") for i in range(2)}


def STUB(call, i):
    """Where the groups of the lists made on the way do not matter to the answer (quick)."""
    c, _, m = call.partition(".")
    return m in ("verse_count", "chap_count", "book_count", "union", "intersection", "difference", "sym_difference", "contains", "is_adjacent") or m == "split" and i


def plan(tier):
    quick = tier == "quick"
    cases = []
    pairs = [(0, 3), (3, 0)] if quick else [(0, 3), (3, 0), (1, 2), (2, 1), (2, 0), (0, 1), (1, 1), (2, 2)]
    for call in ALL:
        for i, (_, opts) in enumerate(ALL[call]):
            for a, b in pairs:
                for mode in ("global", "arg"):
                    if mode == "arg" and call in MORE:
                        continue
                    for about in ("same", "book", "chapter", "verse"):
                        if quick and (about != "same" and (mode == "arg" or (a, b) != (3, 0)) or mode == "arg" and a == 0):
                            continue
                        if quick and about != "same" and (call, i) in HEAVY | {(c, j) for c, j in HEAVY2 if about != "book"}:
                            continue
                        o = dict(opts, stub_regroup=True) if quick and STUB(call, i) else opts
                        cases.append(("asked", dict(call=call, i=i, mode=mode, a=a, b=b, about=about), o))
    for what, (_, _, kws) in WAYS.items():
        for w1 in range(len(kws)):
            for w2 in range(len(kws)):
                if w1 != w2:
                    for fl in (3,) if quick else (0, 3):
                        o = {"max_ch": 2, "max_v": 3} if what == "range.split" else {"max_ch": 3}
                        cases.append(("ways", dict(what=what, w1=w1, w2=w2, fl=fl), o))
    for sh in ([1, 1],) if quick else ([], [1], [2], [1, 1], [1, 2]):
        for op in list(OPS) + SETOPS:
            for q in LQ:
                if quick and op in ("extend", "append_group") and q in ("union", "in", "contains", "difference"):
                    continue
                cases.append(("changed", dict(shape=sh, op=op, q=q), {"stub_regroup": q in ("contains", "intersection", "difference", "union", "in")} if quick and op not in SETOPS else {}))
    return {"cases": cases, "witnesses": ["asked", "ways", "changed"],
            "bounds": "each of %d questions asked after the same one with other flags, about the same or another reference (any numbers, the same or other books); each method with "
                      "keyword arguments after itself with other ones; %d questions about a list of %s asked, then the list changed in one of %d ways, then asked again"
                      % (sum(len(v) for v in ALL.values()), len(LQ), "two ranges" if quick else "up to three ranges", len(OPS) + len(SETOPS))}
