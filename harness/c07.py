"""Splitting a range."""
from .common import *
from .c06 import universe, free_range


def split(sx, g, a, by, hops, m, regroup=False):
    """by: subset of 'b', 'c', 'n'."""
    eff, arg = begin(sx, g, a)
    p, q = free_range(sx, eff, mb=by != "n" or bool(eff & MB) or sx.flag("multibook"))
    u = universe(sx, p, q, eff)
    total = count(sx, p, q, u, hops)
    n = None
    if "n" in by:
        n = sx.int("n", 1, 200 * (hops + 1) + 3)
        sx.assume(total <= m * n)
        # a piece may be measured past the end of the range: keep that walk short too
        forward(sx, q, n, u, bool(eff & MB) or sx.pos(p.b) != sx.pos(q.b), hops)
    r = mkrange(sx, p, q)
    out = r.split(by_book="b" in by, by_chap="c" in by, num_verses=n, regroup=regroup, flags=arg)
    sx.check(isinstance(out, sx.br.BibleRangeList), "result is a list of ranges")
    ps = list(out)
    sx.check(len(ps) >= 1, "never empty")
    for x in ps:
        sx.check(isinstance(x, sx.br.BibleRange), "pieces are ranges")
        sx.check(k_le(sx, key(sx, x.start), key(sx, x.end)), "piece start <= end", got=ps)
    sx.check(is_verse(sx, ps[0].start, p), "first piece starts where the range starts", got=ps)
    sx.check(is_verse(sx, ps[-1].end, q), "last piece ends where the range ends", got=ps)
    for x, y in zip(ps, ps[1:]):
        sx.check(adjacent(sx, pt(x.end), pt(y.start), u | MB), "pieces are consecutive", a=x, b=y)
    for i, x in enumerate(ps):
        s, e = pt(x.start), pt(x.end)
        if "b" in by or "c" in by:
            sx.check(sx.pos(s.b) == sx.pos(e.b), "pieces stay within a book", got=x)
        if "c" in by:
            sx.check(s.c == e.c, "pieces stay within a chapter", got=x)
        k = None
        if n is not None:
            k = count(sx, s, e, u, hops)
            sx.check(k <= n, "pieces have no more than the given number of verses", got=x)
        if i + 1 < len(ps):
            why = []
            if "b" in by:
                why.append(sx.And(e.c == sx.nch(e.b), e.v == sx.mv(e.b, e.c)))
            if "c" in by:
                why.append(e.v == sx.mv(e.b, e.c))
            if n is not None:
                why.append(k == n)
            sx.check(sx.Or(*why), "cuts only where asked for", got=ps)
    if len(ps) > 2:
        sx.reach("three pieces")


def chap_ranges(sx, g, a):
    eff, arg = begin(sx, g, a)
    b = sx.book("b")
    out = list(b.chap_ranges(flags=arg, regroup=sx.flag("regroup")))
    sx.check(len(out) == sx.nch(b), "one range per chapter")
    for i, r in enumerate(out):
        c = i + 1
        sx.check(sx.And(is_verse(sx, r.start, Pt(b, c, lo(sx, b, c, eff))), is_verse(sx, r.end, Pt(b, c, sx.mv(b, c)))),
                 "ranges of the chapters in order", got=r)


def plan(tier):
    cases = []
    h = 2 if tier == "quick" else 3
    for by in ("", "b", "c", "bc", "n", "bn", "cn", "bcn"):
        if "n" not in by:
            hh, ms = h, modes()
        else:
            hh, ms = h - 1, modes() if tier == "thorough" else [{"g": 0, "a": 3}, {"g": 3, "a": 0}, {"g": 1, "a": None}]
        for m in ms:
            cases.append(("split", dict(m, by=by, hops=hh, m=2 if tier == "quick" else 3), {}))
    for by in ("c", "n") if tier == "quick" else ("b", "c", "bc", "n", "cn"):
        for m in ({"g": 0, "a": None}, {"g": 3, "a": None}):
            cases.append(("split", dict(m, by=by, hops=1, m=2, regroup=True), {}))
    cases += [("chap_ranges", m, {"max_ch": 4 if tier == "quick" else 6}) for m in modes()]
    return {"cases": cases, "witnesses": ["three pieces"],
            "bounds": "every combination of the three kinds of split; ranges over up to %d chapter boundaries (%d with a "
                      "verse limit), books included; any positive verse limit that gives at most %d full pieces" %
                      (h, h - 1, 2 if tier == "quick" else 3)}
