"""Iteration and verse counts of a range."""
from .common import *


def universe(sx, p, q, eff):
    """Existing verse 0s at the ends bring verse 0s into force."""
    if not eff & V0:
        if sx.Or(p.v == 0, q.v == 0):
            sx.reach("existing verse 0")
            return eff | V0
    return eff


def succ(sx, p, eff):
    if p.v < sx.mv(p.b, p.c):
        return Pt(p.b, p.c, p.v + 1)
    nx = next_chap(sx, p.b, p.c, True)
    if nx is None:
        return None
    return Pt(nx[0], nx[1], lo(sx, nx[0], nx[1], eff))


def free_range(sx, eff, mb=True):
    p = point(sx, "s", V0)
    q = point(sx, "e", V0) if mb else point(sx, "e", V0, book=p.b)
    sx.assume(k_le(sx, p.key(sx), q.key(sx)))
    return p, q


def iterate(sx, g, n):
    eff, _ = begin(sx, g, None)
    p, q = free_range(sx, eff)
    u = universe(sx, p, q, eff)
    want = [p]
    while not k_eq(sx, want[-1].key(sx), q.key(sx)):
        if len(want) == n:
            sx.assume(False)
        nx = succ(sx, want[-1], u)
        if nx is None:
            sx.assume(False)
        want.append(nx)
    r = mkrange(sx, p, q)
    if sx.flag("twice"):
        list(r)
    got = []
    for v in r:
        got.append(v)
        if len(got) > n + 1:
            break
    sx.check(len(got) == len(want), "as many verses as the range has", got=got)
    for a, b in zip(got, want):
        sx.check(is_verse(sx, a, b), "the verses of the range in order", got=got)
    if len(want) > 1 and not sx.pos(p.b) == sx.pos(q.b):
        sx.reach("across books")


def counts(sx, g, a, hops):
    eff, arg = begin(sx, g, a)
    p, q = free_range(sx, eff)
    u = universe(sx, p, q, eff)
    want = count(sx, p, q, u, hops)
    r = mkrange(sx, p, q)
    sx.check(r.verse_count(flags=arg) == want, "number of verses of a range")


def list_counts(sx, g, a, hops):
    eff, arg = begin(sx, g, a)
    rs, want = [], 0
    for i in range(2):
        p, q, r = range_(sx, "r%d" % i, eff, multibook=False)
        rs.append(r)
        want = want + count(sx, p, q, eff, hops if i == 0 else hops - 1)
    lst = sx.br.BibleRangeList(rs)
    sx.check(lst.verse_count(flags=arg) == want, "number of verses of a list is the sum over its ranges")


def plan(tier):
    n, h = (5, 2) if tier == "quick" else (7, 4)
    cases = [("iterate", {"g": e, "n": n}, {}) for e in range(4)]
    cases += [("counts", dict(m, hops=h), {}) for m in modes()]
    cases += [("list_counts", dict(m, hops=1 if tier == "quick" else 2), {}) for m in modes((0, 2))]
    return {"cases": cases, "witnesses": ["existing verse 0", "across books"],
            "bounds": "iteration: ranges of up to %d verses anywhere, across chapters and books; counts: up to %d "
                      "chapter boundaries, any chapter lengths; lists of two ranges" % (n, h),
            "outside": "longer iterations"}
