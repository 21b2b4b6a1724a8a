"""Converting between verse 0 and verse 1."""
from .common import *
from .c10 import ranges


def down(sx, p):
    """1 -> 0 where the chapter has a verse 0"""
    return Pt(p.b, p.c, sx.If(sx.And(p.v == 1, sx.v0(p.b, p.c)), 0, p.v))


def up(sx, p):
    return Pt(p.b, p.c, sx.If(p.v == 0, 1, p.v))


def one(sx, g):
    begin(sx, g, None)
    p, v = verse(sx, "v", V0)
    sx.check(is_verse(sx, v.verse_0_to_1(), up(sx, p)), "verse 0 becomes 1, others stay")
    sx.check(is_verse(sx, v.verse_1_to_0(), down(sx, p)), "verse 1 becomes 0 where there is one")
    sx.check(is_verse(sx, v, p), "the verse itself is unchanged")
    p, q, r = range_(sx, "r", V0, multibook=True)
    u = r.verse_0_to_1()
    d = r.verse_1_to_0()
    sx.check(sx.And(is_verse(sx, u.start, up(sx, p)), is_verse(sx, u.end, up(sx, q))), "range, 0 to 1", got=u)
    sx.check(sx.And(is_verse(sx, d.start, down(sx, p)), is_verse(sx, d.end, down(sx, q))), "range, 1 to 0", got=d)
    sx.check(sx.And(is_verse(sx, r.start, p), is_verse(sx, r.end, q)), "the range itself is unchanged")
    if sx.And(p.v == 1, sx.v0(p.b, p.c)):
        sx.reach("converted")


def lists(sx, g, k, to):
    begin(sx, g, None)
    ps, rs = ranges(sx, "l", V0, k, True)
    shape = sx.flag("groups") if k > 1 else False
    lst = sx.br.BibleRangeList([[rs[0]], rs[1:]] if shape else rs)
    f = up if to else down
    res = lst.verse_0_to_1() if to else lst.verse_1_to_0()
    sx.check(res is None, "works in place")
    out = list(lst)
    sx.check(len(out) == k and len(lst) == k, "keeps the number of ranges")
    for (p, q), r in zip(ps, out):
        sx.check(sx.And(is_verse(sx, r.start, f(sx, p)), is_verse(sx, r.end, f(sx, q))), "each range converted", got=r)
    want = [1, k - 1] if shape else ([k] if k else [])
    sx.check([len(x) for x in lst.groups] == want, "groups kept")


def plan(tier):
    cases = []
    for g in range(4):
        cases.append(("one", dict(g=g), {}))
        for k in (0, 1, 2, 3):
            for to in (0, 1):
                cases.append(("lists", dict(g=g, k=k, to=to), {}))
    return {"cases": cases, "witnesses": ["converted"],
            "bounds": "any verse and range; lists of up to three ranges in one or two groups; arbitrary tables"}
