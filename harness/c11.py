"""Sorting and merging a list of ranges."""
from .common import *
from .c10 import ranges


def rkey(sx, r):
    return key(sx, r.start) + key(sx, r.end)


def r_eq(sx, a, b):
    return sx.And(*[x == y for x, y in zip(a, b)])


def sort(sx, k, mb, groups):
    sx.set_flags(F(sx, V0 | (MB if mb else 0)))
    ps, rs = ranges(sx, "l", V0, k, mb)
    if groups and k > 1:
        # one element per group, or the first alone and the others together
        lst = sx.br.BibleRangeList([[r] for r in rs] if sx.flag("each") else [[rs[0]], rs[1:]])
    else:
        lst = sx.br.BibleRangeList(rs)
    regroup = sx.flag("regroup")
    lst.sort(regroup=regroup)
    out = list(lst)
    sx.check(len(out) == k and len(lst) == k, "sorting keeps the number of ranges", got=out)
    back = list(reversed(lst))
    sx.check(len(back) == k and all(a is b for a, b in zip(back, reversed(out))), "backward links", got=back)
    for i, a in enumerate(out):
        sx.check(lst[i] is a, "indexing agrees with iteration")
    want = [p.key(sx) + q.key(sx) for p, q in ps]
    got = [rkey(sx, r) for r in out]
    for w in want:
        n_in, n_out = 0, 0
        for x in want:
            n_in = n_in + sx.If(r_eq(sx, w, x), 1, 0)
        for x in got:
            n_out = n_out + sx.If(r_eq(sx, w, x), 1, 0)
        sx.check(n_in == n_out, "sorting keeps the ranges", got=out)
    for a, b in zip(got, got[1:]):
        sx.check(sx.Or(k_lt(sx, a[:3], b[:3]), sx.And(k_eq(sx, a[:3], b[:3]), k_le(sx, a[3:], b[3:]))),
                 "ascending by start, then end", got=out)
    if not regroup:
        sx.check(len(lst.groups) == min(k, 1), "one group after sorting")
    sx.check(sum(len(g) for g in lst.groups) == k, "the groups cover the list")


def merge(sx, g, a, k, mbx=False, one_book=False, grouped=False):
    eff, arg = begin(sx, g, a)
    b = sx.book("book") if one_book else None
    mb = False if one_book else (True if mbx else None)
    ps, rs = ranges(sx, "l", eff, k, mb, b)
    lst = sx.br.BibleRangeList([[r] for r in rs] if grouped else rs)
    lst.merge(flags=arg)
    res = list(lst)
    sx.check(len(res) == len(lst), "length")
    x = point(sx, "probe", eff).key(sx)
    sx.check(sx.Iff(in_any(sx, x, res), in_any(sx, x, ps)), "the same verses", got=res)
    check_normal(sx, res, eff)
    for i, r in enumerate(res):
        sx.check(lst[i] is r, "indexing agrees with iteration")
    if k > 1 and len(res) == 1:
        sx.reach("merged into one")
    if len(res) == 3:
        sx.reach("three kept")


def plan(tier):
    quick = tier == "quick"
    cases = []
    for k in (0, 1, 2, 3, 4) if quick else (0, 1, 2, 3, 4, 5):
        for mb in (False, True):
            for groups in (False, True):
                if not (mb and k >= 4) and not (groups and k == 5):
                    cases.append(("sort", dict(k=k, mb=mb, groups=groups), {"stub_regroup": True}))
    for m in modes():
        cases.append(("merge", dict(m, k=2), {}))
    cases += [("merge", dict(g=g, a=None, k=k), {}) for g in (0, 3) for k in (0, 1)]
    cases.append(("merge", dict(g=0, a=None, k=2, grouped=True), {}))
    cases.append(("merge", dict(g=2, a=None, k=2, mbx=True), {}))
    for m in ([{"g": 0, "a": None}, {"g": 0, "a": 3}] if quick else modes()):
        cases.append(("merge", dict(m, k=3), {}))
    cases.append(("merge", dict(g=0, a=None, k=3, one_book=True, grouped=True), {}))
    cases.append(("merge", dict(g=0, a=None, k=4, one_book=True), {}))
    cases = [(f, c, dict(o, stub_regroup=True)) for f, c, o in cases]
    return {"cases": cases, "witnesses": ["merged into one", "three kept"],
            "bounds": "sorting lists of up to %d ranges, merging lists of up to 4, over any chapters and books (merging 4: in "
                      "one book); membership decided for an arbitrary verse" % (4 if quick else 5),
            "assumptions": ["regrouping keeps the elements of a list (decided by C17)"]}
