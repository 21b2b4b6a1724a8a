"""Natural groups: what regrouping does to a list."""
from .common import *
from .c16 import elements, cut


def ends_at_verse(sx, p, q, eff):
    """The conventional text of the range p..q ends in a verse number.  Forks."""
    same = sx.fix(sx.pos(p.b) == sx.pos(q.b))
    first = lambda b, c: Pt(b, c, lo(sx, b, c, eff)).key(sx)
    if sx.fix(sx.And(same, q.c == p.c, q.v == p.v)):
        return True                                             # a single verse
    end_book = sx.And(q.c == sx.nch(q.b), q.v == sx.mv(q.b, q.c), k_le(sx, p.key(sx), first(q.b, 1)))
    if sx.fix(end_book):
        return False                                            # ... to a whole book
    end_chap = sx.And(q.v == sx.mv(q.b, q.c), k_le(sx, p.key(sx), first(q.b, q.c)))
    if sx.fix(end_chap) and (not same or starts_whole(sx, p, q, eff)):
        return False                                            # whole chapters, or to a whole chapter of another book
    return True


def starts_whole(sx, p, q, eff):
    """The range includes the whole chapter it starts in.  Forks."""
    last = Pt(p.b, p.c, sx.mv(p.b, p.c)).key(sx)
    return sx.fix(sx.And(p.v == lo(sx, p.b, p.c, eff), k_le(sx, last, q.key(sx))))


def natural(sx, ps, eff):
    """Sizes of the natural groups: a range joins the group before it when it lies within one
    chapter, is not the whole of it, and the range before it ended at a verse of that chapter."""
    sizes, prev = [], None
    for p, q in ps:
        joins = False
        if prev is not None:
            pp, pq = prev
            here = sx.And(sx.pos(p.b) == sx.pos(q.b), p.c == q.c, sx.pos(pq.b) == sx.pos(p.b), pq.c == p.c)
            joins = sx.fix(here) and not starts_whole(sx, p, q, eff) and ends_at_verse(sx, pp, pq, eff)
        if joins:
            sizes[-1] += 1
        else:
            sizes.append(1)
        prev = (p, q)
    return sizes


def groups_of(lst):
    return [len(x) for x in lst.groups]


def regroup(sx, g, a, plan, shape, span=1, inner=False, xspan=1):
    eff, arg = begin(sx, g, a)
    ps, rs = elements(sx, eff, plan, span, inner, xspan)
    lst = sx.br.BibleRangeList(cut(rs, shape))
    r = lst.regroup(flags=arg)
    sx.check(len(lst) == len(rs) and all(x is y for x, y in zip(lst, rs)), "regrouping keeps the ranges in order", got=lst)
    sx.check([x for grp in lst.groups for x in grp] == rs, "the groups make up the list", got=lst)
    want = natural(sx, ps, eff)
    sx.check(groups_of(lst) == want, "the natural groups", want=want, got=groups_of(lst))
    s = lst.str(preserve_groups=False, flags=arg)
    sx.check(s.count(sx.br.bible_data().major_list_sep) == len(want) - 1, "the conventional string has the same groups", text=s, want=want)
    sx.check(groups_of(sx.br.BibleRangeList(s, flags=arg)) == want, "and parses to them", text=s, want=want)
    lst.regroup(flags=arg)
    sx.check(groups_of(lst) == want, "regrouping again changes nothing", want=want, got=groups_of(lst))
    sx.reach("joined" if len(want) < len(rs) else "apart")


def sort(sx, g, plan, inner):
    """Sorting regroups (with the global flags) unless told not to."""
    eff, _ = begin(sx, g, None)
    ps, rs = elements(sx, eff, plan, 1, inner)
    lst = sx.br.BibleRangeList(rs)
    if sx.flag("keep"):
        lst.sort(regroup=False)
        sx.check(groups_of(lst) == [len(rs)], "sorting without regrouping leaves one group", got=groups_of(lst))
        return
    lst.sort()
    want = natural(sx, [(pt(r.start), pt(r.end)) for r in lst], eff)
    sx.check(groups_of(lst) == want, "sorting regroups", want=want, got=groups_of(lst))


def merge(sx, g, a, plan, inner):
    eff, arg = begin(sx, g, a)
    ps, rs = elements(sx, eff, plan, 1, inner)
    lst = sx.br.BibleRangeList(rs)
    lst.merge(flags=arg)
    want = natural(sx, [(pt(r.start), pt(r.end)) for r in lst], eff)
    sx.check(groups_of(lst) == want, "merging regroups", want=want, got=lst.to_nested_lists())


def algebra(sx, g, a, op, plan, other, inner):
    """The results of set operations are in their natural groups, new or in place."""
    eff, arg = begin(sx, g, a)
    ps, rs = elements(sx, eff, plan, 1, inner)
    os, orr = elements(sx, eff, other, 1, inner, tag="o")
    lst = sx.br.BibleRangeList(rs)
    if sx.flag("inplace"):
        out = lst
        getattr(lst, op + "_update")(sx.br.BibleRangeList(orr), flags=arg)
    else:
        out = getattr(lst, op)(sx.br.BibleRangeList(orr), flags=arg)
    want = natural(sx, [(pt(r.start), pt(r.end)) for r in out], eff)
    sx.check(groups_of(out) == want, "the result of a set operation is in its natural groups", want=want, got=out.to_nested_lists())
    if len(want) > 1:
        sx.reach("result in groups")


def split(sx, g, a, by):
    eff, arg = begin(sx, g, a)
    ps, rs = elements(sx, eff, [(0, 0)], 1, False)
    n = None
    if "n" in by:
        n = sx.int("n", 1, 400)
        total = count(sx, ps[0][0], ps[0][1], eff, 1)
        sx.assume(total > n)
        sx.assume(total <= 2 * n)
        forward(sx, ps[0][1], n, eff, bool(eff & MB), 1)        # keeps the walk past the end short
    out = rs[0].split(by_book="b" in by, by_chap="c" in by, num_verses=n, flags=arg)
    parts = [(pt(r.start), pt(r.end)) for r in out]
    want = natural(sx, parts, eff)
    sx.check(groups_of(out) == want, "the pieces of a split are in their natural groups", want=want, got=out.to_nested_lists())
    plain = rs[0].split(by_book="b" in by, by_chap="c" in by, num_verses=n, regroup=False, flags=arg)
    sx.check(groups_of(plain) == [len(parts)], "one group without regrouping", got=plain.to_nested_lists())


def plan(tier):
    quick = tier == "quick"
    A, B, X = (0, 0), (1, 1), (0, 1)
    cases = []
    ms = [{"g": 0, "a": None}, {"g": 3, "a": 0}, {"g": 1, "a": 2}] if quick else modes()
    for m in ms:
        for pl in ([A], [A, A], [A, B]):
            for shape in ([1],) if len(pl) == 1 else ([2], [1, 1]):
                cases.append(("regroup", dict(m, plan=pl, shape=shape), {}))
    for m in [{"g": 1, "a": None}, {"g": 0, "a": 3}]:
        for pl in ([X, B], [A, X]):
            cases.append(("regroup", dict(m, plan=pl, shape=[2], inner=quick, xspan=2), {}))
    for shape in ([3],) if quick else ([3], [1, 2], [2, 1], [1, 1, 1]):
        cases.append(("regroup", dict(g=0, a=None, plan=[A, A, A], shape=shape, inner=True), {}))
    for g in (0, 2) if quick else (0, 1, 2, 3):
        cases.append(("sort", dict(g=g, plan=[A, A], inner=False), {}))
    for m in [{"g": 0, "a": None}, {"g": 2, "a": 0}, {"g": 0, "a": 2}] if quick else modes():
        cases.append(("merge", dict(m, plan=[A, A], inner=True), {}))
    for m in [{"g": 0, "a": None}, {"g": 0, "a": 2}, {"g": 2, "a": 0}] if quick else modes():
        for by in ("c", "n") if quick else ("c", "n", "cn"):
            cases.append(("split", dict(m, by=by), {}))
    for op in ("union", "intersection", "difference", "sym_difference"):
        for m in [{"g": 0, "a": None}] if quick else [{"g": 0, "a": None}, {"g": 0, "a": 2}, {"g": 2, "a": 0}]:
            cases.append(("algebra", dict(m, op=op, plan=[A, A] if op == "intersection" else [A], other=[A], inner=True), {}))
    return {"cases": cases, "witnesses": ["joined", "apart", "result in groups"],
            "bounds": "lists of up to 3 ranges of one or two books in every grouping, each range over at most two chapters of a book "
                      "(or to the next book); splits into at most two full pieces"}
