"""Relations between references: disjoint, adjacent, contains, surrounds."""
from .common import *


def other(sx, kind, eff, mbx):
    """An operand: (list of (start, end) positions, the object)."""
    mb = bool(eff & MB) or mbx
    if kind == "verse":
        p, v = verse(sx, "o", eff)
        return [(p, p)], v
    if kind == "range":
        p, q, r = range_(sx, "o", eff, multibook=mb)
        return [(p, q)], r
    ps, rs = [], []
    for i in range(int(kind[4:])):
        p, q, r = range_(sx, "o%d" % i, eff, multibook=mb)
        ps.append((p, q))
        rs.append(r)
    return ps, sx.br.BibleRangeList(rs)


def overlap(sx, a, b):
    return sx.And(k_le(sx, a[0].key(sx), b[1].key(sx)), k_le(sx, b[0].key(sx), a[1].key(sx)))


def within(sx, a, b):
    """range a lies in range b"""
    return sx.And(k_le(sx, b[0].key(sx), a[0].key(sx)), k_le(sx, a[1].key(sx), b[1].key(sx)))


def adj(sx, a, b, eff):
    return sx.Or(adjacent(sx, a[1], b[0], eff), adjacent(sx, b[1], a[0], eff))


def range_rel(sx, g, a, kind, mbx=False):
    eff, arg = begin(sx, g, a)
    p, q, r = range_(sx, "r", eff, multibook=bool(eff & MB) or mbx)
    os, o = other(sx, kind, eff, mbx)
    me = (p, q)
    what = sx.choice("what", ("disjoint", "adjacent", "contains", "in", "surrounds"))
    if what == "disjoint":
        sx.check(sx.Iff(r.is_disjoint(o), sx.And(*[sx.Not(overlap(sx, me, x)) for x in os])), "disjoint")
        if kind.startswith("list"):
            sx.check(sx.Iff(o.is_disjoint(r), sx.And(*[sx.Not(overlap(sx, me, x)) for x in os])), "disjoint, from the list")
    elif what == "adjacent":
        want = sx.And(*[sx.Not(overlap(sx, me, x)) for x in os] + [sx.Or(*[adj(sx, me, x, eff) for x in os])])
        sx.check(sx.Iff(r.is_adjacent(o, flags=arg), want), "adjacent")
        if sx.And(want):
            sx.reach("adjacent")
    elif what == "surrounds":
        want = sx.And(*[sx.And(k_lt(sx, p.key(sx), x[0].key(sx)), k_lt(sx, x[1].key(sx), q.key(sx))) for x in os])
        sx.check(sx.Iff(r.surrounds(o), want), "surrounds")
    else:
        want = sx.And(*[within(sx, x, me) for x in os])
        got = r.contains(o) if what == "contains" else (o in r)
        sx.check(sx.Iff(got, want), "contains")


def existing_0(sx, g, kind):
    """Operands that already have verse 0s, whatever the flags: the order of the verses decides."""
    eff, arg = begin(sx, g, None)
    p, q, r = range_(sx, "r", V0, multibook=True)
    os, o = other(sx, kind, V0, True)
    me = (p, q)
    what = sx.choice("what", ("disjoint", "contains", "surrounds"))
    if what == "disjoint":
        sx.check(sx.Iff(r.is_disjoint(o), sx.And(*[sx.Not(overlap(sx, me, x)) for x in os])), "disjoint, existing verse 0s")
    elif what == "surrounds":
        want = sx.And(*[sx.And(k_lt(sx, p.key(sx), x[0].key(sx)), k_lt(sx, x[1].key(sx), q.key(sx))) for x in os])
        sx.check(sx.Iff(r.surrounds(o), want), "surrounds, existing verse 0s")
    else:
        sx.check(sx.Iff(r.contains(o), sx.And(*[within(sx, x, me) for x in os])), "contains, existing verse 0s")


def misuse(sx, g):
    """A range against something that is not a reference."""
    eff, arg = begin(sx, g, None)
    p, q, r = range_(sx, "r", eff)
    bad = sx.choice("bad", (None, 3, (1, 2), "Mark 1"))
    f = sx.choice("what", (r.is_disjoint, r.is_adjacent, r.contains, r.__contains__, r.surrounds))
    kind, e = sx.run(f, bad)
    sx.check(kind == "exc" and isinstance(e, ValueError), "not a reference", got=e)


def list_rel(sx, g, a, kind, mbx=False, n=2):
    """A list of n ranges against a verse, range or list."""
    eff, arg = begin(sx, g, a)
    mb = bool(eff & MB) or mbx
    mine, rs = [], []
    for i in range(n):
        p, q, r = range_(sx, "r%d" % i, eff, multibook=mb)
        mine.append((p, q))
        rs.append(r)
    os, o = other(sx, kind, eff, mbx)
    lst = sx.br.BibleRangeList(rs)
    what = sx.choice("what", ("disjoint", "contains") + (("in",) if a is None else ()))
    if what == "disjoint":
        sx.check(sx.Iff(lst.is_disjoint(o), sx.And(*[sx.Not(overlap(sx, x, y)) for x in mine for y in os])),
                 "list disjoint")
    else:
        if n == 2:
            A, B = mine
            if mbx and not eff & MB:
                # ranges that only meet at a book boundary: joined or not depends on the flags
                sx.assume(sx.And(sx.Not(adjacent(sx, A[1], B[0], MB | eff)), sx.Not(adjacent(sx, B[1], A[0], MB | eff))))
            joined = sx.Or(overlap(sx, A, B), adj(sx, A, B, eff))

            def inside_(x):
                lo_ok = sx.Or(k_le(sx, A[0].key(sx), x[0].key(sx)), k_le(sx, B[0].key(sx), x[0].key(sx)))
                hi_ok = sx.Or(k_le(sx, x[1].key(sx), A[1].key(sx)), k_le(sx, x[1].key(sx), B[1].key(sx)))
                return sx.Or(within(sx, x, A), within(sx, x, B), sx.And(joined, lo_ok, hi_ok))
        else:
            def inside_(x):
                return sx.Or(*[within(sx, x, y) for y in mine])
        want = sx.And(*[inside_(x) for x in os])
        got = lst.contains(o, flags=arg) if what == "contains" else (o in lst)
        sx.check(sx.Iff(got, want), "list contains")
        if sx.And(*([want] + [sx.Not(within(sx, x, y)) for x in os for y in mine])):
            sx.reach("covered only by two ranges together")
    sx.check(len(lst) == n, "the list is not modified")
    for x, (s, e) in zip(lst, mine):
        sx.check(sx.And(is_verse(sx, x.start, s), is_verse(sx, x.end, e)), "the list is not modified")


def plan(tier):
    cases = []
    for kind in ("verse", "range", "list2") if tier == "quick" else ("verse", "range", "list0", "list1", "list2", "list3"):
        cases += [("range_rel", dict(m, kind=kind), {}) for m in modes()]
        cases += [("range_rel", dict(g=0, a=None, kind=kind, mbx=True), {})]
        cases += [("list_rel", dict(m, kind=kind), {}) for m in
                  (modes() if kind != "list2" or tier == "thorough" else [{"g": 0, "a": 3}, {"g": 3, "a": 0}])]
        cases += [("list_rel", dict(g=0, a=None, kind=kind, mbx=True), {})]
        cases += [("list_rel", dict(g=0, a=None, kind=kind, n=1), {})]
    cases += [("existing_0", dict(g=g, kind=kind), {}) for g in (0, 1) for kind in ("verse", "range")]
    cases += [("misuse", dict(g=3), {})]
    cases = [(f, c, dict(o, stub_regroup=True)) for f, c, o in cases]
    return {"cases": cases, "witnesses": ["adjacent", "covered only by two ranges together"],
            "bounds": "any verse, range (over any number of chapters and books) or list of up to %d ranges against any "
                      "range or list of two ranges; arbitrary tables; existing multi-book ranges also without the flag" %
                      (2 if tier == "quick" else 3)}
