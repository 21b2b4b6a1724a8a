"""Set algebra on lists of ranges."""
from .common import *
from .c08 import other
from .c09 import OPS, member, operate, same


def ranges(sx, n, eff, k, mb=None, book=None):
    ps, rs = [], []
    for i in range(k):
        p, q, r = range_(sx, "%s%d" % (n, i), eff, multibook=mb, book=book)
        ps.append((p, q))
        rs.append(r)
    return ps, rs


def algebra(sx, g, a, op, k, kind, form, one_book=False, mbx=False):
    """A list of k ranges with a verse, a range or a list; form: new list or in place."""
    eff, arg = begin(sx, g, a)
    b = sx.book("book") if one_book else None
    mb = False if one_book else (True if mbx else None)
    ps, rs = ranges(sx, "l", eff, k, mb, b)
    lst = sx.br.BibleRangeList(rs)
    if kind == "self":
        os, o = ps, lst
    elif kind.startswith("list"):
        os, orr = ranges(sx, "o", eff, int(kind[4:]), mb, b)
        o = sx.br.BibleRangeList(orr)
    else:
        os, o = other(sx, kind, eff, mbx)
    if form == "new":
        out = operate(sx, op, lst, o, a, arg)
        same(sx, list(lst), ps)
        sx.check(out is not lst and out is not o, "a new list")
    else:
        if a is None and sx.flag("operator"):
            was = out = lst
            if op == "union":
                out |= o
            elif op == "intersection":
                out &= o
            elif op == "difference":
                out -= o
            else:
                out ^= o
            sx.check(out is was, "the in-place operator keeps the list", got=out)
        else:
            getattr(lst, op + "_update")(o, flags=arg)
        out = lst
    sx.check(isinstance(out, sx.br.BibleRangeList), "result is a list of ranges", got=out)
    if kind == "range":
        same(sx, [o], os)
    elif kind.startswith("list"):
        same(sx, list(o), os)
    res = list(out)
    sx.check(len(res) == len(out), "length of the result")
    x = point(sx, "probe", eff).key(sx)
    sx.check(sx.Iff(in_any(sx, x, res), member(sx, op, x, ps, os)), "verses of the result", got=res, op=op)
    check_normal(sx, res, eff)
    if len(res) >= 3:
        sx.reach("three pieces")
    if len(res) == 0:
        sx.reach("empty")


def misuse(sx, g, form):
    """Something that is not a reference: an error, and the list keeps its elements."""
    eff, arg = begin(sx, g, None)
    ps, rs = ranges(sx, "l", eff, 2)
    lst = sx.br.BibleRangeList(rs)
    bad = sx.choice("bad", (None, 3, (1, 2), "Mark 1"))
    kind, e = sx.run(getattr(lst, sx.choice("op", OPS) + form), bad)
    sx.check(kind == "exc" and isinstance(e, ValueError), "not a reference", got=e)
    same(sx, list(lst), ps)


def plan(tier):
    cases = []
    quick = tier == "quick"
    for op in OPS:
        for form in ("new", "inplace"):
            for m in [{"g": 0, "a": None}, {"g": 3, "a": 0}, {"g": 1, "a": 2}]:
                if "difference" in op and m["a"] == 2 and quick:
                    continue
                if form == "new" or m["a"] is None:
                    cases.append(("algebra", dict(m, op=op, k=2, kind="list1", form=form), {}))
            for m in [{"g": 0, "a": None}, {"g": 1, "a": None}, {"g": 0, "a": 3}]:
                for kind in ("verse", "range", "self"):
                    cases.append(("algebra", dict(m, op=op, k=1 if kind != "self" else 2, kind=kind, form=form), {}))
            cases.append(("algebra", dict(g=0, a=1, op=op, k=1, kind="list1", form=form), {}))
            for k, kind in ((0, "list1"), (1, "list0"), (0, "list0")):
                cases.append(("algebra", dict(g=0, a=None, op=op, k=k, kind=kind, form=form), {}))
        if "difference" not in op or not quick:
            cases.append(("algebra", dict(g=3, a=0, op=op, k=2, kind="list2", form="inplace", one_book=True), {}))
        cases.append(("algebra", dict(g=2, a=None, op=op, k=1, kind="list1", form="new", mbx=True), {}))
        if not quick:
            for m in modes():
                cases.append(("algebra", dict(m, op=op, k=2, kind="list2", form="new"), {}))
                cases.append(("algebra", dict(m, op=op, k=2, kind="list1", form="inplace"), {}))
            cases.append(("algebra", dict(g=0, a=None, op=op, k=3, kind="list2", form="new", one_book=True), {}))
            cases.append(("algebra", dict(g=0, a=None, op=op, k=2, kind="list2", form="new", mbx=True), {}))
    cases += [("misuse", dict(g=0, form=form), {}) for form in ("", "_update")]
    cases = [(f, c, dict(o, stub_regroup=True)) for f, c, o in cases]
    return {"cases": cases, "witnesses": ["three pieces", "empty"],
            "bounds": "lists of up to two ranges with a verse, a range or a list of up to two ranges (quick: two by two "
                      "within one book), new and in place, also a list with itself; ranges over any number of chapters "
                      "and books; membership decided for an arbitrary verse" if quick else
                      "lists of up to three ranges with lists of up to two",
            "assumptions": ["regrouping keeps the elements of a list (decided by C17)"]}
