"""Set algebra on ranges."""
from .common import *
from .c08 import other

OPS = ("union", "intersection", "difference", "sym_difference")


def member(sx, op, x, A, B):
    a, b = in_any(sx, x, A), in_any(sx, x, B)
    return {"union": sx.Or(a, b), "intersection": sx.And(a, b), "difference": sx.And(a, sx.Not(b)),
            "sym_difference": sx.And(sx.Or(a, b), sx.Not(sx.And(a, b)))}[op]


def operate(sx, op, l, r, a, arg):
    if a is None and sx.flag("operator"):
        return {"union": lambda: l | r, "intersection": lambda: l & r, "difference": lambda: l - r,
                "sym_difference": lambda: l ^ r}[op]()
    return getattr(l, op)(r, flags=arg)


def same(sx, rs, ps):
    sx.check(len(rs) == len(ps), "operand not modified")
    for x, (s, e) in zip(rs, ps):
        sx.check(sx.And(is_verse(sx, x.start, s), is_verse(sx, x.end, e)), "operand not modified", got=x)


def algebra(sx, g, a, op, kind, mbx=False):
    eff, arg = begin(sx, g, a)
    p, q, r = range_(sx, "r", eff, multibook=bool(eff & MB) or mbx)
    os, o = other(sx, kind, eff, mbx)
    out = operate(sx, op, r, o, a, arg)
    sx.check(isinstance(out, sx.br.BibleRangeList), "result is a list of ranges", got=out)
    res = list(out)
    x = point(sx, "probe", eff).key(sx)
    sx.check(sx.Iff(in_any(sx, x, res), member(sx, op, x, [(p, q)], os)), "verses of the result", got=res, op=op)
    check_normal(sx, res, eff)
    same(sx, [r], [(p, q)])
    same(sx, {"verse": lambda: [sx.br.BibleRange(start=o, end=o)], "range": lambda: [o]}.get(kind, lambda: list(o))(), os)
    if len(res) == 2:
        sx.reach(op + " in two pieces")


def existing_0(sx, g, a, op, kind):
    """A range with a verse 0 at an end, the flag not set: its verse 0s are honoured."""
    eff, arg = begin(sx, g, a)
    mb = bool(eff & MB)
    p, q, r = range_(sx, "r", V0, multibook=True if op == "intersection" else mb)
    os, o = other(sx, kind, eff | V0, False)
    if op == "difference":
        sx.assume(sx.Or(p.v == 0, q.v == 0))
    res = list(operate(sx, op, r, o, a, arg))
    x = point(sx, "probe", V0).key(sx)
    sx.check(sx.Iff(in_any(sx, x, res), member(sx, op, x, [(p, q)], os)), "verses of the result, existing verse 0s", got=res, op=op)
    check_normal(sx, res, eff | V0)


def misuse(sx, g):
    eff, arg = begin(sx, g, None)
    p, q, r = range_(sx, "r", eff)
    bad = sx.choice("bad", (None, 3, (1, 2), "Mark 1"))
    kind, e = sx.run(getattr(r, sx.choice("op", OPS)), bad)
    sx.check(kind == "exc" and isinstance(e, ValueError), "not a reference", got=e)
    same(sx, [r], [(p, q)])


def plan(tier):
    cases = []
    for op in OPS:
        for kind in ("verse", "range"):
            cases += [("algebra", dict(m, op=op, kind=kind), {}) for m in modes()]
            cases += [("algebra", dict(g=g, a=None, op=op, kind=kind, mbx=True), {}) for g in (0, 2)]
        if tier == "thorough":
            for kind in ("list1", "list2"):
                cases += [("algebra", dict(m, op=op, kind=kind), {}) for m in modes()]
        else:
            cases += [("algebra", dict(g=3, a=0, op=op, kind="list2"), {})]
            cases += [("algebra", dict(g=0, a=3, op=op, kind="list1" if "difference" in op else "list2"), {})]
    for m in modes((0, 1)):
        cases += [("existing_0", dict(m, op=op, kind=kind), {}) for op in ("intersection", "difference") for kind in ("verse", "range")]
    cases += [("misuse", dict(g=0), {})]
    cases = [(f, c, dict(o, stub_regroup=True)) for f, c, o in cases]
    return {"cases": cases, "witnesses": ["union in two pieces", "difference in two pieces", "sym_difference in two pieces"],
            "bounds": "any range against any verse, range or list of up to two ranges, over any number of chapters and "
                      "books; membership decided for an arbitrary verse; arbitrary tables"}
