from .common import *


def step(sx, g, a, op, hops):
    eff, arg = begin(sx, g, a)
    p, v = verse(sx, "x", eff | V0)
    if eff & V0 == 0:
        # an existing verse 0 is honoured: VERSE_0 is in force for that call
        if p.v == 0:
            eff |= V0
    n = sx.int("n", 0, 200 * (hops + 1))
    mb = bool(eff & MB)
    want = (forward if op == "add" else backward)(sx, p, n, eff, mb, hops)
    f = v.add if op == "add" else v.subtract
    if a is None and sx.flag("operator"):
        r = (v + n) if op == "add" else (v - n)
    else:
        r = f(n, flags=arg)
    if want is None:
        sx.reach("past the end")
        sx.check(r is None, "past the end of the book or Bible gives None", got=r)
    else:
        sx.check(r is not None and is_verse(sx, r, want), "lands on the n-th verse", got=r)
        sx.check(valid(sx, Pt(r.book, r.chap_num, r.verse_num), eff), "result is a verse of the text")


def misuse(sx, g):
    """Only numbers can be added, only numbers and verses subtracted."""
    eff, _ = begin(sx, g, None)
    p, v = verse(sx, "x", eff)
    other = sx.choice("other", (None, "1", (1,), 1.5))
    for name, f in (("add", v.add), ("subtract", v.subtract), ("+", lambda x: v + x), ("-", lambda x: v - x)):
        kind, e = sx.run(f, other)
        sx.check(kind == "exc" and isinstance(e, TypeError), "anything else is a type error", op=name, other=other, got=e)
    kind, e = sx.run(lambda: v + v)
    sx.check(kind == "exc" and isinstance(e, TypeError), "verses cannot be added", got=e)


def plan(tier):
    hops = 4 if tier == "quick" else 6
    cases = [("step", dict(m, op=op, hops=hops), {}) for m in modes() for op in ("add", "subtract")]
    cases += [("misuse", dict(g=g), {}) for g in (0, 3)]
    return {"cases": cases, "bounds": "n arbitrary up to %d chapter crossings; any of 66 books; tables arbitrary" % hops,
            "witnesses": ["past the end"]}
