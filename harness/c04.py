from .common import *


def distance(sx, g, a, hops):
    eff, arg = begin(sx, g, a)
    p, v = verse(sx, "x", eff | V0)
    if eff & MB:
        q, w = verse(sx, "y", eff | V0)
    else:
        q, w = verse(sx, "y", eff | V0, book=p.b)
    if not eff & V0:
        # an endpoint that already is a verse 0 brings verse 0s into the count
        if sx.Or(p.v == 0, q.v == 0):
            eff |= V0
    swapped = False
    if k_lt(sx, q.key(sx), p.key(sx)):
        sx.reach("negative")
        want = count(sx, q, p, eff, hops) - 1
    else:
        want = -(count(sx, p, q, eff, hops) - 1)
    if a is None and sx.flag("operator"):
        got = v - w
    else:
        got = v.subtract(w, flags=arg)
    sx.check(got == want, "number of verses between two verses", got=got)


def inverse(sx, g, a, hops):
    """(v + n) - v == n and (v + n) - n == v, whenever v + n exists."""
    eff, arg = begin(sx, g, a)
    p, v = verse(sx, "x", eff)
    n = sx.int("n", 0, 200 * (hops + 1))
    q = forward(sx, p, n, eff, bool(eff & MB), hops)
    if q is None:
        sx.assume(False)
    w = v.add(n, flags=arg)
    sx.reach("inverse")
    sx.check(w.subtract(v, flags=arg) == n, "adding then taking the distance gives back the number")
    u = w.subtract(n, flags=arg)
    sx.check(u is not None and is_verse(sx, u, p), "adding then subtracting gives back the verse")


def plan(tier):
    h = 2 if tier == "quick" else 4
    cases = [("distance", dict(m, hops=h), {}) for m in modes()]
    cases += [("inverse", dict(m, hops=h), {}) for m in modes()]
    return {"cases": cases, "witnesses": ["negative", "inverse"],
            "bounds": "two verses at most %d chapter boundaries apart (book boundaries included), arbitrary tables" % h}
