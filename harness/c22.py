"""A list of ranges (and the grouped list under it) behaves as a list."""
from .listops import *


def history(sx, kind, shape, first, steps):
    """Any operations, in any order; the elements are checked after each."""
    sx.set_flags(sx.br.BibleFlag.NONE)
    L = Lists(sx, kind)
    gl, m = build(L, shape)
    for k in range(steps):
        names = first if k == 0 else list(OPS)
        op = sx.choice("op%d" % k, names)
        OPS[op](L, gl, m, str(k))
        check_list(L, gl, m)
        sx.reach(op)


def search(sx, kind, n, shape):
    """index, count, in and == on arbitrary values."""
    sx.set_flags(sx.br.BibleFlag.NONE)
    L = Lists(sx, kind)
    gl, m = build(L, shape)
    want, v = flat(m), L.value("v")
    hits = [sx.fix(sx.And(x == v)) for x in want]
    sx.check(gl.count(v) == sum(hits), "count", got=gl.count(v))
    if kind == "plain":
        sx.check((v in gl) == any(hits), "in")
    lo_, hi_ = sx.int("lo", 0, n), sx.int("hi", 0, n)
    sx.assume(lo_ <= hi_)
    for args in ((), (lo_,), (lo_, hi_)):
        k, r = sx.run(gl.index, v, *args)
        a = sx.fix(args[0]) if args else 0
        b = sx.fix(args[1]) if len(args) > 1 else n
        js = [j for j in range(a, b) if hits[j]]
        if js:
            sx.check(k == "ok" and r == js[0], "index finds the first occurrence", got=r, args=args)
        else:
            sx.check(k == "exc" and isinstance(r, ValueError), "index of an absent value raises ValueError", got=r, args=args)


def negative(sx, n):
    """index with negative limits counts from the end."""
    L = Lists(sx, "plain")
    gl, m = build(L, [n])
    want, v = flat(m), L.value("v")
    hits = [sx.fix(sx.And(x == v)) for x in want]
    lo_, hi_ = sx.int("lo", -n, -1), sx.int("hi", -n, -1)
    sx.assume(lo_ <= hi_)
    k, r = sx.run(gl.index, v, lo_, hi_)
    a, b = n + sx.fix(lo_), n + sx.fix(hi_)
    js = [j for j in range(a, b) if hits[j]]
    if js:
        sx.check(k == "ok" and r == js[0], "index finds the first occurrence", got=r)
    else:
        sx.check(k == "exc" and isinstance(r, ValueError), "index of an absent value raises ValueError", got=r)


def equality(sx, kind, s1, s2):
    sx.set_flags(sx.br.BibleFlag.NONE)
    L = Lists(sx, kind)
    a, m = build(L, s1)
    vals = [[L.value("b%d_%d" % (i, j)) for j in range(n)] for i, n in enumerate(s2)]
    b = L.cls(vals)
    x, y = flat(m), flat(vals)
    els = sx.fix(L.eq_seq(x, y))
    sx.check(a.equals(b, compare_groups=False) == els, "equals without groups")
    sx.check(a.equals(y, compare_groups=False) == els, "equals a plain list without groups")
    sx.check((a == b) == (els and s1 == s2), "== compares elements and groups")
    sx.check((a != b) == (not (els and s1 == s2)), "!= is the opposite")
    sx.check(a.equals(b) == (els and s1 == s2), "equals compares elements and groups")
    sx.check(a == a and not (a != a), "equal to itself")
    for other in (None, 5, object()):
        k, r = sx.run(lambda: a == other)
        sx.check(k == "ok" and r is False, "== with something else is False", got=r)


def types(sx, shape):
    """A list of ranges refuses anything else and stays as it was."""
    sx.set_flags(sx.br.BibleFlag.NONE)
    L = Lists(sx, "ranges")
    gl, m = build(L, shape)
    bad = sx.choice("bad", [5, None, "Mark 1", "verse"])
    if bad == "verse":
        bad = flat(m)[0].start if m else 1
    calls = [lambda: gl.append(bad), lambda: gl.prepend(bad), lambda: gl.insert(0, bad), lambda: gl.extend([bad]),
             lambda: gl.append_group([bad]), lambda: gl.append(bad, new_group=True)]
    if m:
        calls += [lambda: gl.__setitem__(0, bad), lambda: gl.groups[0].__setitem__(0, bad), lambda: gl.insert(1, bad)]
    f = sx.choice("f", calls)
    expect(L, "putting something else in a list of ranges", TypeError, f)
    check_list(L, gl, m)


def copies(sx, shape, op):
    """A copy has the same elements and groups, and changing either leaves the other alone."""
    sx.set_flags(sx.br.BibleFlag.NONE)
    L = Lists(sx, "ranges")
    gl, m = build(L, shape)
    c = L.cls(gl)
    mc = [list(g) for g in m]
    check_list(L, c, mc)
    check_groups(L, c, mc)
    which = sx.choice("which", (0, 1))
    OPS[op](L, (gl, c)[which], (m, mc)[which], "0")
    check_list(L, gl, m)
    check_list(L, c, mc)
    check_groups(L, gl, m)
    check_groups(L, c, mc)


MADE = {
    "list": lambda L, m: (L.cls(flat(m)), [flat(m)]),
    "tuple": lambda L, m: (L.cls(tuple(flat(m))), [flat(m)]),
    "iterator": lambda L, m: (L.cls(iter(flat(m))), [flat(m)]),
    "generator": lambda L, m: (L.cls(x for x in flat(m)), [flat(m)]),
    "lists": lambda L, m: (L.cls(m), m),
    "tuples": lambda L, m: (L.cls(tuple(tuple(g) for g in m)), m),
    "lists and tuples": lambda L, m: (L.cls(iter([tuple(g) if i % 2 else list(g) for i, g in enumerate(m)])), m),
    "copy": lambda L, m: (L.cls(L.cls(m)), m if L.kind == "ranges" else [flat(m)]),
    "a view": lambda L, m: (L.cls(L.cls(m).groups[len(m) - 1]), m[-1:]),
    "nested lists": lambda L, m: (L.cls(L.cls(m).to_nested_lists()), m),
    "arguments": lambda L, m: (L.cls(*flat(m)), [flat(m)]),
    "list arguments": lambda L, m: (L.cls(*m), m),
}


def made(sx, kind, shape, how):
    """The ways to make a list from elements or groups of elements; the new list can be used as any other."""
    sx.set_flags(sx.br.BibleFlag.NONE)
    L = Lists(sx, kind)
    vals = [[L.value("a%d_%d" % (i, j)) for j in range(n)] for i, n in enumerate(shape)]
    gl, m = MADE[how](L, [list(g) for g in vals])
    m = [list(g) for g in m if g]
    check_list(L, gl, m)
    check_groups(L, gl, m)
    op = sx.choice("op", ("append", "append_new", "prepend", "del"))
    OPS[op](L, gl, m, "0")
    check_list(L, gl, m)
    check_groups(L, gl, m)


def long_sort(sx, n):
    """Long lists can be sorted too; one element is arbitrary."""
    sx.set_flags(sx.br.BibleFlag.NONE)
    L = Lists(sx, "plain")
    v = sx.int("v", 0, 4)
    xs = [(i * 7919) % n * 2 for i in range(n)]
    gl = L.cls(xs[:n // 2] + [v] + xs[n // 2:])
    gl.sort()
    out = list(gl)
    sx.check(len(out) == n + 1, "as many elements")
    sx.check(sx.And(*[a <= b for a, b in zip(out[:6], out[1:7])]), "in order (around the arbitrary element)")
    sx.check(all(a <= b for a, b in zip(out[6:], out[7:])), "in order")
    sx.check(list(reversed(gl))[::-1] == out, "same backwards")


def plan(tier):
    quick = tier == "quick"
    cases = []
    names = list(OPS)
    n = 4
    for sh in shapes(n):
        for i in range(0, len(names), 6):
            cases.append(("history", dict(kind="plain", shape=sh, first=names[i:i + 6], steps=2 if sum(sh) > (0 if quick else 2) else 3), {}))
    if quick:
        for sh in shapes(5):
            if sum(sh) >= 5:
                cases.append(("history", dict(kind="plain", shape=sh, first=names, steps=1), {}))
    for sh in ([], [1], [2], [1, 1], [1, 2]):
        cases.append(("history", dict(kind="ranges", shape=sh, first=names, steps=1 if quick and sum(sh) > 1 else 2), {}))
    for sh in ([], [1], [2], [1, 2], [3]) if quick else ([], [1], [2], [1, 2], [3], [4], [2, 2], [5]):
        for kind in ("plain", "ranges"):
            cases.append(("search", dict(kind=kind, n=sum(sh), shape=sh), {}))
    for k in (1, 2, 3) if quick else (1, 2, 3, 4):
        cases.append(("negative", dict(n=k), {}))
    for s1 in shapes(2 if quick else 3):
        for s2 in shapes(2 if quick else 3):
            cases.append(("equality", dict(kind="plain", s1=s1, s2=s2), {}))
            cases.append(("equality", dict(kind="ranges", s1=s1, s2=s2), {}))
    for sh in ([], [1], [1, 1]):
        cases.append(("types", dict(shape=sh), {}))
    for sh in ([], [1], [2, 1]) if quick else shapes(3):
        for op in names:
            cases.append(("copies", dict(shape=sh, op=op), {}))
    for sh in ([], [1], [2], [1, 2], [2, 1, 1]):
        for how in MADE:
            for kind in ("plain", "ranges"):
                if not (kind == "plain" and "argument" in how or how == "a view" and not sh or how == "list arguments" and len(sh) == 1 or how == "arguments" and sum(sh) == 1):
                    cases.append(("made", dict(kind=kind, shape=sh, how=how), {}))
    cases.append(("long_sort", dict(n=4000 if quick else 8000), {}))
    return {"cases": cases, "witnesses": names,
            "bounds": "any two operations in a row (any of %d, any index and value) from every grouping of up to %d elements%s; "
                      "searches and comparisons of lists of up to %d elements; twelve ways to make a list; sorting a list of %d elements of which one is arbitrary" %
                      (len(names), n, ", three from an empty list, one from every grouping of 5" if quick else ", any three from every grouping of up to 2",
                       3 if quick else 5, 4000 if quick else 8000)}
