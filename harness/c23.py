"""Groups partition a list, and group views show the groups of the list."""
from .listops import *


def history(sx, kind, shape, first, steps):
    sx.set_flags(sx.br.BibleFlag.NONE)
    L = Lists(sx, kind)
    gl, m = build(L, shape)
    check_groups(L, gl, m)
    for k in range(steps):
        names = first if k == 0 else list(OPS)
        op = sx.choice("op%d" % k, names)
        OPS[op](L, gl, m, str(k))
        check_groups(L, gl, m)
        sx.reach(op)


def views(sx, kind, shape, first, steps=1):
    """A view taken before a change shows a current group afterwards or is refused; it never
    shows anything else, and what is done through it is done to the list."""
    sx.set_flags(sx.br.BibleFlag.NONE)
    L = Lists(sx, kind)
    gl, m = build(L, shape)
    held = list(gl.groups)
    for k in range(steps):
        op = sx.choice("op%d" % k, first)
        OPS[op](L, gl, m, str(k))
    err = sx.br.util.GroupViewError
    g = sx.choice("g", range(len(held)))
    view = held[g]
    kind_, r = sx.run(lambda: list(view))
    if kind_ == "exc":
        sx.check(isinstance(r, err), "a stale view is refused with GroupViewError", got=r)
        sx.reach("stale")
        act = sx.choice("act", ("get", "set", "del", "len"))
        v = L.value("x")
        f = {"get": lambda: view[0], "set": lambda: view.__setitem__(0, v), "del": lambda: view.__delitem__(0), "len": lambda: len(view)}[act]
        expect(L, "using a stale view", err, f)
        check_groups(L, gl, m)
        check_list(L, gl, m)
        return
    sx.reach("live")
    cur = [i for i, x in enumerate(m) if len(x) == len(r) and sx.fix(L.eq_seq(r, x))]
    sx.check(cur, "a view shows a current group", got=r, groups=m)
    if kind != "plain":
        return
    # act through the view: exactly one of the groups it may stand for changes
    act = sx.choice("act", ("set", "del"))
    i = sx.choice("at", range(len(r)))
    v = L.value("x")
    if act == "set":
        view[i] = v
    else:
        del view[i]
    after = gl.to_nested_lists()
    oks = []
    for c in cur:
        mm = [list(x) for x in m]
        if act == "set":
            mm[c][i] = v
        else:
            del mm[c][i]
            if not mm[c]:
                del mm[c]
        if [len(x) for x in mm] == [len(x) for x in after]:
            oks.append(sx.And(*[L.eq_seq(a, b) for a, b in zip(after, mm)]))
    sx.check(sx.Or(*oks), "changing a view changes the list", got=after)


def plan(tier):
    quick = tier == "quick"
    cases = []
    names = list(OPS)
    n = 4
    for sh in shapes(n):
        for i in range(0, len(names), 6):
            cases.append(("history", dict(kind="plain", shape=sh, first=names[i:i + 6], steps=2 if sum(sh) > (0 if quick else 2) else 3), {}))
    if quick:
        for sh in shapes(5):
            if sum(sh) >= 5:
                cases.append(("history", dict(kind="plain", shape=sh, first=names, steps=1), {}))
    for sh in ([], [1], [2], [1, 1], [1, 2]):
        cases.append(("history", dict(kind="ranges", shape=sh, first=names, steps=1 if quick and sum(sh) > 1 else 2), {}))
    for sh in shapes(3 if quick else 4)[1:]:
        for i in range(0, len(names), 6):
            cases.append(("views", dict(kind="plain", shape=sh, first=names[i:i + 6]), {}))
    for sh in ([1], [1, 2]):
        cases.append(("views", dict(kind="ranges", shape=sh, first=names), {}))
    if not quick:
        for sh in shapes(2)[1:]:
            for i in range(0, len(names), 6):
                cases.append(("views", dict(kind="plain", shape=sh, first=names[i:i + 6], steps=2), {}))
    return {"cases": cases, "witnesses": names + ["stale", "live"],
            "bounds": "any two operations in a row (any of %d, any index and value) from every grouping of up to %d elements%s; "
                      "every view taken before %s" %
                      (len(names), n, ", three from an empty list, one from every grouping of 5" if quick else ", any three from every grouping of up to 2",
                       "one operation" if quick else "one or two operations")}
