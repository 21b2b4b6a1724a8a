"""Operation histories on grouped lists against a model: a Python list of groups, each a
Python list of values."""
from .common import *


class Lists:
    """kind "plain": a GroupedList of numbers; kind "ranges": a BibleRangeList."""

    def __init__(self, sx, kind):
        self.sx, self.kind, self.n = sx, kind, 0
        if kind == "plain":
            self.cls = sx.br.util.GroupedList
        else:
            self.cls = sx.br.BibleRangeList
            self.book = sx.fix(sx.book_at(40))

    def value(self, name):
        """An arbitrary value."""
        sx = self.sx
        if self.kind == "plain":
            return sx.int(name, 0, 50)
        v = sx.int(name, 1, 20)
        sx.assume(v <= sx.mv(self.book, 1))
        x = mkverse(sx, Pt(self.book, 1, v))
        return sx.mkrange(x, x)

    def same(self, a, b):
        return True if a is b else self.sx.And(a == b)

    def eq_seq(self, got, want):
        got, want = list(got), list(want)
        if len(got) != len(want):
            return False
        return self.sx.And(*[self.same(x, y) for x, y in zip(got, want)])

    def le(self, a, b):
        return a <= b


def flat(m):
    return [x for g in m for x in g]


def locate(m, i):
    """(group, place in it) of the i-th element."""
    for gi, g in enumerate(m):
        if i < len(g):
            return gi, i
        i -= len(g)
    raise IndexError


def build(L, shape):
    vals = [[L.value("a%d_%d" % (i, j)) for j in range(n)] for i, n in enumerate(shape)]
    return L.cls(vals), vals


def insert_before(m, i, v):
    gi, k = locate(m, i)
    m[gi].insert(k, v)


def drop(m, i):
    gi, k = locate(m, i)
    v = m[gi].pop(k)
    if not m[gi]:
        del m[gi]
    return v


def norm(i, n):
    """The element meant by index i of n, or None."""
    if i < 0:
        i += n
    return i if 0 <= i < n else None


# each operation: f(L, gl, m, tag) -> label of the outcome; checks the return value itself
def _index(L, tag, gl, slack=2):
    n = len(gl)
    return L.sx.int("i" + tag, -n - slack, n + slack - 1)


def expect(L, what, want_exc, f, *a):
    """Run f; check that it raises want_exc exactly when one is named."""
    kind, r = L.sx.run(f, *a)
    if want_exc is None:
        L.sx.check(kind == "ok", what + " succeeds", error=r)
        return r
    L.sx.check(kind == "exc" and isinstance(r, want_exc), what + " raises " + want_exc.__name__, got=r)
    return None


def op_append(L, gl, m, t):
    v = L.value("v" + t)
    gl.append(v)
    (m[-1].append(v) if m else m.append([v]))


def op_append_new(L, gl, m, t):
    v = L.value("v" + t)
    gl.append(v, new_group=True)
    m.append([v])


def op_prepend(L, gl, m, t):
    v = L.value("v" + t)
    gl.prepend(v)
    (m[0].insert(0, v) if m else m.append([v]))


def op_prepend_new(L, gl, m, t):
    v = L.value("v" + t)
    gl.prepend(v, new_group=True)
    m.insert(0, [v])


def op_insert(L, gl, m, t):
    v, n = L.value("v" + t), len(flat(m))
    i = L.sx.int("i" + t, -n, n)
    gl.insert(i, v)
    i = L.sx.fix(i)
    if i < 0:
        i += n
    if i < n:
        insert_before(m, i, v)
    elif m:
        m[-1].append(v)
    else:
        m.append([v])


def op_extend(L, gl, m, t):
    v, w = L.value("v" + t), L.value("w" + t)
    gl.extend([v, w])
    (m[-1].extend([v, w]) if m else m.append([v, w]))


def op_iadd(L, gl, m, t):
    v = L.value("v" + t)
    g2 = gl
    g2 += [v]
    L.sx.check(g2 is gl, "+= keeps the list")
    (m[-1].append(v) if m else m.append([v]))


def op_extend_self(L, gl, m, t):
    xs = flat(m)
    gl.extend(gl)
    if m:
        m[-1].extend(xs)


def op_extend_group(L, gl, m, t):
    """Extend with one of the list's own groups."""
    if not m:
        return
    g = L.sx.choice("g" + t, range(len(m)))
    xs = list(m[g])
    gl.extend(gl.groups[g])
    m[-1].extend(xs)


def op_append_group(L, gl, m, t):
    v, w = L.value("v" + t), L.value("w" + t)
    gl.append_group([v, w])
    m.append([v, w])


def op_append_group_own(L, gl, m, t):
    if not m:
        return
    g = L.sx.choice("g" + t, range(len(m)))
    xs = list(m[g])
    gl.append_group(gl.groups[g])
    m.append(xs)


def op_append_group_none(L, gl, m, t):
    gl.append_group([])


def op_insert_group(L, gl, m, t):
    n = len(flat(m))
    i = _index(L, t, gl)
    kind, r = L.sx.run(gl.insert_group_at, i)
    j = norm(L.sx.fix(i), n)
    L.sx.check((kind == "ok") == (j is not None), "insert_group_at succeeds exactly for an index in range", got=r)
    if j is None:
        L.sx.check(isinstance(r, IndexError), "insert_group_at out of range raises IndexError", got=r)
        return
    gi, k = locate(m, j)
    if k:
        m[gi:gi + 1] = [m[gi][:k], m[gi][k:]]


def _pop(L, gl, m, t, f, returns):
    n = len(flat(m))
    i = _index(L, t, gl)
    kind, r = L.sx.run(f, i)
    j = norm(L.sx.fix(i), n)
    L.sx.check((kind == "ok") == (j is not None), "removal succeeds exactly for an index in range", got=r)
    if j is None:
        L.sx.check(isinstance(r, IndexError), "removal out of range raises IndexError", got=r)
        return
    v = drop(m, j)
    if returns:
        L.sx.check(L.same(r, v), "pop returns the element", got=r, want=v)


def op_pop_at(L, gl, m, t):
    _pop(L, gl, m, t, gl.pop, True)


def op_del(L, gl, m, t):
    _pop(L, gl, m, t, gl.__delitem__, False)


def op_pop(L, gl, m, t):
    if not m:
        expect(L, "pop from an empty list", IndexError, gl.pop)
        return
    r = gl.pop()
    v = drop(m, len(flat(m)) - 1)
    L.sx.check(L.same(r, v), "pop returns the last element", got=r, want=v)


def op_set(L, gl, m, t):
    v, n = L.value("v" + t), len(flat(m))
    i = _index(L, t, gl)
    kind, r = L.sx.run(gl.__setitem__, i, v)
    j = norm(L.sx.fix(i), n)
    L.sx.check((kind == "ok") == (j is not None), "setting succeeds exactly for an index in range", got=r)
    if j is None:
        L.sx.check(isinstance(r, IndexError), "setting out of range raises IndexError", got=r)
        return
    gi, k = locate(m, j)
    m[gi][k] = v


def op_remove(L, gl, m, t):
    v = L.value("v" + t)
    kind, r = L.sx.run(gl.remove, v)
    for j, x in enumerate(flat(m)):
        if L.sx.fix(L.sx.And(x == v)):
            L.sx.check(kind == "ok", "remove of a present value succeeds", got=r)
            drop(m, j)
            return
    L.sx.check(kind == "exc" and isinstance(r, ValueError), "remove of an absent value raises ValueError", got=r)


def op_clear(L, gl, m, t):
    gl.clear()
    del m[:]


def op_clear_groups(L, gl, m, t):
    gl.clear_groups()
    if m:
        m[:] = [flat(m)]


def op_reverse(L, gl, m, t):
    gl.reverse()
    if m:
        m[:] = [flat(m)[::-1]]


def op_sort(L, gl, m, t):
    if L.kind == "plain":
        gl.sort()
    else:
        gl.sort(regroup=False)
    out = []
    for x in flat(m):                       # stable insertion sort
        k = len(out)
        while k > 0 and not L.sx.fix(L.sx.And(L.le(out[k - 1], x))):
            k -= 1
        out.insert(k, x)
    if m:
        m[:] = [out]


def op_gset(L, gl, m, t):
    if not m:
        return
    v = L.value("v" + t)
    g = L.sx.choice("g" + t, range(-len(m), len(m)))
    i = L.sx.int("i" + t, 0, len(m[g]))
    kind, r = L.sx.run(gl.groups[g].__setitem__, i, v)
    i = L.sx.fix(i)
    L.sx.check((kind == "ok") == (i < len(m[g])), "setting in a group succeeds exactly within it", got=r)
    if i < len(m[g]):
        m[g][i] = v
    else:
        L.sx.check(isinstance(r, IndexError), "setting beyond a group raises IndexError", got=r)


def op_gdel(L, gl, m, t):
    if not m:
        return
    g = L.sx.choice("g" + t, range(-len(m), len(m)))
    i = L.sx.int("i" + t, 0, len(m[g]))
    kind, r = L.sx.run(gl.groups[g].__delitem__, i)
    i = L.sx.fix(i)
    L.sx.check((kind == "ok") == (i < len(m[g])), "deleting in a group succeeds exactly within it", got=r)
    if i < len(m[g]):
        del m[g][i]
        if not m[g]:
            del m[g]
    else:
        L.sx.check(isinstance(r, IndexError), "deleting beyond a group raises IndexError", got=r)


OPS = {n[3:]: f for n, f in list(globals().items()) if n.startswith("op_")}
OPS_BASIC = ["append", "prepend", "insert", "extend", "pop", "pop_at", "del", "set", "remove", "clear", "reverse", "sort", "iadd",
             "extend_self"]
OPS_GROUP = ["append_new", "prepend_new", "append_group", "append_group_own", "append_group_none", "extend_group", "insert_group",
             "clear_groups", "gset", "gdel"]


def shapes(n_max):
    """Every grouping of up to n_max elements."""
    out = [[]]

    def go(n, cur):
        if n == 0:
            out.append(cur)
        for k in range(1, n + 1):
            go(n - k, cur + [k])
    for n in range(1, n_max + 1):
        go(n, [])
    return out


def check_list(L, gl, m, deep=True):
    """The elements, as seen through the sequence interface."""
    sx, want = L.sx, flat(m)
    sx.check(len(gl) == len(want), "length", got=len(gl), want=len(want))
    sx.check(L.eq_seq(gl, want), "iteration", got=list(gl), want=want)
    sx.check(L.eq_seq(list(reversed(gl)), want[::-1]), "reversed", got=list(reversed(gl)), want=want[::-1])
    n = len(want)
    for i in range(-n, n):
        sx.check(L.same(gl[i], want[i]), "indexing", i=i, got=gl[i], want=want[i])
    for i in (n, n + 1, -n - 1, -n - 2):
        expect(L, "index out of range", IndexError, gl.__getitem__, i)


def check_groups(L, gl, m):
    """The groups, as seen through the group views."""
    sx = L.sx
    gs = gl.groups
    sx.check(len(gs) == len(m), "number of groups", got=len(gs), want=len(m))
    it = list(gs)
    sx.check(len(it) == len(m), "groups iterated", got=len(it), want=len(m))
    for i, want in enumerate(m):
        for view in (it[i], gs[i], gs[i - len(m)]):
            sx.check(len(view) == len(want), "group length", got=list(view), want=want)
            sx.check(L.eq_seq(view, want), "group contents", got=list(view), want=want)
        for j, x in enumerate(want):
            sx.check(L.same(gs[i][j], x), "indexing a group")
        expect(L, "index beyond a group", IndexError, gs[i].__getitem__, len(want))
    for i in (len(m), -len(m) - 1):
        expect(L, "group index out of range", IndexError, gs.__getitem__, i)
    nested = gl.to_nested_lists()
    sx.check(len(nested) == len(m) and sx.And(*[L.eq_seq(a, b) for a, b in zip(nested, m)]), "to_nested_lists", got=nested)
    if L.kind == "plain":
        text = str(m)
        for got, want in ((repr(gl), "GroupedList(" + text + ")"), (repr(gs), "GroupViews([" + ", ".join("GroupView(%s)" % g for g in m) + "])"),
                          *[(repr(gs[i]), "GroupView(%s)" % g) for i, g in enumerate(m)]):
            sx.check(sx.And(got == want), "repr shows the groups", got=got, want=want)
