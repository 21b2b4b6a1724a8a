import operator
from .common import *

OPS = ("==", "!=", "<", "<=", ">", ">=")


def ops(x, y):
    return (x == y, x != y, x < y, x <= y, x > y, x >= y)


def expect(sx, lt, eq):
    gt = sx.And(sx.Not(lt), sx.Not(eq))
    return (eq, sx.Not(eq), lt, sx.Or(lt, eq), gt, sx.Not(lt))


def verses(sx):
    begin(sx, 0, None)
    p, v = verse(sx, "x", V0)
    q, w = verse(sx, "y", V0)
    a, b = p.key(sx), q.key(sx)
    lt, eq = k_lt(sx, a, b), k_eq(sx, a, b)
    for op, got, want in zip(OPS, ops(v, w), expect(sx, lt, eq)):
        sx.check(sx.Iff(got, want), "verse " + op, v=v, w=w)
    sx.check(sx.Implies(eq, sx.hash(v) == sx.hash(w)), "equal verses have equal hashes", v=v, w=w)


def ranges(sx):
    begin(sx, 0, None)
    p1, q1, r1 = range_(sx, "x", V0 | MB)
    p2, q2, r2 = range_(sx, "y", V0 | MB)
    s1, e1, s2, e2 = (x.key(sx) for x in (p1, q1, p2, q2))
    eq = sx.And(k_eq(sx, s1, s2), k_eq(sx, e1, e2))
    lt = sx.Or(k_lt(sx, s1, s2), sx.And(k_eq(sx, s1, s2), k_lt(sx, e1, e2)))
    for op, got, want in zip(OPS, ops(r1, r2), expect(sx, lt, eq)):
        sx.check(sx.Iff(got, want), "range " + op, r1=r1, r2=r2)
    sx.check(sx.Implies(eq, sx.hash(r1) == sx.hash(r2)), "equal ranges have equal hashes", r1=r1, r2=r2)


def books(sx):
    a, b = sx.book("x"), sx.book("y")
    i, j = sx.pos(a), sx.pos(b)
    for op, got, want in zip(OPS, ops(a, b), expect(sx, i < j, i == j)):
        sx.check(sx.Iff(got, want), "book " + op)
    sx.check(sx.Implies(i == j, sx.hash(a) == sx.hash(b)), "equal books have equal hashes")
    n, p = a.next(), a.prev()
    if i == sx.n_books - 1:
        sx.check(n is None, "no book after the last")
    else:
        sx.check(n is not None and sx.pos(n) == i + 1, "next book")
    if i == 0:
        sx.check(p is None, "no book before the first")
    else:
        sx.check(p is not None and sx.pos(p) == i - 1, "previous book")


def frozen(sx):
    begin(sx, 0, None)
    p, q, r = range_(sx, "x", V0 | MB)
    v = r.start
    for obj, names in ((v, ("book", "chap_num", "verse_num")), (r, ("start", "end"))):
        for n in names:
            kind, e = sx.run(setattr, obj, n, getattr(obj, n))
            sx.check(kind == "exc" and isinstance(e, AttributeError), "attributes cannot be set", name=n)
            kind, e = sx.run(delattr, obj, n)
            sx.check(kind == "exc" and isinstance(e, AttributeError), "attributes cannot be deleted", name=n)
    sx.check(sx.And(is_verse(sx, r.start, p), is_verse(sx, r.end, q)), "unchanged")
    other = sx.choice("other", (None, 3, "Gen 1:1", (1, 2, 3)))
    sx.check(sx.And(sx.Not(v == other), v != other, sx.Not(r == other), r != other, sx.Not(v == r)),
             "never equal to a value of another type")
    for x in (v, r, v.book):
        for name, op in (("<", operator.lt), ("<=", operator.le), (">", operator.gt), (">=", operator.ge)):
            kind, e = sx.run(op, x, other)
            sx.check(kind == "exc" and isinstance(e, TypeError), "no order with a value of another type", op=name, value=x, other=other, got=e)
    l = sx.br.BibleRangeList([r])
    for x, o in ((v, r), (r, v), (v, l), (r, l), (l, r), (v, v.book), (r, r.start.book), (v.book, r), (v, (v.book, v.chap_num, v.verse_num)), (r, (r.start, r.end))):
        sx.check(sx.And(sx.Not(x == o), x != o), "never equal to a value of another type", value=x, other=o)
        for name, op in (("<", operator.lt), ("<=", operator.le), (">", operator.gt), (">=", operator.ge)):
            kind, e = sx.run(op, x, o)
            sx.check(kind == "exc" and isinstance(e, TypeError), "no order with a value of another type", op=name, value=x, other=o, got=e)


def plan(tier):
    return {"cases": [(f, {}, {}) for f in ("verses", "ranges", "books", "frozen")],
            "bounds": "any two books/verses/ranges of arbitrary tables (66 books, up to 150 chapters, up to 200 verses), "
                      "verse 0 and multi-book ranges included",
            "assumptions": ["comparison methods generated by the standard library's dataclass decorator are "
                            "replaced by one lexicographic formula over the fields it compares",
                            "hash() is an uninterpreted function of the hashed tuple"]}
