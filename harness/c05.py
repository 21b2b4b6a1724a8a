from .common import *


def from_verses(sx, g, a):
    eff, arg = begin(sx, g, a)
    p, v = verse(sx, "x", V0)
    q, w = verse(sx, "y", V0)
    kind, r = sx.run(sx.br.BibleRange, start=v, end=w, flags=arg)
    same = sx.pos(p.b) == sx.pos(q.b)
    if kind == "exc":
        sx.check(isinstance(r, sx.br.ref.MultibookRangeNotAllowedError), "type of the error", err=repr(r))
        sx.check(sx.And(not eff & MB, sx.Not(same)), "rejected an allowed range")
        return
    sx.check(sx.Or(bool(eff & MB), same), "accepted a multi-book range without the flag")
    if k_lt(sx, q.key(sx), p.key(sx)):
        p, q = q, p
        sx.reach("swapped")
    sx.check(sx.And(is_verse(sx, r.start, p), is_verse(sx, r.end, q)), "start is the smaller, end the larger verse",
             got=r)
    c = sx.br.BibleRange(r)
    sx.check(sx.And(is_verse(sx, c.start, p), is_verse(sx, c.end, q)), "a copy is the same range")


def misuse(sx, g):
    """Arguments of the wrong number or type."""
    eff, _ = begin(sx, g, None)
    p, v = verse(sx, "x", eff)
    BR, bad = sx.br.BibleRange, sx.br.ref.InvalidReferenceError
    kind, e = sx.run(BR, p.b, p.c, p.v, p.b, p.c, p.v, 1)
    sx.check(kind == "exc" and isinstance(e, ValueError), "too many arguments", got=e)
    other = sx.choice("other", (None, 3, (1, 2)))
    kind, e = sx.run(BR, other)
    sx.check(kind == "exc" and isinstance(e, ValueError), "a single argument of another type", got=e)
    if other is not None:
        kind, e = sx.run(BR, other, p.c, p.v)
        sx.check(kind == "exc" and isinstance(e, bad), "no book at the start", got=e)
        kind, e = sx.run(BR, p.b, p.c, p.v, other, p.c, p.v)
        sx.check(kind == "exc" and isinstance(e, bad), "no book at the end", got=e)
    else:
        kind, e = sx.run(BR, other, p.c, p.v)
        sx.check(kind == "exc" and isinstance(e, bad), "no book at all", got=e)


def positional(sx, g, a, shape):
    """shape: for each of end book, start chap, start verse, end chap, end verse: given or not."""
    eff, arg = begin(sx, g, a)
    br = sx.br
    sb = sx.book("sb")
    eb = sx.book("eb") if shape[0] == "1" else None
    num = lambda n, f, hi: sx.int(n, -1, hi) if f == "1" else None
    sc, sv = num("sc", shape[1], 151), num("sv", shape[2], 201)
    ec, ev = num("ec", shape[3], 151), num("ev", shape[4], 201)
    args = [sb, sc, sv, eb, ec, ev]
    if sx.flag("trim"):
        while args and args[-1] is None:
            args.pop()
    kind, r = sx.run(br.BibleRange, *args, flags=arg)

    # ---- reference: which verse each end denotes
    S, E = [sb, sc, sv], [eb, ec, ev]
    have_end = not (eb is None and ec is None and ev is None)
    if eb is not None and sx.pos(eb) < sx.pos(sb):
        S, E = E, S
        sx.reach("books swapped")
    elif (eb is None or sx.pos(eb) == sx.pos(sb)) and sc is not None:
        if ec is not None and ec < sc:
            S, E = [sb, ec, ev], [eb, sc, sv]
            sx.reach("chapters swapped")
        elif (ec is None or ec == sc) and sv is not None and ev is not None and ev < sv:
            S, E = [sb, sc, ev], [eb, ec, sv]
            sx.reach("verses swapped")
    (b1, c1, v1), (b2, c2, v2) = S, E
    bad = False
    if c1 is None and v1 is not None:
        bad = True
        start = end = None
    else:
        oks = []
        if c1 is None:
            start = Pt(b1, 1, lo(sx, b1, 1, eff))
        else:
            oks.append(sx.And(c1 >= 1, c1 <= sx.nch(b1)))
            start = Pt(b1, c1, lo(sx, b1, c1, eff) if v1 is None else v1)
            if v1 is not None:
                oks.append(valid(sx, start, eff))
        if not have_end:
            if c1 is None:
                end = Pt(b1, sx.nch(b1), sx.mv(b1, sx.nch(b1)))
            elif v1 is None:
                end = Pt(b1, c1, sx.mv(b1, c1))
            else:
                end = start
        else:
            if b2 is None:
                b2 = b1
            if c2 is None and v2 is None:
                end = Pt(b2, sx.nch(b2), sx.mv(b2, sx.nch(b2)))
            elif v2 is None:
                oks.append(sx.And(c2 >= 1, c2 <= sx.nch(b2)))
                end = Pt(b2, c2, sx.mv(b2, c2))
            else:
                if c2 is None:
                    oks.append(sx.pos(b1) == sx.pos(b2))     # the end needs a chapter of its own
                    c2 = start.c
                end = Pt(b2, c2, v2)
                oks.append(valid(sx, end, eff))
        ok = sx.And(*oks)
    if kind == "exc":
        if isinstance(r, br.ref.MultibookRangeNotAllowedError):
            sx.check(not eff & MB and not bad and sx.Not(sx.pos(start.b) == sx.pos(end.b)),
                     "rejected a range as multi-book", err=repr(r))
            sx.reach("multibook error")
        else:
            sx.check(isinstance(r, br.ref.InvalidReferenceError), "type of the error", err=repr(r))
            sx.check(bad or sx.Not(ok), "rejected valid arguments", err=repr(r))
        return
    sx.check(not bad and ok, "accepted invalid arguments", got=r)
    sx.check(sx.Or(bool(eff & MB), sx.pos(start.b) == sx.pos(end.b)), "accepted a multi-book range without the flag")
    sx.check(is_verse(sx, r.start, start), "start verse denoted by the arguments", got=r)
    sx.check(is_verse(sx, r.end, end), "end verse denoted by the arguments", got=r)
    sx.check(k_le(sx, key(sx, r.start), key(sx, r.end)), "start <= end", got=r)


def whole_bible(sx, g, a):
    eff, arg = begin(sx, g, a)
    b0, b1 = sx.book_at(0), sx.book_at(sx.n_books - 1)
    r = sx.br.BibleRange.whole_bible(flags=arg)
    n = sx.nch(b1)
    sx.check(sx.And(is_verse(sx, r.start, Pt(b0, 1, lo(sx, b0, 1, eff))), is_verse(sx, r.end, Pt(b1, n, sx.mv(b1, n)))),
             "the whole Bible", got=r)


def plan(tier):
    ms = modes()
    cases = [("from_verses", m, {}) for m in ms] + [("whole_bible", m, {}) for m in ms]
    cases += [("misuse", dict(g=g), {}) for g in (0, 3)]
    for i in range(32):
        cases += [("positional", dict(m, shape=format(i, "05b")), {}) for m in ms]
    return {"cases": cases,
            "witnesses": ["swapped", "books swapped", "chapters swapped", "verses swapped", "multibook error"],
            "bounds": "every combination of given and omitted positional arguments; any two books; chapter in [-1,151], "
                      "verse in [-1,201], invalid values included; arbitrary tables; books given as enum members "
                      "(names are C18)"}
