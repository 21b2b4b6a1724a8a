"""What a text means does not depend on what was parsed before it."""
from .parsing import *


def a_text(sx, T, tag, slots, books):
    refs, texts = [], []
    forms = singles(books)
    for i, sl in enumerate(slots):
        fs = [sx.choice("f%s%d" % (tag, i), forms)] if sl == "s" else sl.split("-")
        parts = [T.single(f) for f in fs]
        refs.append([p[1] for p in parts])
        texts.append("-".join(p[0] for p in parts))
    sp = [sx.choice("sep%s%d" % (tag, i), (";", ",")) for i in range(len(slots) - 1)]
    text = texts[0]
    for s, t in zip(sp, texts[1:]):
        text += s + " " + t
    return refs, sp, text


def twice(sx, g, a, g2, a2, first, second, broken=None, via="list"):
    """Parse one text, then another, under its own flags; the second means what it means on its own."""
    eff, arg = begin(sx, g, a)
    T = Txt(sx)
    refs, sp, text = a_text(sx, T, "a", first, "A")
    if broken:
        text += broken
    k0, r0 = sx.run(sx.br.BibleRangeList, text, flags=arg)
    if broken:
        sx.check(k0 == "exc", "the broken text is refused", text=text, got=r0)
    kept = [list(x) for x in r0.to_nested_lists()] if k0 == "ok" else None
    eff2, arg2 = begin(sx, g2, a2)
    refs2, sp2, text2 = a_text(sx, T, "b", second, "B")
    cls = sx.br.BibleRangeList if via == "list" else sx.br.BibleRange
    kind, r = sx.run(cls, text2, flags=arg2)
    if kept is not None:
        now = r0.to_nested_lists()
        sx.check(len(now) == len(kept) and all(len(x) == len(y) and all(p is q for p, q in zip(x, y)) for x, y in zip(now, kept)),
                 "a later parse leaves earlier lists alone")
    try:
        want = Meaning(sx, eff2).text(refs2, sp2)
    except Refused as e:
        sx.check(kind == "exc" and isinstance(r, sx.br.ref.BibleRefParsingError), "the second text is refused, whatever came before",
                 text=text, text2=text2, got=r)
        sx.reach("refused: %s" % e)
        return
    sx.check(kind == "ok", "the second text parses, whatever came before", text=text, text2=text2, got=r)
    if via == "list":
        compare(sx, want, r, text2)
    else:
        s, e = want[0][0]
        sx.check(sx.And(is_verse(sx, r.start, s), is_verse(sx, r.end, e)), "the reference of the second text", text2=text2, got=r)
    sx.reach("ok")


def again(sx, m, slots, via1, via2, change=None, data=None):
    """The same text, again, under its own flags (and after a change to what the first parse gave)."""
    g, a, g2, a2 = m
    br = sx.br
    eff, arg = begin(sx, g, a)
    T = Txt(sx)
    refs, sp, text = a_text(sx, T, "a", slots, "A")
    make = {"list": br.BibleRangeList, "range": br.BibleRange, "verse": br.BibleVerse}
    k0, r0 = sx.run(make[via1], text, flags=arg)
    if change and k0 == "ok" and via1 == "list":
        {"clear": r0.clear, "pop": r0.pop, "reverse": r0.reverse, "append": lambda: r0.append(r0[0]), "regroup": r0.clear_groups,
         "set": lambda: r0.__setitem__(0, r0[-1])}[change]()
    if data:
        sx.br.bible_data().range_sep = sx.br.bible_data().range_sep     # the parser is made anew
    eff2, arg2 = begin(sx, g2, a2)
    kind, r = sx.run(make[via2], text, flags=arg2)
    try:
        want = Meaning(sx, eff2).text(refs, sp)
    except Refused as e:
        sx.check(kind == "exc" and isinstance(r, br.ref.BibleRefParsingError), "a text is refused the second time as if it were the first", text=text, got=r)
        sx.reach("refused: %s" % e)
        return
    flat = [x for g in want for x in g]
    if via2 == "list":
        sx.check(kind == "ok", "a text parses the second time as if it were the first", text=text, got=r)
        compare(sx, want, r, text)
    elif via2 == "range" and len(flat) == 1:
        sx.check(kind == "ok" and sx.And(is_verse(sx, r.start, flat[0][0]), is_verse(sx, r.end, flat[0][1])), "the range of a text the second time", text=text, got=r)
    elif via2 == "verse" and len(flat) == 1:
        s, e = flat[0]
        if sx.fix(k_eq(sx, s.key(sx), e.key(sx))):
            sx.check(kind == "ok" and is_verse(sx, r, s), "the verse of a text the second time", text=text, got=r)
    sx.reach("again")


def plan(tier):
    quick = tier == "quick"
    cases = []
    ms = [(0, None, 0, None), (3, None, 0, None), (0, 3, 0, None), (0, None, 0, 3)]
    if not quick:
        ms += [(1, None, 2, None), (2, None, 1, None), (3, 0, 0, 3), (0, 3, 3, 0)]

    def add(m, first, second, **k):
        cases.append(("twice", dict(g=m[0], a=m[1], g2=m[2], a2=m[3], first=first, second=second, **k), {}))

    for m in ms:
        for f in singles("A")[:3]:
            add(m, [f], ["s"])
            add(m, [f], ["s"], via="range")
            for b in ("; x", ":", "-", "; 4:", "; Nobook 3"):
                add(m, [f], ["s"], broken=b)
        for f in singles("A")[:3]:
            for h in singles("A"):
                add(m, [f, h], ["s"])
                if m in ms[:1 if quick else 3]:
                    add(m, [f, h], ["n", "s"])
                    add(m, [f + "-" + h], ["s"])
                    add(m, [f], [h.replace("A", "B"), "s"])
    ms2 = ms + [(3, None, 1, None), (2, None, 3, None), (0, 2, 0, 1)]
    for m in ms2:
        for slots in [["s"], ["A-n"], ["An:m-n"], ["An:m-n:m"], ["A-B"], ["An-Bn:m"], ["s", "n"]] + ([] if quick else [["s", "s"]]):
            for v1, v2 in (("list", "list"), ("list", "range"), ("range", "list"), ("verse", "verse"), ("verse", "range"), ("range", "range")):
                if "verse" in (v1, v2) and len(slots) > 1:
                    continue
                cases.append(("again", dict(m=m, slots=slots, via1=v1, via2=v2), {}))
    for slots in (["s"], ["s", "n"], ["A", "n", "n:m"]):
        for c in ("clear", "pop", "reverse", "append", "regroup", "set"):
            cases.append(("again", dict(m=(1, None, 1, None), slots=slots, via1="list", via2="list", change=c), {}))
        cases.append(("again", dict(m=(1, None, 1, None), slots=slots, via1="list", via2="list", data=True), {}))
    return {"cases": cases, "witnesses": ["again", "refused: multi-book", "ok", "refused: no book", "refused: chapter", "refused: verse"],
            "bounds": "a first text of one or two references (meaningful or not, also with a syntax error or unknown book after them) and a "
                      "second of one or two, in every form, with any numbers up to 200, the same or different flags; the same text twice, also after changing the list it gave; two books with "
                      "arbitrary tables",
            "outside": "texts parsed in several threads at once"}
