"""A reference text means what the documentation says, for any numbers."""
from .parsing import *


def text_case(sx, g, a, slots, seps, books="AB", end=False, style={}):
    """slots: per reference "s" (single) or "d" (a range), or a fixed form."""
    eff, arg = begin(sx, g, a)
    T = Txt(sx, **style)
    forms = singles(books)
    refs, texts = [], []
    for i, sl in enumerate(slots):
        if sl in ("s", "d"):
            fs = [sx.choice("f%d" % i, forms)]
            if sl == "d":
                fs.append(sx.choice("h%d" % i, forms))
        else:
            fs = sl.split("-")
        parts = [T.single(f) for f in fs]
        refs.append([p[1] for p in parts])
        texts.append((T.gap + "-" + T.gap).join(p[0] for p in parts))
    sp = [sx.choice("sep%d" % i, seps) for i in range(len(slots) - 1)]
    text = texts[0]
    for s, t in zip(sp, texts[1:]):
        text += T.gap + s + (T.gap or " ") + t
    if T.gap:
        text = T.gap + text + T.gap
    if end:
        text += sx.choice("end", (";", ","))
    kind, r = sx.run(sx.br.BibleRangeList, text, flags=arg)
    try:
        want = Meaning(sx, eff).text(refs, sp)
    except Refused as e:
        sx.check(kind == "exc" and isinstance(r, sx.br.ref.BibleRefParsingError), "a text without meaning is a parsing error",
                 text=text, got=r, why=e)
        sx.reach("refused: %s" % e)
        return
    sx.check(kind == "ok", "a meaningful text parses", text=text, got=r)
    compare(sx, want, r, text)
    sx.reach("ok")
    # strings given to the range and verse constructors
    n = sum(len(x) for x in want)
    k1, r1 = sx.run(sx.br.BibleRange, text, flags=arg)
    if n == 1:
        s, e = want[0][0]
        sx.check(k1 == "ok" and sx.And(is_verse(sx, r1.start, s), is_verse(sx, r1.end, e)), "BibleRange from the text", text=text, got=r1)
    else:
        sx.check(k1 == "exc" and isinstance(r1, sx.br.ref.InvalidReferenceError), "BibleRange refuses more than one range", text=text, got=r1)
    k2, r2 = sx.run(sx.br.BibleVerse, text, flags=arg)
    one = n == 1 and sx.fix(k_eq(sx, want[0][0][0].key(sx), want[0][0][1].key(sx)))
    if one:
        sx.check(k2 == "ok" and is_verse(sx, r2, want[0][0][0]), "BibleVerse from the text", text=text, got=r2)
    else:
        sx.check(k2 == "exc" and isinstance(r2, sx.br.ref.InvalidReferenceError), "BibleVerse refuses anything but one verse", text=text, got=r2)


def plan(tier):
    quick = tier == "quick"
    cases = []
    both = [";", ","]
    S = singles("AB")

    def add(m, slots, **k):
        cases.append(("text_case", dict(m, slots=slots, seps=both, **k), {}))

    for m in modes():
        add(m, ["s"], end=True)
        add(m, ["d"])
    for m in [{"g": 0, "a": None}, {"g": 0, "a": 3}] if quick else modes():
        for f in S:
            add(m, [f, "s"])
    for m in [{"g": 0, "a": None}, {"g": 1, "a": None}] if quick else modes(both=False):
        for f in singles("A"):
            add(m, [f, "d"], books="A" if quick else "AB")
            for h in singles("A"):
                add(m, [f + "-" + h, "s"], books="AB")
    for m in [{"g": 0, "a": None}]:
        for f in singles("A") if quick else S:
            for h in S:
                add(m, [f, h, "s"], books="AB")
                if not quick:
                    add(m, [f, h, "d"], books="A")
                    add(m, [f + "-" + h, "s", "s"], books="A")
    for m in [{"g": 0, "a": None}]:
        for f in singles("A")[:3]:
            for h in singles("A"):
                add(m, [f, h, "s", "s"], books="A" if quick else "AB")
    # the spelling: leading zeros, the alternate separator, white space
    for style in ({"zeros": "0"}, {"zeros": "00", "sep": "."}, {"gap": " \t\n "}, {"sep": ".", "gap": "  "}):
        m = {"g": 0, "a": 3}
        add(m, ["s"], style=style, end=True)
        add(m, ["d"], style=style, books="AB" if not quick else "A")
        add(m, ["An:m" if style.get("zeros") else "A", "s"], style=style, books="A")
    return {"cases": cases,
            "witnesses": ["ok"] + ["refused: " + x for x in ("no book", "chapter", "verse", "multi-book")],
            "bounds": "texts of up to four references, single or a range of two, in every combination of forms (book, book and number, "
                      "book and chapter:verse, number, chapter:verse) and separators, with any numbers up to 200; two books with arbitrary "
                      "tables (also one-chapter books); shorter texts also with leading zeros, the alternate separator and other white space",
            "outside": "other spellings of the names (C18)"}
