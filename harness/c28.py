"""The shipped data: the 66 books, their chapters and verses, psalm titles and names."""
import json, os
from symx import rx
from .common import *
from .c18 import name_lang

GOLD = json.load(open(os.path.join(os.path.dirname(__file__), "golden.json")))
R = {"real": True}


def bookof(sx, i):
    return getattr(sx.br.BibleBook, GOLD[i]["id"], None)


def tables(sx, i):
    """Exactly the verses of the standard versification exist."""
    e = GOLD[i]
    b = bookof(sx, i)
    sx.check(b is not None and list(sx.br.bible_data().book_order)[i] is b, "the book has its place", got=list(sx.br.bible_data().book_order)[i], want=e["id"])
    sx.check(b.order == i, "order of the book", got=b.order)
    z = sx.flag("zero")
    sx.set_flags(F(sx, V0 if z else 0))
    c, v = sx.int("c", -1, 160), sx.int("v", -1, 200)
    rows = e["verses"]
    good = sx.Or(*[sx.And(c == j + 1, v >= (0 if z and j + 1 in e["zeros"] else 1), v <= n) for j, n in enumerate(rows)])
    kind, r = sx.run(sx.br.BibleVerse, b, c, v)
    sx.check(sx.Iff(kind == "ok", good), "exactly the standard verses exist", got=r, chapter=c, verse=v)
    sx.check(b.max_chap_num() == len(rows) and b.chap_count() == len(rows), "number of chapters", got=b.chap_count(), want=len(rows))
    if kind == "ok":
        sx.check(sx.Or(*[sx.And(c == j + 1, b.max_verse_num(c) == n) for j, n in enumerate(rows)]), "last verse of a chapter", chapter=c, got=b.max_verse_num(c))
        sx.check(sx.Iff(b.min_verse_num(c) == 0, sx.And(z, sx.Or(*[c == x for x in e["zeros"]]))), "first verse of a chapter", chapter=c, got=b.min_verse_num(c))
    sx.reach(kind)


def whole(sx):
    br = sx.br
    order = [x.name for x in br.bible_data().book_order]
    sx.check(order == [e["id"] for e in GOLD], "the books in order", got=order)
    sx.check(sorted(x.name for x in br.BibleBook) == sorted(order), "every book has a place")
    d = br.bible_data()
    seps = (d.range_sep, d.major_list_sep, d.minor_list_sep, d.verse_sep_std, d.verse_sep_alt)
    sx.check(seps == ("-", ";", ",", ":", "."), "the usual separators", got=seps)
    sx.check(br.flags == br.BibleFlag.NONE, "no flags", got=br.flags)


def firsts(e):
    out = set()
    for x in [e["title"], e["abbrev"]] + e["extra"]:
        out |= {x[0].upper(), x[0].lower()}
    return sorted(out | ({"I", "i"} if e["title"][1] == " " else set()))


def names(sx, i, first):
    """Every usual name of the book is accepted."""
    e = GOLD[i]
    b = bookof(sx, i)
    s = sx.text("s", first)
    sx.assume(sx.in_re(s.strip(), name_lang((e["abbrev"], e["title"], e["least"], e["extra"]))))
    r = sx.br.BibleBook.from_str(s)
    sx.check(r is b, "a usual name names the book", string=s, got=r, want=b)
    sx.check(b.title == e["title"] and b.abbrev == e["abbrev"], "title and abbreviation", got=(b.title, b.abbrev), want=(e["title"], e["abbrev"]))
    sx.reach("name")


def plan(tier):
    cases = [("whole", {}, R)]
    for i in range(66):
        cases.append(("tables", dict(i=i), R))
        cases += [("names", dict(i=i, first=f), R) for f in firsts(GOLD[i])]
    return {"cases": cases, "witnesses": ["ok", "exc", "name"],
            "bounds": "every book, any chapter and verse numbers, any string among the names listed in harness/golden.json"}
