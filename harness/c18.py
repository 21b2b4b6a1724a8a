"""Book names: which strings name which book, for every string."""
from symx import rx
from .common import *


def name_lang(entry):
    """The strings that name a book, from its name data: any beginning of the title at least as
    long as the minimum, with any amount of white space (or none) for a space, in any case; a
    leading number written as a digit or, followed by white space, as a Roman numeral; the
    abbreviation and the extra abbreviations."""
    abbrev, title, least, extra = entry
    number, rest = None, title
    if title[:1] in "123" and title[1:2] == " ":
        number, rest = int(title[0]), title[2:]
    heads = rx.EPS
    if number:
        heads = rx.alt(rx.cat(rx.lit(str(number)), rx.star(rx.ws)), rx.cat(rx.lit("I" * number, True), rx.plus(rx.ws)))

    def words(s):
        return rx.cat(*[rx.star(rx.ws) if c == " " else rx.lit(c, True) for c in s])

    tails = rx.alt(*[words(rest[:k]) for k in range(least, len(rest) + 1)])
    return rx.alt(rx.cat(heads, tails), *[words(x) for x in [abbrev] + list(extra)])


FIRSTS = [chr(c) for c in range(33, 127) if chr(c).isalnum()]


def a_string(sx, first):
    """An arbitrary string with the given first character; "" for one that starts otherwise."""
    s = sx.text("s", first)
    core = s.strip()
    if not first:
        rs = ((33, 47), (58, 64), (91, 96), (123, 126))
        sx.assume(sx.in_re(core, rx.alt(rx.EPS, rx.cat(rx.chars(*rs), rx.star(rx.ANY)))))
    return s, core


def langs(sx):
    nd = sx.br.bible_data().name_data
    return [(b, name_lang(nd[b])) for b in sx.br.BibleBook if b in nd]


def from_str(sx, first):
    """from_str of any string gives exactly the book whose name it is."""
    s, core = a_string(sx, first)
    r = sx.br.BibleBook.from_str(s)
    for b, lang in langs(sx):
        sx.check(sx.Iff(r is b, sx.in_re(core, lang)), "a string names the book whose name it is, and no other",
                 string=s, got=r, book=b)
    sx.check(r is None or isinstance(r, sx.br.BibleBook), "a book or None", string=s, got=r)
    sx.reach("none" if r is None else "book")


def constructors(sx, first, how):
    """Names given to the constructors; unknown ones are refused."""
    s, core = a_string(sx, first)
    br = sx.br
    sx.set_flags(br.BibleFlag.ALL)
    f = {"verse": lambda: br.BibleVerse(s, 1, 1), "start": lambda: br.BibleRange(s, 1, 1),
         "end": lambda: br.BibleRange(br.BibleBook.Gen, 1, 1, s, 1, 1), "error": lambda: br.BibleBook.from_str(s, raise_error=True)}[how]
    kind, r = sx.run(f)
    if kind == "exc":
        sx.check(isinstance(r, br.ref.InvalidReferenceError), "an unknown name is an invalid reference", string=s, got=r)
        book = None
    else:
        book = {"verse": lambda: r.book, "start": lambda: r.start.book, "end": lambda: r.end.book, "error": lambda: r}[how]()
    for b, lang in langs(sx):
        sx.check(sx.Iff(book is b, sx.in_re(core, lang)), "a name given to a constructor means its book", string=s, got=r, book=b)
    sx.reach("none" if book is None else "book")


def spellings(entry, quick):
    """Every beginning of the title and every abbreviation, written in several ways."""
    abbrev, title, least, extra = entry
    numbers, rest = [""], title
    if title[:1] in "123" and title[1:2] == " ":
        n, rest = title[0], title[2:]
        numbers = [n + " ", "I" * int(n) + " ", n] + ([] if quick else ["i" * int(n) + "  ", n + "   "])
    out = [h + rest[:k].strip() for h in numbers for k in range(least, len(rest) + 1)]
    out += [abbrev] + list(extra)
    out += [x.upper() for x in out[-1:] + out[:1]] if quick else [x.upper() for x in out] + [x.lower() for x in out]
    out += [x.replace(" ", "  ") for x in out if " " in x] + [x.replace(" ", "") for x in out if " " in x and x[:1] not in "Ii"]
    return sorted(set(out))


def in_text(sx, book, quick):
    """Every name works in a text, for any chapter and verse."""
    b = sx.fix(sx.book_at(book))
    name = sx.choice("name", spellings(sx.br.bible_data().name_data[b], quick))
    sx.set_flags(sx.br.BibleFlag.NONE)
    n, m = sx.int("n", 0, 200), sx.int("m", 0, 200)
    good = sx.fix(sx.And(n >= 1, n <= sx.nch(b), m >= 1, m <= sx.mv(b, n)))
    text = name + " " + str(n) + ":" + str(m)
    kind, r = sx.run(sx.br.BibleRangeList, text)
    if good:
        sx.check(kind == "ok" and len(r) == 1 and sx.And(is_verse(sx, r[0].start, Pt(b, n, m)), is_verse(sx, r[0].end, Pt(b, n, m))),
                 "a name in a text means its book", text=text, got=r)
        k2, r2 = sx.run(sx.br.BibleRange, name + "-" + str(n) + ":" + str(m))
        sx.check(k2 == "ok" and sx.And(is_verse(sx, r2.start, Pt(b, 1, 1)), is_verse(sx, r2.end, Pt(b, n, m))),
                 "a name alone at the start of a range", name=name, got=r2)
        sx.reach("text")
    else:
        sx.check(kind == "exc" and isinstance(r, sx.br.ref.BibleRefParsingError), "no such verse", text=text, got=r)


def plan(tier):
    firsts = FIRSTS + [""]
    cases = [("from_str", dict(first=f), {}) for f in firsts]
    for how in ("error", "verse", "start", "end"):
        cases += [("constructors", dict(first=f, how=how), {}) for f in firsts]
    cases += [("in_text", dict(book=i, quick=tier == "quick"), {}) for i in range(66)]
    return {"cases": cases, "witnesses": ["none", "book", "text"],
            "bounds": "strings of ASCII characters of any length (split by first character); in texts: every beginning of every "
                      "title and every abbreviation in several spellings, any chapter and verse numbers up to 200",
            "outside": "strings with characters outside ASCII"}
