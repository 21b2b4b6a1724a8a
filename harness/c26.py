"""Separators set by the user are the ones written and read."""
from .common import *
from .c16 import elements, cut

NAMES = ("range_sep", "major_list_sep", "minor_list_sep", "verse_sep_std", "verse_sep_alt")
DEFAULT = dict(zip(NAMES, "-;,:."))
# every single punctuation mark that can be any separator
MARKS = "!#$%&'()*+/<=>?@[]^`{|}~" + "\u2013\u2014\u00b7\u2020"
FULL = [
    dict(verse_sep_std=",", minor_list_sep=".", verse_sep_alt=":"),
    dict(range_sep="\u2013", verse_sep_std=".", verse_sep_alt=":"),
    dict(range_sep="~", major_list_sep="|", minor_list_sep="+", verse_sep_std="/", verse_sep_alt="*"),
    dict(major_list_sep=",", minor_list_sep=";"),
    dict(range_sep=":", verse_sep_std="-"),
]


def settings(which, marks):
    if which < len(NAMES):
        return [{NAMES[which]: m} for m in marks]
    return [FULL[which - len(NAMES)]]


def use(sx, which, marks):
    """Set separators (one of the settings); gives all five and a translation from the usual ones."""
    new = sx.choice("seps", settings(which, marks))
    d = sx.br.bible_data()
    for n in NAMES:
        if n in new:
            setattr(d, n, new[n])
    now = dict(DEFAULT, **new)
    for n in NAMES:
        sx.check(getattr(d, n) == now[n], "the separator set is the one read", name=n)
    return now


def translate(text, now):
    m = {DEFAULT[n]: now[n] for n in NAMES}
    return "".join(m.get(c, c) for c in text)


def trip(sx, which, marks, plan, shape, fmt, inner):
    """Strings use the new separators in the places of the usual ones, and parse back."""
    sx.set_flags(F(sx, MB))
    ps, rs = elements(sx, MB, plan, 1, inner)
    lst = sx.br.BibleRangeList(cut(rs, shape))
    kw = {f: True for f in fmt}
    usual = lst.str(**kw)
    one = rs[0].str(**kw)
    sx.br.BibleRangeList(usual)                 # a parser exists already
    now = use(sx, which, marks)
    text = lst.str(**kw)
    sx.check(text == translate(usual, now), "the string uses the new separators", got=text, usual=usual)
    sx.check(rs[0].str(**kw) == translate(one, now), "the string of a range uses the new separators", got=rs[0].str(**kw), usual=one)
    kind, back = sx.run(sx.br.BibleRangeList, text)
    sx.check(kind == "ok" and back == lst and [len(x) for x in back.groups] == shape, "and parses back to the list", text=text, got=back)
    sx.reach("trip")


TEXTS = ("Mark %:%", "Mark %.%-%.%", "Mark %:%, %-%; %", "Mark % - Luke %", "Mark; Luke %.%, %:%", "1 John %, Song of Songs %", "Jude %-%, %", "%:%", "Mark %;%:%,")


def meaning(sx, which, marks, text, fresh):
    """A text with the new separators means what the text with the usual ones meant."""
    sx.set_flags(F(sx, MB))
    t = text
    while "%" in t:
        t = t.replace("%", str(sx.int("n%d" % t.count("%"), 0, 60)), 1)
    k1, want = sx.run(sx.br.BibleRangeList, t) if not fresh else (None, None)
    now = use(sx, which, marks)
    t2 = translate(t, now)
    k2, got = sx.run(sx.br.BibleRangeList, t2)
    if not fresh:
        sx.check(k1 == k2, "a text is accepted as before with the new separators", text=t2, want=want, got=got)
        if k1 == "ok":
            sx.check(got == want and [len(x) for x in got.groups] == [len(x) for x in want.groups], "and means the same", text=t2, want=want, got=got)
        else:
            sx.check(type(got) is type(want) and (want.start_pos, want.end_pos) == (got.start_pos, got.end_pos), "and is refused in the same way", text=t2, want=want, got=got)
        sx.reach(k1)
    gone = [c for c in DEFAULT.values() if c not in now.values()]
    for c in gone:
        for old in ("Mark 1%s2" % c, "Mark%s Luke" % c):
            kind, r = sx.run(sx.br.BibleRangeList, old)
            sx.check(kind == "exc" and isinstance(r, sx.br.ref.BibleRefParsingError), "a separator no longer set is refused", text=old, got=r)
            sx.reach("gone")


def plan(tier):
    quick = tier == "quick"
    A, B, X = (0, 0), (1, 1), (0, 1)
    cases = []
    few = ["!\u2013"]
    for w in range(len(NAMES) + len(FULL)):
        sets = few if quick else [MARKS[i:i + 4] for i in range(0, len(MARKS), 4)]
        for marks in sets if w < len(NAMES) else [""]:
            for fmt in ((), ("alt_sep",), ("nospace", "abbrev")):
                if quick and fmt == ("alt_sep",) and w < 3:
                    continue
                for pl, shape in (([A, A], [2]), ([X, B], [1, 1])) if quick else (([A, A], [2]), ([A, B], [1, 1]), ([X, B], [1, 1]), ([A, A], [1, 1])):
                    cases.append(("trip", dict(which=w, marks=marks, plan=pl, shape=shape, fmt=fmt, inner=quick), {}))
        for marks in [MARKS[i:i + 7] for i in range(0, len(MARKS), 7)] if w < len(NAMES) else [""]:
            for t in TEXTS:
                cases.append(("meaning", dict(which=w, marks=marks, text=t, fresh=False), {}))
            cases.append(("meaning", dict(which=w, marks=marks, text="Mark %", fresh=True), {}))
    return {"cases": cases, "witnesses": ["trip", "ok", "exc", "gone"],
            "bounds": "each separator replaced by any of %d marks, and %d settings changing several; lists of two ranges over at most two chapters or to "
                      "another book; nine kinds of text with any numbers up to 60" % (len(MARKS), len(FULL))}
