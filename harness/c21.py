"""Texts that are not references are refused with a parsing error that points into the text."""
from .parsing import *

# pieces of a text: words, a number, punctuation
PIECES = ("Mark", "Sam", "Zzz", "#", ":", ".", "-", ";", ",")
WORDS = {"Mark": "A", "1 Sam": "B"}


class Syntax(Exception):
    """Where the first token stands that does not fit (None: at the end)."""

    def __init__(self, tok):
        self.at = tok[3]


def lex(pieces):
    """Names, numbers and punctuation with their spans; a name is a run of words and numbers
    up to its last word."""
    toks, i = [], 0
    while i < len(pieces):
        kind, text, n, s, e = pieces[i]
        if kind == "p":
            toks.append(pieces[i])
            i += 1
            continue
        j = i
        while j < len(pieces) and pieces[j][0] != "p":
            j += 1
        last = max([k for k in range(i, j) if pieces[k][0] == "w"], default=None)
        if last is not None:
            name = " ".join(pieces[k][1] for k in range(i, last + 1))
            toks.append(("name", name, None, s, pieces[last][4]))
            i = last + 1
        toks.extend(("num",) + p[1:] for p in pieces[i:j])
        i = j
    return toks


class Read:
    """Recursive descent over the tokens: [(forms, (start, end))], separators."""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("end", "", None, None, None)

    def take(self, kind, text=None):
        x = self.peek()
        if x[0] != kind or (text is not None and x[1] not in text):
            raise Syntax(x)
        self.i += 1
        return x

    def single(self):
        name = self.take("name") if self.peek()[0] == "name" else None
        n = m = None
        last = name
        if name is None or self.peek()[0] == "num":
            n = last = self.take("num")
            if self.peek()[1] in (":", ".") and self.peek()[0] == "p":
                self.take("p")
                m = last = self.take("num")
        return (name, n, m), (( name or n)[3], last[4])

    def all(self):
        refs, seps = [], []
        while True:
            f, span = self.single()
            fs, spans = [f], [span]
            if self.peek()[0] == "p" and self.peek()[1] == "-":
                self.take("p")
                f, span = self.single()
                fs.append(f)
                spans.append(span)
            refs.append((fs, spans))
            if self.peek()[0] == "end":
                return refs, seps
            seps.append(self.take("p", (";", ","))[1])
            if self.peek()[0] == "end":
                return refs, seps


class At(Exception):
    def __init__(self, why, start, end):
        self.why, self.start, self.end = why, start, end


def meaning(sx, eff, refs, seps):
    """Groups of (first, last), or At."""
    M = Meaning(sx, eff)
    orig = M.single

    def single(f):
        (name, n, m), span = f
        b = None
        if name is not None:
            if name[1] not in WORDS:
                raise At("book", name[3], name[4])
            b = WORDS[name[1]]
        try:
            return orig((b, None if n is None else n[2], None if m is None else m[2]))
        except Refused as e:
            raise At(str(e), *span)
    M.single = single
    out = [[]]
    for i, (fs, spans) in enumerate(refs):
        if i and seps[i - 1] == ";":
            M.verses = False
            out.append([])
        try:
            out[-1].append(M.ref(list(zip(fs, spans))))
        except Refused as e:
            raise At(str(e), spans[0][0], spans[-1][1])
    return out


def any_text(sx, g, a, n, head=(), spaces=False):
    eff, arg = begin(sx, g, a)
    pieces, text, k = [], "", 0
    kinds = list(head)
    while len(kinds) < n:
        kinds.append(sx.choice("k%d" % len(kinds), PIECES))
    for i, x in enumerate(kinds):
        if x in ("Mark", "Sam", "Zzz", "#") and i and (kinds[i - 1] in ("Mark", "Sam", "Zzz", "#", ";", ",")) or spaces and i:
            text += " "
        s = len(text)
        if x == "#":
            rest = kinds[i + 1:]
            stop = [y for y in rest if y != "#"][:1]
            if stop and stop[0] in ("Mark", "Sam", "Zzz"):
                num, t = 1, "1"                       # part of a name
            else:
                num = sx.int("n%d" % i, 0, 200)
                t = str(num)
            pieces.append(("n", t, num, s, s + len(t)))
            text += t
        else:
            pieces.append(("w" if x in ("Mark", "Sam", "Zzz") else "p", x, None, s, s + len(x)))
            text += x
    if spaces:
        text = " " + text + "  "
    off = 1 if spaces else 0
    kind, r = sx.run(sx.br.BibleRangeList, text, flags=arg)
    err = sx.br.ref.BibleRefParsingError
    sx.check(kind == "ok" or isinstance(r, err), "only parsing errors are raised", text=text, got=repr(r))
    if kind == "exc":
        sx.check(sx.And(r.start_pos is not None, 0 <= r.start_pos, r.start_pos <= r.end_pos, r.end_pos <= len(text)),
                 "the error points into the text", text=text, got=(r.start_pos, r.end_pos))
        sx.check(isinstance(r, sx.br.BibleRefException) and len(str(r)) > 0, "the error says something")
    try:
        refs, seps = Read(lex(pieces)).all()
    except Syntax as e:
        sx.check(kind == "exc", "a text that is no list of references is refused", text=text, got=r)
        if e.at is None:
            sx.check(sx.And(r.start_pos == len(text), r.end_pos == len(text)), "the error points at the end of the text", text=text, got=(r.start_pos, r.end_pos))
        else:
            starts = [p[3] + off for p in pieces if p[3] >= e.at]       # (a number before a word may be read on its own)
            sx.check(sx.And(sx.Or(*[r.start_pos == x for x in starts]), r.end_pos > r.start_pos), "the error points at something that does not fit",
                     text=text, got=(r.start_pos, r.end_pos), want=e.at + off)
        sx.reach("syntax")
        return
    try:
        want = meaning(sx, eff, refs, seps)
    except At as e:
        sx.check(kind == "exc", "a text without meaning is refused", text=text, got=r, why=e.why)
        sx.check(sx.And(r.start_pos == e.start + off, r.end_pos == e.end + off), "the error points at the reference",
                 text=text, got=(r.start_pos, r.end_pos), want=(e.start + off, e.end + off), why=e.why)
        sx.reach("refused: " + e.why)
        return
    sx.check(kind == "ok", "a meaningful text parses", text=text, got=r)
    compare(sx, want, r, text)
    sx.reach("ok")


def strange(sx, text):
    """Texts with characters that occur in no reference."""
    sx.set_flags(sx.br.BibleFlag.NONE)
    n = sx.fix(sx.int("n", 1, 12))
    t = text.replace("#", str(n))
    for cls in (sx.br.BibleRangeList, sx.br.BibleRange, sx.br.BibleVerse):
        kind, r = sx.run(cls, t)
        sx.check(kind == "exc" and isinstance(r, sx.br.ref.BibleRefParsingError), "refused with a parsing error", text=t, got=repr(r))
        sx.check(sx.And(r.start_pos is not None, 0 <= r.start_pos, r.start_pos <= r.end_pos, r.end_pos <= len(t)),
                 "the error points into the text", text=t, got=(r.start_pos, r.end_pos))
        sx.check(sx.Or(r.start_pos < r.end_pos, r.start_pos == len(t)), "the error points at some text, or the end", text=t, got=(r.start_pos, r.end_pos))


def plan(tier):
    quick = tier == "quick"
    cases = []
    for m in modes(both=False):
        cases.append(("any_text", dict(m, n=1), {}))
        cases.append(("any_text", dict(m, n=2), {}))
    for m in modes(both=True) if not quick else [{"g": 0, "a": None}, {"g": 0, "a": 3}]:
        for h in PIECES:
            cases.append(("any_text", dict(m, n=3, head=[h]), {}))
    for h in PIECES:
        for h2 in PIECES:
            cases.append(("any_text", dict(g=0, a=None, n=5 if quick else 6, head=[h, h2]), {}))
    for h in PIECES[:4]:
        cases.append(("any_text", dict(g=0, a=None, n=3, head=[h], spaces=True), {}))
        for tail in ([":", "#"], ["#", ":", "#"], ["-", "#"]):
            cases.append(("any_text", dict(g=0, a=None, n=len(tail) + 3 if quick else len(tail) + 4, head=[h] + tail), {}))
    for t in ("", " ", "?", "#?", "Mark # & #", "Mark #:#?", "(Mark #)", "Mark\t#:#:#", "Mark #–#", "Mark #a", "#:#a", "Mark #_#",
              "\n", ";", "é #", "Mark #:# / #", "#st", "Mark !", "²", "Mark ²", "Mark #:²", "Mark ٣", "Mark #:٣"):
        cases.append(("strange", dict(text=t), {}))
    return {"cases": cases,
            "witnesses": ["ok", "syntax"] + ["refused: " + x for x in ("no book", "book", "chapter", "verse", "multi-book")][:4],
            "bounds": "every sequence of up to %d pieces (three words of which two are, alone or after 1, names of books, any number up to "
                      "200, and the five punctuation characters), and longer ones after a book name; arbitrary tables" % (5 if quick else 6),
            "outside": "other words and characters than those listed (a few texts with other characters are decided for numbers up to 12)"}
