"""The concrete twin of api.Sym: runs a harness on one solver model against the
unmodified package, imported normally from /repo/src by the interpreter the
repository itself uses.  No solver here."""
import os
import sys
from symx.plain import plain

SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")


class AssumeFailed(BaseException):
    pass


class CheckFailed(BaseException):
    def __init__(self, label, info):
        self.label = label
        self.info = info


class Conc:
    symbolic = False

    def __init__(self, values, tables, case, real):
        import bibleref
        self.br = bibleref
        self.values = values
        self.case = case
        self.reached = {}
        self.n_checks = 0
        d = bibleref.bible_data()
        self._order = list(d.book_order)
        if not real:
            rows = {b: list(v) for b, v in bibleref.data.default_max_verses.items()}
            v0 = {b: set() for b in self._order}
            for o, n in tables["nch"]:
                if 0 <= o < len(self._order):
                    r = rows[self._order[o]]
                    del r[n:]
                    r.extend([1] * (n - len(r)))
            for o, c, n in tables["mv"]:
                if 0 <= o < len(self._order):
                    r = rows[self._order[o]]
                    if 1 <= c <= len(r):
                        r[c - 1] = n
            for o, c, f in tables["v0"]:
                if 0 <= o < len(self._order) and f:
                    v0[self._order[o]].add(c)
            d.max_verses = rows
            d.verse_0s = v0
            self._rows, self._v0 = rows, v0
        else:
            self._rows = {b: list(v) for b, v in bibleref.data.default_max_verses.items()}
            self._v0 = {b: set(v) for b, v in bibleref.data.default_verse_0s.items()}
        self._index = {b: i for i, b in enumerate(self._order)}

    def _get(self, name, lo):
        return self.values.get(name, lo)

    def int(self, name, lo, hi):
        v = self._get(name, lo)
        if not lo <= v <= hi:
            raise AssumeFailed(name)
        return v

    def choice(self, name, items):
        items = list(items)
        return items[self._get(name, 0)]

    def flag(self, name):
        return self.choice(name, (False, True))

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def book(self, name, lo=0, hi=None):
        return self._order[self._get(name, lo)]

    def text(self, name, first="", ends=True):
        t = (first or "") + self.values.get(name + "_core", "")
        return self.values.get(name + "_pre", "") + t + self.values.get(name + "_post", "") if ends else t

    def in_re(self, s, lang):
        from symx import rx
        return rx.full(lang, s)

    def book_at(self, i):
        return self._order[i]

    def mkverse(self, b, c, v):
        return self.br.BibleVerse(b, c, v, flags=self.br.BibleFlag.ALL)

    def mkrange(self, p, q):
        return self.br.BibleRange(start=p, end=q, flags=self.br.BibleFlag.ALL)

    def pos(self, book):
        return self._index[book]

    @property
    def n_books(self):
        return len(self._order)

    def fix(self, x):
        return x

    def nch(self, book):
        return len(self._rows[book])

    def mv(self, book, c):
        r = self._rows[book]
        return r[c - 1] if 1 <= c <= len(r) else 1

    def v0(self, book, c):
        return c in self._v0.get(book, ())

    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def If(self, c, a, b):
        return a if c else b

    def assume(self, c):
        if not c:
            raise AssumeFailed("assume")

    def check(self, cond, label, **info):
        self.n_checks += 1
        if not cond:
            raise CheckFailed(label, {k: str(v) for k, v in info.items()})

    def fail(self, label, **info):
        self.check(False, label, **info)

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def set_flags(self, f):
        self.br.flags = f

    def hash(self, x):
        return hash(x)

    def run(self, f, *a, **k):
        try:
            return ("ok", f(*a, **k))
        except Exception as e:
            return ("exc", e)

    def fresh(self, f):
        """What f() gives (as plain data), run in a process forked off for it."""
        import json
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    out = ["ok", plain(self, self.run(f))]
                except AssumeFailed as e:
                    out = ["assume", str(e)]
                except CheckFailed as e:
                    out = ["check", e.label, e.info]
                with os.fdopen(w, "w") as h:
                    json.dump(out, h)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as h:
            out = json.load(h)
        os.waitpid(pid, 0)
        if out[0] == "assume":
            raise AssumeFailed(out[1])
        if out[0] == "check":
            raise CheckFailed(out[1], out[2])
        return out[1]

    def isinstance_int(self, x):
        return type(x) is int
