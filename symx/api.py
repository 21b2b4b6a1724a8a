"""The interface harnesses are written against, in its symbolic implementation.

replay.py holds the concrete twin, which runs the same harness on a solver model
against the unmodified package.
"""
import sys
from . import engine as E
from . import terms as tm
from . import values as V
from . import strings as S
from . import rx
from .plain import plain

_b = V.bexpr_of



class Sym:
    symbolic = True

    def __init__(self, subject, eng, tables, case):
        self.s = subject
        self.eng = eng
        self.t = tables
        self.case = case
        self.br = subject.bibleref
        self.vars = []          # (name, kind, expr or value)
        self.on_fail = None
        self.pending = []
        eng.sx = self

    # ---- inputs --------------------------------------------------------
    def int(self, name, lo, hi):
        v = tm.var(name)
        self.vars.append((name, v))
        self.eng.assume(tm.le(lo, v))
        self.eng.assume(tm.le(v, hi))
        return V.SymInt(v)

    def choice(self, name, items):
        items = list(items)
        if len(items) == 1:
            self.vars.append((name, 0))
            return items[0]
        v = tm.var(name)
        self.vars.append((name, v))
        self.eng.assume(tm.le(0, v))
        self.eng.assume(tm.lt(v, len(items)))
        return items[self.eng.concretize(v)]

    def flag(self, name):
        return self.choice(name, (False, True))

    def bool(self, name):
        v = tm.var(name)
        self.vars.append((name, v))
        self.eng.assume(tm.le(0, v))
        self.eng.assume(tm.le(v, 1))
        return V.mkbool(tm.eq(v, 1))

    def book(self, name, lo=0, hi=None):
        n = len(self.s.space.members)
        if hi is None:
            hi = n - 1
        v = tm.var(name)
        self.vars.append((name, v))
        self.eng.assume(tm.le(lo, v))
        self.eng.assume(tm.le(v, hi))
        return V.SymBook(v)

    def text(self, name, first="", ends=True):
        """Any string of ASCII characters that, but for white space at its ends, starts with `first`
        (any of them with first=None); with ends=False one without white space at its ends."""
        core = name + "_core"
        ws, inner = rx.star(rx.chars((9, 10), (32, 32))), rx.chars((33, 126))
        if first:
            lang, mid = rx.alt(rx.EPS, rx.cat(rx.star(S.ALPHABET), inner)), ("=" + first, core)
        else:
            lang, mid = rx.alt(rx.EPS, inner, rx.cat(inner, rx.star(S.ALPHABET), inner)), (core,)
        langs = {core: lang}
        parts = mid
        if ends:
            pre, post = name + "_pre", name + "_post"
            langs[pre] = langs[post] = ws
            parts = (pre,) + mid + (post,)
        for p, l in langs.items():
            self.vars.append((p, tm.svar(p)))
            self.eng.assume(tm.inre((p,), l))
        return S.SymStr(parts, mid)

    def in_re(self, s, lang):
        if type(s) is S.SymStr:
            return V.mkbool(S.in_re(s, lang))
        return rx.full(lang, s)

    def book_at(self, i):
        """The book at position i (symbolic or not) of the book order."""
        e = V.iexpr(i)
        return V.SymBook(e)

    def mkverse(self, b, c, v):
        """A verse object for a position known to be valid."""
        if self.s.plain_verse:
            o = object.__new__(self.br.BibleVerse)
            object.__setattr__(o, "book", b)
            object.__setattr__(o, "chap_num", c)
            object.__setattr__(o, "verse_num", v)
            return o
        return self.br.BibleVerse(b, c, v, flags=self.br.BibleFlag.ALL)

    def mkrange(self, p, q):
        """A range object for two verse objects known to be in order."""
        if self.s.plain_range:
            o = object.__new__(self.br.BibleRange)
            object.__setattr__(o, "start", p)
            object.__setattr__(o, "end", q)
            return o
        return self.br.BibleRange(start=p, end=q, flags=self.br.BibleFlag.ALL)

    def pos(self, book):
        return V.mkint(V.book_index(book))

    @property
    def n_books(self):
        return len(self.s.space.members)

    def fix(self, x):
        """Concretise by forking."""
        if type(x) is V.SymInt:
            return int(x)
        if type(x) is V.SymBook:
            return x._concrete()
        if type(x) is V.SymBool:
            return bool(x)
        return x

    # ---- tables --------------------------------------------------------
    def nch(self, book):
        return V.mkint(self.t.nch(V.book_index(book)))

    def mv(self, book, c):
        return V.mkint(self.t.mv(V.book_index(book), V.iexpr(c)))

    def v0(self, book, c):
        return V.mkbool(self.t.v0(V.book_index(book), V.iexpr(c)))

    # ---- logic ---------------------------------------------------------
    def And(self, *a):
        return V.mkbool(tm.and_(*[_b(x) for x in a]))

    def Or(self, *a):
        return V.mkbool(tm.or_(*[_b(x) for x in a]))

    def Not(self, a):
        return V.mkbool(tm.not_(_b(a)))

    def Implies(self, a, b):
        return V.mkbool(tm.or_(tm.not_(_b(a)), _b(b)))

    def Iff(self, a, b):
        return V.mkbool(tm.iff(_b(a), _b(b)))

    def If(self, c, a, b):
        return V.mkint(tm.ite(_b(c), V.iexpr(a), V.iexpr(b)))

    def assume(self, c):
        if self.pending:
            self.flush()
        self.eng.assume(V.bexpr_of(c))

    # ---- assertions ----------------------------------------------------
    def check(self, cond, label, **info):
        """Assert cond for every value of the path.

        Assertions met without a decision in between are decided by one query, before
        the path goes on (flush)."""
        self.eng.stats.checks += 1
        c = V.bexpr_of(cond)
        if c is True or self.eng.in_prefix():
            return
        self.pending.append((c, label, info))
        if c is False:
            self.flush()

    def flush(self):
        todo, self.pending = self.pending, []
        eng = self.eng
        todo = [x for x in todo if eng.lookup(x[0]) is not True]
        if not todo:
            return
        m = eng.refute(tm.and_(*[x[0] for x in todo]))
        if m is not None:
            for c, label, info in todo:
                if not tm.ev(c, m):
                    self.on_fail(label, m, info)
                    raise E.StopPath()
            raise RuntimeError("model does not refute")

    def fail(self, label, **info):
        self.check(False, label, **info)

    def reach(self, label):
        r = self.eng.stats.reached
        r[label] = r.get(label, 0) + 1

    # ---- misc ----------------------------------------------------------
    def set_flags(self, f):
        self.br.flags = f

    def hash(self, x):
        return V.sx_hash(x)

    def run(self, f, *a, **k):
        """("ok", result) or ("exc", exception)"""
        try:
            return ("ok", f(*a, **k))
        except Exception as e:
            return ("exc", e)

    def fresh(self, f):
        """What f() gives (as plain data) in a process of its own; nothing it does stays."""
        flags = self.br.flags
        V.ACTIVE[0] = False
        self.restore()
        self.br.flags = flags
        V.ACTIVE[0] = True
        r = plain(self, self.run(f))
        self.restore()
        self.br.flags = flags
        V.ACTIVE[0] = True
        return r

    def isinstance_int(self, x):
        return type(x) is V.SymInt or type(x) is int

    def default_tables(self):
        return self.s.default
