"""Symbolic proxies: integers, booleans, Bible books and the Bible data tables."""
import builtins
import functools
import types
import weakref
from . import engine as E
from . import terms as tm

_int = builtins.int
_isinstance = builtins.isinstance

NUM0 = 0xE000          # private-use characters standing for symbolic numbers in strings
NUM1 = 0xEFFF
TXT0 = 0xF000          # ... and for the text attributes of symbolic books
TXT1 = 0xF7FF


def is_sym(x):
    t = type(x)
    return t is SymInt or t is SymBool or t is SymBook


# ---------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return E.cur().branch(self.e)

    def __eq__(self, o):
        o = bexpr(o)
        if o is None:
            return NotImplemented
        return mkbool(tm.iff(self.e, o))

    def __ne__(self, o):
        o = bexpr(o)
        if o is None:
            return NotImplemented
        return mkbool(tm.not_(tm.iff(self.e, o)))

    def __and__(self, o):
        o2 = bexpr(o)
        if o2 is None:
            return NotImplemented
        return mkbool(tm.and_(self.e, o2))

    __rand__ = __and__

    def __or__(self, o):
        o2 = bexpr(o)
        if o2 is None:
            return NotImplemented
        return mkbool(tm.or_(self.e, o2))

    __ror__ = __or__

    def __xor__(self, o):
        o2 = bexpr(o)
        if o2 is None:
            return NotImplemented
        return mkbool(tm.not_(tm.iff(self.e, o2)))

    __rxor__ = __xor__

    def __invert__(self):
        return ~_int(builtins.bool(self))

    def _i(self):
        return SymInt(tm.ite(self.e, 1, 0))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def __hash__(self):
        return hash(builtins.bool(self))

    def __repr__(self):
        return "True" if self else "False"

    __str__ = __repr__


def mkbool(e):
    return e if e is True or e is False else SymBool(e)


def bexpr(x):
    """Boolean term of a Python or symbolic boolean (None if it is neither)."""
    if type(x) is SymBool:
        return x.e
    if x is True or x is False:
        return x
    return None


def bexpr_of(x):
    """Boolean term of any truth value, never forking on a symbolic one."""
    t = type(x)
    if t is SymBool:
        return x.e
    if t is SymInt:
        return tm.not_(tm.eq(x.e, 0))
    return builtins.bool(x)


# ---------------------------------------------------------------- integers
def iexpr(x):
    """Integer term (a Python int or a T) of a value, None if it is not an integer."""
    t = type(x)
    if t is SymInt:
        return x.e
    if t is _int:
        return x
    if t is SymBool:
        return x._i().e
    if _isinstance(x, _int):
        return _int(x)
    return None


def mkint(e):
    return SymInt(e) if type(e) is tm.T else e


class SymInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: _int)

    def __bool__(self):
        return not E.cur().branch(tm.eq(self.e, 0))

    def __eq__(self, o):
        b = iexpr(o)
        if b is None:
            return NotImplemented if not _isinstance(o, float) else _int(self) == o
        return mkbool(tm.eq(self.e, b))

    def __ne__(self, o):
        b = iexpr(o)
        if b is None:
            return NotImplemented if not _isinstance(o, float) else _int(self) != o
        return mkbool(tm.not_(tm.eq(self.e, b)))

    def __lt__(self, o):
        b = iexpr(o)
        return NotImplemented if b is None else mkbool(tm.lt(self.e, b))

    def __le__(self, o):
        b = iexpr(o)
        return NotImplemented if b is None else mkbool(tm.le(self.e, b))

    def __gt__(self, o):
        b = iexpr(o)
        return NotImplemented if b is None else mkbool(tm.lt(b, self.e))

    def __ge__(self, o):
        b = iexpr(o)
        return NotImplemented if b is None else mkbool(tm.le(b, self.e))

    def __add__(self, o):
        b = iexpr(o)
        return NotImplemented if b is None else mkint(tm.add(self.e, b))

    def __radd__(self, o):
        b = iexpr(o)
        return NotImplemented if b is None else mkint(tm.add(b, self.e))

    def __sub__(self, o):
        b = iexpr(o)
        return NotImplemented if b is None else mkint(tm.sub(self.e, b))

    def __rsub__(self, o):
        b = iexpr(o)
        return NotImplemented if b is None else mkint(tm.sub(b, self.e))

    def __mul__(self, o):
        if type(o) is SymInt:
            o = E.cur().concretize(o.e)
        b = iexpr(o)
        return NotImplemented if b is None else mkint(tm.mulc(self.e, b))

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(tm.neg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(tm.ite(tm.le(0, self.e), self.e, tm.neg(self.e)))

    def _divisor(self, o):
        if type(o) is SymInt:
            o = E.cur().concretize(o.e)
        return o

    def __floordiv__(self, o):
        o = self._divisor(o)
        if not _isinstance(o, _int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            return mkint(tm.div(tm.neg(self.e), -o))
        return mkint(tm.div(self.e, _int(o)))

    def __mod__(self, o):
        o = self._divisor(o)
        if not _isinstance(o, _int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return self - (self // o) * o

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rfloordiv__(self, o):
        return o // E.cur().concretize(self.e)

    def __rmod__(self, o):
        return o % E.cur().concretize(self.e)

    def __truediv__(self, o):
        return _int(self) / o

    def __pow__(self, o):
        return _int(self) ** o

    def __lshift__(self, o):
        return self * (1 << _int(o))

    def __rshift__(self, o):
        return self // (1 << _int(o))

    def __and__(self, o):
        return _int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        return _int(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        return _int(self) ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __index__(self):
        return E.cur().concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(_int(self))

    def __hash__(self):
        return hash(E.cur().concretize(self.e))

    def __format__(self, spec):
        if spec in ("", "d"):
            return str(self)
        return format(_int(self), spec)

    def __str__(self):
        return num_marker(self.e)

    __repr__ = __str__

    def bit_length(self):
        return _int(self).bit_length()

    real = property(lambda self: self)
    numerator = property(lambda self: self)
    denominator = 1
    imag = 0

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise E.Unsupported("pickling a symbolic int")


# ---------------------------------------------------------------- markers in strings
class Markers:
    """Per-path registry of the private-use characters that stand for symbolic text."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.num = []       # exprs
        self.num_ix = {}
        self.txt = []       # (attr, SymBook)
        self.txt_ix = {}

    def number(self, e):
        k = self.num_ix.get(e.uid)
        if k is None:
            k = len(self.num)
            if NUM0 + k > NUM1:
                raise E.Unsupported("too many symbolic numbers in strings")
            self.num_ix[e.uid] = k
            self.num.append(e)
        return chr(NUM0 + k)

    def text(self, attr, book):
        key = (attr, book.idx.uid if type(book.idx) is tm.T else book.idx)
        k = self.txt_ix.get(key)
        if k is not None:
            return chr(TXT0 + k)
        k = self.txt_ix[key] = len(self.txt)
        if TXT0 + k > TXT1:
            raise E.Unsupported("too many symbolic names in strings")
        self.txt.append((attr, book))
        return chr(TXT0 + k)


MARKERS = Markers()


def num_marker(e):
    if type(e) is not tm.T:
        return str(e)
    if E.cur().branch(tm.le(0, e)):
        return MARKERS.number(e)
    e = tm.neg(e)
    return "-" + (MARKERS.number(e) if type(e) is tm.T else str(e))


def marker_expr(ch):
    k = ord(ch) - NUM0
    return MARKERS.num[k]


def is_num_marker(ch):
    return NUM0 <= ord(ch) <= NUM1


def is_txt_marker(ch):
    return TXT0 <= ord(ch) <= TXT1


def expand_text(s):
    """Replace name markers by the (concretised) name."""
    if any(is_txt_marker(c) for c in s):
        out = []
        for c in s:
            if is_txt_marker(c):
                attr, book = MARKERS.txt[ord(c) - TXT0]
                out.append(getattr(book._concrete(), attr))
            else:
                out.append(c)
        return "".join(out)
    return s


def str_to_int(s):
    """int(s) for a string that may contain number markers."""
    t = str(s).strip()
    if t[:1] == "0":
        t = t.lstrip("0") or "0"
    if len(t) == 1 and is_num_marker(t):
        return SymInt(marker_expr(t))
    out = []
    for c in t:
        if is_num_marker(c):
            out.append(str(E.cur().concretize(marker_expr(c))))
        else:
            out.append(c)
    return _int("".join(out))


def has_marker(s):
    return any(NUM0 <= ord(c) <= TXT1 for c in s)


# ---------------------------------------------------------------- the data tables
class Tables:
    """The Bible data as uninterpreted functions, with bounds as lazy axioms.

    nch(o): chapters of the book with index o; mv(o, c): verses of chapter c;
    v0(o, c): whether chapter c may start with a verse 0.
    """
    MAXCH = 150
    MAXV = 200

    def __init__(self, n_books, real=None, max_ch=150, max_v=200):
        self.MAXCH, self.MAXV = max_ch, max_v
        self.n = n_books
        self.real = real            # None, or (rows, verse_0s): pin the tables to real data
        self.reset()

    def reset(self):
        self.log = []
        self.seen = set()

    def _first(self, t, *rec):
        if t.uid in self.seen:
            return False
        self.seen.add(t.uid)
        self.log.append(rec + (t,))
        return True

    def nch(self, o):
        if self.real is not None and type(o) is not tm.T:
            return len(self.real[0][o]) if 0 <= o < self.n else 1
        t = tm.app("nch", o)
        if self._first(t, "nch", o, None):
            eng = E.cur()
            eng.assume(tm.le(1, t))
            eng.assume(tm.le(t, self.MAXCH))
            if self.real is not None:
                for i, r in enumerate(self.real[0]):
                    eng.assume(tm.or_(tm.not_(tm.eq(o, i)), tm.eq(t, len(r))))
        return t

    def mv(self, o, c):
        if self.real is not None and type(o) is not tm.T and type(c) is not tm.T:
            r = self.real[0][o] if 0 <= o < self.n else []
            return r[c - 1] if 1 <= c <= len(r) else 1
        t = tm.app("mv", o, c)
        if self._first(t, "mv", o, c):
            eng = E.cur()
            eng.assume(tm.le(1, t))
            eng.assume(tm.le(t, self.MAXV))
            if self.real is not None:
                for i, r in enumerate(self.real[0]):
                    ne = tm.not_(tm.eq(o, i))
                    if ne is True:
                        continue
                    eng.assume(tm.or_(ne, tm.and_(*[tm.or_(tm.not_(tm.eq(c, j + 1)), tm.eq(t, v))
                                                    for j, v in enumerate(r)])))
        return t

    def v0(self, o, c):
        if self.real is not None and type(o) is not tm.T and type(c) is not tm.T:
            return c in self.real[1].get(o, ())
        t = tm.papp("v0", o, c)
        if self._first(t, "v0", o, c) and self.real is not None:
            E.cur().assume(tm.iff(t, tm.or_(*[tm.and_(tm.eq(o, i), tm.or_(*[tm.eq(c, j) for j in sorted(s)]))
                                              for i, s in self.real[1].items()])))
        return t


TABLES = None


def set_tables(t):
    global TABLES
    TABLES = t


class TableList(list):
    """One book's list of verse counts: element i is mv(book, i+1), length nch(book)."""

    def __init__(self, row, real=()):
        list.__init__(self, real)
        self.row = row              # book index (int or term)

    def sym_len(self):
        return mkint(TABLES.nch(self.row))

    def __len__(self):
        if not ACTIVE[0]:
            return list.__len__(self)
        return _int(self.sym_len())

    def __bool__(self):
        return True if ACTIVE[0] else list.__len__(self) > 0

    def __getitem__(self, i):
        if not ACTIVE[0]:
            return list.__getitem__(self, i)
        if _isinstance(i, slice):
            return [self[j] for j in range(*i.indices(len(self)))]
        n = self.sym_len()
        if i < 0:
            i = i + n
        if not (0 <= i):
            raise IndexError("list index out of range")
        if not (i < n):
            raise IndexError("list index out of range")
        return mkint(TABLES.mv(self.row, tm.add(iexpr(i), 1)))

    def __iter__(self):
        if not ACTIVE[0]:
            yield from list.__iter__(self)
            return
        i = 0
        while i < self.sym_len():
            yield self[i]
            i += 1

    def __reversed__(self):
        return iter(list(iter(self))[::-1])

    def __contains__(self, x):
        return any(v == x for v in self)

    def __eq__(self, o):
        return self is o or list(iter(self)) == (list(iter(o)) if _isinstance(o, list) else o)

    __hash__ = None

    def index(self, *a):
        return list(iter(self)).index(*a)

    def count(self, x):
        return list(iter(self)).count(x)

    def copy(self):
        return self if ACTIVE[0] else TableList(self.row, list.__iter__(self))


class TableSet(set):
    """One book's set of chapters that may begin with a verse 0."""

    def __init__(self, row, real=()):
        set.__init__(self, real)
        self.row = row

    def __contains__(self, c):
        if not ACTIVE[0]:
            return set.__contains__(self, c)
        if iexpr(c) is None:
            return False
        return self.sym_contains(c)

    def sym_contains(self, c):
        # the set holds chapter numbers of the book only
        n = mkint(TABLES.nch(self.row))
        if not (1 <= c) or not (c <= n):
            return False
        return builtins.bool(mkbool(TABLES.v0(self.row, iexpr(c))))

    def __iter__(self):
        if not ACTIVE[0]:
            yield from set.__iter__(self)
            return
        c = 1
        n = mkint(TABLES.nch(self.row))
        while c <= n:
            if c in self:
                yield c
            c += 1

    def __len__(self):
        if not ACTIVE[0]:
            return set.__len__(self)
        return sum(1 for _ in self)

    def __bool__(self):
        if not ACTIVE[0]:
            return set.__len__(self) > 0
        return any(True for _ in self)


class TableDict(dict):
    """Book-keyed dictionary of table rows, also indexable by a symbolic book."""

    def __init__(self, d, kind):
        dict.__init__(self, d)
        self.kind = kind

    def __getitem__(self, b):
        if type(b) is SymBook:
            return _row(self.kind, b.idx)
        if ACTIVE[0] and self.kind is TableSet and not dict.__contains__(self, b):
            raise KeyError(b)
        return dict.__getitem__(self, b)

    def __contains__(self, b):
        if type(b) is SymBook:
            return True
        return dict.__contains__(self, b)

    def get(self, b, default=None):
        if type(b) is SymBook:
            return _row(self.kind, b.idx)
        return dict.get(self, b, default)


def _row(kind, idx):
    return kind(idx)


class BookOrder(list):
    """The book order list, indexable by a symbolic position."""

    def __getitem__(self, i):
        if type(i) is SymInt:
            n = list.__len__(self)
            if i < 0:
                i = i + n
            if not (0 <= i) or not (i < n):
                raise IndexError("list index out of range")
            e = i.e
            if IDENT_ORDER[0]:
                return SymBook(e)
            return list.__getitem__(self, E.cur().concretize(e))
        return list.__getitem__(self, i)

    def index(self, b, *a):
        if type(b) is SymBook and not a and IDENT_ORDER[0]:
            return mkint(b.idx)
        return list.index(self, b, *a)

    def __contains__(self, b):
        if type(b) is SymBook and IDENT_ORDER[0]:
            return True
        return list.__contains__(self, b)


ACTIVE = [False]        # symbolic tables in force (False while the package is set up)
IDENT_ORDER = [True]    # book index == position in the book order


# ---------------------------------------------------------------- books
class BookSpace:
    """The enum class under test and its members, for attribute merging."""

    def __init__(self, cls, members, default_rows, default_v0):
        self.cls = cls
        self.members = list(members)    # in book order: index == position in the order
        self.index = {m: i for i, m in enumerate(self.members)}
        self.rows = default_rows        # list of verse-count lists by index
        self.v0 = default_v0            # list of sets by index
        self.kinds = {}

    def attr_kind(self, name):
        """How an instance attribute varies over the members."""
        k = self.kinds.get(name)
        if k is None:
            k = self.kinds[name] = self._classify(name)
        return k

    def _classify(self, name):
        vals = []
        for m in self.members:
            if not hasattr(m, name):
                return ("missing", None)
            vals.append(getattr(m, name))
        v0 = vals[0]
        if all(v is v0 for v in vals):
            return ("same", v0)
        if all(_isinstance(v, TableList) for v in vals) or \
                all(_isinstance(v, (list, tuple)) and list(v) == list(r) for v, r in zip(vals, self.rows)):
            return ("mv", None)
        if all(_isinstance(v, (set, frozenset)) for v in vals) and \
                all(set.__eq__(set(v), s) for v, s in zip(vals, self.v0)):
            return ("v0", None)
        if all(type(v) is _int for v in vals):
            if vals == list(range(len(vals))):
                return ("ident", None)
            if vals == [len(r) for r in self.rows]:
                return ("nch", None)
            return ("ints", vals)
        if all(type(v) is str for v in vals):
            return ("text", None)
        return ("other", None)


SPACE = None


def set_space(s):
    global SPACE
    SPACE = s


class SymBook:
    """A symbolic member of the book enum, identified by its index among the members."""
    __slots__ = ("idx",)

    def __init__(self, idx):
        object.__setattr__(self, "idx", idx)

    __class__ = property(lambda self: SPACE.cls)

    def _concrete(self):
        return SPACE.members[E.cur().concretize(self.idx)]

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        for k in SPACE.cls.__mro__:
            if name in k.__dict__:
                d = k.__dict__[name]
                if _isinstance(d, types.FunctionType):
                    return types.MethodType(d, self)
                if _isinstance(d, (classmethod, staticmethod)):
                    return d.__get__(None, SPACE.cls)
                if name in ("name", "value", "_name_", "_value_"):
                    break
                if _isinstance(d, property):
                    return d.fget(self)
                if hasattr(d, "func") and hasattr(d, "attrname"):   # cached_property
                    return d.func(self)
                if _isinstance(d, SPACE.cls):
                    return d
                if hasattr(d, "__get__") and not _isinstance(d, types.MemberDescriptorType):
                    return d.__get__(self, SPACE.cls)
                return d
        kind, data = SPACE.attr_kind(name)
        if kind == "same":
            return data
        if kind == "mv":
            return TableList(self.idx)
        if kind == "v0":
            return TableSet(self.idx)
        if kind == "nch":
            return mkint(TABLES.nch(self.idx))
        if kind == "ident":
            return mkint(self.idx)
        if kind == "ints":
            e = data[-1]
            for i in range(len(data) - 2, -1, -1):
                e = tm.ite(tm.eq(self.idx, i), data[i], e)
            return mkint(e)
        if kind == "text":
            return MARKERS.text(name, self)
        if kind == "missing":
            raise AttributeError(name)
        return getattr(self._concrete(), name)

    def __setattr__(self, name, value):
        raise E.Unsupported("attribute set on a symbolic book")

    def __eq__(self, o):
        f = SPACE.cls.__eq__
        if f is not object.__eq__:
            return f(self, o)
        return book_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(tm.not_(r.e)) if type(r) is SymBool else not r

    def __lt__(self, o):
        return SPACE.cls.__lt__(self, o)

    def __le__(self, o):
        return SPACE.cls.__le__(self, o)

    def __gt__(self, o):
        return SPACE.cls.__gt__(self, o)

    def __ge__(self, o):
        return SPACE.cls.__ge__(self, o)

    def __hash__(self):
        return hash(self._concrete())

    def __str__(self):
        return MARKERS.text("name", self)

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def book_index(b):
    """z3 index of a symbolic or concrete book, None for anything else."""
    if type(b) is SymBook:
        return b.idx
    if _isinstance(b, SPACE.cls):
        return SPACE.index[b]
    return None


def book_eq(a, b):
    x, y = book_index(a), book_index(b)
    if x is None or y is None:
        return False
    return mkbool(tm.eq(x, y))


def sx_is(a, b):
    """The `is` operator."""
    if type(a) is SymBook or type(b) is SymBook:
        if book_index(a) is not None and book_index(b) is not None:
            return book_eq(a, b)
        return False
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymBool and (b is True or b is False):
        return a if b else not a
    if tb is SymBool and (a is True or a is False):
        return b if a else not b
    if ta is SymInt and (tb is SymInt or _isinstance(b, _int)):
        return a == b
    if tb is SymInt and _isinstance(a, _int):
        return a == b
    if _isinstance(a, type) and _isinstance(b, type):
        return _tmap(a) is _tmap(b)
    return False


def _tmap(t):
    if t is SymInt or t is SxInt:
        return _int
    if t is SymBool:
        return builtins.bool
    if t is SymBook:
        return SPACE.cls
    return t


def sx_is_not(a, b):
    r = sx_is(a, b)
    if type(r) is SymBool:
        return mkbool(tm.not_(r.e))
    return not r


# ---------------------------------------------------------------- builtins given to the code
class _SxIntMeta(type):
    def __instancecheck__(cls, o):
        return _isinstance(o, _int)

    def __subclasscheck__(cls, c):
        return c is SxInt or c is SymInt or issubclass(c, _int)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if type(x) is SymInt:
                return x
            if type(x) is SymBool:
                return x._i()
            if _isinstance(x, str) and has_marker(x):
                return str_to_int(x)
        if len(a) + len(k) == 2 and _isinstance(a[0], str) and has_marker(a[0]):
            base = k.get("base", a[-1])
            if base == 10:
                return str_to_int(a[0])
            return _int("".join(str(E.cur().concretize(marker_expr(c))) if is_num_marker(c) else c for c in str(a[0])), base)
        return _int(*a, **k)

    def __eq__(cls, o):
        return o is SxInt or o is _int or o is SymInt

    def __hash__(cls):
        return hash(_int)

    def __or__(cls, o):
        return _int | o

    def __ror__(cls, o):
        return o | _int

    def __repr__(cls):
        return "<class 'int'>"

    def __getattr__(cls, name):
        return getattr(_int, name)


class SxInt(metaclass=_SxIntMeta):
    pass


def sx_len(x):
    if _isinstance(x, TableList) and ACTIVE[0]:
        return x.sym_len()
    if type(x) is SymRange:
        return x.sym_len()
    return builtins.len(x)


class _SxRangeMeta(type):
    def __instancecheck__(cls, o):
        return _isinstance(o, builtins.range)

    def __call__(cls, *a):
        if any(type(x) is SymInt for x in a):
            return SymRange(*a)
        return builtins.range(*a)


class SxRange(metaclass=_SxRangeMeta):
    pass


class SymRange:
    def __init__(self, *a):
        if len(a) == 1:
            a = (0, a[0], 1)
        elif len(a) == 2:
            a = (a[0], a[1], 1)
        self.start, self.stop, self.step = a
        if type(self.step) is SymInt:
            self.step = _int(self.step)
        if self.step == 0:
            raise ValueError("range() arg 3 must not be zero")

    def __iter__(self):
        i = self.start
        if self.step > 0:
            while i < self.stop:
                yield i
                i = i + self.step
        else:
            while i > self.stop:
                yield i
                i = i + self.step

    def __reversed__(self):
        if self.step == 1:
            return iter(SymRange(self.stop - 1, self.start - 1, -1))
        return iter(list(self)[::-1])

    def sym_len(self):
        lo, hi = (self.start, self.stop) if self.step > 0 else (self.stop, self.start)
        if hi <= lo:
            return 0
        return hi - lo if self.step in (1, -1) else sum(1 for _ in self)

    def __len__(self):
        return _int(self.sym_len())

    def __bool__(self):
        return bool(self.start < self.stop if self.step > 0 else self.start > self.stop)

    def __contains__(self, x):
        if self.step == 1:
            return self.start <= x and x < self.stop
        return any(v == x for v in self)

    def __getitem__(self, i):
        if _isinstance(i, slice):
            return list(self)[i]
        n = self.sym_len()
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError("range object index out of range")
        return self.start + i * self.step

    def index(self, x):
        if x in self:
            return (x - self.start) // self.step
        raise ValueError("not in range")

    def count(self, x):
        return 1 if x in self else 0


def sx_hash(x):
    """hash() as an uninterpreted function of the hashed value: equal values, equal hashes."""
    t = type(x)
    if t is SymInt or t is SymBool:
        return SymInt(tm.app("hash_i", iexpr(x)))
    if t is SymBook:
        f = SPACE.cls.__hash__
        if f.__module__ == "enum" or getattr(f, "__objclass__", None) is object:
            return SymInt(tm.app("hash_b", x.idx))
        return f(x)
    if t is tuple:
        hs = [sx_hash(v) for v in x]
        return SymInt(tm.app("hash_%d" % len(hs), *[iexpr(h) for h in hs])) if hs else builtins.hash(x)
    if SPACE is not None and _isinstance(x, SPACE.cls):
        return sx_hash(SymBook(SPACE.index[x]))
    if _isinstance(x, _int):
        return SymInt(tm.app("hash_i", _int(x)))
    f = t.__hash__
    if f is None:
        raise TypeError("unhashable type: %r" % t.__name__)
    if _isinstance(f, types.FunctionType):
        return f(x)
    return builtins.hash(x)


_RE = []


def _re_module():
    if not _RE:
        from . import strings
        _RE.append(strings.re_module())
    return _RE[0]


CACHES = weakref.WeakSet()      # the functions with a cache


class _Entry:
    def __init__(self, args, kw, value):
        self.args, self.kw, self.value = args, kw, value

    def same(self, args, kw, typed):
        """The arguments are equal (forks on symbolic ones)."""
        if len(args) != len(self.args) or tuple(kw) != tuple(self.kw):
            return False
        for x, y in zip(args + tuple(kw.values()), self.args + tuple(self.kw.values())):
            if typed and _tmap(type(x)) is not _tmap(type(y)):
                return False
            if not (x is y or x == y):
                return False
        return True


def lru_cache(maxsize=128, typed=False):
    """functools.lru_cache, whose keys may be symbolic: looked up by equality, not by hash."""
    if callable(maxsize):
        return lru_cache()(maxsize)

    def decorate(f):
        entries = []
        hits = [0, 0]

        def wrapper(*args, **kw):
            for x in args + tuple(kw.values()):
                if getattr(type(x), "__hash__", None) is None and not _isinstance(x, str):
                    raise TypeError("unhashable type: %r" % type(x).__name__)
            for i, e in enumerate(entries):
                if e.same(args, kw, typed):
                    entries.append(entries.pop(i))
                    hits[0] += 1
                    return e.value
            v = f(*args, **kw)
            hits[1] += 1
            if maxsize is None or maxsize > 0:
                entries.append(_Entry(args, kw, v))
                if maxsize is not None and len(entries) > maxsize:
                    del entries[0]
            return v

        def cache_clear():
            del entries[:]
            hits[:] = [0, 0]
        functools.update_wrapper(wrapper, f)
        wrapper.cache_clear = cache_clear
        wrapper.cache_info = lambda: functools._CacheInfo(hits[0], hits[1], maxsize, len(entries))
        wrapper.cache_parameters = lambda: {"maxsize": maxsize, "typed": typed}
        CACHES.add(wrapper)
        return wrapper
    return decorate


def _functools_module():
    """The functools module as the package sees it."""
    m = types.ModuleType("functools")
    m.__dict__.update({k: v for k, v in vars(functools).items() if not k.startswith("__")})
    m.lru_cache = lru_cache
    m.cache = lambda f: lru_cache(maxsize=None)(f)
    return m


def code_builtins():
    """The builtins namespace the modules under test run with."""
    d = dict(vars(builtins))

    def import_(name, *a, **k):
        if name == "re":
            return _re_module()
        if name == "functools":
            return _functools_module()
        return builtins.__import__(name, *a, **k)
    d["__import__"] = import_
    d.update({"int": SxInt, "len": sx_len, "range": SxRange, "hash": sx_hash})
    return d
