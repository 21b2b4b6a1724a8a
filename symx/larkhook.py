"""Parsing of strings that hold symbolic numbers.

The real grammar is parsed by the real Lark; a symbolic number in the text is a
single private-use character, shown to Lark as digits.  Which digits is
irrelevant to the parse as long as the tree has the same shape for every number:
the hook parses the text with several substitutions and requires the same shape,
otherwise the number is concretised (forked).  The tokens are then given back
their marker text, so int(token) is the symbolic number.
"""
from . import values as V
from . import engine as E

VARIANTS = ("7", "0", "10", "119")
_memo = {}
_installed = [False]


def _shape(t, lark):
    if isinstance(t, lark.Token):
        return (t.type,)
    return (t.data,) + tuple(_shape(c, lark) for c in t.children)


def _subst(text, digits):
    """(substituted text, list of (start, end, marker) spans in it)"""
    out = []
    pos = 0
    spans = []
    for c in text:
        if V.is_num_marker(c):
            spans.append((pos, pos + len(digits), c))
            out.append(digits)
            pos += len(digits)
        else:
            out.append(c)
            pos += 1
    return "".join(out), spans


def _back(t, spans, lark):
    if isinstance(t, lark.Token):
        if t.start_pos is None:
            return t
        s = str(t)
        for a, b, m in reversed(spans):
            if t.start_pos <= a and b <= t.end_pos:
                o = a - t.start_pos
                s = s[:o] + m + s[o + (b - a):]
        return lark.Token.new_borrow_pos(t.type, s, t) if s != str(t) else t
    n = lark.Tree(t.data, [_back(c, spans, lark) for c in t.children], t.meta)
    return n


def install(lark):
    if _installed[0]:
        return
    _installed[0] = True
    orig = lark.Lark.parse
    orig_init = lark.Lark.__init__
    built = {}

    def __init__(self, grammar, **options):
        """Lark construction, memoised on the grammar and options."""
        key = (str(grammar), repr(sorted(options.items())))
        d = built.get(key)
        if d is None:
            orig_init(self, grammar, **options)
            built[key] = dict(self.__dict__)
        else:
            self.__dict__.update(d)

    lark.Lark.__init__ = __init__

    def parse(self, text, *a, **k):
        text = V.expand_text(text)
        if not any(V.is_num_marker(c) for c in text):
            r = _run(self, text, a, k)
            if r[0] == "err":
                raise r[1]
            return _back(r[1], [], lark)
        # adjacent markers or digits next to a marker: no single number there
        for i, c in enumerate(text):
            if V.is_num_marker(c):
                z = i
                while z and text[z - 1] == "0":
                    z -= 1                                  # leading zeros belong to the number
                for j in (z - 1, i + 1):
                    if 0 <= j < len(text) and (text[j].isalnum() or V.is_num_marker(text[j])) and not text[j].isalpha():
                        return parse(self, _concretise(text), *a, **k)
        shapes = set()
        res = None
        for d in VARIANTS:
            sub, spans = _subst(text, d)
            r = _run(self, sub, a, k)
            if r[0] == "err":
                shapes.add(("err", type(r[1]).__name__))
            else:
                shapes.add(_shape(r[1], lark))
            if res is None:
                res = (r, spans)
        if len(shapes) != 1:
            return parse(self, _concretise(text), *a, **k)
        r, spans = res
        if r[0] == "err":
            raise r[1]
        tree = _back(r[1], spans, lark)
        if not all(len(x.lstrip("0")) == 1 or not any(V.is_num_marker(c) for c in x)
                   for x in tree.scan_values(lambda v: isinstance(v, lark.Token))):
            return parse(self, _concretise(text), *a, **k)      # a number inside a name
        return tree

    def _run(self, text, a, k):
        key = (self.source_grammar, str(self.options.__dict__.get("options", "")), text, repr(a), repr(k))
        r = _memo.get(key)
        if r is None:
            if len(_memo) > 200000:
                _memo.clear()
            try:
                r = ("ok", orig(self, text, *a, **k), self)
            except lark.exceptions.LarkError as e:
                r = ("err", e, self)
            _memo[key] = r
        return r

    def _concretise(text):
        return "".join(str(E.cur().concretize(V.marker_expr(c))) if V.is_num_marker(c) else c
                       for c in text)

    lark.Lark.parse = parse
