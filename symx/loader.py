"""Loads the package under test from /repo's current source for symbolic execution.

The source is compiled unchanged except that `a is b` / `a is not b` become calls
(object identity of a symbolic value is not Python's); the modules run with a
builtins namespace whose int/len/range/hash accept symbolic values.  Comparison
methods generated by @dataclass (whose text is in the standard library, not in
the repository) are replaced by equivalent ones that build one formula instead
of forking at every field.
"""
import ast
import dataclasses
import functools
import operator
import importlib.abc
import importlib.machinery
import os
import sys
import types
import builtins
from . import values as V
from . import terms as tm

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class _Rewrite(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if not any(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
            return n
        if len(n.ops) > 1:
            return n                     # chained `is`: left alone
        r = n.comparators[0]
        if (isinstance(r, ast.Constant) and r.value is None) or \
                (isinstance(n.left, ast.Constant) and n.left.value is None):
            return n
        f = "__sx_is__" if isinstance(n.ops[0], ast.Is) else "__sx_is_not__"
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name(f, ast.Load()), n),
                                          [n.left, r], []), n)

    def visit_MatchSingleton(self, n):
        # `case True` asks for identity, which a symbolic truth value cannot have
        if n.value is None:
            return n
        v = ast.Attribute(ast.Name("__sx_bool__", ast.Load()), str(n.value) + "_", ast.Load())
        return ast.copy_location(ast.MatchValue(ast.copy_location(v, n)), n)


class _BoolPattern:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return V.sx_is(o, self.v)

    __hash__ = None


class _BOOLS:
    pass


_BOOLS.True_, _BOOLS.False_ = _BoolPattern(True), _BoolPattern(False)


class _Loader(importlib.abc.Loader):
    def __init__(self, path, sources):
        self.path = path
        self.sources = sources

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        self.sources[module.__name__] = src
        tree = ast.fix_missing_locations(_Rewrite().visit(ast.parse(src, self.path)))
        b = V.code_builtins()
        b["__sx_is__"] = V.sx_is
        b["__sx_bool__"] = _BOOLS
        b["__sx_is_not__"] = V.sx_is_not
        module.__dict__["__builtins__"] = b
        exec(compile(tree, self.path, "exec"), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, sources):
        self.sources = sources

    def find_spec(self, name, path=None, target=None):
        if name != "bibleref" and not name.startswith("bibleref."):
            return None
        base = os.path.join(SRC, *name.split("."))
        if os.path.isdir(base):
            p = os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(name, _Loader(p, self.sources), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.exists(base + ".py"):
            p = base + ".py"
            spec = importlib.machinery.ModuleSpec(name, _Loader(p, self.sources), origin=p)
        else:
            return None
        spec.has_location = True
        return spec


# ---------------------------------------------------------------- dataclass comparisons
def _merge_lex(op, fields):
    def val(x):
        return tuple(getattr(x, f) for f in fields)

    def eqz(a, b):
        return V.bexpr_of(a == b)

    def cmp(self, other):
        if other.__class__ is not self.__class__:
            return NotImplemented
        a, b = val(self), val(other)
        if op in ("eq", "ne"):
            e = tm.and_(*[eqz(x, y) for x, y in zip(a, b)])
            return V.mkbool(e if op == "eq" else tm.not_(e))
        strict = op in ("lt", "gt")
        up = op in ("lt", "le")
        # lexicographic, from the last field backwards
        res = not strict
        last = True
        for x, y in reversed(list(zip(a, b))):
            if last and V.iexpr(x) is not None and V.iexpr(y) is not None:
                res = V.bexpr_of((x < y if strict else x <= y) if up else (x > y if strict else x >= y))
            else:
                less = V.bexpr_of((x < y) if up else (x > y))
                res = tm.or_(less, tm.and_(eqz(x, y), res))
            last = False
        return V.mkbool(res)

    return cmp


_NAMES = {"__eq__": "eq", "__lt__": "lt", "__le__": "le", "__gt__": "gt", "__ge__": "ge"}


def _patch_dataclasses(modules):
    done = []
    for m in modules:
        for c in list(vars(m).values()):
            if isinstance(c, type) and c.__module__ == m.__name__ and "__dataclass_fields__" in c.__dict__:
                fields = [f.name for f in dataclasses.fields(c) if f.compare]
                for n, op in _NAMES.items():
                    f = c.__dict__.get(n)
                    if isinstance(f, types.FunctionType) and f.__code__.co_filename == "<string>":
                        setattr(c, n, _merge_lex(op, fields))
                        done.append("%s.%s" % (c.__name__, n))
    return done


# ---------------------------------------------------------------- state isolation between paths
_MUTABLE = (list, dict, set)


class _Snapshot:
    """Module globals, class attributes and package-object state, restored before every path."""

    def __init__(self, modules):
        self.modules = modules
        self.glob = [(m, dict(m.__dict__)) for m in modules]
        self.objs = []
        self.conts = []
        self.caches = []
        seen = set()
        stack = []
        for m in modules:
            stack.extend(m.__dict__.values())
        while stack:
            o = stack.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, functools._lru_cache_wrapper):
                self.caches.append(o)
                continue
            if isinstance(o, types.ModuleType) or isinstance(o, types.FunctionType) and not o.__dict__:
                if isinstance(o, types.FunctionType):
                    for d in (o.__defaults__ or ()):
                        stack.append(d)
                    for d in (o.__kwdefaults__ or {}).values():
                        stack.append(d)
                continue
            if isinstance(o, V.TableList) or isinstance(o, V.TableSet):
                continue
            if type(o) in _MUTABLE or isinstance(o, (V.TableDict, V.BookOrder)):
                if len(o) > 2000:
                    continue
                if isinstance(o, dict):
                    self.conts.append((o, dict.copy(o)))
                    stack.extend(dict.values(o))
                elif isinstance(o, list):
                    self.conts.append((o, list.copy(o)))
                    stack.extend(list.__iter__(o))
                else:
                    self.conts.append((o, set.copy(o)))
                continue
            if isinstance(o, tuple):
                stack.extend(o)
                continue
            if isinstance(o, type):
                if getattr(o, "__module__", "").split(".")[0] == "bibleref":
                    for n, v in list(o.__dict__.items()):
                        if n in ("__dict__", "__weakref__", "__doc__", "__module__"):
                            continue
                        if isinstance(v, (staticmethod, classmethod)):
                            v = v.__func__
                        stack.append(v)
                    self.objs.append((o, {n: v for n, v in o.__dict__.items()
                                          if not n.startswith("__")}, True))
                continue
            if isinstance(o, types.FunctionType) or \
                    type(o).__module__.split(".")[0] == "bibleref":
                d = getattr(o, "__dict__", None)
                if d is not None:
                    self.objs.append((o, dict(d), False))
                    stack.extend(d.values())
        self.freeze()

    def freeze(self):
        """One entry per namespace or container: (dict, ordered values, restore function)."""
        self.fast = []
        for m, d in self.glob:
            self.fast.append((m.__dict__, list(m.__dict__.values()), self._fix_dict(m.__dict__, d)))
        for o, d, is_cls in self.objs:
            fix = self._fix_class(o, d) if is_cls else self._fix_dict(o.__dict__, d)
            self.fast.append((o.__dict__, list(o.__dict__.values()), fix))
        for o, d in self.conts:
            if isinstance(o, dict):
                self.fast.append((o, list(dict.values(o)), self._fix_dict(o, d)))

    @staticmethod
    def _fix_dict(o, d):
        def fix():
            dict.clear(o)
            dict.update(o, d)
        return fix

    def _fix_class(self, o, d):
        def fix():
            cur = o.__dict__
            for k in [k for k in cur if not k.startswith("__") and k not in d]:
                type.__delattr__(o, k)
            for k, v in d.items():
                if cur.get(k, self) is not v:
                    type.__setattr__(o, k, v)
        return fix

    def restore(self):
        is_ = operator.is_
        for d, vals, fix in self.fast:
            if len(d) != len(vals) or not all(map(is_, d.values(), vals)):
                fix()
        for o, d in self.conts:
            if isinstance(o, list):
                if list.__len__(o) != len(d) or not all(map(is_, list.__iter__(o), d)):
                    list.clear(o)
                    list.extend(o, d)
            elif not isinstance(o, dict) and (set.__len__(o) != len(d) or not set.issuperset(o, d)):
                set.clear(o)
                set.update(o, d)
        for c in self.caches:
            c.cache_clear()
        for c in list(V.CACHES):
            c.cache_clear()


class Subject:
    """The loaded package, with symbolic tables installed."""

    def __init__(self, books=None):
        self.sources = {}
        for n in [n for n in sys.modules if n == "bibleref" or n.startswith("bibleref.")]:
            del sys.modules[n]
        sys.meta_path.insert(0, _Finder(self.sources))
        import lark
        self._hook_lark(lark)
        import bibleref
        assert bibleref.__file__ is None or bibleref.__spec__.origin.startswith(SRC)
        self.bibleref = bibleref
        import bibleref.data, bibleref.parser, bibleref.util, bibleref.ref
        self.modules = [m for n, m in sorted(sys.modules.items())
                        if n == "bibleref" or n.startswith("bibleref.")]
        self.default = {"max_verses": {b: list(v) for b, v in bibleref.data.default_max_verses.items()},
                        "verse_0s": {b: set(v) for b, v in bibleref.data.default_verse_0s.items()},
                        "order": list(bibleref.bible_data().book_order)}
        # the objects hold nothing but these fields (otherwise inputs go through the constructors)
        v = bibleref.BibleVerse(self.default["order"][0], 1, 1)
        r = bibleref.BibleRange(start=v, end=v)
        self.plain_verse = self._plain(v, {"book": v.book, "chap_num": 1, "verse_num": 1})
        self.plain_range = self._plain(r, {"start": v, "end": v})
        self.merged = _patch_dataclasses(self.modules)
        self.executed = set()

    @staticmethod
    def _plain(o, fields):
        return getattr(o, "__dict__", None) == fields and \
            not any("__slots__" in k.__dict__ for k in type(o).__mro__)

    # -- symbolic tables -------------------------------------------------
    def install_tables(self):
        br = self.bibleref
        B = br.BibleBook
        order = self.default["order"]
        rows = [self.default["max_verses"].get(b, [1]) for b in order]
        v0 = [self.default["verse_0s"].get(b, set()) for b in order]
        d = br.bible_data()
        space = V.BookSpace(B, order, rows, v0)
        V.set_space(space)
        V.ACTIVE[0] = False
        mvd = V.TableDict({b: V.TableList(i, rows[i]) for i, b in enumerate(order)}, V.TableList)
        v0d = V.TableDict({b: V.TableSet(i, v0[i]) for i, b in enumerate(order)}, V.TableSet)
        d.book_order = V.BookOrder(order)
        d.max_verses = mvd
        d.verse_0s = v0d
        # a tree that copies the rows still has to see the symbolic ones
        for name in list(vars(order[0])):
            if name in ("_value_", "_name_", "__objclass__", "_sort_order_"):
                continue
            kind, _ = space.attr_kind(name)
            for i, b in enumerate(order):
                v = getattr(b, name)
                if kind == "mv" and not isinstance(v, V.TableList):
                    setattr(b, name, mvd[b])
                elif kind == "v0" and not isinstance(v, V.TableSet):
                    setattr(b, name, v0d[b])
        self.space = space
        self.snap = _Snapshot(self.modules)

    # -- lark ------------------------------------------------------------
    def _hook_lark(self, lark):
        from . import larkhook
        larkhook.install(lark)
