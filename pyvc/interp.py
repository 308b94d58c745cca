"""Symbolic execution of the real Python source, statement by statement (the AST is read from the files of /repo on
every run).  Functions of the package and of spec/ are executed from their AST; calls that a contract covers are
replaced by the contract (contracts.py); standard library and built-in operations have models (models.py); everything
else raises Unsupported, which leaves the obligation undischarged."""
import ast
import builtins
import dataclasses
import enum
import functools
import inspect
import os
import re
import types

import z3

from .values import *  # noqa: F401,F403
from .values import (Elem, DNode, Str, Int, Bool, SStr, SInt, SBool, OElem, ONode, OAttrs, OAttr, OConv, VIte, One, Fam, Prefix,
                     VList, VDict, VSet, VObj, VClass, VFunc, VBound, VMeth, VPartial, VSuper, VMatch, VIter, Unsupported, PyExc,
                     mkstr, zs, zstr, from_z3, const_str)
from . import values as V


realpath = functools.lru_cache(None)(os.path.realpath)


class Return(Exception):
    def __init__(self, val):
        self.val = val


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Frame:
    __slots__ = ("vars", "globals", "outer", "defcls", "self", "stamp", "yields", "names", "exc", "nonlocals", "fn", "locals")

    def __init__(self, globals_, outer=None, defcls=None, fn=None):
        self.vars = {}
        self.globals = globals_
        self.outer = outer
        self.defcls = defcls
        self.self = None
        self.stamp = next(V._stamps)
        self.yields = None
        self.exc = None
        self.nonlocals = set()
        self.fn = fn
        self.locals = ()


# ---------------------------------------------------------------------- source

_trees = {}


def parse_file(path):
    if path not in _trees:
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read())
        index = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([n.lineno] + [d.lineno for d in n.decorator_list])
                index.setdefault(line, []).append(n)
            elif isinstance(n, ast.Lambda):
                index.setdefault(n.lineno, []).append(n)
        _trees[path] = index
    return _trees[path]


def argnames(a):
    return [x.arg for x in a.posonlyargs + a.args + ([a.vararg] if a.vararg else []) + a.kwonlyargs + ([a.kwarg] if a.kwarg else [])]


def source_of(fn):
    code = fn.__code__
    cands = parse_file(code.co_filename).get(code.co_firstlineno, [])
    if code.co_name == "<lambda>":
        cands = [n for n in cands if isinstance(n, ast.Lambda) and
                 sorted(argnames(n.args)) == sorted(code.co_varnames[:code.co_argcount + code.co_kwonlyargcount])]
        if len(cands) > 1:
            cols = [c for _l, _e, c, _d in code.co_positions() if c]
            cands = [n for n in cands if cols and n.col_offset <= min(cols) <= (n.end_col_offset or 10 ** 6)][-1:]
    else:
        cands = [n for n in cands if not isinstance(n, ast.Lambda) and n.name == code.co_name]
    if len(cands) != 1:
        raise Unsupported("source of %s" % code.co_qualname)
    return cands[0]


_is_gen_cache = {}


_locals_cache = {}


def locals_of(node):
    """The names that are local to the function: bound in its body and not declared otherwise."""
    k = id(node)
    if k not in _locals_cache:
        bound, other = set(), set()
        stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                bound.add(n.name)
                stack.extend(n.decorator_list)
                stack.extend(getattr(n, "bases", ()))
                if isinstance(n, ast.FunctionDef):
                    stack.extend(d for d in n.args.defaults + n.args.kw_defaults if d is not None)
                continue
            if isinstance(n, ast.Lambda):
                stack.extend(d for d in n.args.defaults + n.args.kw_defaults if d is not None)
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                stack.append(n.generators[0].iter)
                stack.extend(x for x in ast.walk(n) if isinstance(x, ast.NamedExpr))
                continue
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                bound.add(n.id)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                other.update(n.names)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                bound.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                bound.update(a.asname or a.name.split(".")[0] for a in n.names)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                bound.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                bound.add(n.rest)
            stack.extend(ast.iter_child_nodes(n))
        _locals_cache[k] = (frozenset(bound - other), node)
    return _locals_cache[k][0]


def is_generator(node):
    k = id(node)
    if k not in _is_gen_cache:
        found = False
        stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                found = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _is_gen_cache[k] = (found, node)
    return _is_gen_cache[k][0]


class Interp:
    def __init__(self, world, roots):
        """roots: directories whose functions are interpreted."""
        self.w = world
        self.roots = tuple(os.path.realpath(r) + os.sep for r in roots)
        self.hooks = {}            # host function -> handler(interp, args, kwargs) -> value or NotImplemented
        self.method_hooks = {}     # (class, name) -> handler(interp, self, args, kwargs)
        self.used = {}             # qualified names of the interpreted functions
        self.stack = []
        self.elem_class = None     # the real element class
        from . import models
        self.m = models.Models(self)
        from . import loops
        self.loops = loops.Loops(self)

    # ------------------------------------------------------------------ helpers
    def interpretable(self, fn):
        try:
            return realpath(fn.__code__.co_filename).startswith(self.roots)
        except AttributeError:
            return False

    def own_class(self, cls):
        f = getattr(inspect.getmodule(cls), "__file__", None) if isinstance(cls, type) else None
        return bool(f) and realpath(f).startswith(self.roots)

    def raise_(self, cls, *args):
        raise PyExc(VObj(cls, {"args": tuple(args)}))

    def force(self, v):
        """Resolve a conditional value by a case split."""
        while isinstance(v, VIte):
            v = v.a if self.w.decide(v.g) else v.b
        if isinstance(v, V.Poison):
            raise V.PlaceholderUsed(v)
        return v

    def write(self, obj, container, key, value, desc=None):
        """Every mutation of an object goes through here."""
        self.w.note_write(obj, container, key)
        self.w.setitem(container, key, value, obj)

    def host_mutation(self, what):
        self.w.frame_violations.append(what)
        raise Unsupported("mutation of an object that outlives the conversion: %s" % (what,))

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        v = self.force(v)
        if v is None or isinstance(v, (bool, int, float, str, tuple, bytes)):
            return bool(v)
        if isinstance(v, SBool):
            return self.w.decide(v.e)
        if isinstance(v, SInt):
            return self.w.decide(v.e != 0)
        if isinstance(v, SStr):
            if any(isinstance(p, str) for p in v.parts):
                return True
            return not self.w.decide(z3.And(*[p == zstr("") for p in v.parts]))
        if isinstance(v, VList):
            n = self.m.length(v)
            return self.truth(n if isinstance(n, int) else SBool(n.e > 0))
        if isinstance(v, VDict):
            return self.m.dict_truth(v)
        if isinstance(v, VSet):
            return bool(v.vals)
        if isinstance(v, (VMatch, VIter)):
            return True
        if isinstance(v, VObj):
            f = self.lookup_type(v.cls, "__bool__")
            if f is not None:
                return self.truth(self.call(VBound(f, v), [], {}))
            f = self.lookup_type(v.cls, "__len__")
            if f is not None:
                return self.truth(self.call(VBound(f, v), [], {}))
            return True
        if isinstance(v, OElem):
            f = self.lookup_type(self.elem_class, "__bool__") or self.lookup_type(self.elem_class, "__len__")
            if f is not None:
                return self.truth(self.call(VBound(f, v), [], {}))
            return True
        if isinstance(v, (ONode, OConv, VFunc, VBound, VMeth, VClass, OAttr)):
            return True
        if isinstance(v, OAttrs):
            raise Unsupported("truth of an attribute map")
        if not isinstance(v, type) and type(type(v)) is type and self.lookup_type(type(v), "__bool__") is None \
                and self.lookup_type(type(v), "__len__") is None and dataclasses.is_dataclass(v):
            return True
        if isinstance(v, (dict, list, set, frozenset)) or v is NotImplemented:
            return bool(v)
        if isinstance(v, (types.FunctionType, type, types.ModuleType, enum.Enum, re.Pattern)):
            return True
        raise Unsupported("truth of %s" % type(v).__name__)

    def cond(self, v):
        """The value as a z3 Bool, without a case split where possible."""
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, SBool):
            return v.e
        return z3.BoolVal(self.truth(v))

    # ------------------------------------------------------------------ attribute access
    def mro(self, cls):
        if isinstance(cls, VClass):
            out = [cls]
            for b in cls.bases:
                for c in self.mro(b):
                    if c not in out:
                        out.append(c)
            return out
        return list(cls.__mro__)

    def lookup_type(self, cls, name, after=None):
        seen = after is None
        for c in self.mro(cls):
            if not seen:
                if c is after:
                    seen = True
                continue
            d = c.attrs if isinstance(c, VClass) else c.__dict__
            if c in (object, BaseException, Exception) and name in ("__init__", "__bool__", "__len__", "__eq__", "__new__", "__hash__", "__str__", "__repr__"):
                continue
            if name in d:
                return d[name]
        return None

    def bind(self, raw, obj, cls):
        if isinstance(raw, (types.FunctionType, VFunc)):
            return VBound(raw, obj)
        if isinstance(raw, functools._lru_cache_wrapper):
            return VBound(raw, obj)
        if isinstance(raw, staticmethod):
            return raw.__func__
        if isinstance(raw, classmethod):
            return VBound(raw.__func__, cls)
        if isinstance(raw, property):
            if raw.fget is None:
                self.raise_(AttributeError, "unreadable")
            return self.call(raw.fget, [obj], {})
        if isinstance(raw, functools.cached_property):
            val = self.call(raw.func, [obj], {})
            if isinstance(obj, VObj):
                self.write(obj, obj.fields, raw.attrname, val)
            return val
        if isinstance(raw, functools.partialmethod):
            return VPartial(VBound(raw.func, obj), list(raw.args), dict(raw.keywords))
        return raw

    def getattr(self, obj, name):
        obj = self.force(obj)
        if isinstance(obj, VObj):
            raw = self.lookup_type(obj.cls, name)
            if isinstance(raw, property):
                return self.bind(raw, obj, obj.cls)
            if name in obj.fields:
                v = obj.fields[name]
                if isinstance(v, V.Poison):
                    raise V.PlaceholderUsed(v)
                return v
            if raw is not None and not isinstance(raw, (types.MemberDescriptorType, types.GetSetDescriptorType)):
                return self.bind(raw, obj, obj.cls)
            if name == "__class__":
                return obj.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            f = self.lookup_type(obj.cls, "__getattr__")
            if f is not None:
                return self.call(VBound(f, obj), [name], {})
            if isinstance(obj.cls, type) and issubclass(obj.cls, BaseException):
                if name in ("with_traceback", "add_note"):
                    return VMeth(obj, name)
                if name in ("code", "lineno", "offset") and "xml" in obj.fields:
                    raise Unsupported("expat error field")
                if name in ("__cause__", "__context__", "__traceback__"):
                    return None
            self.raise_(AttributeError, "no attribute %s of %r" % (name, obj))
        if isinstance(obj, OElem):
            return self.elem_attr(obj, name)
        if isinstance(obj, (ONode, OAttrs, OAttr)):
            return self.m.dom_attr(obj, name)
        if isinstance(obj, OConv):
            if name == "convert":
                return VMeth(obj, name)
            raise Unsupported("attribute %s of a converter" % name)
        if isinstance(obj, VSuper):
            raw = self.lookup_type(obj.self.cls if isinstance(obj.self, VObj) else obj.self, name, after=obj.cls)
            if raw is None or isinstance(raw, (types.WrapperDescriptorType, types.MethodDescriptorType)):
                return VMeth(obj, name)
            return self.bind(raw, obj.self, obj.self.cls if isinstance(obj.self, VObj) else obj.self)
        if isinstance(obj, VClass):
            raw = self.lookup_type(obj, name)
            if raw is None:
                if name in ("__name__", "__qualname__"):
                    return obj.name
                self.raise_(AttributeError, name)
            if isinstance(raw, staticmethod):
                return raw.__func__
            if isinstance(raw, classmethod):
                return VBound(raw.__func__, obj)
            return raw
        if isinstance(obj, type):
            raw = None
            for c in obj.__mro__:
                if name in c.__dict__:
                    raw = c.__dict__[name]
                    break
            if isinstance(raw, classmethod):
                return VBound(raw.__func__, obj)
            if isinstance(raw, (types.FunctionType, property)):
                return raw
            if isinstance(raw, staticmethod):
                return raw.__func__
            try:
                return getattr(obj, name)
            except AttributeError:
                self.raise_(AttributeError, name)
        if isinstance(obj, types.ModuleType):
            try:
                return getattr(obj, name)
            except AttributeError:
                self.raise_(AttributeError, name)
        if isinstance(obj, enum.Enum):
            raw = self.lookup_type(type(obj), name)
            if isinstance(raw, (types.FunctionType,)):
                return VBound(raw, obj)
            if isinstance(raw, property) and self.interpretable(raw.fget):
                return self.bind(raw, obj, type(obj))
            return getattr(obj, name)
        if isinstance(obj, re.Pattern):
            if name in ("pattern", "flags", "groups"):
                return getattr(obj, name)
            return VMeth(obj, name)
        if isinstance(obj, V.SymPattern) and name in ("search", "match", "fullmatch", "sub"):
            return VMeth(obj, name)
        if isinstance(obj, (str, SStr, VList, VDict, VSet, tuple, dict, list, set, frozenset, int, float, SInt, SBool, bytes, VMatch, VIter)):
            return VMeth(obj, name)
        if isinstance(obj, (types.FunctionType, VFunc, functools._lru_cache_wrapper, VBound)):
            if name == "__name__":
                return obj.__name__ if not isinstance(obj, VFunc) else obj.name
            if name in ("cache_clear", "cache_info"):
                raise Unsupported(name)
            if name == "__get__":
                return VMeth(obj, name)
            if isinstance(obj, types.FunctionType):
                try:
                    return getattr(obj, name)
                except AttributeError:
                    self.raise_(AttributeError, name)
        if obj is None:
            self.raise_(AttributeError, "'NoneType' object has no attribute '%s'" % name)
        # an object of the host (module level instance)
        if self.own_class(type(obj)):
            raw = self.lookup_type(type(obj), name)
            if isinstance(raw, (types.FunctionType, property, classmethod, staticmethod, functools.cached_property)):
                if isinstance(raw, functools.cached_property):
                    raise Unsupported("cached property of a shared object")
                return self.bind(raw, obj, type(obj))
            try:
                return getattr(obj, name)
            except AttributeError:
                self.raise_(AttributeError, name)
        raise Unsupported("attribute %s of %s" % (name, type(obj).__name__))

    def elem_attr(self, o, name):
        e = o.e
        if name == "name":
            return mkstr([V.f_name(e)])
        if name == "value":
            return mkstr([V.f_value(e)])
        if name == "children":
            i = self.w.bound()
            return self.w.shared_list(("children", e.get_id()), lambda: VList([Fam(V.f_nkids(e), i, None, OElem(V.f_kid(e, i)), ("children", e))]))
        if name == "attributes":
            return self.w.shared_list(("attributes", e.get_id()), lambda: VDict(base=e))
        cls = self.elem_class
        raw = self.lookup_type(cls, name) if cls else None
        if raw is not None:
            return self.bind(raw, o, cls)
        if name.lstrip("_") in ("name", "value", "children", "attributes"):
            return self.elem_attr(o, name.lstrip("_"))
        if name == "__class__":
            return cls
        self.raise_(AttributeError, name)

    def setattr(self, obj, name, val):
        obj = self.force(obj)
        if isinstance(obj, VObj):
            raw = self.lookup_type(obj.cls, name)
            if isinstance(raw, property):
                if raw.fset is None:
                    self.raise_(AttributeError, "can't set attribute")
                self.call(raw.fset, [obj, val], {})
                return
            if getattr(getattr(obj.cls, "__dataclass_params__", None), "frozen", False) and not self.w.constructing(obj):
                self.raise_(dataclasses.FrozenInstanceError, name)
            if self.lookup_type(obj.cls, "__setattr__") not in (None, object.__setattr__) and not getattr(obj.cls, "__dataclass_params__", None) \
                    and not issubclass(obj.cls, BaseException):
                raise Unsupported("__setattr__")
            self.write(obj, obj.fields, name, val)
            return
        if isinstance(obj, OElem):
            raise Unsupported("assignment to a field of an element")
        if isinstance(obj, (type, types.ModuleType, types.FunctionType)) or not isinstance(obj, (VClass, VFunc)):
            self.host_mutation("%s.%s" % (getattr(obj, "__name__", type(obj).__name__), name))
        raise Unsupported("assignment to %s.%s" % (type(obj).__name__, name))

    # ------------------------------------------------------------------ calls
    def call(self, fn, args, kwargs):
        fn = self.force(fn)
        if isinstance(fn, VMeth):
            return self.m.method(fn.obj, fn.name, args, kwargs)
        if isinstance(fn, VBound):
            return self.call(fn.fn, [fn.self] + list(args), kwargs)
        if isinstance(fn, VPartial):
            kw = dict(fn.kwargs)
            kw.update(kwargs)
            return self.call(fn.fn, list(fn.args) + list(args), kw)
        if isinstance(fn, VFunc):
            return self.run(fn.node, args, kwargs, fn.defaults, fn.kwdefaults, fn.frame.globals, fn.frame, fn.defcls, fn.name, fn)
        if isinstance(fn, types.FunctionType):
            h = self.hooks.get(fn)
            if h is not None:
                r = h(self, args, kwargs)
                if r is not NotImplemented:
                    return r
            if self.interpretable(fn):
                return self.call_host(fn, args, kwargs)
            return self.m.library(fn, args, kwargs)
        if isinstance(fn, types.MethodType):
            if self.interpretable(fn.__func__) or fn.__func__ in self.hooks:
                return self.call(fn.__func__, [fn.__self__] + list(args), kwargs)
            return self.m.library(fn, args, kwargs)
        if isinstance(fn, functools._lru_cache_wrapper):
            self.w.events.append(("cache", getattr(fn.__wrapped__, "__qualname__", "?")))
            return self.call(fn.__wrapped__, args, kwargs)
        if isinstance(fn, functools.partial):
            kw = dict(fn.keywords)
            kw.update(kwargs)
            return self.call(fn.func, list(fn.args) + list(args), kw)
        if isinstance(fn, (staticmethod, classmethod)):
            return self.call(fn.__func__, args, kwargs)
        if isinstance(fn, VClass):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, type):
            if self.own_class(fn) or (issubclass(fn, BaseException)):
                return self.instantiate(fn, args, kwargs)
            return self.m.construct(fn, args, kwargs)
        if isinstance(fn, VObj):
            f = self.lookup_type(fn.cls, "__call__")
            if f is not None:
                return self.call(VBound(f, fn), args, kwargs)
        if isinstance(fn, types.BuiltinFunctionType) and isinstance(getattr(fn, "__self__", None), (str, tuple, dict, list, set, frozenset, re.Pattern)):
            return self.m.method(fn.__self__, fn.__name__, args, kwargs)
        if callable(fn):
            if self.own_class(type(fn)):
                f = self.lookup_type(type(fn), "__call__")
                if f is not None:
                    return self.call(VBound(f, fn), args, kwargs)
            return self.m.library(fn, args, kwargs)
        if fn is None or isinstance(fn, (str, int, SStr, SInt, VList, VDict)):
            self.raise_(TypeError, "not callable")
        raise Unsupported("call of %s" % type(fn).__name__)

    def call_host(self, fn, args, kwargs):
        node = source_of(fn)
        frame = Frame(fn.__globals__)
        if fn.__closure__:
            outer = Frame(fn.__globals__)
            for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    outer.vars[nm] = cell.cell_contents
                except ValueError:
                    pass
            frame = outer
        else:
            frame = None
        defaults = list(fn.__defaults__ or ())
        kwd = dict(fn.__kwdefaults__ or {})
        q = fn.__module__ + "." + fn.__qualname__
        self.used[q] = self.used.get(q, 0) + 1
        defcls = None
        if fn.__closure__ and "__class__" in fn.__code__.co_freevars:
            defcls = frame.vars.get("__class__")
        return self.run(node, args, kwargs, defaults, kwd, fn.__globals__, frame, defcls, q, fn)

    def run(self, node, args, kwargs, defaults, kwdefaults, globals_, outer, defcls, name, fn):
        w = self.w
        if w.depth > 60:
            raise Unsupported("recursion in %s" % name)
        r = self.loops.recursion(fn, name, args, kwargs)
        if r is not NotImplemented:
            return r
        f = Frame(globals_, outer, defcls, name)
        f.locals = locals_of(node)
        self.bind_args(f, node.args, list(args), dict(kwargs), defaults, kwdefaults, name)
        if args:
            f.self = args[0]
        if isinstance(node, ast.Lambda):
            w.depth += 1
            try:
                return self.ev(node.body, f)
            finally:
                w.depth -= 1
        if is_generator(node):
            return VIter(make=lambda partial: self.generate(node, f, fn, name))
        w.depth += 1
        self.stack.append((fn, name))
        try:
            self.block(node.body, f)
        except Return as r:
            return r.val
        finally:
            self.stack.pop()
            w.depth -= 1
        return None

    def generate(self, node, f, fn, name):
        """What a generator function yields."""
        f.yields = VList()
        self.w.depth += 1
        self.stack.append((fn, name))
        try:
            self.block(node.body, f)
        except Return:
            pass
        finally:
            self.stack.pop()
            self.w.depth -= 1
        return f.yields

    def bind_args(self, f, a, args, kwargs, defaults, kwdefaults, name):
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(defaults)
        v = f.vars
        for k, p in enumerate(pos):
            if k < len(args):
                if p in kwargs:
                    self.raise_(TypeError, "multiple values for %s" % p)
                v[p] = args[k]
            elif p in kwargs:
                v[p] = kwargs.pop(p)
            elif k >= len(pos) - nd:
                v[p] = defaults[k - (len(pos) - nd)]
            else:
                self.raise_(TypeError, "%s() missing argument %s" % (name, p))
        if len(args) > len(pos):
            if not a.vararg:
                self.raise_(TypeError, "%s() takes %d arguments" % (name, len(pos)))
            v[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg:
            v[a.vararg.arg] = ()
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                v[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                v[x.arg] = kwdefaults[x.arg]
            else:
                self.raise_(TypeError, "missing %s" % x.arg)
        if kwargs:
            if not a.kwarg:
                self.raise_(TypeError, "%s() got unexpected %s" % (name, sorted(kwargs)))
            v[a.kwarg.arg] = VDict(kwargs)
        elif a.kwarg:
            v[a.kwarg.arg] = VDict()

    def instantiate(self, cls, args, kwargs):
        h = self.hooks.get(cls)
        if h is not None:
            r = h(self, args, kwargs)
            if r is not NotImplemented:
                return r
        if isinstance(cls, type) and issubclass(cls, enum.Enum):
            if all(isinstance(x, (str, int, bool)) for x in args):
                try:
                    return cls(*args)
                except ValueError as e:
                    self.raise_(ValueError, str(e))
            raise Unsupported("enum lookup of a symbolic value")
        if isinstance(cls, type) and (issubclass(cls, (tuple, str, int, dict, list, set)) or type(cls) not in (type, __import__("abc").ABCMeta)):
            if hasattr(cls, "_fields") and issubclass(cls, tuple):
                o = VObj(cls)
                vals = list(args)
                for k, fld in enumerate(cls._fields):
                    if k < len(vals):
                        o.fields[fld] = vals[k]
                    elif fld in kwargs:
                        o.fields[fld] = kwargs[fld]
                    elif fld in cls._field_defaults:
                        o.fields[fld] = cls._field_defaults[fld]
                    else:
                        self.raise_(TypeError, fld)
                return o
            if cls.__init__ is not getattr(cls.__mro__[1], "__init__", None) or True:
                raise Unsupported("instance of %s" % cls.__name__)
        if self.lookup_type(cls, "__new__") not in (None, object.__new__) and not (isinstance(cls, type) and issubclass(cls, BaseException)):
            raise Unsupported("__new__ of %s" % cls)
        if getattr(cls, "__abstractmethods__", None):
            self.raise_(TypeError, "abstract class")
        o = VObj(cls)
        if isinstance(cls, type) and dataclasses.is_dataclass(cls) and not self.interpretable_method(cls, "__init__"):
            vals = list(args)
            for k, fld in enumerate([x for x in dataclasses.fields(cls) if x.init]):
                if k < len(vals):
                    o.fields[fld.name] = vals[k]
                elif fld.name in kwargs:
                    o.fields[fld.name] = kwargs[fld.name]
                elif fld.default is not dataclasses.MISSING:
                    o.fields[fld.name] = fld.default
                elif fld.default_factory is not dataclasses.MISSING:
                    o.fields[fld.name] = self.call(fld.default_factory, [], {})
                else:
                    self.raise_(TypeError, fld.name)
            for fld in dataclasses.fields(cls):
                if not fld.init:
                    if fld.default is not dataclasses.MISSING:
                        o.fields[fld.name] = fld.default
                    elif fld.default_factory is not dataclasses.MISSING:
                        o.fields[fld.name] = self.call(fld.default_factory, [], {})
            post = self.lookup_type(cls, "__post_init__")
            if post is not None:
                self.call(VBound(post, o), [], {})
            return o
        init = self.lookup_type(cls, "__init__")
        if isinstance(cls, type) and issubclass(cls, BaseException):
            o.fields["args"] = tuple(args)
            if init is None or not isinstance(init, types.FunctionType):
                return o
        if init is None:
            if args or kwargs:
                self.raise_(TypeError, "takes no arguments")
            return o
        if not isinstance(init, (types.FunctionType, VFunc)):
            raise Unsupported("constructor of %s" % cls)
        self.call(VBound(init, o), args, kwargs)
        return o

    def interpretable_method(self, cls, name):
        raw = self.lookup_type(cls, name)
        return isinstance(raw, types.FunctionType) and self.interpretable(raw)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, f):
        for s in stmts:
            self.st(s, f)

    def st(self, s, f):
        getattr(self, "st_" + type(s).__name__, self.st_unsupported)(s, f)

    def st_unsupported(self, s, f):
        raise Unsupported("statement %s" % type(s).__name__)

    def st_Expr(self, s, f):
        if isinstance(s.value, ast.Yield):
            self.w.write_segs(f.yields, f.yields.segs + (One(self.ev(s.value.value, f) if s.value.value else None),))
            return
        if isinstance(s.value, ast.YieldFrom):
            v = self.m.as_list(self.ev(s.value.value, f))
            self.w.write_segs(f.yields, f.yields.segs + v.segs)
            return
        self.ev(s.value, f)

    def st_Pass(self, s, f):
        pass

    def st_Return(self, s, f):
        raise Return(self.ev(s.value, f) if s.value else None)

    def st_Break(self, s, f):
        raise Break()

    def st_Continue(self, s, f):
        raise Continue()

    def st_If(self, s, f):
        self.block(s.body if self.truth(self.ev(s.test, f)) else s.orelse, f)

    def st_Assign(self, s, f):
        v = self.ev(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def st_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, f), f)

    def st_AugAssign(self, s, f):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, f)
            self.set_name(t.id, self.augop(s.op, old, self.ev(s.value, f)), f)
        elif isinstance(t, ast.Attribute):
            o = self.force(self.ev(t.value, f))
            self.setattr(o, t.attr, self.augop(s.op, self.getattr(o, t.attr), self.ev(s.value, f)))
        elif isinstance(t, ast.Subscript):
            o = self.force(self.ev(t.value, f))
            k = self.ev(t.slice, f)
            self.m.setitem(o, k, self.augop(s.op, self.m.getitem(o, k), self.ev(s.value, f)))
        else:
            raise Unsupported("augmented assignment")

    def augop(self, op, a, b):
        a = self.force(a)
        if isinstance(a, VList) and a.kind == "list" and isinstance(op, ast.Mult) or isinstance(a, VSet):
            raise Unsupported("assignment in place")
        if isinstance(a, VList) and a.kind == "list" and isinstance(op, ast.Add):
            self.w.write_segs(a, a.segs + self.m.as_list(b).segs)
            return a
        if isinstance(a, list):
            self.host_mutation("a shared list")
        if isinstance(a, VDict) and isinstance(op, ast.BitOr):
            self.m.dict_update(a, b)
            return a
        return self.m.binop(op, a, b)

    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, f)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, f), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.ev(t.value, f))
            self.m.setitem(o, self.ev(t.slice, f), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                vals = self.m.as_list(v, partial=True)
                k = star[0]
                n = len(t.elts) - 1
                total = self.m.length(vals)
                self.m.require(self.m.compare_int(total, n, "ge"), ValueError, "not enough values to unpack")
                for j in range(k):
                    self.assign(t.elts[j], self.m.getitem(vals, j), f)
                after = len(t.elts) - k - 1
                self.assign(t.elts[k].value, VList(self.m.slice(VList(vals.segs), k, self.m.sub_int(total, after)).segs), f)
                for j in range(after):
                    self.assign(t.elts[k + 1 + j], self.m.getitem(vals, self.m.sub_int(total, after - j)), f)
                return
            vals = self.unpack(v, len(t.elts))
            for x, val in zip(t.elts, vals):
                self.assign(x, val, f)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        v = self.force(v)
        if isinstance(v, tuple):
            if len(v) != n:
                self.raise_(ValueError, "unpack")
            return list(v)
        if isinstance(v, VObj) and isinstance(v.cls, type) and issubclass(v.cls, tuple) and hasattr(v.cls, "_fields"):
            return [v.fields[x] for x in v.cls._fields]
        lst = VList(self.m.as_list(v, partial=True).segs)
        total = self.m.length(lst)
        self.m.require(self.m.compare_int(total, n, "eq"), ValueError, "unpack")
        return [self.m.getitem(lst, j) for j in range(n)]

    def set_name(self, name, v, f):
        if name in f.nonlocals:
            g = f.outer
            while g is not None and name not in g.vars:
                g = g.outer
            if g is None:
                self.host_mutation("global %s" % name)
            f = g
        self.w.note_write(f, f.vars, name)
        self.w.setitem(f.vars, name, v)

    def st_Global(self, s, f):
        for n in s.names:
            f.nonlocals.add(n)
            # assignments are detected in set_name: globals are never in an outer frame
        self._mark_global(f, s.names)

    def _mark_global(self, f, names):
        pass

    def st_Nonlocal(self, s, f):
        for n in s.names:
            f.nonlocals.add(n)

    def st_For(self, s, f):
        self.loops.for_(s, f)

    def st_While(self, s, f):
        self.loops.while_(s, f)

    def st_Raise(self, s, f):
        if s.exc is None:
            if f.exc is None:
                raise Unsupported("bare raise")
            raise PyExc(f.exc)
        e = self.force(self.ev(s.exc, f))
        if isinstance(e, (type, VClass)):
            e = self.call(e, [], {})
        if s.cause is not None:
            self.ev(s.cause, f)
        if e is None or not isinstance(e, VObj):
            if isinstance(e, BaseException):
                raise Unsupported("raising a shared exception object")
            self.raise_(TypeError, "exceptions must derive from BaseException")
        raise PyExc(e)

    def st_Assert(self, s, f):
        if not self.truth(self.ev(s.test, f)):
            self.raise_(AssertionError, *( [self.ev(s.msg, f)] if s.msg else []))

    def st_Try(self, s, f):
        try:
            try:
                self.block(s.body, f)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.m.exc_matches(e.val, self.ev(h.type, f)):
                        if h.name:
                            self.set_name(h.name, e.val, f)
                        old, f.exc = f.exc, e.val
                        try:
                            self.block(h.body, f)
                        finally:
                            f.exc = old
                            if h.name and h.name in f.vars and h.name not in f.nonlocals:
                                self.unbind(h.name, f)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, f)
        except (PyExc, Return, Break, Continue):
            self.block(s.finalbody, f)
            raise
        self.block(s.finalbody, f)

    def st_With(self, s, f):
        raise Unsupported("with")

    def st_Import(self, s, f):
        import importlib
        for a in s.names:
            mod = importlib.import_module(a.name)
            self.set_name(a.asname or a.name.split(".")[0], mod if a.asname or "." not in a.name else importlib.import_module(a.name.split(".")[0]), f)

    def st_ImportFrom(self, s, f):
        import importlib
        base = f.globals.get("__package__") if s.level else None
        mod = importlib.import_module("." * s.level + (s.module or ""), base) if s.level else importlib.import_module(s.module)
        for a in s.names:
            self.set_name(a.asname or a.name, getattr(mod, a.name), f)

    def st_FunctionDef(self, s, f):
        v = self.make_function(s, f, s.name)
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, f), [v], {})
        self.set_name(s.name, v, f)

    def make_function(self, node, f, name):
        a = node.args
        return VFunc(node, f, [self.ev(d, f) for d in a.defaults],
                     {x.arg: self.ev(d, f) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}, name, f.defcls)

    def st_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in f.nonlocals:
                    raise Unsupported("del of a variable of another function")
                self.name(t.id, f)
                self.unbind(t.id, f)
            elif isinstance(t, ast.Subscript):
                self.m.delitem(self.force(self.ev(t.value, f)), self.ev(t.slice, f))
            else:
                raise Unsupported("del")

    def unbind(self, name, f):
        self.w.note_write(f, f.vars, name)
        old = f.vars.pop(name)
        self.w.journal.append(lambda: f.vars.__setitem__(name, old))

    def st_Match(self, s, f):
        subj = self.force(self.ev(s.subject, f))
        for c in s.cases:
            binds = {}
            if self.pattern(c.pattern, subj, f, binds):
                for k, v in binds.items():
                    self.set_name(k, v, f)
                if c.guard is None or self.truth(self.ev(c.guard, f)):
                    self.block(c.body, f)
                    return

    def pattern(self, p, v, f, binds):
        v = self.force(v)
        if isinstance(p, ast.MatchValue):
            return self.truth(self.m.eq(v, self.ev(p.value, f)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.m.is_(v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, f, binds) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, f, binds):
                return False
            if p.name:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, (str, SStr)) or not isinstance(v, (tuple, VList)):
                return False
            pats = p.patterns
            star = [k for k, q in enumerate(pats) if isinstance(q, ast.MatchStar)]
            n = self.m.length(v)
            if not star:
                if not self.truth(self.m.compare_int(n, len(pats), "eq")):
                    return False
                return all(self.pattern(q, self.m.getitem(v, k), f, binds) for k, q in enumerate(pats))
            k = star[0]
            after = len(pats) - k - 1
            if not self.truth(self.m.compare_int(n, len(pats) - 1, "ge")):
                return False
            for j in range(k):
                if not self.pattern(pats[j], self.m.getitem(v, j), f, binds):
                    return False
            for j in range(after):
                if not self.pattern(pats[k + 1 + j], self.m.getitem(v, self.m.sub_int(n, after - j)), f, binds):
                    return False
            if pats[k].name:
                binds[pats[k].name] = self.m.slice(self.m.as_list(v), k, self.m.sub_int(n, after))
            return True
        raise Unsupported("pattern %s" % type(p).__name__)

    # ------------------------------------------------------------------ expressions
    def ev(self, n, f):
        return getattr(self, "ev_" + type(n).__name__, self.ev_unsupported)(n, f)

    def ev_unsupported(self, n, f):
        raise Unsupported("expression %s" % type(n).__name__)

    def ev_Constant(self, n, f):
        return n.value

    def name(self, name, f):
        g = f
        while g is not None:
            if name in g.vars:
                v = g.vars[name]
                if isinstance(v, V.Poison):
                    raise V.PlaceholderUsed(v)
                return v
            if name in g.locals:
                self.raise_(UnboundLocalError if g is f or getattr(f, "fn", None) == "<comp>" else NameError, name)
            g = g.outer
        if name in f.globals:
            return f.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.raise_(NameError, name)

    def ev_Name(self, n, f):
        return self.name(n.id, f)

    def ev_NamedExpr(self, n, f):
        v = self.ev(n.value, f)
        g = f
        while getattr(g, "fn", None) == "<comp>":
            g = g.outer
        self.set_name(n.target.id, v, g)
        return v

    def ev_Attribute(self, n, f):
        o = self.ev(n.value, f)
        name = n.attr
        if name.startswith("__") and not name.endswith("__"):
            c = f.defcls or (f.self.cls if isinstance(f.self, VObj) else None)
            nm = None
            if isinstance(f.self, VObj):
                for k in self.mro(f.self.cls):
                    cand = "_%s%s" % ((k.name if isinstance(k, VClass) else k.__name__).lstrip("_"), name)
                    if cand in f.self.fields or self.lookup_type(f.self.cls, cand) is not None:
                        nm = cand
                        break
            name = nm or ("_%s%s" % (getattr(c, "__name__", "X").lstrip("_"), name) if c else name)
        return self.getattr(o, name)

    def ev_Call(self, n, f):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return self.make_super(f)
        if isinstance(n.func, ast.Name) and n.func.id == "locals":
            raise Unsupported("locals")
        fn = self.ev(n.func, f)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.m.as_list(self.ev(a.value, f))
                if not v.concrete():
                    v = self.m.concretise(v)
                args.extend(v.items())
            else:
                args.append(self.ev(a, f))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value, f))
                if isinstance(d, VDict) and d.base is None and not d.fams:
                    kwargs.update(d.items)
                elif isinstance(d, dict):
                    kwargs.update(d)
                else:
                    raise Unsupported("** of a symbolic mapping")
            else:
                kwargs[k.arg] = self.ev(k.value, f)
        return self.call(fn, args, kwargs)

    def make_super(self, f):
        g = f
        while g is not None and g.self is None:
            g = g.outer
        cls = f.defcls
        o = f
        while cls is None and o is not None:
            cls = o.vars.get("__class__") or o.defcls
            o = o.outer
        if g is None or cls is None:
            raise Unsupported("super()")
        return VSuper(cls, g.self)

    def ev_JoinedStr(self, n, f):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, f)
                if v.conversion == 114:
                    x = self.m.repr_(x)
                elif v.conversion not in (-1, 115):
                    raise Unsupported("conversion")
                spec = self.ev(v.format_spec, f) if v.format_spec else ""
                if spec:
                    parts.append(self.m.format_(x, spec))
                else:
                    parts.append(self.m.str_(x))
        return mkstr(parts)

    def ev_FormattedValue(self, n, f):
        return self.m.str_(self.ev(n.value, f))

    def ev_BoolOp(self, n, f):
        is_and = isinstance(n.op, ast.And)
        v = None
        for k, x in enumerate(n.values):
            v = self.ev(x, f)
            if k == len(n.values) - 1:
                return v
            t = self.truth(v)
            if t != is_and:
                return self.settled(v, t)
        return v

    def settled(self, v, t):
        """v after its truth was decided."""
        v = self.force(v)
        if isinstance(v, SBool):
            return t
        return v

    def ev_UnaryOp(self, n, f):
        v = self.ev(n.operand, f)
        if isinstance(n.op, ast.Not):
            v = self.force(v)
            if isinstance(v, SBool):
                return from_z3(z3.Not(v.e))
            return not self.truth(v)
        v = self.force(v)
        if isinstance(n.op, ast.USub):
            return -v if isinstance(v, (int, float)) else self.m.sub_int(0, v)
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def ev_BinOp(self, n, f):
        return self.m.binop(n.op, self.ev(n.left, f), self.ev(n.right, f))

    def ev_Compare(self, n, f):
        left = self.ev(n.left, f)
        res = True
        for k, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(rn, f)
            r = self.m.compare(op, left, right)
            if k == len(n.ops) - 1:
                if res is True:
                    return r
                return r
            if not self.truth(r):
                return False
            left = right
        return res

    def ev_IfExp(self, n, f):
        return self.ev(n.body if self.truth(self.ev(n.test, f)) else n.orelse, f)

    def elts(self, elts, f):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.m.as_list(self.ev(e.value, f)).segs)
            else:
                out.append(One(self.ev(e, f)))
        return out

    def ev_Tuple(self, n, f):
        s = self.elts(n.elts, f)
        if all(isinstance(x, One) for x in s):
            return tuple(x.v for x in s)
        return VList(s, "tuple")

    def ev_List(self, n, f):
        return VList(self.elts(n.elts, f))

    def ev_Set(self, n, f):
        v = VList(self.elts(n.elts, f))
        return VSet(self.m.concretise(v).items())

    def ev_Dict(self, n, f):
        d = VDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.m.dict_update(d, self.ev(v, f))
            else:
                kk = self.force(self.ev(k, f))
                self.m.dict_set(d, kk, self.ev(v, f))
        return d

    def ev_Subscript(self, n, f):
        o = self.force(self.ev(n.value, f))
        if isinstance(n.slice, ast.Slice):
            lo, hi, step = [self.force(self.ev(x, f)) if x is not None else None for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            return self.m.slice(o, lo, hi, step)
        return self.m.getitem(o, self.force(self.ev(n.slice, f)))

    def ev_Slice(self, n, f):
        raise Unsupported("slice object")

    def ev_Lambda(self, n, f):
        return self.make_function(n, f, "<lambda>")

    def ev_ListComp(self, n, f):
        return VList(self.loops.comprehension(n.generators, n.elt, f))

    def ev_GeneratorExp(self, n, f):
        first = self.force(self.ev(n.generators[0].iter, f))
        if first is None or isinstance(first, (int, SInt, SBool, OElem)):
            self.raise_(TypeError, "not iterable")
        return VIter(make=lambda partial: VList(self.loops.comprehension(n.generators, n.elt, f, first, partial)))

    def ev_SetComp(self, n, f):
        return VSet(self.m.concretise(VList(self.loops.comprehension(n.generators, n.elt, f))).items())

    def ev_DictComp(self, n, f):
        segs = self.loops.comprehension(n.generators, ast.Tuple([n.key, n.value], ast.Load()), f)
        d = VDict()
        for s in segs:
            if isinstance(s, One):
                self.m.dict_set(d, self.force(s.v[0]), s.v[1])
            else:
                d.fams = d.fams + (s,)
        return d

    def ev_Yield(self, n, f):
        raise Unsupported("yield expression")

    def ev_Starred(self, n, f):
        raise Unsupported("starred")
