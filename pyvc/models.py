"""Models of the built-in operations on symbolic values."""
import ast
import builtins
import enum
import functools
import itertools
import operator
import re
import types

import z3

from . import rx
from . import values as V
from .values import (Str, Int, Bool, SStr, SInt, SBool, OElem, ONode, OAttrs, OAttr, OConv, VIte, One, Fam, Prefix, RunFam,
                     VList, VDict, VSet, VObj, VClass, VFunc, VBound, VMeth, VPartial, VMatch, VIter, Unsupported, PyExc,
                     mkstr, zs, zstr, from_z3, const_str, subst)

STRLIKE = (str, SStr)
INTLIKE = (int, SInt)
PURE_LIBRARY = {re.escape, re.compile, len, ord, chr, repr, abs, min, max, sum, format, round, divmod, bin, hex, oct, ascii, bool}


SYMBOLIC_TYPES = {SStr: str, SInt: int, SBool: bool, VDict: dict, VSet: set}
# the arguments the models take: most positional ones, and the names of keyword ones
CONSTRUCTORS = {str: (1, ()), bool: (1, ()), int: (2, ()), list: (1, ()), tuple: (1, ()), set: (1, ()), frozenset: (1, ()),
                enumerate: (2, ("start",)), zip: (99, ()), range: (3, ()), reversed: (1, ()), map: (99, ()), filter: (2, ()),
                type: (1, ()), object: (0, ()), itertools.chain: (99, ()), itertools.repeat: (2, ()),
                itertools.zip_longest: (99, ("fillvalue",)), itertools.islice: (4, ()), operator.itemgetter: (1, ()),
                operator.attrgetter: (1, ())}
LIBRARY = {len: (1, 1, ()), any: (1, 1, ()), all: (1, 1, ()), isinstance: (2, 2, ()), issubclass: (2, 2, ()), getattr: (2, 3, ()),
           hasattr: (2, 2, ()), setattr: (3, 3, ()), callable: (1, 1, ()), next: (1, 2, ()), iter: (1, 1, ()),
           sum: (1, 2, ("start",)), sorted: (1, 1, ("key", "reverse")), repr: (1, 1, ()), functools.reduce: (2, 3, ()),
           itertools.chain.from_iterable: (1, 1, ()), operator.add: (2, 2, ()), operator.concat: (2, 2, ()),
           operator.eq: (2, 2, ()), operator.contains: (2, 2, ()), str.join: (2, 2, ())}
METHODS = {"get": (1, 2), "setdefault": (1, 2), "update": (0, 1), "pop": (0, 2), "copy": (0, 0), "items": (0, 0), "keys": (0, 0),
           "values": (0, 0), "append": (1, 1), "extend": (1, 1), "insert": (2, 2), "clear": (0, 0), "reverse": (0, 0),
           "index": (1, 1), "count": (1, 1), "add": (1, 1), "__len__": (0, 0), "__getitem__": (1, 1), "__contains__": (1, 1)}
STR_METHODS = {"join": (1, 1), "startswith": (1, 1), "endswith": (1, 1), "isspace": (0, 0), "isdigit": (0, 0), "isalpha": (0, 0),
               "isalnum": (0, 0), "isdecimal": (0, 0), "isnumeric": (0, 0), "isascii": (0, 0), "strip": (0, 1), "split": (0, 2),
               "splitlines": (0, 1), "replace": (2, 2), "find": (1, 1), "removeprefix": (1, 1), "removesuffix": (1, 1),
               "__len__": (0, 0), "__contains__": (1, 1), "__add__": (1, 1), "count": (1, 1)}


def zi(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    return z3.IntVal(v) if isinstance(v, int) else v.e


def symbolic(k):
    """Whether a dictionary key has parts that are not known: it may equal keys it is not identical to."""
    if isinstance(k, (tuple, frozenset)):
        return any(symbolic(x) for x in k)
    return isinstance(k, (SStr, SInt, SBool, VObj, VList, VDict, VSet, VIte, OElem, ONode, OAttr, OConv))


class Models:
    def __init__(self, ip):
        self.ip = ip
        self.w = ip.w

    # ------------------------------------------------------------------ integers
    def sub_int(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a - b
        return from_z3(zi(a) - zi(b))

    def add_int(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        return from_z3(zi(a) + zi(b))

    def compare_int(self, a, b, op):
        if isinstance(a, int) and isinstance(b, int):
            return getattr(operator, op)(a, b)
        return from_z3(getattr(operator, op)(zi(a), zi(b)))

    def require(self, c, exc, msg):
        if not self.ip.truth(c):
            self.ip.raise_(exc, msg)

    def known_int(self, v):
        """The int, if the path condition determines it."""
        v = self.ip.force(v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, SInt):
            return self.w.const_int(v.e)
        return None

    # ------------------------------------------------------------------ sequences
    def length(self, v):
        v = self.ip.force(v)
        if isinstance(v, (str, tuple, list, dict, set, frozenset, bytes)):
            return len(v)
        if isinstance(v, SStr):
            total = 0
            e = None
            for p in v.parts:
                if isinstance(p, str):
                    total += len(p)
                else:
                    e = z3.Length(p) if e is None else e + z3.Length(p)
            return from_z3(e + total if total else e)
        if isinstance(v, VList):
            total, e = 0, None
            for s in v.segs:
                if isinstance(s, One):
                    total += 1
                    continue
                if isinstance(s, Fam):
                    t = s.n if s.cond is None else self.w.fold("COUNT", s.n, s.i, s.cond)
                elif isinstance(s, Prefix):
                    t = s.length
                elif isinstance(s, RunFam):
                    t = self.w.run_length(s)
                else:
                    raise Unsupported("length of a list")
                e = t if e is None else e + t
            return total if e is None else from_z3(e + total if total else e)
        if isinstance(v, VDict):
            if v.base is None and not v.fams:
                return len(v.items)
            raise Unsupported("len of a symbolic mapping")
        if isinstance(v, VSet):
            return len(self.dedupe(v))
        if isinstance(v, VObj):
            if isinstance(v.cls, type) and issubclass(v.cls, tuple) and hasattr(v.cls, "_fields"):
                return len(v.cls._fields)
            f = self.ip.lookup_type(v.cls, "__len__")
            if f is not None:
                return self.ip.call(VBound(f, v), [], {})
        if isinstance(v, OAttrs):
            return from_z3(V.f_nattr(v.node))
        if v is None or isinstance(v, (int, SInt, bool)):
            self.ip.raise_(TypeError, "no len()")
        raise Unsupported("len of %s" % type(v).__name__)

    def dedupe(self, v):
        out = []
        for x in v.vals:
            if not any(self.ip.truth(self.eq(x, y)) for y in out):
                out.append(x)
        return out

    def consume(self, it, partial=False):
        """The elements an iterator still has; it has none afterwards.  partial: the consumer may stop before the end, so
        what the iterator does for later elements need not happen."""
        w = self.w
        if it.partial:
            raise Unsupported("iterator that was partly consumed")
        lst, make = it.lst, it.make
        for k, x in (("lst", VList()), ("make", None), ("partial", bool(partial))):
            w.note_write(it, it, k)
            w.setattr(it, k, x, it)
        if make is None:
            return lst
        w.regions.append([next(V._stamps), {}])
        try:
            return make(partial)
        except PyExc:
            if partial:
                raise Unsupported("exception in an iterator that need not be consumed")
            raise
        finally:
            writes = w.regions.pop()[1]
            for _cont, _k, obj in writes.values():
                if partial and not isinstance(obj, VIter) and getattr(obj, "fn", None) != "<comp>" and getattr(obj, "yields", None) is None:
                    raise Unsupported("effect of an iterator that need not be consumed")

    def as_list(self, v, unordered=False, partial=False):
        """A (possibly new) VList of the elements of an iterable."""
        v = self.ip.force(v)
        if isinstance(v, VList):
            return v
        if isinstance(v, (tuple, list, str)):
            return VList.of(list(v))
        if isinstance(v, (set, frozenset, VSet)) and len(v.vals if isinstance(v, VSet) else v) > 1 and not unordered:
            raise Unsupported("iteration order of a set")
        if isinstance(v, (dict, set, frozenset)):
            return VList.of(list(v))
        if isinstance(v, SStr):
            x = v.z3()
            if all(isinstance(p, str) for p in v.parts):
                return VList.of(list("".join(v.parts)))
            i = self.w.bound()
            if len(v.parts) == 1:
                return VList([Fam(z3.Length(x), i, None, SStr((V.f_char(x, i),)), ("chars", x))])
            segs = []
            for p in v.parts:
                if isinstance(p, str):
                    segs.extend(One(c) for c in p)
                else:
                    segs.append(Fam(z3.Length(p), i, None, SStr((V.f_char(p, i),)), ("chars", p)))
            return VList(segs)
        if isinstance(v, VDict):
            if v.base is None and not v.fams:
                return VList.of(list(v.items))
            raise Unsupported("iteration over a symbolic mapping")
        if isinstance(v, VSet):
            return VList.of(self.dedupe(v))
        if isinstance(v, VIter):
            return self.consume(v, partial)
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return VList.of(list(v))
        if isinstance(v, VObj):
            if isinstance(v.cls, type) and issubclass(v.cls, tuple) and hasattr(v.cls, "_fields"):
                return VList.of([v.fields[x] for x in v.cls._fields])
            f = self.ip.lookup_type(v.cls, "__iter__")
            if f is not None:
                return self.as_list(self.ip.call(VBound(f, v), [], {}), partial=partial)
        if isinstance(v, OAttrs):
            raise Unsupported("iteration over an attribute map")
        if isinstance(v, (range,)):
            return VList.of(list(v))
        if v is None or isinstance(v, (int, SInt, bool, OElem)):
            self.ip.raise_(TypeError, "not iterable")
        raise Unsupported("iteration over %s" % type(v).__name__)

    def concretise(self, lst, limit=12):
        """A list without families, when the path condition determines their lengths."""
        if lst.concrete():
            return lst
        out = []
        for s in lst.segs:
            if isinstance(s, One):
                out.append(s)
            elif isinstance(s, Fam):
                n = self.w.const_int(s.n)
                if n is None or n > limit:
                    raise Unsupported("list of unknown length")
                for k in range(max(n, 0)):
                    if s.cond is not None and not self.w.decide(z3.substitute(s.cond, (s.i, z3.IntVal(k)))):
                        continue
                    out.append(One(subst(s.value, [(s.i, z3.IntVal(k))])))
            else:
                raise Unsupported("list of unknown length")
        return VList(out)

    def getitem(self, o, k):
        o, k = self.ip.force(o), self.ip.force(k)
        if isinstance(o, VDict) or isinstance(o, dict):
            v, found = self.dict_lookup(o, k)
            if not found:
                f = isinstance(o, VDict) and getattr(o, "default", None)
                self.ip.raise_(KeyError, k)
            return v
        if isinstance(k, bool):
            k = int(k)
        if isinstance(o, VObj) and isinstance(o.cls, type) and issubclass(o.cls, tuple) and hasattr(o.cls, "_fields"):
            o = tuple(o.fields[x] for x in o.cls._fields)
        if isinstance(o, (tuple, list)) and not isinstance(k, int):
            o = VList.of(list(o))
        if isinstance(o, (str, tuple, list)) and isinstance(k, int):
            if not -len(o) <= k < len(o):
                self.ip.raise_(IndexError, "index out of range")
            return o[k]
        if isinstance(o, (str, SStr)) and isinstance(k, INTLIKE):
            return self.char_at(o, k)
        if isinstance(o, VList) and o.kind == "view":
            self.ip.raise_(TypeError, "not subscriptable")
        if isinstance(o, VList) and isinstance(k, INTLIKE):
            return self.list_at(o, k)
        if isinstance(o, VObj):
            f = self.ip.lookup_type(o.cls, "__getitem__")
            if f is not None:
                return self.ip.call(VBound(f, o), [k], {})
        if isinstance(o, OAttrs):
            raise Unsupported("attribute map item")
        if isinstance(o, type) and issubclass(o, enum.Enum) and isinstance(k, str):
            try:
                return o[k]
            except KeyError:
                self.ip.raise_(KeyError, k)
        if isinstance(o, type) or type(o).__module__ == "typing":
            return o
        if o is None:
            self.ip.raise_(TypeError, "not subscriptable")
        raise Unsupported("item of %s" % type(o).__name__)

    def char_at(self, s, k):
        n = self.length(s)
        x = zs(s)
        if isinstance(k, int) and isinstance(s, SStr):
            if k >= 0 and s.parts and isinstance(s.parts[0], str) and k < len(s.parts[0]):
                return s.parts[0][k]
            if k < 0 and s.parts and isinstance(s.parts[-1], str) and -k <= len(s.parts[-1]):
                return s.parts[-1][k]
        if isinstance(k, int) and k < 0:
            self.require(self.compare_int(n, -k, "ge"), IndexError, "string index out of range")
            return self.w.char_of(x, zi(n) + k)
        if isinstance(k, int):
            self.require(self.compare_int(n, k, "gt"), IndexError, "string index out of range")
            return self.w.char_of(x, z3.IntVal(k))
        self.require(self.compare_int(n, k, "gt"), IndexError, "string index out of range")
        if not self.w.valid(k.e >= 0):
            if self.w.decide(k.e < 0):
                self.require(from_z3(zi(n) + k.e >= 0), IndexError, "string index out of range")
                return self.w.char_of(x, zi(n) + k.e)
        return self.w.char_of(x, k.e)

    def list_at(self, o, k):
        n = self.length(o)
        kk = self.known_int(k) if isinstance(k, SInt) else k
        if kk is not None:
            k = kk
        if isinstance(k, int) and k < 0:
            last = o.segs[-1] if o.segs else None
            if k == -1 and isinstance(last, One):
                return last.v
            if k == -1 and isinstance(last, Prefix):
                self.require(from_z3(last.length > 0) if len(o.segs) == 1 else True, IndexError, "list index out of range")
                if len(o.segs) == 1:
                    return self.w.prefix_last(last)
            if k == -1 and isinstance(last, RunFam):
                raise Unsupported("last run")
            tail = 0
            for s in reversed(o.segs):
                if isinstance(s, One):
                    tail += 1
                    if tail == -k:
                        return s.v
                else:
                    break
            self.require(self.compare_int(n, -k, "ge"), IndexError, "list index out of range")
            k = from_z3(zi(n) + k)
        if isinstance(k, int):
            pos = 0
            for j, s in enumerate(o.segs):
                if isinstance(s, One):
                    if pos == k:
                        return s.v
                    pos += 1
                elif isinstance(s, Fam) and s.cond is None:
                    c = self.w.const_int(s.n)
                    idx = z3.IntVal(k - pos)
                    if c is not None:
                        if k - pos < c:
                            return subst(s.value, [(s.i, idx)])
                        pos += max(c, 0)
                    else:
                        if self.w.decide(s.n > k - pos):
                            return subst(s.value, [(s.i, idx)])
                        if j == len(o.segs) - 1:
                            break
                        # the family is shorter: continue with its (symbolic) length
                        return self.list_at(VList(o.segs[j + 1:]), from_z3(z3.IntVal(k - pos) - s.n))
                else:
                    raise Unsupported("index into a filtered list")
            self.ip.raise_(IndexError, "list index out of range")
        # symbolic index
        e = k.e
        if not self.w.valid(e >= 0):
            if self.w.decide(e < 0):
                e = z3.simplify(e + zi(n))
                self.require(from_z3(e >= 0), IndexError, "list index out of range")
        pos = z3.IntVal(0)
        for s in o.segs:
            if isinstance(s, One):
                if self.w.decide(e == pos):
                    return s.v
                pos = z3.simplify(pos + 1)
            elif isinstance(s, Fam) and s.cond is None:
                if self.w.decide(e < pos + s.n):
                    self.w.index_term(e - pos)
                    return subst(s.value, [(s.i, z3.simplify(e - pos))])
                pos = z3.simplify(pos + s.n)
            else:
                raise Unsupported("index into a filtered list")
        self.ip.raise_(IndexError, "list index out of range")

    def slice(self, o, lo, hi, step=None):
        o = self.ip.force(o)
        if isinstance(o, VList) and o.kind != "list":
            if o.kind == "view":
                self.ip.raise_(TypeError, "not subscriptable")
            return VList(self.slice(VList(o.segs), lo, hi, step).segs, o.kind)
        if all(x is None or isinstance(x, int) for x in (lo, hi, step)) and isinstance(o, (str, tuple, list)):
            r = o[slice(lo, hi, step)]
            return VList.of(r) if isinstance(r, list) else r
        if isinstance(o, STRLIKE):
            return self.str_slice(o, lo, hi, step)
        if isinstance(o, (tuple, list)):
            o = VList.of(list(o))
        if not isinstance(o, VList):
            raise Unsupported("slice of %s" % type(o).__name__)
        if step == -1 and lo is None and hi is None:
            return self.reverse(o)
        if o.concrete() and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
            return VList(o.segs[slice(lo, hi, step)])
        if step not in (None, 1):
            return self.strided(o, lo, hi, step)
        n = self.length(o)

        def bound(x, default):
            if x is None:
                return default
            k = self.known_int(x)
            if k is None:
                e = zi(x)
                if self.ip.truth(from_z3(e < 0)):
                    e = e + zi(n)
                    if self.ip.truth(from_z3(e < 0)):
                        return 0
                if self.ip.truth(from_z3(e > zi(n))):
                    return n
                return from_z3(e)
            if k < 0:
                if self.ip.truth(self.compare_int(n, -k, "lt")):
                    return 0
                return self.add_int(n, k)
            if k == 0:
                return 0
            if self.ip.truth(self.compare_int(n, k, "lt")):
                return n
            return k
        a = bound(lo, 0)
        b = bound(hi, n)
        if not (isinstance(a, int) and a == 0) and not self.ip.truth(self.compare_int(a, b, "lt")):
            return VList()
        if isinstance(a, int) and isinstance(b, int) and a >= b:
            return VList()
        return VList(self.take(self.drop(list(o.segs), a), self.sub_int(b, a)))

    def drop(self, segs, k):
        while segs:
            if isinstance(k, int) and k == 0:
                return segs
            s = segs[0]
            if isinstance(s, One):
                if not isinstance(k, int) and not self.ip.truth(self.compare_int(k, 1, "ge")):
                    return segs
                segs = segs[1:]
                k = self.sub_int(k, 1)
            elif isinstance(s, Fam) and s.cond is None:
                if self.ip.truth(from_z3(s.n >= zi(k))):
                    e = zi(k)
                    n = z3.simplify(s.n - e)
                    if self.w.const_int(n) == 0:
                        return segs[1:]
                    return [Fam(n, s.i, None, subst(s.value, [(s.i, s.i + e)]), None)] + segs[1:]
                k = from_z3(zi(k) - s.n)
                segs = segs[1:]
            else:
                raise Unsupported("slice of a filtered list")
        return segs

    def take(self, segs, k):
        out = []
        for s in segs:
            if isinstance(k, int) and k <= 0:
                return out
            if isinstance(s, One):
                if not isinstance(k, int) and not self.ip.truth(self.compare_int(k, 1, "ge")):
                    return out
                out.append(s)
                k = self.sub_int(k, 1)
            elif isinstance(s, Fam) and s.cond is None:
                e = zi(k)
                if self.w.valid(s.n == e):
                    return out + [s]
                if self.ip.truth(from_z3(s.n >= e)):
                    return out + [Fam(z3.simplify(e), s.i, None, s.value, s.origin)]
                out.append(s)
                k = from_z3(e - s.n)
            else:
                raise Unsupported("slice of a filtered list")
        return out

    def strided(self, o, lo, hi, step):
        if len(o.segs) == 1 and isinstance(o.segs[0], Fam) and o.segs[0].cond is None and isinstance(step, int) and step > 1 \
                and isinstance(lo, (int, type(None))) and hi is None and (lo or 0) >= 0:
            s = o.segs[0]
            a = lo or 0
            n = z3.If(s.n > a, (s.n - a + (step - 1)) / step, z3.IntVal(0))
            return VList([Fam(n, s.i, None, subst(s.value, [(s.i, s.i * step + a)]), None)])
        return VList(self.concretise(o).segs[slice(lo, hi, step)])

    def reverse(self, o):
        out = []
        for s in reversed(o.segs):
            if isinstance(s, One):
                out.append(s)
            elif isinstance(s, Fam):
                m = s.n - 1 - s.i
                out.append(Fam(s.n, s.i, None if s.cond is None else z3.substitute(s.cond, (s.i, m)), subst(s.value, [(s.i, m)]), None))
            else:
                raise Unsupported("reverse")
        return VList(out)

    def str_slice(self, o, lo, hi, step):
        if step not in (None, 1):
            raise Unsupported("string slice with a step")
        if isinstance(o, SStr) and (hi is None) and isinstance(lo, int) and lo >= 0 and isinstance(o.parts[0], str) and len(o.parts[0]) >= lo:
            return mkstr([o.parts[0][lo:]] + list(o.parts[1:]))
        if isinstance(o, SStr) and lo in (None, 0) and isinstance(hi, int) and hi < 0 and isinstance(o.parts[-1], str) and len(o.parts[-1]) >= -hi:
            return mkstr(list(o.parts[:-1]) + [o.parts[-1][:hi]])
        x, n = zs(o), zi(self.length(o))

        def norm(v, default):
            if v is None:
                return default
            e = zi(v)
            if isinstance(v, int):
                if v < 0:
                    return z3.If(n + v < 0, z3.IntVal(0), n + v)
                return z3.If(n < v, n, z3.IntVal(v))
            return z3.If(e < 0, z3.If(n + e < 0, z3.IntVal(0), n + e), z3.If(e > n, n, e))
        a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
        return self.w.part_of(x, z3.simplify(a), z3.simplify(b))

    def setitem(self, o, k, v):
        k = self.ip.force(k)
        if isinstance(o, VDict):
            return self.dict_set(o, k, v)
        if isinstance(o, VList):
            kk = self.known_int(k)
            if kk is not None and o.concrete():
                n = len(o.segs)
                if not -n <= kk < n:
                    self.ip.raise_(IndexError, "assignment index out of range")
                segs = list(o.segs)
                segs[kk] = One(v)
                self.w.write_segs(o, tuple(segs))
                return
            if kk == -1 and o.segs and isinstance(o.segs[-1], One):
                self.w.write_segs(o, o.segs[:-1] + (One(v),))
                return
            if kk == -1 and o.segs and isinstance(o.segs[-1], Prefix):
                self.require(from_z3(o.segs[-1].length > 0), IndexError, "list assignment index out of range")
                self.w.write_segs(o, o.segs[:-1] + (self.w.prefix_replace_last(o.segs[-1], v),))
                return
            raise Unsupported("item assignment")
        if isinstance(o, (dict, list)):
            self.ip.host_mutation("item of a shared %s" % type(o).__name__)
        if isinstance(o, VObj):
            f = self.ip.lookup_type(o.cls, "__setitem__")
            if f is not None:
                self.ip.call(VBound(f, o), [k, v], {})
                return
        raise Unsupported("item assignment to %s" % type(o).__name__)

    def delitem(self, o, k):
        k = self.ip.force(k)
        if isinstance(o, VDict) and o.base is None and not o.fams and isinstance(k, str):
            if k not in o.items:
                self.ip.raise_(KeyError, k)
            items = {a: b for a, b in o.items.items() if a != k}
            self.w.note_write(o, o, "items")
            self.w.setattr(o, "items", items, o)
            return
        if isinstance(o, VList) and o.concrete() and isinstance(k, int):
            segs = list(o.segs)
            try:
                del segs[k]
            except IndexError:
                self.ip.raise_(IndexError, "")
            self.w.write_segs(o, tuple(segs))
            return
        if isinstance(o, (dict, list)):
            self.ip.host_mutation("item of a shared %s" % type(o).__name__)
        raise Unsupported("del item")

    # ------------------------------------------------------------------ dictionaries
    def dict_lookup(self, d, k):
        """(value, True) or (None, False), with case splits."""
        k = self.ip.force(k)
        if isinstance(d, dict):
            return self.host_lookup(d, k)
        if isinstance(k, SStr):
            for key, v in d.items.items():
                if isinstance(key, STRLIKE) and self.ip.truth(self.eq(k, key)):
                    return v, True
        elif symbolic(k) or any(symbolic(x) for x in d.items):
            for key, v in d.items.items():
                if self.ip.truth(self.eq(k, key)):
                    return v, True
        elif k in d.items:
            return d.items[k], True
        if d.base is not None:
            if k is None or not isinstance(k, STRLIKE):
                return None, False
            g = self.w.attr_present(d.base, k)
            if self.w.decide(g):
                return self.w.attr_value(d.base, k), True
            return None, False
        if d.fams:
            raise Unsupported("lookup in a symbolic mapping")
        return None, False

    def host_lookup(self, d, k):
        if not symbolic(k):
            try:
                return (d[k], True) if k in d else (None, False)
            except TypeError:
                raise Unsupported("unhashable key")
        if not isinstance(k, (SInt, SStr)) and len(d) <= 60:
            for key, v in d.items():
                if self.ip.truth(self.eq(k, key)):
                    return v, True
            return None, False
        if isinstance(k, SInt):
            c = self.w.const_int(k.e)
            if c is not None:
                return (d[c], True) if c in d else (None, False)
        if isinstance(k, SStr):
            c = self.w.const_of(k)
            if c is not None:
                return (d[c], True) if c in d else (None, False)
            cands = [key for key in d if isinstance(key, str) and not self.w.is_excluded(k, key)]
            if not cands:
                return None, False
            if len(cands) <= 60:
                for key in cands:
                    if self.ip.truth(self.eq(k, key)):
                        return d[key], True
                return None, False
            table = self.w.table_lookup(d, k)
            if table is not None:
                return table
        raise Unsupported("lookup of a symbolic key in a large table")

    def dict_set(self, d, k, v):
        if isinstance(k, SStr):
            c = self.w.const_of(k)
            if c is None:
                if not d.items and d.base is None and not d.fams:
                    d2 = (One((k, v)),)
                    self.w.note_write(d, d, "fams")
                    self.w.setattr(d, "fams", d2, d)
                    return
                if d.base is None:
                    self.w.note_write(d, d, "fams")
                    self.w.setattr(d, "fams", d.fams + (One((k, v)),), d)
                    return
                raise Unsupported("symbolic key")
            k = c
        if symbolic(k) or any(symbolic(x) for x in d.items):
            raise Unsupported("symbolic key")
        if d.fams:
            if d.items or d.base is not None:
                raise Unsupported("mixed symbolic keys")
            self.w.note_write(d, d, "fams")
            self.w.setattr(d, "fams", d.fams + (One((k, v)),), d)
            return
        if d.base is not None and self.w.attr_write(d, k, v):
            return
        self.w.note_write(d, d.items, k)
        self.w.setitem(d.items, k, v, d)

    def dict_update(self, d, other):
        other = self.ip.force(other)
        if isinstance(other, dict):
            for k, v in other.items():
                self.dict_set(d, k, v)
            return
        if isinstance(other, VDict):
            if other.base is not None:
                if d.items or d.fams or d.base is not None:
                    raise Unsupported("merge of symbolic mappings")
                self.w.note_write(d, d, "base")
                self.w.setattr(d, "base", other.base, d)
            if other.fams:
                if d.items or d.base is not None:
                    raise Unsupported("merge of symbolic mappings")
                self.w.note_write(d, d, "fams")
                self.w.setattr(d, "fams", d.fams + other.fams, d)
            for k, v in other.items.items():
                self.dict_set(d, k, v)
            return
        for p in self.concretise(self.as_list(other)).items():
            k, v = self.ip.unpack(p, 2)
            self.dict_set(d, self.ip.force(k), v)

    def dict_truth(self, d):
        if d.items:
            return True
        if d.base is not None:
            return self.w.decide(self.w.any_attr(d.base))
        if d.fams:
            return self.ip.truth(self.length(VList(d.fams)))
        return False

    # ------------------------------------------------------------------ comparison
    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.not_(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.not_(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.not_(self.contains(b, a))
        name = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[type(op)]
        a, b = self.ip.force(a), self.ip.force(b)
        if isinstance(a, (int, SInt, SBool, float)) and isinstance(b, (int, SInt, SBool, float)):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return getattr(operator, name)(a, b)
            if isinstance(a, float) or isinstance(b, float):
                raise Unsupported("floats")
            return self.compare_int(self.to_int(a), self.to_int(b), name)
        if isinstance(a, str) and isinstance(b, str):
            return getattr(operator, name)(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            try:
                return getattr(operator, name)(a, b)
            except TypeError:
                raise Unsupported("tuple order")
        if isinstance(a, STRLIKE) and isinstance(b, STRLIKE):
            x, y = zs(a), zs(b)
            if name in ("lt", "gt"):
                return from_z3(x < y if name == "lt" else y < x)
            return from_z3(x <= y if name == "le" else y <= x)
        if a is None or b is None or isinstance(a, STRLIKE) != isinstance(b, STRLIKE):
            self.ip.raise_(TypeError, "'<' not supported")
        raise Unsupported("order of %s and %s" % (type(a).__name__, type(b).__name__))

    def to_int(self, v):
        if isinstance(v, SBool):
            return SInt(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(v, bool):
            return int(v)
        return v

    def not_(self, v):
        if isinstance(v, SBool):
            return from_z3(z3.Not(v.e))
        return not v

    def is_(self, a, b):
        a, b = self.ip.force(a), self.ip.force(b)
        for x, y in ((a, b), (b, a)):
            if y is None or y is True or y is False or y is NotImplemented:
                if isinstance(x, SBool) and isinstance(y, bool):
                    return from_z3(x.e == y)
                return x is y
        if isinstance(a, OElem) and isinstance(b, OElem):
            return from_z3(a.e == b.e)
        if isinstance(a, ONode) and isinstance(b, ONode):
            return from_z3(a.e == b.e)
        if isinstance(a, (VObj, VList, VDict, VSet, type, enum.Enum, VClass, types.FunctionType)) or \
                isinstance(b, (VObj, VList, VDict, VSet, type, enum.Enum, VClass, types.FunctionType)):
            return a is b
        if isinstance(a, int) and isinstance(b, int):
            return a is b
        raise Unsupported("identity of %s and %s" % (type(a).__name__, type(b).__name__))

    def eq(self, a, b):
        a, b = self.ip.force(a), self.ip.force(b)
        if isinstance(a, STRLIKE) and isinstance(b, STRLIKE):
            return self.str_eq(a, b)
        if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return from_z3(self.ip.cond(a) == self.ip.cond(b))
            return from_z3(zi(self.to_int(a)) == zi(self.to_int(b)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.all_([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, VIter) or isinstance(b, VIter):
            raise Unsupported("comparison")
        if isinstance(a, (VList, list, tuple)) and isinstance(b, (VList, list, tuple)):
            kinds = [x.kind if isinstance(x, VList) else "tuple" if isinstance(x, tuple) else "list" for x in (a, b)]
            if "view" in kinds:
                raise Unsupported("comparison")
            if kinds[0] != kinds[1]:
                return False
            a = a if isinstance(a, VList) else VList.of(a)
            b = b if isinstance(b, VList) else VList.of(b)
            if a is b:
                return True
            if not a.segs or not b.segs:
                n = self.length(a if a.segs else b)
                return self.compare_int(n, 0, "eq")
            if a.concrete() or b.concrete():
                n = self.length(b if a.concrete() else a)
                m = len(a.segs) if a.concrete() else len(b.segs)
                if not self.ip.truth(self.compare_int(n, m, "eq")):
                    return False
                return self.all_([self.eq(self.getitem(a, k), self.getitem(b, k)) for k in range(m)])
            raise Unsupported("list comparison")
        if isinstance(a, (VDict, dict)) and isinstance(b, (VDict, dict)):
            ai = a if isinstance(a, dict) else a.items
            bi = b if isinstance(b, dict) else b.items
            for x, y, other in ((a, ai, b), (b, bi, a)):
                if not y and not (isinstance(x, VDict) and (x.base is not None or x.fams)):
                    return not self.dict_truth(other) if isinstance(other, VDict) else not other
            raise Unsupported("dict comparison")
        if isinstance(a, VObj) or isinstance(b, VObj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, VObj):
                    f = self.ip.lookup_type(x.cls, "__eq__")
                    if f is not None and isinstance(f, (types.FunctionType, VFunc)) and (isinstance(f, VFunc) or self.ip.interpretable(f)):
                        r = self.ip.call(VBound(f, x), [y], {})
                        if r is NotImplemented:
                            raise Unsupported("reflected comparison")
                        return self.bool_of(r)
                    if isinstance(x.cls, type) and getattr(getattr(x.cls, "__dataclass_params__", None), "eq", False):
                        if not isinstance(y, VObj) or y.cls is not x.cls:
                            return False
                        return self.all_([self.eq(x.fields[k], y.fields[k]) for k in x.fields])
            if any(isinstance(x, VObj) and isinstance(x.cls, type) and issubclass(x.cls, tuple) for x in (a, b)) and \
                    any(isinstance(x, (tuple, VList)) for x in (a, b)):
                raise Unsupported("comparison of a named tuple")
            if isinstance(a, VObj) and isinstance(b, VObj) and a.cls is b.cls and isinstance(a.cls, type) and issubclass(a.cls, tuple):
                return self.all_([self.eq(a.fields[k], b.fields[k]) for k in a.fields])
            return a is b
        if isinstance(a, OElem) and isinstance(b, OElem):
            return from_z3(a.e == b.e)
        if isinstance(a, ONode) and isinstance(b, ONode):
            return from_z3(a.e == b.e)
        if isinstance(a, float) or isinstance(b, float):
            raise Unsupported("floats")
        sym = (SStr, SInt, SBool, OElem, ONode, OConv, VList, VDict, VSet, OAttr, OAttrs)
        if isinstance(a, sym) or isinstance(b, sym):
            if isinstance(a, (OAttr, OAttrs, OConv, VSet)) or isinstance(b, (OAttr, OAttrs, OConv, VSet)):
                raise Unsupported("comparison")
            return False        # values of different kinds are different
        try:
            return bool(a == b)
        except Exception:
            raise Unsupported("comparison")

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, str):
            a, b = b, a
        if isinstance(b, str):
            if self.w.is_excluded(a, b):
                return False
            c = self.w.const_of(a)
            if c is not None:
                return c == b
            if isinstance(a.parts[0], str):
                k = min(len(a.parts[0]), len(b))
                if a.parts[0][:k] != b[:k] or len(a.parts[0]) > len(b):
                    return False
            if isinstance(a.parts[-1], str):
                k = min(len(a.parts[-1]), len(b))
                if k and a.parts[-1][-k:] != b[-k:] or len(a.parts[-1]) > len(b):
                    return False
            if b == "" and any(isinstance(p, str) for p in a.parts):
                return False
            if b == "":
                return from_z3(z3.And(*[p == zstr("") for p in a.parts]))
        elif a.parts == b.parts or (len(a.parts) == len(b.parts) and all(
                (x == y) if isinstance(x, str) or isinstance(y, str) and type(x) is type(y) else x.eq(y)
                for x, y in zip(a.parts, b.parts) if isinstance(x, str) == isinstance(y, str)) and
                all(isinstance(x, str) == isinstance(y, str) for x, y in zip(a.parts, b.parts))):
            return True
        return from_z3(zs(a) == zs(b))

    def all_(self, vs):
        es = []
        for v in vs:
            if v is False:
                return False
            if v is True:
                continue
            es.append(self.ip.cond(v))
        if not es:
            return True
        return from_z3(z3.And(*es))

    def any_(self, vs):
        es = []
        for v in vs:
            if v is True:
                return True
            if v is False:
                continue
            es.append(self.ip.cond(v))
        if not es:
            return False
        return from_z3(z3.Or(*es))

    def contains(self, c, x):
        c, x = self.ip.force(c), self.ip.force(x)
        if isinstance(c, VIter):
            return self.contains(self.as_list(c, partial=True), x)
        if isinstance(c, STRLIKE):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if not isinstance(x, STRLIKE):
                self.ip.raise_(TypeError, "in <string>")
            if isinstance(c, str) and isinstance(x, SStr):
                k = self.w.const_of(x)
                if k is not None:
                    return k in c
                if self.is_char(x):
                    return from_z3(rx.in_re(x.z3(), rx.ranges_re(rx.ranges(sorted(set(map(ord, c)))))))
            if isinstance(c, SStr) and isinstance(x, str):
                if any(isinstance(p, str) and x in p for p in c.parts):
                    return True
                if len(x) == 1:
                    return from_z3(z3.Or(*[z3.Contains(p, zstr(x)) for p in c.parts if not isinstance(p, str)]))
            return from_z3(z3.Contains(zs(c), zs(x)))
        if isinstance(c, (tuple, list, set, frozenset)):
            if not symbolic(x) and isinstance(c, (set, frozenset)):
                return x in c
            c = list(c)
            if isinstance(x, SStr) and len(c) > 60:
                k = self.w.const_of(x)
                if k is not None:
                    return k in c
                c = [k for k in c if isinstance(k, str) and not self.w.is_excluded(x, k)]
                if len(c) > 200:
                    if all(len(k) == 1 for k in c):
                        return from_z3(rx.in_re(x.z3(), rx.ranges_re(rx.ranges(sorted(set(map(ord, c)))))))
                    raise Unsupported("membership in a large collection")
            return self.any_([self.eq_in(x, y) for y in c])
        if isinstance(c, VSet):
            return self.any_([self.eq(x, y) for y in c.vals])
        if isinstance(c, (dict, VDict)):
            _v, found = self.dict_lookup(c, x)
            return found
        if isinstance(c, VList):
            out = []
            for s in c.segs:
                if isinstance(s, One):
                    out.append(self.eq(x, s.v))
                elif isinstance(s, Fam):
                    g = self.w.with_generic(s, lambda v: self.ip.cond(self.eq(x, v)))
                    out.append(from_z3(self.w.fold("ANY", s.n, s.i, g if s.cond is None else z3.And(s.cond, g))))
                else:
                    raise Unsupported("membership")
            return self.any_(out)
        if isinstance(c, VObj):
            f = self.ip.lookup_type(c.cls, "__contains__")
            if f is not None:
                return self.bool_of(self.ip.call(VBound(f, c), [x], {}))
            return self.contains(self.as_list(c, partial=True), x)
        if c is None:
            self.ip.raise_(TypeError, "not iterable")
        if isinstance(c, types.BuiltinFunctionType):
            raise Unsupported("membership")
        if type(c) in (type({}.keys()), type({}.values())):
            return self.contains(list(c), x)
        raise Unsupported("membership in %s" % type(c).__name__)

    def eq_in(self, a, b):
        return True if a is b else self.eq(a, b)

    def is_char(self, x):
        """Provably one character."""
        return isinstance(x, SStr) and len(x.parts) == 1 and not isinstance(x.parts[0], str) and \
            (V.is_char_term(x.parts[0]) and self.w.valid(z3.Length(x.parts[0]) == 1) or self.w.valid(z3.Length(x.parts[0]) == 1))

    # ------------------------------------------------------------------ operators
    def binop(self, op, a, b):
        a, b = self.ip.force(a), self.ip.force(b)
        if isinstance(op, ast.Add):
            if isinstance(a, STRLIKE) and isinstance(b, STRLIKE):
                return mkstr([a, b])
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            kinds = [x.kind if isinstance(x, VList) else "tuple" if isinstance(x, tuple) else "list" if isinstance(x, list) else None
                     for x in (a, b)]
            if kinds[0] is not None and kinds[0] == kinds[1] != "view":
                return VList(self.as_list(a).segs + self.as_list(b).segs, kinds[0])
            if isinstance(a, (VList, list, tuple, VIter)) and (b is None or isinstance(b, (VList, list, tuple, str, SStr, int, SInt, VIter))):
                self.ip.raise_(TypeError, "can only concatenate")
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return self.pyop(op)(a, b)
            except ZeroDivisionError:
                self.ip.raise_(ZeroDivisionError, "division by zero")
        if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
            x, y = zi(self.to_int(a)), zi(self.to_int(b))
            if isinstance(op, ast.Add):
                return from_z3(x + y)
            if isinstance(op, ast.Sub):
                return from_z3(x - y)
            if isinstance(op, ast.Mult) and (isinstance(a, int) or isinstance(b, int)):
                return from_z3(x * y)
            if isinstance(op, ast.Mod) and isinstance(b, int) and b > 0:
                return from_z3(x % y)
            if isinstance(op, ast.FloorDiv) and isinstance(b, int) and b > 0:
                return from_z3(x / y)
            raise Unsupported("integer operator")
        if isinstance(op, ast.Mult):
            if isinstance(b, (VList, list, tuple, str, SStr)):
                a, b = b, a
            if isinstance(a, (str, SStr)) and isinstance(b, (bool, SBool)):
                return a if self.ip.truth(b) else ""
            k = self.known_int(b)
            if k is not None:
                if isinstance(a, STRLIKE):
                    return mkstr([a] * k)
                if isinstance(a, tuple):
                    return a * k
                if isinstance(a, list) or isinstance(a, VList) and a.kind != "view":
                    return VList(self.as_list(a).segs * max(k, 0), getattr(a, "kind", "list"))
            if isinstance(a, VList) and a.kind == "list" and isinstance(b, SInt) and len(a.segs) == 1 and isinstance(a.segs[0], One):
                i = self.w.bound()
                return VList([Fam(z3.If(b.e > 0, b.e, z3.IntVal(0)), i, None, a.segs[0].v)])
            raise Unsupported("repetition")
        if isinstance(op, ast.Mod) and isinstance(a, STRLIKE):
            return self.percent(a, b)
        if isinstance(op, (ast.BitOr, ast.BitAnd)) and isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            x, y = self.ip.cond(a), self.ip.cond(b)
            return from_z3(z3.Or(x, y) if isinstance(op, ast.BitOr) else z3.And(x, y))
        if isinstance(op, ast.BitOr) and isinstance(a, (VDict, dict)) and isinstance(b, (VDict, dict)):
            d = VDict()
            self.dict_update(d, a)
            self.dict_update(d, b)
            return d
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return frozenset(self.pyop(op)(a, b))
        if isinstance(op, ast.BitOr) and isinstance(a, enum.Flag):
            return a | b
        if isinstance(a, VObj):
            nm = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.BitOr: "__or__"}.get(type(op))
            f = nm and self.ip.lookup_type(a.cls, nm)
            if f:
                return self.ip.call(VBound(f, a), [b], {})
        if (isinstance(a, STRLIKE) or isinstance(b, STRLIKE) or a is None or b is None) and isinstance(op, (ast.Add, ast.Sub)):
            self.ip.raise_(TypeError, "unsupported operand types")
        if isinstance(op, ast.BitOr):
            try:
                return a | b
            except TypeError:
                pass
        raise Unsupported("operator %s on %s, %s" % (type(op).__name__, type(a).__name__, type(b).__name__))

    @staticmethod
    def pyop(op):
        return {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
                ast.Mod: operator.mod, ast.Div: operator.truediv, ast.Pow: operator.pow, ast.BitOr: operator.or_,
                ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}[type(op)]

    def percent(self, a, b):
        if not isinstance(a, str):
            raise Unsupported("symbolic format string")
        args = list(b) if isinstance(b, tuple) else [b]
        out, k = [], 0
        if isinstance(b, (VDict, dict, VList)):
            raise Unsupported("format arguments")
        for m in re.finditer(r"%(.?)|([^%]+)", a, re.S):
            if m.group(2):
                out.append(m.group(2))
            elif m.group(1) == "%":
                out.append("%")
            elif m.group(1) and m.group(1) in "sd":
                if k >= len(args):
                    self.ip.raise_(TypeError, "not enough arguments")
                if m.group(1) == "d" and not isinstance(self.ip.force(args[k]), INTLIKE):
                    raise Unsupported("format %d")
                out.append(self.str_(args[k]))
                k += 1
            else:
                raise Unsupported("format %s" % m.group())
        if k != len(args):
            self.ip.raise_(TypeError, "not all arguments converted")
        return mkstr(out)

    def str_(self, v):
        v = self.ip.force(v)
        if isinstance(v, STRLIKE) and not isinstance(v, enum.Enum):
            return v
        if isinstance(v, (int, float)) and not isinstance(v, enum.Enum) or v is None:
            return str(v)
        if isinstance(v, SInt):
            c = self.w.const_int(v.e)
            if c is not None:
                return str(c)
            if self.w.valid(v.e >= 0):
                return mkstr([z3.IntToStr(v.e)])
            raise Unsupported("str of an integer")
        if isinstance(v, SBool):
            return str(self.ip.truth(v))
        if isinstance(v, VObj):
            f = self.ip.lookup_type(v.cls, "__str__")
            if f is not None:
                return self.ip.call(VBound(f, v), [], {})
            if isinstance(v.cls, type) and issubclass(v.cls, BaseException):
                a = v.fields.get("args", ())
                if len(a) == 1:
                    return self.str_(a[0])
                if not a:
                    return ""
            raise Unsupported("str of an object")
        if isinstance(v, enum.Enum):
            f = self.ip.lookup_type(type(v), "__str__")
            if isinstance(f, types.FunctionType) and self.ip.interpretable(f):
                return self.ip.call(VBound(f, v), [], {})
            return str(v)
        raise Unsupported("str of %s" % type(v).__name__)

    def repr_(self, v):
        v = self.ip.force(v)
        if isinstance(v, (str, int, float)) or v is None:
            return repr(v)
        raise Unsupported("repr of a symbolic value")

    def format_(self, v, spec):
        v = self.ip.force(v)
        if isinstance(v, (str, int, float)) and isinstance(spec, str):
            return format(v, spec)
        raise Unsupported("format specification")

    # ------------------------------------------------------------------ exceptions
    def exc_matches(self, val, t):
        t = self.ip.force(t)
        if isinstance(t, tuple):
            return any(self.exc_matches(val, x) for x in t)
        cls = val.cls
        if isinstance(t, VClass) or isinstance(cls, VClass):
            return t in self.ip.mro(cls)
        if isinstance(t, type):
            return issubclass(cls, t)
        raise Unsupported("except clause")

    # ------------------------------------------------------------------ construction of built-in types
    def construct(self, cls, args, kwargs):
        ip = self.ip
        args = [ip.force(a) for a in args]
        top, keys = CONSTRUCTORS.get(cls, (None, None))
        if top is not None and (len(args) > top or set(kwargs) - set(keys)):
            raise Unsupported("arguments of %s" % cls.__name__)
        if cls is str:
            return self.str_(args[0]) if args else ""
        if cls is bool:
            if not args:
                return False
            return args[0] if isinstance(args[0], (SBool, bool)) else self.bool_of(args[0])
        if cls is int:
            if not args:
                return 0
            if isinstance(args[0], SInt) and len(args) == 1:
                return args[0]
            if isinstance(args[0], (SBool, bool)) and len(args) == 1:
                return self.to_int(args[0])
            if isinstance(args[0], (str, int, float)):
                try:
                    return int(*args)
                except ValueError as e:
                    ip.raise_(ValueError, str(e))
            raise Unsupported("int of a symbolic string")
        if cls in (list, tuple):
            if not args:
                return VList() if cls is list else ()
            v = self.as_list(args[0])
            if cls is tuple and v.concrete():
                return tuple(v.items())
            return VList(v.segs, cls.__name__)
        if cls in (set, frozenset):
            if not args:
                return VSet([])
            if isinstance(args[0], (set, frozenset)):
                return VSet(sorted(args[0]) if all(isinstance(x, str) for x in args[0]) else list(args[0]))
            return VSet(self.concretise(self.as_list(args[0], True)).items())
        if cls is dict or cls.__name__ == "OrderedDict":
            d = VDict()
            if args:
                self.dict_update(d, args[0])
            for k, v in kwargs.items():
                self.dict_set(d, k, v)
            return d
        if cls is enumerate:
            start = args[1] if len(args) > 1 else kwargs.get("start", 0)
            return self.lazily(args[:1], lambda partial: self.enumerate(self.as_list(args[0], partial=partial), start))
        if cls is zip:
            if len(args) > 1:
                return self.lazily(args, lambda partial: self.zip(self.stopping(args)))
            return self.lazily(args, lambda partial: self.zip([self.as_list(a, partial=partial) for a in args]))
        if cls is range:
            return self.range(args)
        if cls is reversed:
            if isinstance(args[0], (VIter, set, frozenset, VSet)):
                ip.raise_(TypeError, "not reversible")
            if isinstance(args[0], VObj):
                raise Unsupported("reversed of an object")
            return self.lazily(args, lambda partial: self.reverse(self.as_list(args[0])))
        if cls is map:
            if len(args) == 2:
                return self.lazily(args[1:], lambda partial: VList(
                    self.ip.loops.map_list(self.as_list(args[1], partial=partial), lambda x: ip.call(args[0], [x], {}))))
            if len(args) < 2:
                ip.raise_(TypeError, "map() must have at least two arguments.")
            return self.lazily(args[1:], lambda partial: VList(self.ip.loops.map_list(
                self.zip(self.stopping(args[1:])), lambda t: ip.call(args[0], list(ip.unpack(t, len(args) - 1)), {}))))
        if cls is filter:
            return self.lazily(args[1:], lambda partial: VList(self.ip.loops.map_list(
                self.as_list(args[1], partial=partial), lambda x: x,
                lambda x: ip.call(args[0], [x], {}) if args[0] is not None else x)))
        if cls is type:
            v = args[0]
            if isinstance(v, VObj):
                return v.cls
            if isinstance(v, OElem):
                return ip.elem_class
            kind = SYMBOLIC_TYPES.get(type(v))
            if kind is not None:
                return kind
            if isinstance(v, VList) and v.kind != "view":
                return {"list": list, "tuple": tuple}[v.kind]
            if type(v).__module__ == V.__name__:
                raise Unsupported("type of %s" % type(v).__name__)
            return type(v)
        if cls is object:
            return VObj(object)
        if cls is functools.partial:
            return VPartial(args[0], list(args[1:]), kwargs)
        if cls is itertools.chain:
            return self.lazily(args, lambda partial: VList(sum((self.as_list(a, partial=partial).segs for a in args), ())))
        if cls is itertools.repeat:
            if len(args) == 2 and self.known_int(args[1]) is not None:
                return VIter(VList.of([args[0]] * self.known_int(args[1])))
            raise Unsupported("repeat")
        if cls is property:
            return property(*args)
        if cls is itertools.zip_longest:
            ls = [self.as_list(a) for a in args]
            if all(x.concrete() for x in ls):
                return VIter(VList.of(list(itertools.zip_longest(*[x.items() for x in ls], **kwargs))))
            raise Unsupported("zip_longest")
        if cls is itertools.islice:
            bounds = [self.known_int(a) if a is not None else None for a in args[1:]]
            if not bounds or any(a is not None and (b is None or b < 0) for a, b in zip(args[1:], bounds)) or len(bounds) > 2:
                raise Unsupported("islice")
            lo, hi = (None, bounds[0]) if len(bounds) == 1 else bounds
            return self.lazily(args[:1], lambda partial: VList(self.slice(VList(self.as_list(args[0], partial=True).segs), lo, hi).segs))
        if cls is operator.itemgetter and len(args) == 1:
            return VPartial(_Native(lambda m, o: m.getitem(o, args[0]), self), [], {})
        if cls is operator.attrgetter and len(args) == 1 and isinstance(args[0], str) and "." not in args[0]:
            return VPartial(_Native(lambda m, o: m.ip.getattr(o, args[0]), self), [], {})
        if cls is operator.methodcaller and isinstance(args[0], str):
            return VPartial(_Native(lambda m, o: m.ip.call(m.ip.getattr(o, args[0]), list(args[1:]), kwargs), self), [], {})
        raise Unsupported("construction of %s" % cls.__name__)

    def bool_of(self, v):
        """bool(v) without forcing a decision for strings."""
        if isinstance(v, SStr):
            if any(isinstance(p, str) for p in v.parts):
                return True
            return from_z3(z3.Or(*[p != zstr("") for p in v.parts]))
        if isinstance(v, SInt):
            return from_z3(v.e != 0)
        return self.ip.truth(v)

    def lazily(self, sources, make):
        """The iterator whose elements make() computes when it is consumed."""
        for a in sources:
            if a is None or isinstance(a, (int, SInt, SBool, OElem)):
                self.ip.raise_(TypeError, "not iterable")
        return VIter(make=make)

    def stopping(self, args):
        """The elements of iterables that are read in step until one of them ends."""
        its = [a for a in args if isinstance(a, VIter)]
        if len({id(a) for a in its}) < len(its):
            raise Unsupported("an iterator read in step with itself")
        return [self.as_list(a, partial=True) for a in args]

    def enumerate(self, lst, start=0):
        out, pos = [], start
        for s in lst.segs:
            if isinstance(s, One):
                out.append(One((pos, s.v)))
                pos = self.add_int(pos, 1)
            elif isinstance(s, Fam) and s.cond is None:
                out.append(Fam(s.n, s.i, None, (from_z3(zi(pos) + s.i), s.value), ("enum", s.origin)))
                pos = from_z3(zi(pos) + s.n)
            else:
                raise Unsupported("enumerate of a filtered list")
        return VList(out)

    def zip(self, lists):
        if all(x.concrete() for x in lists):
            return VList.of(list(zip(*[x.items() for x in lists])))
        if any(x.concrete() for x in lists):
            m = min(len(x.segs) for x in lists if x.concrete())
            n = m
            for x in lists:
                if not x.concrete():
                    for k in range(n):
                        if not self.ip.truth(self.compare_int(self.length(x), k, "gt")):
                            n = k
                            break
            return VList.of([tuple(self.getitem(x, k) for x in lists) for k in range(n)])
        if all(len(x.segs) == 1 and isinstance(x.segs[0], Fam) and x.segs[0].cond is None for x in lists):
            n = lists[0].segs[0].n
            for x in lists[1:]:
                m = x.segs[0].n
                if self.w.valid(n <= m):
                    continue
                if self.w.valid(m <= n):
                    n = m
                    continue
                n = m if self.w.decide(m < n) else n
            i = self.w.bound()
            return VList([Fam(n, i, None, tuple(subst(x.segs[0].value, [(x.segs[0].i, i)]) for x in lists))])
        # one-by-one while both start with single elements
        heads = []
        while all(x.segs and isinstance(x.segs[0], One) for x in lists):
            heads.append(One(tuple(x.segs[0].v for x in lists)))
            lists = [VList(x.segs[1:]) for x in lists]
        if any(not x.segs for x in lists):
            return VList(heads)
        if all(len(x.segs) == 1 and isinstance(x.segs[0], Fam) and x.segs[0].cond is None for x in lists):
            return VList(heads + list(self.zip(lists).segs))
        # split a family into its first element and the rest
        if heads or any(isinstance(x.segs[0], One) for x in lists):
            new = []
            for x in lists:
                s = x.segs[0]
                if isinstance(s, Fam):
                    if s.cond is not None:
                        raise Unsupported("zip")
                    if not self.w.decide(s.n > 0):
                        x = VList(x.segs[1:])
                        if not x.segs:
                            return VList(heads)
                    else:
                        x = VList((One(subst(s.value, [(s.i, z3.IntVal(0))])), Fam(z3.simplify(s.n - 1), s.i, None, subst(s.value, [(s.i, s.i + 1)]))) + x.segs[1:])
                new.append(x)
            self.w.tick()
            return VList(heads + list(self.zip(new).segs))
        raise Unsupported("zip")

    def range(self, args):
        lo, hi = (0, args[0]) if len(args) == 1 else (args[0], args[1])
        step = args[2] if len(args) > 2 else 1
        ks = [self.known_int(x) for x in (lo, hi, step)]
        if all(k is not None for k in ks):
            if len(range(*ks)) > 2000:
                raise Unsupported("long range")
            return VList.of(list(range(*ks)))
        if ks[2] is None or ks[2] == 0:
            raise Unsupported("range step")
        a, b, st = zi(lo), zi(hi), ks[2]
        d = b - a if st > 0 else a - b
        m = abs(st)
        n = z3.simplify(d if m == 1 else (d + (m - 1)) / m)
        if not self.w.valid(n >= 0):
            n = z3.simplify(z3.If(n > 0, n, z3.IntVal(0)))
        i = self.w.bound()
        return VList([Fam(n, i, None, from_z3(a + i * st))])

    # ------------------------------------------------------------------ library functions
    def library(self, fn, args, kwargs):
        ip = self.ip
        args = [ip.force(a) for a in args]
        try:
            low, top, keys = LIBRARY.get(fn, (None, None, ()))
        except TypeError:
            low = None
        if low is not None and (not low <= len(args) <= top or set(kwargs) - set(keys)):
            raise Unsupported("arguments of %s" % fn.__name__)
        if fn is len:
            return self.length(args[0])
        if fn in (any, all):
            return self.any_all(fn is any, self.as_list(args[0], True, partial=True))
        if fn is isinstance:
            return self.isinstance_(args[0], args[1])
        if fn is issubclass:
            return bool(issubclass(args[0], args[1]))
        if fn is getattr:
            try:
                return ip.getattr(args[0], args[1])
            except PyExc as e:
                if len(args) > 2 and isinstance(e.val.cls, type) and issubclass(e.val.cls, AttributeError):
                    return args[2]
                raise
        if fn is hasattr:
            try:
                ip.getattr(args[0], args[1])
                return True
            except PyExc as e:
                if isinstance(e.val.cls, type) and issubclass(e.val.cls, AttributeError):
                    return False
                raise
        if fn is setattr:
            return ip.setattr(args[0], args[1], args[2])
        if fn is callable:
            return isinstance(args[0], (VFunc, VBound, VMeth, VPartial, types.FunctionType, type, VClass)) or callable(args[0])
        if fn is next:
            if not isinstance(args[0], VIter):
                if isinstance(args[0], VObj):
                    raise Unsupported("next of an object")
                ip.raise_(TypeError, "not an iterator")
            return self.next_(args[0], args[1:])
        if fn is iter:
            if isinstance(args[0], VIter):
                return args[0]
            if isinstance(args[0], VList) and args[0].kind == "list":
                # the list may change before the iterator is consumed
                return VIter(make=lambda partial: self.as_list(args[0]))
            return VIter(self.as_list(args[0]))
        if fn is sum:
            return self.sum_(self.as_list(args[0], True), args[1] if len(args) > 1 else kwargs.get("start", 0))
        if fn in (min, max):
            vals = args if len(args) > 1 else self.concretise(self.as_list(args[0], True)).items()
            if not vals and "default" in kwargs:
                return kwargs["default"]
            if kwargs and set(kwargs) != {"default"}:
                raise Unsupported("min/max with key")
            if all(isinstance(v, INTLIKE) for v in vals) and vals:
                r = vals[0]
                for v in vals[1:]:
                    if isinstance(r, int) and isinstance(v, int):
                        r = fn(r, v)
                    else:
                        c = zi(v) < zi(r) if fn is min else zi(v) > zi(r)
                        r = from_z3(z3.If(c, zi(v), zi(r)))
                return r
            raise Unsupported("min/max")
        if fn is sorted:
            v = self.concretise(self.as_list(args[0], True))
            if all(isinstance(x, (str, int)) for x in v.items()) and "key" not in kwargs:
                return VList.of(sorted(v.items(), **kwargs))
            raise Unsupported("sorted")
        if fn is ord and isinstance(args[0], SStr):
            raise Unsupported("ord")
        if fn is repr:
            return self.repr_(args[0])
        if fn is str.join:
            return self.join(args[0], args[1])
        if isinstance(fn, (types.MethodDescriptorType,)):
            return self.method(args[0], fn.__name__, args[1:], kwargs)
        if fn in (re.search, re.match, re.fullmatch, re.sub, re.findall, re.split, re.finditer, re.subn, re.compile):
            return self.regex(fn.__name__, args, kwargs)
        if fn is functools.reduce:
            return self.reduce(args)
        if fn is itertools.chain.from_iterable:
            segs = ()
            for x in self.concretise(self.as_list(args[0])).items():
                segs += self.as_list(x).segs
            return VIter(VList(segs))
        if fn in (functools.lru_cache, functools.cache):
            raise Unsupported("cache")
        if fn is print:
            raise Unsupported("print")
        if fn in (operator.add, operator.concat):
            return self.binop(ast.Add(), args[0], args[1])
        if fn is operator.eq:
            return self.eq(args[0], args[1])
        if fn is operator.contains:
            return self.contains(args[0], args[1])
        if fn is __import__("copy").copy:
            v = args[0]
            if isinstance(v, VList) and v.kind != "view":
                return VList(v.segs, v.kind)
            if isinstance(v, VDict):
                d = VDict()
                self.dict_update(d, v)
                return d
            if isinstance(v, (str, SStr, int, tuple)) or v is None:
                return v
            if isinstance(v, VObj):
                return VObj(v.cls, v.fields)
        if isinstance(fn, _Native):
            return fn.fn(self, *args)
        conc = (str, int, bool, float, type(None), bytes, re.Pattern, tuple)
        known = all(isinstance(a, conc) and not symbolic(a) for a in list(args) + list(kwargs.values()))
        if fn in PURE_LIBRARY and known:
            try:
                return fn(*args, **kwargs)
            except Exception as e:
                ip.raise_(type(e), *e.args)
        nm = getattr(fn, "__qualname__", "") or ""
        h = ip.hooks.get(nm)
        if h is not None:
            return h(ip, args, kwargs)
        mod = getattr(fn, "__module__", None)
        if mod in ("unicodedata", "string", "textwrap", "html", "math") and known:
            try:
                return fn(*args, **kwargs)
            except Exception as e:
                ip.raise_(type(e), *e.args)
        if fn is __import__("typing").cast:
            return args[1]
        raise Unsupported("library function %s.%s" % (mod, nm))

    def any_all(self, is_any, lst):
        out = []
        for s in lst.segs:
            if isinstance(s, One):
                v = self.ip.force(s.v)
                b = self.bool_of(v) if isinstance(v, (SStr, SInt)) else (v if isinstance(v, (SBool, bool)) else self.ip.truth(v))
                out.append(b if is_any else self.not_(b))
            elif isinstance(s, Fam):
                g = self.w.with_generic(s, lambda v: self.as_cond(v))
                if not is_any:
                    g = z3.Not(g)
                if s.cond is not None:
                    g = z3.And(s.cond, g)
                out.append(from_z3(self.w.fold("ANY", s.n, s.i, z3.simplify(g))))
            else:
                raise Unsupported("any/all")
        r = self.any_(out)
        return r if is_any else self.not_(r)

    def as_cond(self, v):
        if isinstance(v, VIte):
            return z3.If(v.g, self.as_cond(v.a), self.as_cond(v.b))
        if isinstance(v, (SBool, bool)):
            return self.ip.cond(v)
        b = self.bool_of(v) if isinstance(v, (SStr, SInt)) else None
        if b is None:
            if v is None:
                return z3.BoolVal(False)
            if isinstance(v, (str, int, tuple)):
                return z3.BoolVal(bool(v))
            if isinstance(v, VList):
                n = self.length(v)
                return z3.BoolVal(n > 0) if isinstance(n, int) else n.e > 0
            raise Unsupported("truth in a family")
        return self.ip.cond(b)

    def next_(self, it, default):
        lst = self.consume(it, True)
        w = self.w

        def left(segs):
            for k, x in (("lst", VList(segs)), ("partial", False)):
                w.note_write(it, it, k)
                w.setattr(it, k, x, it)
        for k, s in enumerate(lst.segs):
            if isinstance(s, One):
                left(lst.segs[k + 1:])
                return s.v
            if isinstance(s, Fam):
                idx = w.first_index(s.n, s.i, s.cond if s.cond is not None else z3.BoolVal(True))
                if idx is not None:
                    return subst(s.value, [(s.i, idx)])
            else:
                raise Unsupported("next")
        left(())
        if default:
            return default[0]
        self.ip.raise_(StopIteration)

    def sum_(self, lst, start):
        if isinstance(start, STRLIKE):
            self.ip.raise_(TypeError, "sum() can't sum strings")
        if isinstance(start, VList):
            segs = start.segs
            for x in self.concretise(lst).items():
                x = self.ip.force(x)
                if not isinstance(x, list) and not (isinstance(x, VList) and x.kind == start.kind):
                    raise Unsupported("sum")
                segs += self.as_list(x).segs
            return VList(segs, start.kind)
        total = start
        for s in lst.segs:
            if isinstance(s, One):
                total = self.binop(ast.Add(), total, s.v)
            elif isinstance(s, Fam):
                v = s.value
                if isinstance(v, (SBool, bool)):
                    g = self.ip.cond(v)
                elif isinstance(v, int) and v == 1:
                    g = z3.BoolVal(True)
                else:
                    raise Unsupported("sum")
                if s.cond is not None:
                    g = z3.And(s.cond, g)
                t = s.n if z3.is_true(z3.simplify(g)) else self.w.fold("COUNT", s.n, s.i, z3.simplify(g))
                total = self.binop(ast.Add(), total, from_z3(t))
            else:
                raise Unsupported("sum")
        return total

    def reduce(self, args):
        fn, lst = args[0], self.as_list(args[1])
        items = self.concretise(lst).items()
        if len(args) > 2:
            acc = args[2]
        else:
            if not items:
                self.ip.raise_(TypeError, "reduce() of empty iterable")
            acc, items = items[0], items[1:]
        for x in items:
            acc = self.ip.call(fn, [acc, x], {})
        return acc

    def isinstance_(self, v, t):
        if isinstance(t, tuple):
            return any(self.isinstance_(v, x) for x in t)
        if isinstance(v, VObj):
            return t in self.ip.mro(v.cls) if isinstance(t, VClass) or isinstance(v.cls, VClass) else issubclass(v.cls, t)
        kind = SYMBOLIC_TYPES.get(type(v))
        if isinstance(v, VList) and v.kind != "view":
            kind = {"list": list, "tuple": tuple}[v.kind]
        if type(v) in (VList, VIter) and kind is None:
            raise Unsupported("isinstance of an iterator")
        if kind is not None:
            return issubclass(kind, t)
        if isinstance(v, OElem):
            return issubclass(self.ip.elem_class, t)
        if isinstance(v, ONode):
            return self.w.node_isinstance(v, t)
        if isinstance(v, (OConv, OAttrs, OAttr)):
            raise Unsupported("isinstance")
        if isinstance(v, (VFunc, VBound)):
            return False
        return isinstance(v, t)

    # ------------------------------------------------------------------ strings
    def join(self, sep, lst):
        ip = self.ip
        lst = self.as_list(lst)
        parts = []
        first = True           # True: nothing emitted; False: something; z3 Bool: something iff true
        for s in lst.segs:
            if isinstance(s, One):
                v = ip.force(s.v)
                if not isinstance(v, STRLIKE):
                    if v is None or isinstance(v, (int, SInt, bool)):
                        ip.raise_(TypeError, "sequence item: expected str instance")
                    raise Unsupported("join of %s" % type(v).__name__)
                if first is not True:
                    if first is not False and sep != "":
                        if self.w.decide(first):
                            parts.append(sep)
                    else:
                        parts.append(sep)
                parts.append(v)
                first = False
            elif isinstance(s, Fam):
                x = self.w.string_of(s.value)
                if s.cond is None or sep == "":
                    body = x if s.cond is None else z3.If(s.cond, x, zstr(""))
                    if sep != "":
                        zsep = zs(sep)
                        lead = None
                        if first is True:
                            lead = z3.If(s.i > 0, zsep, zstr(""))
                        elif first is False:
                            lead = zsep
                        else:
                            lead = zsep if self.w.decide(first) else z3.If(s.i > 0, zsep, zstr(""))
                        body = z3.Concat(lead, body)
                    parts.append(self.w.concat_fold(s.n, s.i, body))
                    if first is not False:
                        some = s.n > 0 if s.cond is None else self.w.fold("ANY", s.n, s.i, s.cond)
                        first = some if first is True else z3.Or(first, some)
                        if sep == "":
                            first = True
                else:
                    if first is not True:
                        raise Unsupported("join of a filtered list")
                    body = z3.If(s.cond, z3.Concat(zstr("+"), x), zstr("-"))
                    parts.append(self.w.fold("JOINF", s.n, s.i, body, extra=sep if isinstance(sep, str) else str(zs(sep))))
                    first = self.w.fold("ANY", s.n, s.i, s.cond)
            elif isinstance(s, RunFam):
                if sep != "":
                    raise Unsupported("join of runs with a separator")
                parts.append(self.w.run_concat(s))
            else:
                raise Unsupported("join")
        return mkstr(parts)

    def method(self, o, name, args, kwargs):
        ip = self.ip
        o = ip.force(o)
        args = [ip.force(a) for a in args]
        if isinstance(o, OConv):
            if name != "convert" or args or kwargs:
                raise Unsupported("call of a converter")
            return self.w.contract_convert(ip, o)
        if isinstance(o, STRLIKE):
            return self.str_method(o, name, args, kwargs)
        if isinstance(o, (VDict, dict, VList, list, tuple, VSet, set, frozenset)):
            low, top = METHODS.get(name, (0, 99))
            if not low <= len(args) <= top or kwargs and not (name == "update" and isinstance(o, (VDict, dict))):
                raise Unsupported("arguments of %s" % name)
        if isinstance(o, (VDict, dict)):
            return self.dict_method(o, name, args, kwargs)
        if isinstance(o, (VList, list, tuple)):
            if name not in ("index", "count", "__len__", "__getitem__", "__contains__") and getattr(o, "kind", type(o).__name__) != "list":
                raise Unsupported("method %s of a tuple" % name)
            if getattr(o, "kind", None) == "view":
                raise Unsupported("method %s of a view" % name)
            return self.list_method(o, name, args, kwargs)
        if isinstance(o, (re.Pattern, V.SymPattern)):
            return self.regex(name, [o] + args, kwargs)
        if isinstance(o, (VSet, set, frozenset)):
            if name == "add" and isinstance(o, VSet):
                self.w.note_write(o, o, "vals")
                self.w.setattr(o, "vals", o.vals + [args[0]], o)
                return None
            if name in ("add", "discard", "remove", "update", "clear", "pop") and isinstance(o, set):
                ip.host_mutation("a shared set")
            if name in ("union", "intersection", "difference", "issubset", "issuperset") and all(isinstance(x, (set, frozenset)) for x in [o] + args):
                return frozenset(getattr(o, name)(*args)) if name[:2] != "is" else getattr(o, name)(*args)
            raise Unsupported("set method %s" % name)
        from .values import VSuper
        if isinstance(o, VSuper):
            if name == "__init__":
                s = o.self
                if isinstance(s, VObj) and isinstance(s.cls, type) and issubclass(s.cls, BaseException):
                    ip.write(s, s.fields, "args", tuple(args))
                return None
            if name == "__setattr__":
                ip.write(o.self, o.self.fields, args[0], args[1])
                return None
            if name == "__str__":
                a = o.self.fields.get("args", ())
                if len(a) > 1:
                    raise Unsupported("str of an exception")
                return self.str_(a[0]) if a else ""
            raise Unsupported("super().%s" % name)
        if isinstance(o, (ONode, OAttrs, OAttr)):
            return self.w.dom_method(ip, o, name, args, kwargs)
        if isinstance(o, VMatch):
            if kwargs:
                raise Unsupported("arguments of %s" % name)
            return self.w.match_method(ip, o, name, args)
        if isinstance(o, int) and name in ("bit_length",):
            return getattr(o, name)(*args)
        if isinstance(o, VObj) and name in ("with_traceback", "add_note"):
            return o
        if isinstance(o, (types.FunctionType, VFunc)) and name == "__get__":
            return VBound(o, args[0])
        raise Unsupported("method %s of %s" % (name, type(o).__name__))

    def dom_attr(self, o, name):
        return self.w.dom_attr(self.ip, o, name)

    def dict_method(self, o, name, args, kwargs):
        if name == "get":
            v, found = self.dict_lookup(o, args[0])
            if found:
                return v
            return args[1] if len(args) > 1 else kwargs.get("default")
        if isinstance(o, dict) and name in ("setdefault", "update", "pop", "clear", "popitem", "__setitem__"):
            self.ip.host_mutation("a shared dict")
        if name in ("__contains__",):
            return self.contains(o, args[0])
        if name == "__getitem__":
            return self.getitem(o, args[0])
        if name == "setdefault":
            v, found = self.dict_lookup(o, args[0])
            if found:
                return v
            v = args[1] if len(args) > 1 else None
            self.dict_set(o, args[0], v)
            return v
        if name == "update":
            for a in args:
                self.dict_update(o, a)
            for k, v in kwargs.items():
                self.dict_set(o, k, v)
            return None
        if name == "pop":
            if isinstance(o, VDict) and o.base is None and not o.fams and isinstance(args[0], str):
                if args[0] in o.items:
                    v = o.items[args[0]]
                    self.delitem(o, args[0])
                    return v
                if len(args) > 1:
                    return args[1]
                self.ip.raise_(KeyError, args[0])
            if isinstance(o, VDict) and o.base is not None:
                raise Unsupported("removal of an attribute")
        if name == "copy":
            d = VDict()
            self.dict_update(d, o)
            return d
        items = o if isinstance(o, dict) else o.items
        if isinstance(o, VDict) and o.base is not None:
            raise Unsupported("%s of a symbolic mapping" % name)
        fams = o.fams if isinstance(o, VDict) else ()
        if fams and not (len(fams) == 1 and (isinstance(fams[0], One) or self.distinct_keys(fams[0]))):
            raise Unsupported("enumeration of a mapping whose keys may coincide")
        if name == "items":
            return VList([One((k, v)) for k, v in items.items()] + list(fams), "view", o)
        if name == "keys":
            if fams:
                raise Unsupported("keys")
            return VList([One(k) for k in items], "view", o)
        if name == "values":
            if fams:
                raise Unsupported("values")
            return VList([One(v) for v in items.values()], "view", o)
        raise Unsupported("dict method %s" % name)

    def distinct_keys(self, fam):
        """The names of the attributes of one node are distinct."""
        try:
            k = fam.value[0]
            t = k.parts[0]
            return len(k.parts) == 1 and z3.is_app(t) and t.decl().name() == "aname" and t.arg(1).eq(fam.i)
        except (AttributeError, TypeError, IndexError):
            return False

    def list_method(self, o, name, args, kwargs):
        ip = self.ip
        if isinstance(o, list) and name in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse"):
            ip.host_mutation("a shared list")
        if name == "append":
            self.w.write_segs(o, o.segs + (One(args[0]),))
            return None
        if name == "extend":
            self.w.write_segs(o, o.segs + self.as_list(args[0]).segs)
            return None
        if name == "insert" and args[0] == 0:
            self.w.write_segs(o, (One(args[1]),) + o.segs)
            return None
        if name == "insert" and o.concrete() and isinstance(args[0], int):
            v = list(o.segs)
            v.insert(args[0], One(args[1]))
            self.w.write_segs(o, tuple(v))
            return None
        if name == "copy":
            return VList(self.as_list(o).segs)
        if name == "clear":
            self.w.write_segs(o, ())
            return None
        if name == "reverse":
            self.w.write_segs(o, self.reverse(o).segs)
            return None
        if name == "pop":
            k = args[0] if args else -1
            if k == -1 and o.segs and isinstance(o.segs[-1], One):
                v = o.segs[-1].v
                self.w.write_segs(o, o.segs[:-1])
                return v
            if k == -1 and len(o.segs) == 1 and isinstance(o.segs[0], Prefix):
                self.require(from_z3(o.segs[0].length > 0), IndexError, "pop from empty list")
                v = self.w.prefix_last(o.segs[0])
                self.w.write_segs(o, (self.w.prefix_pop(o.segs[0]),))
                return v
            if isinstance(k, int):
                v = self.getitem(o, k)
                if k == 0:
                    self.w.write_segs(o, tuple(self.drop(list(o.segs), 1)))
                    return v
                if k == -1:
                    n = self.length(o)
                    self.w.write_segs(o, self.slice(o, 0, self.sub_int(n, 1)).segs)
                    return v
        if name == "index" and all(isinstance(x, One) for x in self.as_list(o).segs) and len(args) == 1:
            for k, x in enumerate(self.as_list(o).items()):
                if ip.truth(self.eq(x, args[0])):
                    return k
            ip.raise_(ValueError, "not in list")
        if name == "count":
            total = 0
            for s in self.as_list(o).segs:
                if isinstance(s, One):
                    if ip.truth(self.eq(s.v, args[0])):
                        total = self.add_int(total, 1)
                elif isinstance(s, Fam):
                    g = self.w.with_generic(s, lambda v: ip.cond(self.eq(v, args[0])))
                    total = self.add_int(total, from_z3(self.w.fold("COUNT", s.n, s.i, g if s.cond is None else z3.And(s.cond, g))))
                else:
                    raise Unsupported("count")
            return total
        if name in ("__len__",):
            return self.length(o)
        if name == "__getitem__":
            return self.getitem(o, args[0])
        if name == "__contains__":
            return self.contains(o, args[0])
        raise Unsupported("list method %s" % name)

    def str_method(self, o, name, args, kwargs):
        ip, w = self.ip, self.w
        if isinstance(o, str):
            if name == "join" and len(args) == 1 and not kwargs:
                return self.join(o, args[0])
            if name == "format":
                return self.str_format(o, args, kwargs)
            flat = [a for a in list(args) + list(kwargs.values())]
            if all(isinstance(a, (str, int, type(None), dict)) or isinstance(a, tuple) and all(isinstance(x, str) for x in a) for a in flat):
                try:
                    r = getattr(o, name)(*args, **kwargs)
                except (TypeError, ValueError, AttributeError, IndexError, KeyError) as e:
                    ip.raise_(type(e), *e.args)
                return VList.of(r) if isinstance(r, list) else r
        c = w.const_of(o)
        if c is not None and isinstance(o, SStr):
            return self.str_method(c, name, args, kwargs)
        low, top = STR_METHODS.get(name, (None, None))
        if low is None or not low <= len(args) <= top or kwargs and name not in ("split", "rsplit", "splitlines"):
            raise Unsupported("string method %s" % name)
        if name == "join":
            return self.join(o, args[0])
        x = zs(o)
        if name in ("startswith", "endswith"):
            ps = args[0] if isinstance(args[0], tuple) else (args[0],)
            if len(args) > 1:
                raise Unsupported("%s with bounds" % name)
            rs = []
            for p in ps:
                r = None
                if isinstance(p, str) and isinstance(o, SStr):
                    edge = o.parts[0] if name == "startswith" else o.parts[-1]
                    if isinstance(edge, str):
                        if len(edge) >= len(p):
                            r = getattr(edge, name)(p)
                        elif not (p.startswith(edge) if name == "startswith" else p.endswith(edge)):
                            r = False
                if r is None:
                    r = from_z3(z3.PrefixOf(zs(p), x) if name == "startswith" else z3.SuffixOf(zs(p), x))
                rs.append(r)
            return self.any_(rs)
        if name in ("isspace", "isdigit", "isalpha", "isalnum", "isdecimal", "isnumeric"):
            if any(isinstance(p, str) and not getattr(p, name)() for p in o.parts):
                return False
            return w.str_class(o, name)
        if name == "isascii":
            ascii_ = rx.ranges_re(((0, 127),))
            return from_z3(rx.in_re(x, ascii_ if len(o.parts) == 1 and V.is_char_term(o.parts[0]) else z3.Star(ascii_)))
        if name == "strip" and (not args or args[0] is None):
            return w.strip(o)
        if name == "split" and (not args or len(args) == 1 and args[0] is None) and not kwargs:
            i = w.bound()
            return VList([Fam(V.f_nwords(x), i, None, SStr((V.f_word(x, i),)), ("words", o))])
        if name == "splitlines" or name == "split":
            return w.str_split(ip, o, name, args, kwargs)
        if name == "replace":
            return w.str_replace(o, args)
        if name == "find":
            return from_z3(z3.IndexOf(x, zs(args[0]), 0))
        if name == "removeprefix":
            if ip.truth(self.str_method(o, "startswith", [args[0]], {})):
                return self.str_slice(o, self.length(args[0]), None, None)
            return o
        if name == "removesuffix":
            if args[0] != "" and ip.truth(self.str_method(o, "endswith", [args[0]], {})):
                return self.str_slice(o, None, self.sub_int(self.length(o), self.length(args[0])), None)
            return o
        if name == "__len__":
            return self.length(o)
        if name == "__contains__":
            return self.contains(o, args[0])
        if name == "__add__":
            return mkstr([o, args[0]])
        if name == "format":
            raise Unsupported("symbolic format string")
        if name == "count" and len(args) == 1 and isinstance(args[0], str) and len(args[0]) == 1:
            i = w.bound()
            return from_z3(w.fold("COUNT", z3.Length(x), i, V.f_char(x, i) == zstr(args[0])))
        return w.str_opaque(o, name, args)

    def str_format(self, o, args, kwargs):
        import string
        out, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(o):
            out.append(lit)
            if field is None:
                continue
            if spec or conv not in (None, "s"):
                raise Unsupported("format specification")
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field.isidentifier():
                v = kwargs[field]
            else:
                raise Unsupported("format field")
            out.append(self.str_(v))
        return mkstr(out)

    # ------------------------------------------------------------------ regular expressions
    def regex(self, name, args, kwargs):
        ip, w = self.ip, self.w
        args = list(args)
        if name == "compile":
            try:
                return re.compile(*args, **kwargs)
            except (TypeError, re.error):
                if args and isinstance(args[0], SStr) and len(args) + len(kwargs) <= 2 and not set(kwargs) - {"flags"}:
                    flags = args[1] if len(args) > 1 else kwargs.get("flags", 0)
                    if isinstance(flags, int):
                        return w.sym_pattern(args[0], flags)
                raise Unsupported("pattern")
        if not args:
            raise Unsupported("regex")
        pat = args[0]
        flags = kwargs.get("flags", 0)
        if isinstance(pat, (SStr,)) or isinstance(pat, V.SymPattern):
            return w.sym_regex(ip, name, args, kwargs)
        if isinstance(pat, re.Pattern):
            pattern, flags = pat.pattern, pat.flags
        else:
            pattern = pat
        pos = {"search": 1, "match": 1, "fullmatch": 1, "findall": 1, "finditer": 1, "split": 1, "sub": 2, "subn": 2}.get(name)
        if pos is None or len(args) <= pos:
            raise Unsupported("regex %s" % name)
        s = args[pos]
        if not isinstance(s, STRLIKE):
            ip.raise_(TypeError, "expected string")
        extra = args[pos + 1:]
        if isinstance(pat, re.Pattern):
            if extra and name not in ("sub", "subn"):
                raise Unsupported("regex position arguments")
        elif name in ("search", "match", "fullmatch", "findall", "finditer") and len(extra) == 1:
            flags, extra = extra[0], []
        elif name in ("sub", "subn") and len(extra) == 2:
            flags, extra = extra[1], extra[:1]
        if extra and name not in ("sub", "subn") or len(extra) > 1 or not isinstance(flags, int):
            raise Unsupported("regex position arguments")
        flags = int(flags)
        count = extra[0] if extra else kwargs.get("count", 0)
        if set(kwargs) - {"flags", "count"}:
            raise Unsupported("regex keywords")
        c = w.const_of(s) if isinstance(s, SStr) else s
        if c is not None:
            cp = re.compile(pattern, flags)
            try:
                if name in ("search", "match", "fullmatch"):
                    m = getattr(cp, name)(c)
                    return VMatch(m) if m is not None else None
                if name in ("findall", "split"):
                    return VList.of(getattr(cp, name)(c))
                if name in ("sub", "subn") and isinstance(args[1], str):
                    if not isinstance(count, int):
                        raise Unsupported("count")
                    r = getattr(cp, name)(args[1], c, count)
                    return r
            except re.error:
                raise Unsupported("regex error")
            raise Unsupported("regex %s" % name)
        if name in ("search", "match", "fullmatch"):
            return w.regex_match(ip, pattern, flags, name, s)
        if name == "sub":
            return w.regex_sub(ip, pattern, flags, args[1], s, count)
        if name in ("split", "findall"):
            return w.regex_list(ip, pattern, flags, name, s)
        raise Unsupported("regex %s of a symbolic string" % name)


class _Native:
    def __init__(self, fn, m):
        self.fn, self.m = fn, m

    def __call__(self, *a):
        raise Unsupported("native")
