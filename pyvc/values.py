"""Values of the symbolic interpreter.  Concrete Python values (str, int, bool, None, tuple, host objects) stand for
themselves; everything below is symbolic or mutable."""
import itertools

import z3

_stamps = itertools.count(1)

Elem = z3.DeclareSort("Elem")
DNode = z3.DeclareSort("DNode")
Str, Int, Bool = z3.StringSort(), z3.IntSort(), z3.BoolSort()


def F(name, *sorts):
    return z3.Function(name, *sorts)


# elements (MathMLElement protocol), and the induction hypothesis about rendering them
f_name = F("name", Elem, Str)
f_value = F("value", Elem, Str)
f_nkids = F("nkids", Elem, Int)
f_kid = F("kid", Elem, Int, Elem)
f_has = F("has", Elem, Str, Bool)
f_attr = F("attr", Elem, Str, Str)
f_anyattr = F("anyattr", Elem, Bool)
f_R = F("R", Elem, Bool, Str)          # rendering of an element (second argument: a table encloses it)
f_OK = F("OK", Elem, Bool)             # every rendered element below (and itself) has its number of children
f_ndesc = F("ndesc", Elem, Int)       # the elements strictly below, in an unspecified order
f_desc = F("desc", Elem, Int, Elem)
f_D = F("D", Elem, Str, Bool)          # an element of this name occurs strictly below
# DOM nodes
f_tag = F("tag", DNode, Str)
f_ntype = F("ntype", DNode, Int)
f_nvalue = F("nvalue", DNode, Str)
f_nname = F("nname", DNode, Str)
f_nchild = F("nchild", DNode, Int)
f_child = F("child", DNode, Int, DNode)
f_nattr = F("nattr", DNode, Int)
f_aname = F("aname", DNode, Int, Str)
f_avalue = F("avalue", DNode, Int, Str)
f_M = F("M", DNode, Elem)              # the element read from a node
f_dom = F("dom", Str, DNode)
f_nmath = F("nmath", DNode, Str, Int)  # getElementsByTagName
f_math = F("math", DNode, Str, Int, DNode)
f_WF = F("WF", Str, Bool)
f_ecode = F("ecode", Str, Int)
f_eline = F("eline", Str, Int)
f_eoff = F("eoff", Str, Int)
f_FIX = F("FIX", Str, Str, Str)
# strings
f_STRIP = F("STRIP", Str, Str)
f_NORM = F("NORM", Str, Str)
f_nwords = F("nwords", Str, Int)
f_word = F("word", Str, Int, Str)

NONNEG = {f_nkids.name(), f_nchild.name(), f_nattr.name(), f_nmath.name(), f_nwords.name()}


class Unsupported(Exception):
    pass


class PyExc(Exception):
    """A Python exception of the interpreted program."""

    def __init__(self, val):
        self.val = val


class PlaceholderUsed(Unsupported):
    def __init__(self, poison):
        Unsupported.__init__(self, "a loop variable is read whose value at the start of an iteration is not known")
        self.poison = poison


class NeedShape(Unsupported):
    def __init__(self, prefix):
        Unsupported.__init__(self, "last element of a list of unknown shape")
        self.prefix = prefix


class Poison:
    """The value of a location that a loop body must not read before writing it."""
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


POPPED = object()


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SBool(%s)" % self.e


class SInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SInt(%s)" % self.e


class SStr:
    """A concatenation of constants and z3 string atoms (normal form: no two adjacent constants, no empty ones)."""
    __slots__ = ("parts", "origin")

    def __init__(self, parts):
        self.parts = parts

    def z3(self):
        ps = [z3.StringVal(p) if isinstance(p, str) else p for p in self.parts]
        if not ps:
            return z3.StringVal("")
        return ps[0] if len(ps) == 1 else z3.Concat(*ps)

    def __repr__(self):
        return "SStr(%s)" % ", ".join(repr(p) if isinstance(p, str) else str(p) for p in self.parts)


def zstr(s):
    """z3 string literal for a Python string (z3py escapes backslash-u sequences otherwise)."""
    out = []
    for c in s:
        o = ord(c)
        if c == "\\" or o < 32 or o > 126:
            out.append("\\u{%x}" % o)
        else:
            out.append(c)
    return z3.StringVal("".join(out))


# z3.StringVal treats "\u{..}" as an escape: always go through zstr
def zs(v):
    if isinstance(v, str):
        return zstr(v)
    ps = [zstr(p) if isinstance(p, str) else p for p in v.parts]
    if not ps:
        return zstr("")
    return ps[0] if len(ps) == 1 else z3.Concat(*ps)


SStr.z3 = zs


def unescape(s):
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def const_str(e):
    if z3.is_string_value(e):
        return unescape(e.as_string())
    return None


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, SStr):
            for q in p.parts:
                _add(out, q)
        else:
            _add(out, p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(tuple(out))


def _add(out, p):
    if not isinstance(p, str):
        c = const_str(p)
        if c is not None:
            p = c
        elif z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for q in p.children():
                _add(out, q)
            return
    if isinstance(p, str):
        if not p:
            return
        if out and isinstance(out[-1], str):
            out[-1] += p
            return
    out.append(p)


def from_z3(e):
    """z3 term -> value"""
    s = e.sort()
    if s == Str:
        return mkstr([e])
    if s == Int:
        e = z3.simplify(e)
        return e.as_long() if z3.is_int_value(e) else SInt(e)
    if s == Bool:
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SBool(e)
    if s == Elem:
        return OElem(e)
    if s == DNode:
        return ONode(e)
    raise Unsupported("sort %s" % s)


class OElem:
    """An opaque element: only its protocol (name, value, children, attributes) and contracts are known."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "OElem(%s)" % self.e


class ONode:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "ONode(%s)" % self.e


class OAttrs:
    """The attributes collection of an opaque DOM node (NamedNodeMap)."""
    __slots__ = ("node",)

    def __init__(self, node):
        self.node = node


class OAttr:
    """One DOM attribute: (name, value) strings."""
    __slots__ = ("name", "value")

    def __init__(self, name, value):
        self.name, self.value = name, value


class OConv:
    """The converter of an opaque element."""
    __slots__ = ("elem", "inner")

    def __init__(self, elem, inner):
        self.elem, self.inner = elem, inner


class VIte:
    __slots__ = ("g", "a", "b")

    def __init__(self, g, a, b):
        self.g, self.a, self.b = g, a, b


class One:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Fam:
    """The values value(i) for 0 <= i < n with cond(i), in order."""
    __slots__ = ("n", "i", "cond", "value", "origin")

    def __init__(self, n, i, cond, value, origin=None):
        self.n, self.i, self.cond, self.value, self.origin = n, i, cond, value, origin


class Rest:
    """The unknown rest of a worklist inside a step of its loop; nothing can be asked about it."""
    __slots__ = ()


class Prefix:
    """Unknown earlier content of a list inside a loop body (placeholder).  nonempty: whether it has elements;
    last: placeholder of its last record, when the body looks at it."""
    __slots__ = ("key", "length", "nonempty", "last", "state")

    def __init__(self, key, length, nonempty, last, state):
        self.key, self.length, self.nonempty, self.last, self.state = key, length, nonempty, last, state


class VList:
    """kind: "list", "tuple" (a tuple whose length is not known) or "view" (of the dictionary src)."""
    __slots__ = ("segs", "stamp", "kind", "src")

    def __init__(self, segs=(), kind="list", src=None):
        self.segs = tuple(segs)
        self.kind, self.src = kind, src
        self.stamp = next(_stamps)

    @staticmethod
    def of(vals):
        return VList([One(v) for v in vals])

    def concrete(self):
        return all(isinstance(s, One) for s in self.segs)

    def items(self):
        return [s.v for s in self.segs]


class VDict:
    """items: concrete key -> value (insertion ordered); base: an Elem term whose attributes lie underneath; fams:
    families of (key, value); removed keys are not supported."""
    __slots__ = ("items", "base", "fams", "stamp")

    def __init__(self, items=None, base=None, fams=()):
        self.stamp = next(_stamps)
        self.items = dict(items or {})
        self.base = base
        self.fams = tuple(fams)


class VSet:
    __slots__ = ("vals", "stamp")

    def __init__(self, vals):
        self.vals = list(vals)
        self.stamp = next(_stamps)


class VObj:
    __slots__ = ("cls", "fields", "stamp")

    def __init__(self, cls, fields=None):
        self.stamp = next(_stamps)
        self.cls = cls
        self.fields = dict(fields or {})

    def __repr__(self):
        return "<%s %s>" % (getattr(self.cls, "__name__", self.cls), self.fields)


class VClass:
    """A class defined inside interpreted code."""
    __slots__ = ("name", "bases", "attrs")

    def __init__(self, name, bases, attrs):
        self.name, self.bases, self.attrs = name, bases, attrs


class VFunc:
    __slots__ = ("node", "frame", "defaults", "kwdefaults", "name", "defcls")

    def __init__(self, node, frame, defaults, kwdefaults, name, defcls=None):
        self.node, self.frame, self.defaults, self.kwdefaults, self.name, self.defcls = node, frame, defaults, kwdefaults, name, defcls


class VBound:
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_


class VMeth:
    """Bound built-in method of a value."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class VPartial:
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class VSuper:
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class VMatch:
    """A regular expression match object of which only the existence is known."""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


class VIter:
    """An iterator (a generator, the result of map, zip, enumerate, iter ...): it can be consumed once.  lst: the elements
    to come; make: what computes them, run when the iterator is consumed; partial: consumed by something that may have
    stopped before the end, so that what is left is not known."""
    __slots__ = ("lst", "make", "partial", "stamp")

    def __init__(self, lst=None, make=None):
        self.lst, self.make, self.partial = lst, make, False
        self.stamp = next(_stamps)


class RunFold:
    """A list of records built by a loop that, for each i < n, either appends the record new(i) or extends string
    fields of the last record (by piece(i), when ext(i, fields of the last record) holds)."""

    def __init__(self, n, i, consts, new, ext, pieces):
        self.n, self.i, self.consts, self.new, self.ext, self.pieces = n, i, consts, new, ext, pieces


class RunFam:
    __slots__ = ("fold", "value")

    def __init__(self, fold, value):
        self.fold, self.value = fold, value


class GroupFam(Fam):
    """Several strings per index, of which only the concatenation is known."""
    __slots__ = ()

    def __init__(self, n, i, value):
        Fam.__init__(self, n, i, None, value, ("group",))


class SymPattern:
    __slots__ = ("src", "flags")

    def __init__(self, src, flags=0):
        self.src, self.flags = src, int(flags)


f_IDENT = F("IDENT", Str, Str)          # rendering of an identifier text without variant (contract of mi)
f_WSUB = F("WSUB", Str, Str)            # white space runs replaced by one space
f_ERR = F("ERR", Elem, Str)             # message of the arity error raised for an element


def f_char(x, i):
    return z3.SubString(x, i, z3.IntVal(1))


def is_char_term(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(t.arg(2)) and t.arg(2).as_long() == 1


def _mentions(e, c, cache={}):
    stack, seen = [e], set()
    cid = c.get_id()
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i == cid:
            return True
        if i in seen:
            continue
        seen.add(i)
        stack.extend(t.children())
    return False


def mentions_const(v, c):
    if z3.is_expr(v):
        return _mentions(v, c)
    return any(_mentions(e, c) for e in exprs(v))


def exprs(v):
    """The z3 expressions inside a value."""
    if isinstance(v, SStr):
        for p in v.parts:
            if not isinstance(p, str):
                yield p
    elif isinstance(v, (SInt, SBool, OElem, ONode)):
        yield v.e
    elif isinstance(v, OConv):
        yield v.elem
    elif isinstance(v, OAttrs):
        yield v.node
    elif isinstance(v, OAttr):
        yield from exprs(v.name)
        yield from exprs(v.value)
    elif isinstance(v, VIte):
        yield v.g
        yield from exprs(v.a)
        yield from exprs(v.b)
    elif isinstance(v, tuple):
        for x in v:
            yield from exprs(x)
    elif isinstance(v, One):
        yield from exprs(v.v)
    elif isinstance(v, Fam):
        yield v.n
        if v.cond is not None:
            yield v.cond
        yield from exprs(v.value)
    elif isinstance(v, RunFam):
        yield v.fold.n
        yield from exprs(v.value)
    elif isinstance(v, Prefix):
        yield v.length
    elif isinstance(v, VList):
        for s in v.segs:
            yield from exprs(s)
    elif isinstance(v, VIter):
        if v.make is not None or v.partial:
            raise Unsupported("iterator in a family")
        yield from exprs(v.lst)
    elif isinstance(v, VDict):
        if v.base is not None:
            yield v.base
        for x in v.items.values():
            yield from exprs(x)
        for x in v.fams:
            yield from exprs(x)
    elif isinstance(v, VObj):
        for x in v.fields.values():
            yield from exprs(x)
    elif isinstance(v, VSet):
        for x in v.vals:
            yield from exprs(x)
    elif isinstance(v, VBound):
        yield from exprs(v.self)
    elif isinstance(v, VPartial):
        for x in v.args:
            yield from exprs(x)


def subst(v, pairs):
    """v with z3 constants replaced.  Mutable values are copied when they change."""
    if not pairs:
        return v
    if isinstance(v, SStr):
        return mkstr([p if isinstance(p, str) else z3.substitute(p, *pairs) for p in v.parts])
    if isinstance(v, SInt):
        return from_z3(z3.substitute(v.e, *pairs))
    if isinstance(v, SBool):
        return from_z3(z3.substitute(v.e, *pairs))
    if isinstance(v, OElem):
        return OElem(z3.simplify(z3.substitute(v.e, *pairs)))
    if isinstance(v, ONode):
        return ONode(z3.simplify(z3.substitute(v.e, *pairs)))
    if isinstance(v, OConv):
        return OConv(z3.simplify(z3.substitute(v.elem, *pairs)), v.inner)
    if isinstance(v, OAttrs):
        return OAttrs(z3.simplify(z3.substitute(v.node, *pairs)))
    if isinstance(v, OAttr):
        return OAttr(subst(v.name, pairs), subst(v.value, pairs))
    if isinstance(v, VIte):
        g = z3.simplify(z3.substitute(v.g, *pairs))
        if z3.is_true(g):
            return subst(v.a, pairs)
        if z3.is_false(g):
            return subst(v.b, pairs)
        return VIte(g, subst(v.a, pairs), subst(v.b, pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, One):
        return One(subst(v.v, pairs))
    if isinstance(v, GroupFam):
        w = subst(Fam(v.n, v.i, None, v.value), pairs)
        return GroupFam(w.n, w.i, w.value)
    if isinstance(v, Fam):
        n = z3.simplify(z3.substitute(v.n, *pairs))
        ps = [(a, b) for a, b in pairs if a.get_id() != v.i.get_id()]
        i, cond, value = v.i, v.cond, v.value
        if any(_mentions(b, v.i) for _a, b in ps):
            j = z3.Const("c!%d" % next(_stamps), Int)
            cond = None if cond is None else z3.substitute(cond, (i, j))
            value = subst(value, [(i, j)])
            i = j
        if ps:
            cond = None if cond is None else z3.substitute(cond, *ps)
            value = subst(value, ps)
        return Fam(n, i, cond, value, v.origin)
    if isinstance(v, RunFam):
        f = v.fold
        g = RunFold(z3.substitute(f.n, *pairs), f.i, f.consts, {k: subst(x, pairs) for k, x in f.new.items()},
                    z3.substitute(f.ext, *pairs), {k: subst(x, pairs) for k, x in f.pieces.items()})
        return RunFam(g, subst(v.value, pairs))
    if isinstance(v, VList):
        if not any(True for _ in exprs(v)):
            return v
        if v.kind == "view":
            raise Unsupported("view of a mapping in a family")
        return VList([subst(s, pairs) for s in v.segs], v.kind)
    if isinstance(v, VIter):
        if v.make is not None or v.partial:
            raise Unsupported("iterator in a family")
        return VIter(subst(v.lst, pairs))
    if isinstance(v, VDict):
        if not any(True for _ in exprs(v)):
            return v
        return VDict({k: subst(x, pairs) for k, x in v.items.items()},
                     None if v.base is None else z3.simplify(z3.substitute(v.base, *pairs)), [subst(x, pairs) for x in v.fams])
    if isinstance(v, VObj):
        if not v.fields:
            return v
        return VObj(v.cls, {k: subst(x, pairs) for k, x in v.fields.items()})
    if isinstance(v, VBound):
        return VBound(v.fn, subst(v.self, pairs))
    if isinstance(v, VPartial):
        return VPartial(subst(v.fn, pairs) if isinstance(v.fn, VBound) else v.fn, [subst(x, pairs) for x in v.args],
                        {k: subst(x, pairs) for k, x in v.kwargs.items()})
    if isinstance(v, VSet):
        return VSet([subst(x, pairs) for x in v.vals])
    if isinstance(v, VFunc):
        fr = v.frame
        if fr is not None and any(isinstance(x, (SStr, SInt, SBool, OElem, VObj, VList, VDict, ONode, OConv)) for x in fr.vars.values()):
            for a, _b in pairs:
                if any(mentions_const(x, a) for x in fr.vars.values()):
                    raise Unsupported("closure over a loop variable in a family")
        return v
    return v


def copy_value(v):
    if isinstance(v, VObj):
        return VObj(v.cls, {k: copy_value(x) for k, x in v.fields.items()})
    return v


def same_value(a, b):
    """Syntactically the same value."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, SStr):
        return len(a.parts) == len(b.parts) and all(
            (isinstance(x, str) and isinstance(y, str) and x == y) or
            (not isinstance(x, str) and not isinstance(y, str) and x.eq(y)) for x, y in zip(a.parts, b.parts))
    if isinstance(a, (SInt, SBool, OElem, ONode)):
        return a.e.eq(b.e)
    if isinstance(a, OConv):
        return a.elem.eq(b.elem) and a.inner is b.inner
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, VObj):
        return a.cls is b.cls and set(a.fields) == set(b.fields) and all(same_value(a.fields[k], b.fields[k]) for k in a.fields)
    if isinstance(a, One):
        return same_value(a.v, b.v)
    if isinstance(a, Fam):
        return a.n.eq(b.n) and a.i.eq(b.i) and (a.cond is b.cond or (a.cond is not None and b.cond is not None and a.cond.eq(b.cond))) \
            and same_value(a.value, b.value)
    if isinstance(a, VList):
        return a.kind == b.kind and len(a.segs) == len(b.segs) and all(same_value(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, VDict):
        return not a.fams and not b.fams and (a.base is b.base or (a.base is not None and b.base is not None and a.base.eq(b.base))) \
            and list(a.items) == list(b.items) and all(same_value(a.items[k], b.items[k]) for k in a.items)
    if isinstance(a, (VBound,)):
        return a.fn is b.fn and same_value(a.self, b.self)
    if isinstance(a, (str, int, float, bool, type(None))):
        return a == b
    return False


class Record:
    pass


def record_shape(v, world, name="last"):
    """A record of the shape of v with fresh constants in place of its strings and booleans."""
    def leaf(x, k):
        if isinstance(x, (str, SStr)):
            return SStr((world.fresh("%s_%s" % (name, k), Str),))
        if isinstance(x, (bool, SBool)):
            return SBool(world.fresh("%s_%s" % (name, k), Bool))
        if isinstance(x, (int, SInt)):
            return SInt(world.fresh("%s_%s" % (name, k), Int))
        raise Unsupported("record field")
    if isinstance(v, VObj):
        o = VObj(v.cls, {k: leaf(x, k) for k, x in v.fields.items()})
        o.stamp = 0
        return o
    if isinstance(v, tuple):
        return tuple(leaf(x, k) for k, x in enumerate(v))
    return leaf(v, "value")


def record_fields(v):
    if isinstance(v, VObj):
        return dict(v.fields)
    if isinstance(v, tuple):
        return dict(enumerate(v))
    return {"value": v}


def rebuild(shape, fields):
    if isinstance(shape, VObj):
        return VObj(shape.cls, fields)
    if isinstance(shape, tuple):
        return tuple(fields[k] for k in range(len(shape)))
    return fields["value"]
