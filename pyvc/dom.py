"""Contract of xml.dom.minidom as far as the code and the specification use it, and the obligations about reading
elements and converting documents.

A parsed document is a finite tree of nodes.  nodeType of a child of an element is 1 (element), 3 (text), 4 (CDATA),
7 (processing instruction) or 8 (comment); tagName, attributes, nodeValue, nodeName and data are as xml.dom says."""
import xml.dom.minidom as minidom
from xml.parsers.expat import ExpatError

import z3

from . import values as V
from .contracts import Engine
from .obligations import Path, obligation, same, failed, witness_model
from .values import (DNode, Str, Int, SStr, SInt, SBool, OElem, ONode, OAttrs, OAttr, VIte, One, Fam, VList, VDict, VObj, VMeth,
                     Unsupported, PyExc, mkstr, zs, zstr, subst)

ELEMENT, TEXT, CDATA, PI, COMMENT, DOCUMENT = 1, 3, 4, 7, 8, 9
f_LOC = z3.Function("LOC", Str, Str)       # the part of a qualified name after the colon
NODES = z3.Const("nodes", DNode)           # a fictitious parent of the list of nodes handed to the reader


class Dom:
    def __init__(self, w):
        self.w = w
        w.dom = self
        self.needed = []          # recursive contracts that were used: (function, self?, kind)
        self.used = set()
        w.ip.hooks[minidom.parseString] = self.hook_parse
        w.node_isinstance = self.node_isinstance
        w.axioms_for_outer = None

    # ------------------------------------------------------------------ facts about nodes
    def ntype(self, x):
        return V.f_ntype(x)

    def kind_is(self, x, *ks):
        """z3 condition."""
        return z3.Or(*[V.f_ntype(x) == k for k in ks])

    def is_kind(self, x, *ks):
        return self.w.decide(self.kind_is(x, *ks))

    # ------------------------------------------------------------------ attributes and methods
    def attr(self, ip, o, name):
        if isinstance(o, OAttr):
            if name in ("name", "nodeName"):
                return o.name
            if name in ("value", "nodeValue", "data"):
                return o.value
            if name == "localName":
                return SStr((f_LOC(zs(o.name)),))
            if name == "specified":
                raise Unsupported("attribute.specified")
            raise Unsupported("attribute of an attribute node: %s" % name)
        if isinstance(o, OAttrs):
            if name == "length":
                return SInt(V.f_nattr(o.node))
            return VMeth(o, name)
        x = o.e
        if name == "nodeType":
            c = self.w.const_int(V.f_ntype(x))
            return c if c is not None else SInt(V.f_ntype(x))
        if name == "childNodes":
            if self.w.valid(self.kind_is(x, ELEMENT, DOCUMENT)) or self.is_kind(x, ELEMENT, DOCUMENT):
                i = self.w.bound()
                return VList([Fam(V.f_nchild(x), i, None, ONode(V.f_child(x, i)), ("childNodes", x))])
            return VList()
        if name == "tagName":
            if self.is_kind(x, ELEMENT):
                return SStr((V.f_tag(x),))
            ip.raise_(AttributeError, "tagName")
        if name == "nodeName":
            return SStr((V.f_nname(x),))
        if name == "localName":
            if self.is_kind(x, ELEMENT):
                return SStr((f_LOC(V.f_tag(x)),))
            return None
        if name == "nodeValue":
            if self.is_kind(x, ELEMENT, DOCUMENT):
                return None
            return SStr((V.f_nvalue(x),))
        if name == "data":
            if self.is_kind(x, ELEMENT, DOCUMENT):
                ip.raise_(AttributeError, "data")
            return SStr((V.f_nvalue(x),))
        if name == "attributes":
            if self.is_kind(x, ELEMENT):
                return OAttrs(x)
            return None
        if name in ("getElementsByTagName", "hasChildNodes", "hasAttributes", "getAttribute", "hasAttribute", "unlink", "normalize"):
            return VMeth(o, name)
        raise Unsupported("DOM attribute %s" % name)

    def method(self, ip, o, name, args, kwargs):
        args = [ip.force(a) for a in args]
        if kwargs:
            raise Unsupported("DOM method with keywords")
        if isinstance(o, OAttrs):
            i = self.w.bound()
            x = o.node
            at = OAttr(SStr((V.f_aname(x, i),)), SStr((V.f_avalue(x, i),)))
            v = {"values": at, "keys": at.name, "items": (at.name, at.value)}.get(name)
            if v is not None and not args:
                return VList([Fam(V.f_nattr(x), i, None, v, ("attributes", x))])
            if name == "__len__":
                return SInt(V.f_nattr(x))
            if name == "item" and len(args) == 1:
                k = args[0]
                kz = z3.IntVal(k) if isinstance(k, int) else k.e
                if self.w.decide(z3.And(kz >= 0, kz < V.f_nattr(x))):
                    return OAttr(SStr((V.f_aname(x, kz),)), SStr((V.f_avalue(x, kz),)))
                return None
            raise Unsupported("method %s of an attribute map" % name)
        if isinstance(o, ONode):
            x = o.e
            if name == "getElementsByTagName" and len(args) == 1 and self.w.valid(self.kind_is(x, ELEMENT, DOCUMENT)):
                i = self.w.bound()
                t = zs(args[0])
                if not self.w.valid(t != zstr("*")):
                    raise Unsupported("getElementsByTagName of any name")
                return VList([Fam(V.f_nmath(x, t), i, None, ONode(V.f_math(x, t, i)), ("byTagName", x))])
            if name == "hasChildNodes" and not args:
                if self.is_kind(x, ELEMENT, DOCUMENT):
                    return SBool(V.f_nchild(x) > 0)
                return False
            if name == "hasAttributes" and not args and self.is_kind(x, ELEMENT):
                return SBool(V.f_nattr(x) > 0)
        raise Unsupported("DOM method %s" % name)

    def node_isinstance(self, v, t):
        x = v.e
        if t in (minidom.Node, object):
            return True
        ks = {minidom.Element: (1,), minidom.Text: (3, 4), minidom.CDATASection: (4,), minidom.Comment: (8,),
              minidom.ProcessingInstruction: (7,), minidom.Document: (9,), minidom.CharacterData: (3, 4, 8)}.get(t)
        if ks is None:
            raise Unsupported("isinstance of a node")
        return self.is_kind(x, *ks)

    # ------------------------------------------------------------------ axioms
    def axioms(self, t):
        nm = t.decl().name()
        if nm == "ntype":
            x = t.arg(0)
            ax = [z3.Or(*[t == k for k in (1, 3, 4, 7, 8, 9)])]
            if z3.is_app(x):
                p = x.decl().name()
                if p == "math":
                    ax.append(t == ELEMENT)
                elif p == "dom":
                    ax.append(t == DOCUMENT)
                elif p == "child":
                    ax.append(t != DOCUMENT)
            return ax
        if nm == "nname":
            x = t.arg(0)
            ty = V.f_ntype(x)
            return [z3.Implies(ty == TEXT, t == zstr("#text")), z3.Implies(ty == CDATA, t == zstr("#cdata-section")),
                    z3.Implies(ty == COMMENT, t == zstr("#comment")), z3.Implies(ty == ELEMENT, t == V.f_tag(x)),
                    z3.Implies(ty == DOCUMENT, t == zstr("#document")),
                    z3.Implies(ty == PI, z3.Not(z3.PrefixOf(zstr("#"), t)))]
        if nm == "tag":
            x = t.arg(0)
            ax = [t != zstr(""), z3.Not(z3.PrefixOf(zstr("#"), t))]
            if z3.is_app(x) and x.decl().name() == "math":
                ax.append(t == x.arg(1))
            return ax
        if nm == "aname":
            return [t != zstr(""), z3.Not(z3.PrefixOf(zstr(":"), t)), z3.Not(z3.SuffixOf(zstr(":"), t))]
        if nm in ("nchild", "nattr", "nmath"):
            return [t >= 0]
        if nm == "LOC":
            pre = z3.Function("PREFIX", Str, Str)(t.arg(0))       # names with a prefix have exactly one colon
            return [z3.Implies(z3.Not(z3.Contains(t.arg(0), zstr(":"))), t == t.arg(0)), z3.Not(z3.Contains(t, zstr(":"))), t != zstr(""),
                    z3.Implies(z3.Contains(t.arg(0), zstr(":")), z3.And(pre != zstr(""), t.arg(0) == z3.Concat(pre, zstr(":"), t)))]
        return []

    # ------------------------------------------------------------------ recursion of the reader
    def recursion(self, fn, pos, kind, x):
        """A recursive call of a function of the reader on a node, or on a list of nodes, below the one being read."""
        self.needed.append((fn, pos, kind))
        if kind == "node":
            if not self.w.valid(V.f_ntype(x) == ELEMENT):
                raise Unsupported("recursion on a node that may not be an element")
            return OElem(V.f_M(x))
        s = x
        I = self.w.generic()
        self.w.generics.append(I)
        try:
            facts = [z3.And(0 <= I, I < s.n)] + ([z3.substitute(s.cond, (s.i, I))] if s.cond is not None else [])
            node = subst(s.value, [(s.i, I)]).e
            if not self.w.valid(V.f_ntype(node) == ELEMENT, facts):
                raise Unsupported("recursion on nodes that may not be elements")
        finally:
            self.w.generics.pop()
        return VList([Fam(s.n, s.i, s.cond, OElem(V.f_M(s.value.e)), ("map", s.origin))])

    # ------------------------------------------------------------------ parsing
    def hook_parse(self, ip, args, kwargs):
        if len(args) != 1 or kwargs:
            raise Unsupported("parseString with options")
        s = ip.force(args[0])
        if not isinstance(s, (str, SStr)):
            raise Unsupported("parse of bytes")
        x = zs(s)
        w = self.w
        if w.generics:
            raise Unsupported("parse in a loop with an unknown number of iterations")
        w.push(w.log, ("parse", x))
        if w.decide(V.f_WF(x)):
            return ONode(V.f_dom(x))
        e = VObj(ExpatError, {"args": (SStr((z3.Function("emsg", Str, Str)(x),)),), "code": SInt(V.f_ecode(x)),
                              "lineno": SInt(V.f_eline(x)), "offset": SInt(V.f_eoff(x))})
        w.push(w.log, ("error", e))
        raise PyExc(e)


class DomEngine(Engine):
    def __init__(self, code, timeout_ms=4000, deadline=None):
        Engine.__init__(self, code, timeout_ms, deadline)
        self.log = []
        self.trimmed_values = False
        Dom(self)

    def reset(self):
        Engine.reset(self)
        self.log = []

    def axioms_for(self, t):
        return Engine.axioms_for(self, t) + self.dom.axioms(t)


# ------------------------------------------------------------------------------------ comparison of structures

def equal(w, a, b, what):
    """Path: a (from the code) equals b (from the specification)."""
    a, b = w.ip.force(a), w.ip.force(b)
    if isinstance(b, (str, SStr, VIte)):
        r = same(w, a, b, what)
        return r
    if isinstance(b, (OElem, ONode)):
        if type(a) is type(b) and (a.e.eq(b.e) or w.valid(a.e == b.e)):
            return Path("proved", what)
        return failed(w, what, "%r where the specification gives %r" % (a, b))
    if isinstance(b, tuple):
        if isinstance(a, tuple) and len(a) == len(b):
            for x, y in zip(a, b):
                r = equal(w, x, y, what)
                if r.status != "proved":
                    return r
            return Path("proved", what)
        return failed(w, what, "%r" % (a,))
    if isinstance(b, VDict):
        if not isinstance(a, VDict) or a.base is not None or b.base is not None:
            return failed(w, what, "%r" % (a,))
        if a.items or b.items:
            raise Unsupported("comparison of mappings")
        return equal(w, VList(a.fams), VList(b.fams), what)
    if isinstance(b, VList):
        if isinstance(a, (list, tuple)):
            a = w.ip.m.as_list(a)
        if not isinstance(a, VList):
            return failed(w, what, "%r" % (a,))
        xs, ys = prune(w, a.segs), prune(w, b.segs)
        if len(xs) != len(ys):
            if not xs or not ys:
                return failed(w, what, "the list %r where the specification gives %r" % (xs, ys))
            raise Unsupported("comparison of lists of different shape")
        for x, y in zip(xs, ys):
            r = equal_seg(w, x, y, what)
            if r.status != "proved":
                return r
        return Path("proved", what)
    if b is None:
        return Path("proved", what) if a is None else failed(w, what, "%r" % (a,))
    raise Unsupported("comparison of %s" % type(b).__name__)


def prune(w, segs):
    return [s for s in segs if not (isinstance(s, Fam) and (w.valid(s.n <= 0) or empty(w, s)))]


def empty(w, s):
    """No element of the family passes its condition."""
    if s.cond is None:
        return False
    I = w.generic()
    w.generics.append(I)
    try:
        return w.valid(z3.Not(z3.substitute(s.cond, (s.i, I))), [z3.And(0 <= I, I < s.n)])
    finally:
        w.generics.pop()


def equal_seg(w, x, y, what):
    if isinstance(x, One) and isinstance(y, One):
        return equal(w, x.v, y.v, what)
    if not (isinstance(x, Fam) and isinstance(y, Fam)):
        raise Unsupported("comparison of lists of different shape")
    if not w.valid(x.n == y.n):
        return failed(w, what, "a list of %s items where the specification has %s" % (x.n, y.n))
    I = w.generic()
    w.generics.append(I)
    base = len(w.pc)
    try:
        w.pc.append(z3.And(0 <= I, I < x.n))
        cx = z3.BoolVal(True) if x.cond is None else z3.substitute(x.cond, (x.i, I))
        cy = z3.BoolVal(True) if y.cond is None else z3.substitute(y.cond, (y.i, I))
        if not w.valid(cx == cy):
            r = w.check(w.pc + [cx != cy])
            m, exact = witness_model(w, [cx != cy])
            return Path("refuted" if r == "sat" else "unknown", what, "the items kept differ: %s, specified %s" % (cx, cy), m, exact)
        w.pc.append(cx)
        return equal(w, subst(x.value, [(x.i, I)]), subst(y.value, [(y.i, I)]), what)
    finally:
        del w.pc[base:]
        w.generics.pop()


# ------------------------------------------------------------------------------------ obligations

def element_fields(w, el):
    """(name, text, children, attributes) of a converted element."""
    el = w.ip.force(el)
    if isinstance(el, tuple):
        return el
    if not isinstance(el, VObj) or not isinstance(el.cls, type):
        raise Unsupported("the reader gives %r" % (el,))
    return tuple(w.ip.force(w.ip.getattr(el, n)) for n in ("name", "value", "children", "attributes"))


FIELDS = ("the name", "the text", "the children", "the attributes")


def reader_obligation(code, deadline=None):
    """[Outcome]: the reader of a list of elements computes spec.reader.read of each, and so does every function it
    recurses through."""
    out, todo, done = [], [("entry", None, "nodes")], {(code.Reader.convert, "nodes")}
    while todo:
        fn, pos, kind = todo.pop()
        if (fn, kind) in done:
            continue
        done.add((fn, kind))
        needed = []

        def build(fn=fn, pos=pos, kind=kind):
            w = DomEngine(code, 4000, deadline)
            w.root = None
            w.ip.hooks[code.reader_spec.child] = lambda ip, args, kwargs: OElem(V.f_M(ip.force(args[0]).e))

            def thunk():
                reader = w.ip.call(code.Reader, [], {})
                w.set_stamp(reader, 0)
                i = w.bound()
                j = w.generic()
                if kind == "nodes":
                    x = V.f_child(NODES, i)
                    subj = VList([Fam(V.f_nchild(NODES), i, V.f_ntype(x) == ELEMENT, ONode(x), ("subject", NODES))])
                else:
                    x = V.f_child(NODES, z3.IntVal(0))
                    w.pc.append(V.f_ntype(x) == ELEMENT)
                    subj = ONode(x)
                f = code.Reader.convert if fn == "entry" else fn
                got = w.ip.call(f, [reader, subj] if pos is None or pos == 1 else [subj], {})
                w.dom_needed = list(w.dom.needed)
                needed.extend(w.dom.needed)
                w.dom.needed[:] = []
                if kind == "node":
                    return compare_element(w, got, w.ip.call(code.reader_spec.read, [subj], {}))
                got = w.ip.force(got)
                if not isinstance(got, VList):
                    raise Unsupported("the reader returns %r" % (got,))
                segs = prune(w, got.segs)
                if len(segs) != 1 or not isinstance(segs[0], Fam):
                    raise Unsupported("shape of the result of the reader")
                s, t = segs[0], subj.segs[0]
                if not w.valid(s.n == t.n):
                    return failed(w, "list", "%s elements for %s nodes" % (s.n, t.n))
                I = w.generic()
                w.generics.append(I)
                base = len(w.pc)
                try:
                    w.pc.append(z3.And(0 <= I, I < s.n))
                    want = z3.substitute(t.cond, (t.i, I))
                    have = z3.BoolVal(True) if s.cond is None else z3.substitute(s.cond, (s.i, I))
                    if not w.valid(want == have):
                        return failed(w, "list", "not every element is converted")
                    w.pc.append(want)
                    el = subst(s.value, [(s.i, I)])
                    return compare_element(w, el, w.ip.call(code.reader_spec.read, [subst(t.value, [(t.i, I)])], {}))
                finally:
                    del w.pc[base:]
                    w.generics.pop()
            return w, thunk
        name = "reader" if fn == "entry" else "reader[%s]" % getattr(fn, "__qualname__", fn)
        out.append(obligation("%s: %s" % (name, "a list of elements" if kind == "nodes" else "an element"), build, deadline=deadline))
        todo.extend(needed)
    return out


def compare_element(w, got, want):
    if w.effects:
        raise Unsupported("effects while reading")
    for what, a, b in zip(FIELDS, element_fields(w, got), want):
        r = equal(w, a, b, what)
        if r.status != "proved":
            return r
    return Path("proved", "value")


# ------------------------------------------------------------------------------------ documents

XML = z3.Const("xml", Str)
f_UTF8 = z3.Function("encodable", Str, V.Bool)


def document_text(w, code, nodes):
    """The specification: the renderings of the math elements, in document order, without surrounding white space."""
    parts = w.ip.m.as_list(nodes)
    out = [Fam(s.n, s.i, s.cond, OElem(V.f_M(s.value.e)), s.origin) for s in parts.segs]
    r = w.ip.call(code.document_spec.document, [VList(out)], {})
    return r


def document_obligation(code, deadline=None):
    """(Outcome, pipeline): MathMLToLaTeX.convert of an arbitrary string."""
    found = {}

    def build():
        w = DomEngine(code, 4000, deadline)
        w.root = None
        w.root_tag = None

        def reader(ip, args, kwargs):
            lst = ip.force(args[1] if len(args) > 1 else list(kwargs.values())[0])
            if not isinstance(lst, VList):
                raise Unsupported("reader called on %r" % (lst,))
            out = []
            for s in lst.segs:
                if isinstance(s, One):
                    n = ip.force(s.v)
                    if not isinstance(n, ONode) or not w.valid(V.f_ntype(n.e) == ELEMENT):
                        raise Unsupported("reader called on something else than elements")
                    out.append(One(OElem(V.f_M(n.e))))
                elif isinstance(s, Fam) and isinstance(s.value, ONode):
                    I = w.generic()
                    w.generics.append(I)
                    facts = [z3.And(0 <= I, I < s.n)] + ([z3.substitute(s.cond, (s.i, I))] if s.cond is not None else [])
                    good = w.valid(V.f_ntype(subst(s.value, [(s.i, I)]).e) == ELEMENT, facts)
                    w.generics.pop()
                    if not good:
                        raise Unsupported("reader called on something else than elements")
                    out.append(Fam(s.n, s.i, s.cond, OElem(V.f_M(s.value.e)), s.origin))
                else:
                    raise Unsupported("reader called on something else than elements")
            return VList(out)

        def fix(ip, args, kwargs):
            full = list(args[1:]) + [kwargs[k] for k in kwargs]
            if len(full) != 2:
                raise Unsupported("contract of the error handler")
            x = ip.force(full[0])
            if not isinstance(x, (str, SStr)):
                raise Unsupported("contract of the error handler")
            w.push(w.log, ("fix", zs(x), full[1]))
            return SStr((z3.Const("fixed!%d" % sum(e[0] == "fix" for e in w.log), Str),))
        w.ip.hooks[code.Reader.convert] = reader
        w.ip.hooks[code.Handler.fix_error] = fix

        def thunk():
            log0 = len(w.log)
            out = None
            try:
                out = ("val", w.ip.call(code.converter_mod.MathMLToLaTeX.convert, [SStr((XML,))], {}))
            except PyExc as e:
                out = ("exc", e.val)
            log = w.log[log0:]
            parses = [e[1] for e in log if e[0] == "parse"]
            if not parses:
                return failed(w, "wellformed", "the document is never parsed")
            found.setdefault("first", parses[0])
            if not found["first"].eq(parses[0]):
                raise Unsupported("what is parsed depends on the input in several ways")
            found["rewritings"] = w.rewritings
            last = parses[-1]
            ok = w.valid(V.f_WF(last))
            kind = "wellformed" if ok and len(parses) == 1 else "repaired" if ok else "malformed"
            if len(parses) > 5:
                return failed(w, kind, "%d parses" % len(parses))
            for e in log:
                if e[0] == "fix":
                    if kind == "wellformed":
                        return failed(w, kind, "a well-formed document is repaired")
            # the repair sees only what was parsed, and every parse after the first sees only what the repair returned
            cur = 0
            fixes = [e for e in log if e[0] == "fix"]
            for k, e in enumerate(fixes):
                if not any(e[1].eq(p) for p in parses):
                    raise Unsupported("the repair is given something else than what was parsed")
            for p in parses[1:]:
                if not (z3.is_const(p) and str(p).startswith("fixed!")):
                    raise Unsupported("after a repair something else than the repaired text is parsed")
            if not ok:
                if out[0] == "exc" and isinstance(out[1], VObj) and isinstance(out[1].cls, type) and issubclass(out[1].cls, ExpatError):
                    if len(parses) < 5 and not (fixes and w.valid(z3.Const("fixed!%d" % len(fixes), Str) == fixes[-1][1])):
                        raise Unsupported("the error is raised after %d parses, and the last repair was not tried" % len(parses))
                    return Path("proved", kind)
                return failed(w, kind, "%s where a parse error is specified" % ("returns %r" % (out[1],) if out[0] == "val" else "raises %r" % (out[1],)))
            x = last
            i = w.bound()
            t = zstr("math")
            nodes = VList([Fam(V.f_nmath(V.f_dom(x), t), i, None, ONode(V.f_math(V.f_dom(x), t, i)), ("byTagName", V.f_dom(x)))])

            def real():
                if out[0] == "exc":
                    raise PyExc(out[1])
                return out[1]
            from .obligations import run_pair
            r = run_pair(w, real, lambda: document_text(w, code, nodes), code.Arity, code.spec.ArityError)
            return Path(r.status, kind + ": " + r.kind if r.status != "proved" else kind, r.detail, r.model, r.exact)
        return w, thunk
    o = obligation("document: every string", build, deadline=deadline)
    return o, found


def pipeline_of(term, rewritings):
    """[(kind, pattern, replacement, flags)] that the parsed text applies to the input, first step first."""
    ops = []
    while not term.eq(XML):
        nm = term.decl().name()
        if nm not in rewritings or term.num_args() != 1:
            raise Unsupported("what is parsed is not a rewriting of the input: %s" % nm)
        ops.append(rewritings[nm])
        term = term.arg(0)
    return ops[::-1]


def rewriting_obligations(code, found, which=None):
    """[Outcome] about the text that is parsed, as a function of the input."""
    from . import transducer as T
    from .obligations import Outcome
    import time
    out = []
    if "first" not in found:
        o = Outcome("rewriting: of the input")
        o.error = "unsupported: the document obligation gave no parsed text"
        return [o]

    def one(name, fn):
        o = Outcome(name)
        t0 = time.monotonic()
        try:
            d = fn()
            if d is None:
                o.paths.append(Path("proved", "rewriting"))
            else:
                o.paths.append(Path("refuted", "rewriting", "differs on %a" % d, {"text": d}, True))
        except Unsupported as e:
            o.error = "unsupported: %s" % (e,)
        o.wall = time.monotonic() - t0
        out.append(o)
    state = {}

    def prepare():
        if "t" not in state:
            ops = pipeline_of(found["first"], found["rewritings"])
            a = T.Alphabet([ops], "\n\r <>ml:/!?")
            state["sigma"], state["t"] = a.sigma, T.pipeline(ops, a.sigma)
            state["spec"] = T.Compose(T.Breaks(), T.Prefixes())
            if not T.functional(state["t"], T.Everything(), a.sigma):
                raise Unsupported("the model of the rewriting is not a function")
        return state["t"], state["sigma"]

    def as_specified():
        t, sigma = prepare()
        return T.difference(t, state["spec"], T.Tagged(), sigma)

    def breaks(b):
        def f():
            t, sigma = prepare()
            return T.difference(T.Compose(T.Inject(b), t), t, T.NoBreaks(), sigma)
        return f

    def prefixes():
        t, sigma = prepare()
        return T.difference(T.Compose(T.AddPrefix(), t), t, T.Tagged(), sigma)
    def one_line():
        t, sigma = prepare()
        return T.difference(T.Compose(t, T.Breaks()), t, T.Everything(), sigma)
    if which == "one line":
        one("rewriting: what is parsed has no line break", one_line)
        return out
    one("rewriting: as specified on text and tags", as_specified)
    if which == "specified":
        return out
    for nm, b in (("LF", "\n"), ("CR", "\r"), ("CR LF", "\r\n")):
        one("rewriting: neutral to %s for spaces" % nm, breaks(b))
    one("rewriting: neutral to the mml: prefix on every tag", prefixes)
    return out
