"""Contracts: what is known about an element, a converter, a DOM node; and the inference (with proof) of contracts of
recursive functions.

Contract of the converter of an element e that is not the one being verified (the induction hypothesis):
    pre   inner(e) iff another table encloses e, and then every outermost mtable at or below e carries the mark
    post  OK(e): returns R(e, inner);  not OK(e): raises InvalidNumberOfChildrenError with message ERR(e)
The verified statement for every root r is: the code for r computes spec.render(r, inner) under these hypotheses."""
import importlib
import os
import sys
import types

import z3

from . import rx
from . import values as V
from .engine import VWorld, legal_name
from .interp import Interp
from .values import (Elem, DNode, Str, Int, Bool, SStr, SInt, SBool, OElem, ONode, OAttrs, OAttr, OConv, VIte, One, Fam, Prefix,
                     RunFam, VList, VDict, VObj, VBound, VClass, Unsupported, PyExc, mkstr, zs, zstr, from_z3, subst, same_value,
                     mentions_const, f_kid, f_nkids, f_name)
from .world import Budget

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Code:
    """The modules of the tree under test and the entry points the contracts hang on."""

    def __init__(self):
        from search import real
        self.real = real
        self.adapter_mod = real.module("el_to_tex.adapter")
        self.protocols = real.module("el_to_tex.protocols")
        self.converter_mod = real.module("converter")
        self.reader_mod = real.module("xml_to_mathml.services.xml_elements_to_mathml_element")
        self.xml_mod = real.module("xml_to_mathml.adapter")
        self.factory_mod = real.module("xml_to_mathml.factory")
        self.handler_mod = real.module("xml_to_mathml.services.error_handler")
        self.Adapter = self.adapter_mod.MathMLElementToLatexConverterAdapter
        self.Element = self.protocols.GenericMathMLElement
        self.Arity = self.protocols.InvalidNumberOfChildrenError
        try:
            self.MI = type(self.Adapter().to_latex_converter(self.Element("mi", "x", [], {})))
        except Exception:  # noqa: B902
            self.MI = None
        self.IdentElement = getattr(self.protocols, "MIMathMlElement", self.Element)
        sys.path.insert(0, HERE)
        self.spec = importlib.import_module("spec.render")
        self.reader_spec = importlib.import_module("spec.reader")
        self.document_spec = importlib.import_module("spec.document")
        self.Handler = getattr(self.handler_mod, "ErrorHandler", None)
        self.Reader = getattr(self.reader_mod, "ElementsToMathMLAdapter", None)


ROOT = z3.Const("r", Elem)
f_IDENT = z3.Function("IDENT", Str, Str)


class TokenConverter:
    """The identifier converter of an element without attributes, of which only the contract is used: it returns
    IDENT(text), which is what the specification calls lone_character(text)."""

    def convert(self):
        raise NotImplementedError


def elem_of(fam):
    """The Elem term of a family of opaque elements, and the element whose children it enumerates (or None)."""
    v = fam.value
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], OElem):
        v = v[1]
    if not isinstance(v, OElem):
        return None, None
    e = v.e
    if z3.is_app(e) and e.decl().name() == "kid" and e.arg(1).eq(fam.i) and not mentions_const(e.arg(0), fam.i):
        return e, e.arg(0)
    return e, None


def subterms(e):
    out, seen, stack = [], set(), [e]
    while stack:
        t = stack.pop()
        if t.get_id() not in seen and z3.is_app(t):
            seen.add(t.get_id())
            out.append(t)
            stack.extend(t.children())
    return out


class Engine(VWorld):
    """World plus contracts."""

    def children_of(self, fam):
        """The element of which the family enumerates all children, or None."""
        e, x = elem_of(fam)
        return x if x is not None and self.valid(fam.n == f_nkids(x)) else None

    def fold(self, kind, n, i, body, extra=None):
        if kind == "ANY" and z3.is_app(n) and n.decl().name() == "ndesc":
            t = z3.simplify(body)
            e = V.f_desc(n.arg(0), i)
            if z3.is_eq(t) and mentions_const(t, i):
                for a, b in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                    if a.eq(f_name(e)) and not mentions_const(b, i):
                        return V.f_D(n.arg(0), b)
        if kind == "ANY" and z3.is_app(n) and n.decl().name() == "nkids":
            # an element is strictly below x when it is a child of x or strictly below a child
            x = n.arg(0)
            k = f_kid(x, i)
            for d in subterms(body):
                if d.decl().name() == "D" and d.arg(0).eq(k) and not mentions_const(d.arg(1), i):
                    want = z3.Or(f_name(k) == d.arg(1), d)
                    if self.valid_at(body == want, n, i):
                        return V.f_D(x, d.arg(1))
        return VWorld.fold(self, kind, n, i, body, extra)

    def __init__(self, code, timeout_ms=4000, deadline=None):
        self.code = code
        self.infer_cache = {}
        self.contracts_used = {}       # name -> how discharged
        self.assume_recursion = None   # template under inference
        VWorld.__init__(self, timeout_ms, deadline)
        self.ip = Interp(self, [os.path.join(code.real.SRC), os.path.join(HERE, "spec")])
        self.ip.elem_class = code.Element
        self.recursive_call = self.recursion_contract
        ip = self.ip
        ip.hooks[code.Adapter.to_latex_converter] = self.hook_converter
        ip.hooks[code.spec.render] = self.hook_render
        self.ident_contract = True
        self.elem_vars = []
        if code.MI is not None:
            ip.hooks[code.MI] = self.hook_identifier
        ip.hooks[TokenConverter.convert] = lambda ip, args, kwargs: SStr((f_IDENT(zs(ip.force(args[0]).fields["text"])),))
        ip.hooks[code.spec.lone_character] = self.hook_lone
        self.adapter0 = None

    def reset(self):
        VWorld.reset(self)
        self.adapter0 = None

    # ------------------------------------------------------------------ the root
    def make_root(self, tag, r=ROOT, value=None, name=None, count=None):
        """The real element object with opaque children and attributes; with exactly `count` children when it is given."""
        i = self.bound()
        if count is None:
            kids = VList([Fam(f_nkids(r), i, None, OElem(f_kid(r, i)), ("children", r))])
        else:
            kids = VList.of([OElem(f_kid(r, z3.IntVal(j))) for j in range(count)])
            self.pc.append(f_nkids(r) == count)
        attrs = VDict(base=r)
        kids.stamp = attrs.stamp = 0
        self.root, self.root_tag = r, tag
        val = SStr((V.f_value(r),)) if value is None else value
        nm = tag if name is None else name
        el = self.ip.call(self.code.Element, [], {"name": nm, "value": val, "children": kids, "attributes": attrs})
        self.set_stamp(el, 0)
        if isinstance(nm, str):
            self.pc.append(f_name(r) == zstr(nm))
        return el

    def set_stamp(self, o, s):
        if isinstance(o, VObj):
            o.stamp = s
            for x in o.fields.values():
                if isinstance(x, (VObj, VList, VDict)):
                    self.set_stamp(x, s)
        elif isinstance(o, (VList, VDict)):
            o.stamp = s

    def new_adapter(self):
        a = self.ip.call(self.code.Adapter, [], {})
        self.set_stamp(a, 0)
        self.adapter0 = V.copy_value(a) if isinstance(a, VObj) else a
        return a

    def check_adapter(self, a):
        if not isinstance(a, VObj) or a.cls is not self.code.Adapter:
            raise Unsupported("another adapter")
        if self.adapter0 is None or not same_value(a, self.adapter0):
            if a.fields:
                raise Unsupported("the adapter has state")

    # ------------------------------------------------------------------ hooks
    def hook_converter(self, ip, args, kwargs):
        if kwargs and set(kwargs) != {"mathml_element"}:
            raise Unsupported("contract of to_latex_converter")
        el = ip.force(args[1] if len(args) > 1 else kwargs.get("mathml_element"))
        if isinstance(el, OElem):
            if len(args) > 2:
                raise Unsupported("contract of to_latex_converter")
            self.check_adapter(ip.force(args[0]))
            return OConv(el.e, self.inner_of(el.e))
        return NotImplemented

    def hook_render(self, ip, args, kwargs):
        el = ip.force(args[0])
        if isinstance(el, OElem):
            return self.rendered(el.e, args[1], self.code.spec.ArityError)
        return NotImplemented

    def hook_identifier(self, ip, args, kwargs):
        """MI(e) for an element e without children and attributes and with a symbolic text."""
        if not self.ident_contract or len(args) != 1 or kwargs:
            return NotImplemented
        e = ip.force(args[0])
        if not isinstance(e, VObj) or e.cls is not self.code.IdentElement or ip.force(ip.getattr(e, "name")) != "mi":
            return NotImplemented
        v = ip.force(ip.getattr(e, "value"))
        if not isinstance(v, SStr) or self.const_of(v) is not None:
            return NotImplemented
        a, c = ip.force(ip.getattr(e, "attributes")), ip.force(ip.getattr(e, "children"))
        if isinstance(a, VDict) and a.base is None and not a.items and not a.fams and isinstance(c, VList) and not c.segs:
            return VObj(TokenConverter, {"text": v})
        return NotImplemented

    def hook_lone(self, ip, args, kwargs):
        s = ip.force(args[0])
        if self.ident_contract and isinstance(s, SStr) and self.const_of(s) is None:
            return SStr((f_IDENT(zs(s)),))
        return NotImplemented

    def contract_convert(self, ip, o):
        if self.inner_of(o.elem) != o.inner:
            raise Unsupported("marks changed between construction and conversion")
        return self.rendered(o.elem, o.inner, self.code.Arity)

    def rendered(self, e, inner, exc):
        if not isinstance(inner, bool):
            raise Unsupported("symbolic inner")
        if self.decide(V.f_OK(e)):
            return mkstr([V.f_R(e, z3.BoolVal(inner))])
        x = VObj(exc, {"args": (mkstr([V.f_ERR(e)]),)})
        x.fields["child"] = OElem(e)
        raise PyExc(x)

    # ------------------------------------------------------------------ marks
    def below_marked(self, x):
        return any(f[0] == "below" and f[1].eq(x) for f in self.effects)

    def inner_of(self, e):
        """Whether a table encloses e, by the marks established so far.  e is below the root."""
        if z3.is_app(e) and e.decl().name() == "kid":
            p = e.arg(0)
            if p.eq(self.root) or self.root is None:
                if self.root_tag == "mtable":
                    if self.below_marked(p):
                        return True
                    if not self.feasible():
                        return True
                    raise Unsupported("child of a table converted before the nested tables are marked")
                return self.root_inner
            up = self.inner_of(p)
            if up or self.valid(f_name(p) != zstr("mtable")):
                return up
            raise Unsupported("grandchild converted")
        if z3.is_app(e) and e.decl().name() == "M":
            return False
        if self.root is not None and e.eq(self.root):
            return self.root_inner
        raise Unsupported("converter of an element that is not below the root")

    def is_own(self, base):
        return self.root is not None and base.eq(self.root)

    def attr_present(self, base, k):
        kk = k if isinstance(k, str) else self.const_of(k)
        if kk is not None and not legal_name(kk):
            if not self.is_own(base):
                raise Unsupported("mark of another element")
            if self.root_tag != "mtable" or self.mark is None or kk != self.mark[0]:
                return z3.BoolVal(False)
            return z3.BoolVal(self.root_inner)
        if kk is not None and self.mark is not None and kk == self.mark[0]:
            raise Unsupported("the mark can be written in a document")
        return V.f_has(base, zs(k))

    def attr_value(self, base, k):
        kk = k if isinstance(k, str) else self.const_of(k)
        if kk is not None and not legal_name(kk):
            return self.mark[1]
        return mkstr([V.f_attr(base, zs(k))])

    def any_attr(self, base):
        if self.is_own(base) and self.root_tag == "mtable" and self.root_inner and self.mark is not None:
            return z3.BoolVal(True)
        if not self.is_own(base) and self.root_tag not in (None,) and not self.valid(f_name(base) != zstr("mtable")):
            raise Unsupported("truth of the attributes of an element that may be marked")
        return V.f_anyattr(base)

    def attr_write(self, d, k, v):
        """True when the write is an effect on an opaque element (and is recorded as such)."""
        if d.stamp != 0:
            return False           # a copy
        if not isinstance(v, (str, bool, int)):
            raise Unsupported("attribute written")
        if self.is_own(d.base):
            raise Unsupported("attribute of the element itself written")
        if legal_name(k):
            raise Unsupported("attribute %s of another element written" % k)
        if not v:
            raise Unsupported("mark without truth")
        self.push(self.effects, ("mark", d.base, k, v))
        return True

    def forall_effects(self, fam, I, res):
        """Aggregate the effects of an iteration over all children of an element."""
        if not any(r[2] for r in res):
            return
        e, x = elem_of(fam)
        everything = e is not None and z3.is_app(e) and e.decl().name() == "desc" and fam.n.eq(V.f_ndesc(e.arg(0))) and fam.cond is None
        if everything:
            x = e.arg(0)
        elif e is None or x is None or fam.cond is not None or not self.valid(fam.n == f_nkids(x)):
            raise Unsupported("effects in a loop over something else than all children")
        eI = z3.substitute(e, (fam.i, I))
        N = zstr("mtable")
        keys = set()
        self.generics.append(I)
        try:
            for guards, _o, effects, *_ in res:
                at = below = direct = False
                for f in effects:
                    if not f[1].eq(eI):
                        raise Unsupported("effect on another element")
                    keys.add((f[2], f[3]))
                    if f[0] == "mark":
                        direct = True
                    elif f[0] == "below":
                        below = True
                    elif f[0] == "at":
                        at = True
                rng = [z3.And(0 <= I, I < fam.n)] + list(guards)
                is_t = f_name(eI) == N
                if not (at or direct) and not self.valid(z3.Not(is_t), rng):
                    raise Unsupported("a table below a table may stay without its mark")
                if direct and not self.valid(is_t, rng):
                    raise Unsupported("an element that is not a table is marked")
                if everything and (at or below):
                    raise Unsupported("elements below are marked again")
                if not (at or below or everything) and not self.valid(z3.Or(is_t, z3.Not(V.f_D(eI, N))), rng):
                    raise Unsupported("tables further down may stay without their mark")
        finally:
            self.generics.pop()
        if len(keys) != 1:
            raise Unsupported("several marks")
        k, v = keys.pop()
        self.push(self.effects, ("below", x, k, v))

    # ------------------------------------------------------------------ recursion
    def recursion_contract(self, ip, fn, name, args, kwargs):
        """Contract of a recursive call.  The contract is inferred from a template and proved by running the body of
        the function once on a generic argument with the contract assumed for the inner calls."""
        vals = list(args) + [kwargs[k] for k in sorted(kwargs)]
        subject = [(k, v) for k, v in enumerate(vals) if self.subject(v) is not None]
        if len(subject) != 1:
            return NotImplemented
        pos, sv = subject[0]
        kind, x = self.subject(sv)
        rest = []
        for k, v in enumerate(vals):
            if k == pos:
                continue
            if isinstance(v, (str, bool, int, type(None))):
                rest.append(v)
            elif isinstance(v, VObj) or v is self.ip.stack:
                rest.append("self")
            else:
                return NotImplemented
        if kind in ("node", "nodes"):
            return self.dom_recursion(fn, pos, kind, x)
        key = (fn, pos, kind, tuple(rest), tuple(sorted(kwargs)))
        t = self.template(key, fn, name, args, kwargs, pos, kind, rest)
        return self.apply_template(t, x, rest)

    def subject(self, v):
        """("elem", e) or ("list", e): the element or the list of the children of e; ("node", n), ("nodes", list)."""
        if isinstance(v, OElem):
            return ("elem", v.e)
        if isinstance(v, ONode):
            return ("node", v.e)
        if isinstance(v, VList) and len(v.segs) == 1 and isinstance(v.segs[0], Fam):
            s = v.segs[0]
            e, x = elem_of(s)
            if x is not None and s.cond is None and s.n.eq(f_nkids(x)):
                return ("list", x)
            if isinstance(s.value, ONode):
                return ("nodes", s)
        return None

    def names_for(self, rest):
        strs = [s for s in rest if isinstance(s, str) and s != "self"]
        return [s for s in strs if legal_name(s)] + ["mtable"]

    def template(self, key, fn, name, args, kwargs, pos, kind, rest):
        hyp = self.assume_recursion
        if hyp is not None and hyp[0] == key:
            return hyp[1]
        if key in self.infer_cache:
            t = self.infer_cache[key]
            if t is None:
                raise Unsupported("no contract for the recursion of %s" % name)
            return t
        cands = []
        for n in dict.fromkeys(self.names_for(rest)):
            cands.append(("bool", n, False))
            if kind == "elem":
                cands.append(("bool", n, True))
        illegal = [s for s in rest if isinstance(s, str) and not legal_name(s)] or [None]
        for k in illegal:
            cands.append(("mark", k, False))
            if kind == "elem":
                cands.append(("mark", k, True))
        found = None
        for t in cands:
            try:
                if self.verify_template(t, key, fn, args, kwargs, pos, kind):
                    found = t if t[0] == "bool" else self._resolved
                    break
            except Unsupported:
                continue
        self.infer_cache[key] = found
        if found is None:
            raise Unsupported("no contract for the recursion of %s" % name)
        self.contracts_used["%s: %s" % (name, self.describe(found, kind))] = "proved by induction"
        return found

    @staticmethod
    def describe(t, kind):
        what = "the element" if kind == "elem" else "the elements of the list"
        if t[0] == "bool":
            return "true exactly when an element named %s occurs %s %s" % (t[1], "at or below" if t[2] or kind == "list" else "strictly below", what)
        return "marks the mtable elements %s %s with %r" % ("at or below" if t[2] or kind == "list" else "below", what, t[1])

    def apply_template(self, t, x, rest):
        if t[0] == "bool":
            d = V.f_D(x, zstr(t[1]))
            return from_z3(z3.Or(f_name(x) == zstr(t[1]), d)) if t[2] else SBool(d)
        self.push(self.effects, ("at" if t[2] else "below", x, t[1], t[3] if len(t) > 3 else t[1]))
        return None

    def verify_template(self, t, key, fn, args, kwargs, pos, kind):
        """Run the body on a generic element x (or its children) with the contract assumed inside."""
        sub = Engine(self.code, self.timeout, self.deadline)
        sub.ip.used = self.ip.used
        sub.infer_cache = self.infer_cache
        sub.root_tag = None
        sub.root = None
        sub.mark = self.mark
        x = z3.Const("x", Elem)
        marks = [None]
        if t[0] == "mark":
            k = t[1] if t[1] is not None else "#mark"
            t = ("mark", k, t[2], k)
        sub.assume_recursion = (key, t)
        ok = [True]

        def thunk():
            i = sub.bound()
            subj = OElem(x) if kind == "elem" else sub.ip.elem_attr(OElem(x), "children")
            vals = []
            names = sorted(kwargs)
            full = list(args) + [kwargs[n] for n in names]
            for j, v in enumerate(full):
                if j == pos:
                    vals.append(subj)
                elif isinstance(v, VObj):
                    o = VObj(v.cls, {})
                    o.stamp = 0
                    vals.append(o)
                else:
                    vals.append(v)
            n = len(args)
            r = sub.ip.call(fn, vals[:n], dict(zip(names, vals[n:])))
            if t[0] == "bool":
                if sub.effects:
                    return False
                b = sub.ip.m.as_cond(r) if not isinstance(r, bool) else z3.BoolVal(r)
                unfold = sub.fold("ANY", f_nkids(x), i, z3.Or(f_name(f_kid(x, i)) == zstr(t[1]), V.f_D(f_kid(x, i), zstr(t[1]))))
                want = z3.Or(f_name(x) == zstr(t[1]), unfold) if t[2] else unfold
                return sub.valid(b == want)
            # marks
            if r is not None and not isinstance(r, (bool, VList)):
                return False
            eff = [f for f in sub.effects]
            atself = any(f[0] in ("mark",) and f[1].eq(x) for f in eff)
            below = any(f[0] == "below" and f[1].eq(x) for f in eff)
            if any(not f[1].eq(x) for f in eff):
                return False
            for f in eff:
                marks[0] = (f[2], f[3])
                if (f[2], f[3]) != (t[1], t[3]) and f[2] != t[1]:
                    return False
            if not below and not sub.valid(f_nkids(x) <= 0):
                return False
            if t[2]:
                is_t = f_name(x) == zstr("mtable")
                if not atself and not sub.valid(z3.Not(is_t)):
                    return False
                if atself and not sub.valid(is_t):
                    return False
            elif atself:
                return False
            return True
        res = sub.explore(thunk)
        good = bool(res) and all(o[0] == "val" and o[1] is True for _g, o, *_ in res)
        if good and t[0] == "mark":
            self._resolved = ("mark", marks[0][0] if marks[0] else t[1], t[2], marks[0][1] if marks[0] else t[3])
            if self._resolved[3] != t[3] or self._resolved[0:2] != t[0:2]:
                # the value written is not the key: prove again with the right value
                pass
        return good and ok[0]

    # ------------------------------------------------------------------ DOM
    def dom_recursion(self, fn, pos, kind, x):
        if self.dom is None:
            return NotImplemented
        return self.dom.recursion(fn, pos, kind, x)

    def dom_attr(self, ip, o, name):
        if self.dom is None:
            raise Unsupported("DOM")
        return self.dom.attr(ip, o, name)

    def dom_method(self, ip, o, name, args, kwargs):
        if self.dom is None:
            raise Unsupported("DOM")
        return self.dom.method(ip, o, name, args, kwargs)

    def node_isinstance(self, v, t):
        raise Unsupported("isinstance of a DOM node")
