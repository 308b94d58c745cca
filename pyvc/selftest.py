"""The evaluator against CPython: functions are evaluated with symbolic arguments, and every path's condition and result
is then computed for concrete arguments and compared with what CPython returns or raises.

    python3-vt -m pyvc.selftest [programs] [seed]"""
import importlib.util
import multiprocessing.connection
import os
import random
import re
import shutil
import sys
import tempfile
import warnings

import z3

from . import values as V
from .contracts import Engine
from .values import SStr, SInt, SBool, VIte, One, Fam, VList, VDict, VSet, VIter, VObj, Unsupported, PyExc, from_z3

f_ITEM = z3.Function("selftest_item", V.Str, V.Int, V.Str)
f_LEN = z3.Function("selftest_len", V.Str, V.Int)


class Unknown(Exception):
    pass


# ------------------------------------------------------------------------------------ concrete values of terms

class Evaluator:
    def __init__(self, w, env, lists):
        self.w, self.env, self.lists, self.memo = w, env, lists, {}

    def lit(self, x):
        if isinstance(x, bool):
            return z3.BoolVal(x)
        return z3.IntVal(x) if isinstance(x, int) else V.zstr(x)

    def value(self, t):
        k = t.get_id()
        if k not in self.memo:
            self.memo[k] = (self.compute(t), t)
        return self.memo[k][0]

    def element(self, nm, args):
        """What the functions on elements denote for a real element."""
        e = args[0]
        if nm == "name":
            return e.name
        if nm == "value":
            return e.value
        if nm == "nkids":
            return len(e.children)
        if nm == "kid":
            if not 0 <= args[1] < len(e.children):
                raise Unknown("child out of range")
            return e.children[args[1]]
        if nm == "has":
            return args[1] in e.attributes
        if nm == "attr":
            if args[1] not in e.attributes:
                raise Unknown("no such attribute")
            return e.attributes[args[1]]
        if nm == "anyattr":
            return bool(e.attributes)
        below = list(descendants(e))
        if nm == "ndesc":
            return len(below)
        if nm == "desc":
            if not 0 <= args[1] < len(below):
                raise Unknown("descendant out of range")
            return below[args[1]]
        if nm == "D":
            return any(x.name == args[1] for x in below)
        raise Unknown(nm)

    def compute(self, t):
        if t.sort() == V.Elem and z3.is_const(t):
            return self.env[t.decl().name()] if t.decl().name() in self.env else self.no(t)
        if z3.is_eq(t) and t.arg(0).sort() == V.Elem:
            raise Unknown("equality of elements")
        if z3.is_true(t) or z3.is_false(t):
            return z3.is_true(t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_string_value(t):
            return V.const_str(t)
        d = t.decl()
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return self.value(t.arg(1 if self.value(t.arg(0)) else 2))
        if z3.is_and(t):
            return all(self.value(x) for x in t.children())
        if z3.is_or(t):
            return any(self.value(x) for x in t.children())
        if z3.is_implies(t):
            return not self.value(t.arg(0)) or self.value(t.arg(1))
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            return self.function(t, d.name())
        if z3.is_app_of(t, z3.Z3_OP_SEQ_IN_RE):
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(z3.InRe(self.lit(self.value(t.arg(0))), t.arg(1)))
            r = s.check()
            if r == z3.unknown:
                raise Unknown("membership")
            return r == z3.sat
        args = [self.lit(self.value(x)) for x in t.children()]
        r = z3.simplify(d(*args))
        if r.num_args() and not z3.is_int_value(r) and not z3.is_string_value(r):
            raise Unknown(str(r)[:60])
        return self.compute(r)

    def no(self, t):
        raise Unknown(str(t)[:60])

    def function(self, t, nm):
        if t.num_args() == 0 and nm in self.env:
            return self.env[nm]
        if nm in self.w.fold_by_decl:
            return self.fold(self.w.fold_by_decl[nm], t.children())
        if nm.startswith("first!"):
            for k, _a, n, i, g in self.w.firsts.values():
                if k.decl().name() == nm:
                    pairs = list(zip(k.children(), t.children()))
                    for j in range(min(self.value(z3.substitute(n, *pairs)), 60)):
                        if self.value(z3.substitute(z3.substitute(g, (i, z3.IntVal(j))), *pairs)):
                            return j
                    raise Unknown("no first index")
            raise Unknown(nm)
        args = [self.value(x) for x in t.children()]
        if t.num_args() and t.arg(0).sort() == V.Elem:
            return self.element(nm, args)
        if nm == "selftest_item":
            x = self.lists[args[0]]
            if not 0 <= args[1] < len(x):
                raise Unknown("item out of range")
            return x[args[1]]
        if nm == "selftest_len":
            return len(self.lists[args[0]])
        if nm == "char":
            if not 0 <= args[1] < len(args[0]):
                raise Unknown("character out of range")
            return args[0][args[1]]
        if nm == "NORM":
            return " ".join(args[0].split())
        if nm == "STRIP":
            return args[0].strip()
        if nm == "WSUB":
            return re.sub(r"\s+", " ", args[0])
        if nm == "nwords":
            return len(args[0].split())
        if nm == "word":
            return args[0].split()[args[1]]
        if nm in self.w.rewritings:
            kind, pat, repl, flags = self.w.rewritings[nm]
            return args[0].replace(pat, repl) if kind == "replace" else re.sub(pat, repl, args[0], flags=flags)
        raise Unknown(nm)

    def indices(self, f, args):
        n, _b = f.inst(args)
        k = self.value(n)
        if k > 60:
            raise Unknown("long fold")
        return range(max(k, 0))

    def fold(self, f, args):
        items = [f.at(args, z3.IntVal(j)) for j in self.indices(f, args)]
        if f.kind == "CONCAT":
            return "".join(self.value(x) for x in items)
        if f.kind == "ANY":
            return any([self.value(x) for x in items])
        if f.kind == "COUNT":
            return sum([bool(self.value(x)) for x in items])
        if f.kind == "JOINF":
            xs = [self.value(x) for x in items]
            return f.extra.join(x[1:] for x in xs if x[0] == "+")
        raise Unknown("fold " + f.kind)

    # ------------------------------------------------------------------ values of the evaluator
    def concrete(self, v):
        if v is None or isinstance(v, (str, int, float)):
            return v
        if isinstance(v, SStr):
            return "".join(p if isinstance(p, str) else self.value(p) for p in v.parts)
        if isinstance(v, (SInt, SBool)):
            return self.value(v.e)
        if isinstance(v, VIte):
            return self.concrete(v.a if self.value(v.g) else v.b)
        if isinstance(v, tuple):
            return tuple(self.concrete(x) for x in v)
        if isinstance(v, VList):
            if v.kind == "view":
                raise Unknown("view")
            return (tuple if v.kind == "tuple" else list)(self.items(v.segs))
        if isinstance(v, list):
            return [self.concrete(x) for x in v]
        if isinstance(v, VDict) and v.base is None:
            d = {self.concrete(k): self.concrete(x) for k, x in v.items.items()}
            d.update(self.items(v.fams))
            return d
        if isinstance(v, VSet):
            return {self.concrete(x) for x in v.vals}
        if isinstance(v, (set, frozenset)):
            return set(v)
        raise Unknown(type(v).__name__)

    def items(self, segs):
        out = []
        for s in segs:
            if isinstance(s, One):
                out.append(self.concrete(s.v))
            elif type(s) is Fam:
                n = self.value(s.n)
                if n > 60:
                    raise Unknown("long family")
                for j in range(max(n, 0)):
                    J = [(s.i, z3.IntVal(j))]
                    if s.cond is None or self.value(z3.substitute(s.cond, *J)):
                        out.append(self.concrete(V.subst(s.value, J)))
            else:
                raise Unknown(type(s).__name__)
        return out


def descendants(e):
    for c in e.children:
        yield c
        yield from descendants(c)


# ------------------------------------------------------------------------------------ one function

def elements():
    """Elements of the package's own class."""
    import xml.dom.minidom
    from . import properties as P
    make = P.code().Element
    docs = ["<math/>", "<math><mi>x</mi></math>", "<math><mi> x </mi><mo>(</mo><mn>12</mn></math>", "<math k='a'><mrow><mi k=''>a</mi></mrow><mi/></math>",
            "<math><mfrac><mi>a</mi><mrow><mo/><mo>b</mo></mrow></mfrac></math>", "<math b='' k=' '>ab</math>",
            "<math><mo>(</mo><mi k='x' b='y'>a b</mi><mo>)</mo><mtext>  </mtext><mi>b</mi></math>",
            "<math><mtable><mtr><mtd><mtable><mtr><mtd><mi>a</mi></mtd></mtr></mtable></mtd><mtd/></mtr><mtr/></mtable></math>"]

    def read(n):
        kids = [c for c in n.childNodes if c.nodeType == n.ELEMENT_NODE]
        text = "" if kids else "".join(c.nodeValue for c in n.childNodes).strip()      # as the reader's contract says
        return make(name=n.tagName, value=text, children=[read(c) for c in kids], attributes=dict(n.attributes.items()))
    out = []
    for d in docs:
        e = read(xml.dom.minidom.parseString(d).documentElement)
        out.append(e)
        out.extend(descendants(e))
    return out


_elements = []


STRINGS = ["", " ", "a", "ab", " a ", "a b", "a  b c", "()", "aXbXX", "\t x\n", "\u00e9", "12", "1 2", "xxxxx", "b", "(a)", "\u3000a", "A", "aa"]
INTS = [0, 1, 2, 3, 5, -1, -2, -7]
LISTS = [[], ["a"], ["a", "b"], ["", "a", ""], [" ", "x", "x", "x"], ["a", "b", "c", "d", "e"], ["", ""], ["12", "a b", "X"], ["b"] * 3]


def arguments(names, rng, n):
    if "e" in names and not _elements:
        _elements.extend(elements())
    pools = {"e": _elements, "s": STRINGS, "t": STRINGS, "n": INTS, "xs": LISTS, "ys": LISTS}
    out = []
    for _ in range(n):
        out.append(tuple(rng.choice(pools[x]) for x in names))
    return out


def symbolic(w, name):
    if name in ("s", "t"):
        return SStr((z3.Const("selftest_" + name, V.Str),))
    if name == "n":
        return SInt(z3.Const("selftest_n", V.Int))
    if name == "e":
        return V.OElem(z3.Const("selftest_e", V.Elem))
    i = w.bound()
    key = V.zstr(name)
    return VList([Fam(f_LEN(key), i, None, SStr((f_ITEM(key, i),)))])


def real_result(fn, args):
    try:
        r = fn(*[list(a) if isinstance(a, list) else a for a in args])
        if hasattr(r, "__next__") or type(r) in (type({}.keys()), type({}.values()), type({}.items())):
            return ("other",)
        return ("val", r)
    except Exception as e:
        return ("exc", "NameError" if isinstance(e, NameError) else type(e).__name__)


def same(a, b):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def compare(fn, code, root, rng, cases=12):
    """("ok" | "refused" | "weak", detail) or ("wrong", detail)."""
    names = fn.__code__.co_varnames[:fn.__code__.co_argcount]
    import time
    w = Engine(code, 2000, time.monotonic() + 20)
    w.root = None
    w.ip.roots += (root,)
    try:
        w.assume(z3.And(f_LEN(V.zstr("xs")) >= 0, f_LEN(V.zstr("ys")) >= 0))
        paths = w.explore(lambda: w.ip.call(fn, [symbolic(w, n) for n in names], {}))
    except Unsupported as e:
        return "refused", str(e)
    except PyExc as e:
        return "refused", "exception outside a path"
    except Exception as e:
        if type(e).__name__ == "Budget":
            return "refused", "budget"
        return "refused", "error of the evaluator: %s %s" % (type(e).__name__, e)
    weak = ""
    for args in arguments(names, rng, cases):
        want = real_result(fn, args)
        if want[0] == "other":
            continue
        env = {"selftest_" + n: a for n, a in zip(names, args) if not isinstance(a, list)}
        ev = Evaluator(w, env, {n: a for n, a in zip(names, args) if isinstance(a, list)})
        hits = []
        try:
            for p in paths:
                if all(ev.value(g) for g in p[0]):
                    hits.append(p)
        except Unknown as e:
            weak = str(e)
            continue
        if len(hits) != 1:
            return "wrong", "%d of %d paths for %r (%r)" % (len(hits), len(paths), args, want)
        kind, v = hits[0][1]
        if kind == "exc":
            got = ("exc", "NameError" if issubclass(v.val.cls, NameError) else getattr(v.val.cls, "__name__", "?"))
        else:
            try:
                got = ("val", ev.concrete(v))
            except Unknown as e:
                weak = str(e)
                continue
        if got[0] != want[0] or not same(got[1], want[1]):
            return "wrong", "%r gives %r, CPython %r" % (args, got, want)
    return ("weak", weak) if weak else ("ok", "")


# ------------------------------------------------------------------------------------ programs

class Programs:
    """Random functions over strings, integers and lists of strings."""

    def __init__(self, rng):
        self.rng = rng

    def pick(self, *xs):
        return self.rng.choice(xs)

    def text(self):
        return repr(self.pick("a", "b", " ", "", "X", "(", "ab", "x", "  ", "12", ")", "+"))

    def num(self):
        return str(self.pick(0, 1, 2, 3, -1, -2, 5))

    def S(self, d, v):
        p = self.pick
        if d <= 0 or self.rng.random() < 0.15:
            return p(*(v["S"] or ["''"])) if self.rng.random() < 0.8 else self.text()
        a = lambda: self.S(d - 1, v)
        if v.get("E") and self.rng.random() < 0.35:
            e = self.E(v)
            return p("%s.name", "%s.name", "%s.value", "%s.value", "%s.attributes.get('k', '')", "%s.attributes.get('k', 'd')", "%s.attributes['b']",
                     "%s.value.strip()", "next((c.name for c in %s.children if c.value), 'none')", "'-'.join(c.value for c in %s.children)",
                     "''.join(d.name for c in %s.children for d in c.children)", "(%s.attributes.get('k') or 'x')") % e
        k = self.rng.randrange(26)
        if k == 0:
            return "%s + %s" % (a(), a())
        if k == 1:
            return "(%s).strip()" % a()
        if k == 2:
            return "(%s).replace(%s, %s)" % (a(), self.text(), self.text())
        if k == 3:
            return "(%s).replace(%s, %s, %s)" % (a(), self.text(), self.text(), self.num())
        if k == 4:
            return "(%s)[%s:%s]" % (a(), p("", self.num(), self.I(d - 1, v)), p("", self.num(), self.I(d - 1, v)))
        if k == 5:
            return "(%s)[%s]" % (a(), p(self.num(), self.I(d - 1, v)))
        if k == 6:
            return "(%s if %s else %s)" % (a(), self.B(d - 1, v), a())
        if k in (7, 8, 9):
            return "%s.join(%s)" % (self.text(), self.L(d - 1, v))
        if k == 10:
            return "f'%s{%s}%s'" % (p("", "<", "\\\\left"), a().replace("'", '"'), p("", ">", " "))
        if k == 11:
            return "'%s%%s' %% (%s)" % (p("", "-"), p(a(), "(%s,)" % a()))
        if k == 12:
            return "(%s).removeprefix(%s)" % (a(), self.text())
        if k == 13:
            return "(%s).removesuffix(%s)" % (a(), self.text())
        if k == 14:
            return "(%s)[%s]" % (self.L(d - 1, v), p(self.num(), self.I(d - 1, v)))
        if k == 15:
            return "re.sub(%r, %r, %s)" % (p(r"\s+", r"[ab]", r"\(", r"x+"), p("", " ", "z"), a())
        if k == 16:
            return "(%s) * %s" % (a(), p(self.num(), "(%s)" % self.B(d - 1, v)))
        if k == 17:
            return "str(%s)" % p(a(), self.I(d - 1, v))
        if k == 18:
            return "next((%s for z in %s if %s), %s)" % (self.S(d - 1, dict(v, S=v["S"] + ["z"])), self.L(d - 1, v), self.B(d - 1, dict(v, S=v["S"] + ["z"])), self.text())
        if k == 19:
            return "{'a': %s, 'b': %s}.get(%s, %s)" % (a(), self.text(), a(), self.text())
        if k == 20:
            return "(%s or %s)" % (a(), a())
        if k == 21:
            return "(%s and %s)" % (a(), a())
        if k == 22:
            return "'{}%s{}'.format(%s, %s)" % (p("", ","), a(), a())
        if k == 23:
            return "(%s).strip(%s)" % (a(), p("", "None", "' '", "'a'"))
        if k == 24:
            return "' '.join((%s).split(%s))" % (a(), p("", "", "None", "' '", "None, 1"))
        return "functools.reduce(lambda p, q: %s, %s, %s)" % (self.S(d - 1, dict(v, S=["p", "q"])), self.L(d - 1, v), self.text())

    def E(self, v):
        p = self.pick
        e = p(*v["E"])
        return p(e, e, e, e + ".children[0]", e + ".children[-1]", e + ".children[%s]" % self.num())

    def I(self, d, v):
        p = self.pick
        if v.get("E") and self.rng.random() < 0.3:
            return "len(%s.%s)" % (self.E(v), p("children", "children", "children", "name", "value"))
        if d <= 0 or self.rng.random() < 0.2:
            return p(*(v["I"] + [self.num()]))
        k = self.rng.randrange(12)
        if k in (0, 1):
            return "len(%s)" % p(self.S(d - 1, v), self.L(d - 1, v), self.L(d - 1, v))
        if k == 2:
            return "%s %s %s" % (self.I(d - 1, v), p("+", "-", "*"), self.I(d - 1, v))
        if k == 3:
            return "(%s %s %s)" % (self.I(d - 1, v), p("//", "%"), p("2", "3"))
        if k == 4:
            return "(%s).count(%s)" % (p(self.S(d - 1, v), self.L(d - 1, v)), self.text())
        if k == 5:
            return "(%s).find(%s)" % (self.S(d - 1, v), self.text())
        if k == 6:
            return "sum(1 for z in %s if %s)" % (self.L(d - 1, v), self.B(d - 1, dict(v, S=v["S"] + ["z"])))
        if k == 7:
            return "%s(%s, %s)" % (p("min", "max"), self.I(d - 1, v), self.I(d - 1, v))
        if k == 8:
            return "int(%s)" % self.B(d - 1, v)
        if k == 9:
            return "sum(%s for z in %s)" % (self.B(d - 1, dict(v, S=v["S"] + ["z"])), self.L(d - 1, v))
        if k == 10:
            return "(%s if %s else %s)" % (self.I(d - 1, v), self.B(d - 1, v), self.I(d - 1, v))
        return "-(%s)" % self.I(d - 1, v)

    def B(self, d, v):
        p = self.pick
        if d <= 0:
            return "%s == %s" % (p(*(v["S"] or ["''"])), self.text())
        if v.get("E") and self.rng.random() < 0.3:
            e = self.E(v)
            return p("'k' in %s.attributes", "bool(%s.children)", "%s.name == 'mi'", "%s.name in ('mo', 'mi')", "not %s.value", "any(c.name == 'mi' for c in %s.children)",
                     "all(c.value for c in %s.children)", "%s.attributes.get('k') is None", "bool(%s.attributes)", "_below(%s)", "len(%s.children) > 1",
                     "%s.attributes.get('b') == ''") % e
        k = self.rng.randrange(20)
        if k == 0:
            return "%s %s %s" % (self.S(d - 1, v), p("==", "!="), self.S(d - 1, v))
        if k == 1:
            return "%s %s %s" % (self.I(d - 1, v), p("==", "!=", "<", "<=", ">", ">="), self.I(d - 1, v))
        if k == 2:
            return "%s %s (%s)" % (self.text(), p("in", "not in"), p(self.S(d - 1, v), self.L(d - 1, v)))
        if k == 3:
            return "(%s).%s(%s)" % (self.S(d - 1, v), p("startswith", "endswith"), p(self.text(), self.text(), "('a', 'b ')"))
        if k == 4:
            return "(%s).%s()" % (self.S(d - 1, v), p("isspace", "isdigit", "isalpha", "isalnum"))
        if k in (5, 6):
            return "%s(%s for z in %s)" % (p("any", "all"), self.B(d - 1, dict(v, S=v["S"] + ["z"])), self.L(d - 1, v))
        if k == 7:
            return "bool(%s)" % p(self.S(d - 1, v), self.L(d - 1, v), self.I(d - 1, v))
        if k == 8:
            return "not (%s)" % p(self.B(d - 1, v), self.S(d - 1, v), self.L(d - 1, v))
        if k == 9:
            return "(%s %s %s)" % (self.B(d - 1, v), p("and", "or"), self.B(d - 1, v))
        if k == 10:
            return "bool(re.%s(%r, %s))" % (p("search", "match", "fullmatch"), p(r"\s", r"[ab]+", r"^\d", r"a|b", r"x?$", r"\(.*\)"), self.S(d - 1, v))
        if k == 11:
            return "(%s) == %s" % (self.L(d - 1, v), p(self.L(d - 1, v), "[]", "['a']", "()"))
        if k == 12:
            return "%s in (%s)" % (self.S(d - 1, v), p("'a', 'b'", "'ab'", "'a', ' ', ''"))
        if k == 13:
            return "%s in {'a': 1, '': 2}" % self.S(d - 1, v)
        if k == 14:
            return "%s < %s <= %s" % (self.I(d - 1, v), self.I(d - 1, v), self.I(d - 1, v))
        if k == 15:
            return "isinstance(%s, %s)" % (p(self.S(d - 1, v), self.L(d - 1, v), self.I(d - 1, v)), p("str", "list", "tuple", "int", "(list, tuple)"))
        if k == 16:
            return "%s is %sNone" % (self.S(d - 1, v), p("", "not "))
        if k == 17:
            return "set(%s) %s {'a'}" % (self.L(0, v), p("==", "<="))
        return "(%s)" % p(self.S(d - 1, v), self.L(d - 1, v))

    def L(self, d, v):
        p = self.pick
        if v.get("E") and self.rng.random() < 0.4:
            e = self.E(v)
            ve = dict(v, E=["c"])
            d = min(d, 2)
            return p("[%s for c in %s.children]" % (self.S(d - 1, ve), e), "[%s for c in %s.children]" % (self.S(d - 1, ve), e),
                     "[%s for c in %s.children if %s]" % (self.S(d - 1, ve), e, self.B(d - 1, ve)), "[c.name for c in %s.children[1:]]" % e,
                     "[c.value for c in %s.children[:-1]]" % e, "[c.name for c in reversed(%s.children)]" % e,
                     "[%s for i, c in enumerate(%s.children)]" % (self.S(d - 1, dict(ve, I=v["I"] + ["i"])), e),
                     "[x.value + y.name for x, y in zip(%s.children, %s.children[1:])]" % (e, e), "list(map(lambda c: %s, %s.children))" % (self.S(d - 1, ve), e))
        if d <= 0:
            return p(*(v["L"] or ["['a', 'b']"]))
        k = self.rng.randrange(30)
        z = dict(v, S=v["S"] + ["z"])
        l = lambda: self.L(d - 1, v)
        if k in (0, 1, 2):
            return "[%s for z in %s]" % (self.S(d - 1, z), l())
        if k in (3, 4):
            return "[%s for z in %s if %s]" % (self.S(d - 1, z), l(), self.B(d - 1, z))
        if k == 5:
            return "(%s)[%s:%s]" % (l(), p("", self.num(), self.I(d - 1, v)), p("", self.num(), self.I(d - 1, v)))
        if k == 6:
            return "(%s) + (%s)" % (l(), l())
        if k == 7:
            return "list(map(lambda z: %s, %s))" % (self.S(d - 1, z), l())
        if k == 8:
            return "list(filter(%s, %s))" % (p("None", "lambda z: " + self.B(d - 1, z)), l())
        if k == 9:
            return "[%s for i, z in enumerate(%s)]" % (self.S(d - 1, dict(z, I=v["I"] + ["i"])), l())
        if k == 10:
            return "[%s for z, y in zip(%s, %s)]" % (self.S(d - 1, dict(z, S=v["S"] + ["z", "y"])), l(), l())
        if k == 11:
            return "(%s)[::-1]" % l()
        if k == 12:
            return "list(reversed(%s))" % l()
        if k == 13:
            return "[%s, *%s]" % (self.S(d - 1, v), l())
        if k == 14:
            return "list(%s)" % p(l(), self.S(d - 1, v))
        if k == 15:
            return "(%s).split(%s)" % (self.S(d - 1, v), p("", "", "None", "' '", "None, 1", "maxsplit=1"))
        if k == 16:
            return "tuple(%s)" % l()
        if k == 17:
            return "[%s for i in range(%s)]" % (self.S(d - 1, dict(v, I=v["I"] + ["i"])), p(self.I(d - 1, v), "len(%s)" % self.L(0, v), "1, len(%s)" % self.L(0, v)))
        if k == 18:
            return "(%s if %s else %s)" % (l(), self.B(d - 1, v), l())
        if k == 19:
            return "(%s) * %s" % (l(), p("2", "1", "0"))
        if k == 20:
            return "[c for z in %s for c in %s]" % (p("['a', 'b ']", self.L(0, v)), p("z", "[z, 'k']"))
        if k == 21:
            return "(%s for z in %s)" % (self.S(d - 1, z), l())
        if k == 22:
            return "map(lambda z: %s, %s)" % (self.S(d - 1, z), l())
        if k == 23:
            return "list(itertools.chain(%s, %s))" % (l(), l())
        if k == 24:
            return "(%s or %s)" % (l(), l())
        if k == 25:
            return "(%s)[::2]" % l()
        if k == 26:
            return "[%s][:%s]" % (", ".join(self.S(d - 1, v) for _ in range(3)), self.I(d - 1, v))
        if k == 27:
            return "list(itertools.islice(%s, %s))" % (l(), p("1", "2", self.I(d - 1, v)))
        if k == 28:
            return "list(dict.fromkeys(%s))" % l()
        return "sorted(%s)" % l()

    def any(self, d, v):
        return self.pick(self.S, self.S, self.L, self.I, self.B)(d, v)

    def scope(self, v):
        """The variables a nested block may define: sometimes those of the block around it, so that a name may be unbound."""
        return v if self.rng.random() < 0.25 else dict(v)

    def block(self, d, v, ind, loop=False):
        """Statements; v is extended with the variables that are surely defined afterwards."""
        out = []
        for _ in range(self.rng.choice([1, 1, 2, 3])):
            out.extend(self.stmt(d, v, ind, loop))
        return out

    def stmt(self, d, v, ind, loop):
        p = self.pick
        k = self.rng.randrange(26)
        if k < 4:
            n = p("a", "b", "c")
            r = ["%s%s = %s" % (ind, n, self.S(2, v))]
            if n not in v["S"]:
                v["S"] = v["S"] + [n]
            return r
        if k == 4:
            r = ["%si = %s" % (ind, self.I(2, v))]
            if "i" not in v["I"]:
                v["I"] = v["I"] + ["i"]
            return r
        if k in (5, 6):
            n = p("l", "m")
            r = ["%s%s = %s" % (ind, n, self.L(2, v))]
            if n not in v["L"]:
                v["L"] = v["L"] + [n]
            return r
        if k == 7:
            w = [x for x in v["S"] if x in "abc"]
            if w:
                return ["%s%s += %s" % (ind, p(*w), self.S(1, v))]
        if k == 8 and "i" in v["I"]:
            return ["%si += %s" % (ind, self.I(1, v))]
        if k in (9, 10):
            w = [x for x in v["L"] if x in "lm"]
            if w:
                x = p(*w)
                return ["%s%s" % (ind, p("%s.append(%s)" % (x, self.S(1, v)), "%s += %s" % (x, self.L(1, v)), "%s.extend(%s)" % (x, self.L(1, v)),
                                          "%s.insert(0, %s)" % (x, self.S(1, v)), "%s.pop()" % x, "%s.pop(0)" % x, "%s.reverse()" % x,
                                          "%s[0] = %s" % (x, self.S(1, v)), "%s[-1] = %s" % (x, self.S(1, v))))]
        if d <= 0 or k < 12:
            return ["%sif %s:" % (ind, self.B(2, v)), "%s    return %s" % (ind, self.any(1, v))]
        if k in (12, 13, 14):
            r = ["%sif %s:" % (ind, self.B(2, v))] + self.block(d - 1, self.scope(v), ind + "    ", loop)
            if p(0, 1):
                r += [ind + "else:"] + self.block(d - 1, self.scope(v), ind + "    ", loop)
            return r
        if k in (15, 16, 17, 18):
            h, extra = p(("for z in %s:" % self.L(1, v), {"S": ["z"]}), ("for j, z in enumerate(%s):" % self.L(1, v), {"S": ["z"], "I": ["j"]}),
                         ("for z in %s:" % self.S(1, v), {"S": ["z"]}), *((("for c in %s.children:" % self.E(v), {"E": ["c"]}), ) * 4 if v.get("E") else ()), ("for j in range(%s):" % self.I(1, v), {"I": ["j"]}))
            vv = {t: v[t] + extra.get(t, []) for t in v}
            if p(0, 0, 0, 1):
                v.update(vv)
                vv = v
            body = self.block(d - 1, vv, ind + "    ", True)
            if p(0, 0, 1):
                body += ["%s    if %s:" % (ind, self.B(1, vv)), "%s        %s" % (ind, p("break", "continue", "break"))]
                body += self.block(0, vv, ind + "    ", True)
            r = [ind + h] + body
            if p(0, 0, 0, 1):
                r += [ind + "else:"] + self.block(0, self.scope(v), ind + "    ")
            return r
        if k == 19:
            return [ind + "try:"] + self.block(d - 1, self.scope(v), ind + "    ", loop) + ["%sexcept %s:" % (ind, p("IndexError", "Exception", "ValueError"))] + \
                self.block(0, dict(v), ind + "    ", loop)
        if k == 20:
            r = ["%sk = 0" % ind, "%swhile k < %s:" % (ind, self.I(1, v))]
            vv = dict(v, I=v["I"] + ["k"])
            return r + self.block(0, vv, ind + "    ", True) + [ind + "    k += 1"]
        if k == 21:
            r = ["%sd = {}" % ind] + ["%sfor z in %s:" % (ind, self.L(1, v)), "%s    d[z] = %s" % (ind, self.S(1, dict(v, S=v["S"] + ["z"])))]
            return r + ["%sc = d.get(%s, %s)" % (ind, self.S(1, v), self.text())] + (v.__setitem__("S", v["S"] + ["c"]) or [])
        if k == 22:
            return ["%sdef g(z, y=%s):" % (ind, self.S(1, v))] + self.block(0, dict(v, S=v["S"] + ["z", "y"]), ind + "    ") + \
                ["%s    return %s" % (ind, self.S(1, dict(v, S=v["S"] + ["z", "y"])))] + \
                ["%sc = g(%s) or ''" % (ind, self.S(1, v)), "%sc = c if isinstance(c, str) else ''" % ind] + (v.__setitem__("S", v["S"] + ["c"]) or [])
        if k == 23:
            return ["%sdef g():" % ind, "%s    for z in %s:" % (ind, self.L(1, v)), "%s        if %s:" % (ind, self.B(1, dict(v, S=v["S"] + ["z"]))),
                    "%s            yield %s" % (ind, self.S(1, dict(v, S=v["S"] + ["z"]))), "%sl = list(g())" % ind] + (v.__setitem__("L", v["L"] + ["l"]) or [])
        if k == 24:
            return ["%sm = %s" % (ind, p("iter(%s)", "(z for z in %s)", "map(str, %s)", "zip(%s)") % self.L(1, v)),
                    "%sc = %s" % (ind, p("next(m, '')", "'-'.join(m) + '-'.join(m)", "str(len(list(m)) + len(list(m)))", "str(bool(m))", "'' if 'a' in m else 'k'"))] + \
                (v.__setitem__("S", v["S"] + ["c"]) or [])
        return ["%sa, *l = %s" % (ind, self.L(1, v)), "%sa, b = %s, a" % (ind, self.S(1, v))] + (v.update(S=v["S"] + ["a", "b"], L=v["L"] + ["l"]) or [])

    def function(self, name):
        params = self.pick(["s"], ["s", "t"], ["xs"], ["xs"], ["xs", "s"], ["xs", "n"], ["s", "n"], ["xs", "ys"], ["e"], ["e"], ["e"], ["e", "s"])
        v = {"E": [x for x in params if x == "e"], "S": [x for x in params if x in "st"], "I": [x for x in params if x == "n"], "L": [x for x in params if x in ("xs", "ys")]}
        if self.rng.random() < 0.5:
            return "def %s(%s):\n    return %s\n" % (name, ", ".join(params), self.any(3, v))
        body = self.block(2, v, "    ")
        return "def %s(%s):\n%s\n    return %s\n" % (name, ", ".join(params), "\n".join(body), self.any(1, v))


def written():
    """Functions written by hand: what the generator rarely meets."""
    return open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "selftest_cases.py"), encoding="utf-8").read()


def _one(job):
    path, root, name, seed, cases = job
    from . import properties as P
    mod = sys.modules.get("selftest_programs")
    if mod is None:
        spec = importlib.util.spec_from_file_location("selftest_programs", path)
        mod = importlib.util.module_from_spec(spec)
        sys.modules["selftest_programs"] = mod
        spec.loader.exec_module(mod)
    try:
        return (name,) + compare(getattr(mod, name), P.code(), root, random.Random(seed), cases)
    except Exception as e:
        import traceback
        return name, "wrong", "error of the self-test: %s: %s: %s" % (type(e).__name__, e, traceback.format_exc()[-600:])


def _child(job, conn):
    warnings.simplefilter("ignore")
    conn.send(_one(job))
    conn.close()


def fan_out(jobs, workers, limit=25):
    """Each job in a process of its own, ended after `limit` seconds."""
    import multiprocessing
    import time
    ctx = multiprocessing.get_context("fork")
    jobs, live = list(reversed(jobs)), []
    while jobs or live:
        while jobs and len(live) < workers:
            job = jobs.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(job, b))
            p.start()
            b.close()
            live.append((p, a, time.monotonic() + limit, job))
        multiprocessing.connection.wait([x[1] for x in live], 0.5)
        rest = []
        for p, a, end, job in live:
            if a.poll():
                try:
                    yield a.recv()
                except EOFError:
                    yield job[2], "refused", "the evaluator's process ended"
            elif time.monotonic() > end:
                p.kill()
                yield job[2], "refused", "time limit"
            else:
                rest.append((p, a, end, job))
                continue
            p.join()
        live = rest


def run(programs=200, seed=1, cases=12, jobs=8):
    """{"ok": n, "refused": n, "weak": n, "wrong": [(source, detail)]}"""
    rng = random.Random(seed)
    from . import properties as P
    P.code()
    src, names = {}, []
    g = Programs(rng)
    k = 0
    while len(names) < programs:
        name = "f%d" % k
        k += 1
        t = g.function(name)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                compile(t, "x", "exec")
        except SyntaxError:
            continue
        src[name] = t
        names.append(name)
    import ast
    hand = written()
    for node in ast.parse(hand).body:
        if isinstance(node, ast.FunctionDef) and not node.name.startswith("_"):
            names.append(node.name)
            src[node.name] = ast.unparse(node)
    d = tempfile.mkdtemp(prefix="pyvc-selftest-")
    try:
        path = os.path.join(d, "selftest_programs.py")
        with open(path, "w", encoding="utf-8") as f:
            f.write("import re, functools, itertools\n\n\n" + hand + "\n\n" + "\n\n".join(src[n] for n in names if n.startswith("f") and n[1:].isdigit()))
        root = os.path.realpath(d) + os.sep
        out = {"ok": 0, "refused": 0, "weak": 0, "wrong": [], "reasons": {}}
        jobs_ = [(path, root, n, seed * 7919 + i, cases) for i, n in enumerate(names)]
        for name, status, detail in fan_out(jobs_, jobs):
            if status == "wrong":
                out["wrong"].append((src[name], detail))
            else:
                out[status] += 1
                if status != "ok":
                    r = re.sub(r"\d+", "#", detail)[:70]
                    out["reasons"][r] = out["reasons"].get(r, 0) + 1
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.setrecursionlimit(6000)
    r = run(int(sys.argv[1]) if len(sys.argv) > 1 else 200, int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    for s, why in r["wrong"]:
        print("WRONG", why)
        print(s)
    print({k: r[k] for k in ("ok", "weak", "refused")}, "wrong", len(r["wrong"]))
    if len(sys.argv) > 3:
        for k, n in sorted(r["reasons"].items(), key=lambda x: -x[1])[:40]:
            print("   ", n, k)
    sys.exit(1 if r["wrong"] else 0)
