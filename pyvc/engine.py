"""The world of the verifier: state shared by interpreter, models and loops, string theory, folds."""
import itertools
import re
import time

import z3

from . import rx
from . import values as V
from .values import (Elem, DNode, Str, Int, Bool, SStr, SInt, SBool, OElem, ONode, OAttrs, OAttr, OConv, VIte, One, Fam, Prefix,
                     RunFam, VList, VDict, VObj, VMatch, Unsupported, PyExc, NeedShape, PlaceholderUsed, Poison, mkstr, zs, zstr,
                     from_z3, const_str, subst, same_value, mentions_const)
from .world import World, Budget, free_generics, interesting, _query_cache, _keep
from .loops import Missing

NAME_START = re.compile(r"[A-Za-z_:\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C\u200D\u2070-\u218F"
                        r"\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]"
                        r"[-.0-9A-Za-z_:\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D\u037F-\u1FFF\u200C\u200D\u203F\u2040"
                        r"\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]*\Z")


def legal_name(k):
    """Can this be the name of an attribute in an XML document?"""
    return bool(NAME_START.match(k))


class Run:
    """Canonical RunFold: a run starting at item s has the text new(s) ++ piece(s+1) ++ ...; item i extends the run
    that started at s when ext(i, s); value(acc, s) is what a run is mapped to."""

    def __init__(self, n, s, i, acc, new, ext, piece, value, params, decl):
        self.n, self.s, self.i, self.acc, self.new, self.ext, self.piece, self.value = n, s, i, acc, new, ext, piece, value
        self.params, self.decl = params, decl


_equations = {}


def equation(f):
    """{id of a term: its value} for a formula that equates a term with a constant text."""
    r = _equations.get(f.get_id())
    if r is None:
        if len(_equations) > 20000:
            _equations.clear()
        d = {}
        if z3.is_eq(f):
            a, b = f.arg(0), f.arg(1)
            for x, y in ((a, b), (b, a)):
                c = const_str(y)
                if c is not None:
                    d[x.get_id()] = c
        r = _equations[f.get_id()] = (f, d)       # the formula is kept, so that its id is not used again
    return r[1]


class VWorld(World):
    def __init__(self, timeout_ms=4000, deadline=None):
        self.trimmed_values = True
        self.mark = None              # (key, value) of the attribute that marks inner tables, when the code has one
        self.root = None              # Elem constant of the element being converted
        self.root_tag = None
        self.root_inner = False
        self.while_handler = None
        self.recursive_call = None
        self.dom = None
        self.rewritings = {}
        self.table_keys = set()
        self.exclude_terms = {}       # id of a string atom -> (term, set of keys it differs from)
        self.consts = {}
        World.__init__(self, timeout_ms, deadline)

    def reset(self):
        World.reset(self)
        self.regions = []
        self.shared = {}
        self.firsts = {}
        self.runs = []
        for k in [k for k in _query_cache if isinstance(k, tuple)]:
            del _query_cache[k]

    # ------------------------------------------------------------------ bookkeeping of writes
    def tick(self):
        if self.deadline and time.monotonic() > self.deadline:
            raise Budget()

    def note_write(self, obj, container, key):
        st = getattr(obj, "stamp", 0) or 0
        for start, writes in self.regions:
            if st <= start:
                writes[(id(container), key)] = (container, key, obj)

    def write_segs(self, lst, segs):
        self.note_write(lst, lst, "segs")
        self.setattr(lst, "segs", tuple(segs), lst)

    def raw_set(self, c, k, v, obj=None):
        if isinstance(c, dict):
            if v is Missing:
                if k in c:
                    old = c.pop(k)
                    if not self.is_fresh(obj):
                        self.journal.append(lambda: c.__setitem__(k, old))
                return
            self.setitem(c, k, v, obj)
        else:
            self.setattr(c, k, v, obj)

    def noted_set(self, c, key, val, obj):
        self.note_write(obj, c, key)
        self.raw_set(c, key, val, obj)

    def constructing(self, obj):
        return False

    def shared_list(self, key, thunk):
        r = self.shared.get(key)
        if r is None:
            r = thunk()
            r.stamp = 0
            self.setitem(self.shared, key, r)
        return r

    def bound(self):
        return z3.Const("b!%d" % len(self.generics), Int)

    def index_term(self, t):
        if all(not t.eq(x) for x in self.index_terms):
            self.push(self.index_terms, t)

    def foreign_events(self, res):
        for r in res:
            for e in r[3]:
                if e not in self.events:
                    self.push(self.events, e)

    # ------------------------------------------------------------------ constants and tables
    def const_of(self, s):
        if isinstance(s, str):
            return s
        out = []
        for p in s.parts:
            if isinstance(p, str):
                out.append(p)
                continue
            c = self.atom_const(p)
            if c is None:
                return self.const_whole(s)
            out.append(c)
        return "".join(out)

    def const_whole(self, s):
        if len(s.parts) < 2:
            return None
        return self.atom_const(zs(s))

    def atom_const(self, p):
        pid = p.get_id()
        for f in self.pc:
            e = equation(f)
            if e and pid in e:
                return e[pid]
        if p.decl().name() in ("NORM", "STRIP", "WSUB") and p.num_args() == 1:
            c = self.atom_const(p.arg(0))
            if c is not None:
                return {"NORM": lambda x: " ".join(x.split()), "STRIP": str.strip,
                        "WSUB": lambda x: re.sub(r"\s+", " ", x)}[p.decl().name()](c)
        return None

    def is_excluded(self, s, key):
        if not isinstance(s, SStr):
            return False
        if len(s.parts) != 1 or isinstance(s.parts[0], str):
            return False
        self.looked_up(s.parts[0], key)
        t = self.exclude_terms.get(s.parts[0].get_id())
        return t is not None and key in t[1]

    def looked_up(self, term, key):
        pass

    def table_lookup(self, d, k):
        return None

    # ------------------------------------------------------------------ strings
    def string_of(self, v):
        """z3 string of a value that must be a string."""
        if isinstance(v, VIte):
            return z3.If(v.g, self.string_of(v.a), self.string_of(v.b))
        if isinstance(v, (str, SStr)):
            return zs(v)
        raise Unsupported("join of %s" % type(v).__name__)

    def is_trimmed(self, p):
        nm = p.decl().name()
        return nm in ("NORM", "STRIP") or (nm == "value" and self.trimmed_values)

    def strip(self, o):
        parts = list(o.parts)
        while parts and isinstance(parts[0], str):
            parts[0] = parts[0].lstrip()
            if parts[0]:
                break
            parts.pop(0)
        while parts and isinstance(parts[-1], str):
            parts[-1] = parts[-1].rstrip()
            if parts[-1]:
                break
            parts.pop()
        if not parts:
            return ""
        if len(parts) == 1 and not isinstance(parts[0], str):
            p = parts[0]
            if self.is_trimmed(p):
                return mkstr([p])
            if p.decl().name() == "WSUB":
                return mkstr([V.f_NORM(p.arg(0))])
        if len(parts) == 1 and isinstance(parts[0], str):
            return parts[0]
        if isinstance(parts[0], str) and isinstance(parts[-1], str):
            return mkstr(parts)
        return mkstr([V.f_STRIP(zs(mkstr(parts)))])

    def norm_of(self, x):
        """NORM(x), simplified."""
        nm = x.decl().name() if z3.is_app(x) else ""
        if nm in ("NORM",):
            return x
        if nm in ("STRIP", "WSUB"):
            return self.norm_of(x.arg(0))
        return V.f_NORM(x)

    def str_class(self, o, name):
        x = zs(o)
        if name == "isspace" and len(o.parts) == 1:
            nm = o.parts[0].decl().name()
            if nm in ("NORM", "STRIP", "word"):
                return False
            if nm == "value" and self.trimmed_values:
                return False
        if len(o.parts) == 1 and V.is_char_term(o.parts[0]) and name != "isspace":
            g, exact = rx.char_in_class(x, name)
            if not exact:
                self.inexact.add("CLS")
            return from_z3(g)
        return from_z3(rx.all_in_class(x, name))

    def str_split(self, ip, o, name, args, kwargs):
        raise Unsupported("split of a symbolic string")

    def str_opaque(self, o, name, args):
        raise Unsupported("string method %s" % name)

    def str_replace(self, o, args):
        if len(args) != 2 or not all(isinstance(a, str) for a in args):
            raise Unsupported("replace")
        if len(o.parts) == 1:
            self.inexact.add("SUB")
            return mkstr([self.sub_term("replace", args[0], args[1], 0, o.parts[0])])
        if len(args[0]) == 1:
            return mkstr([p.replace(*args) if isinstance(p, str) else self.str_replace(SStr((p,)), args) for p in o.parts])
        raise Unsupported("replace in a concatenation")

    def sub_term(self, kind, pat, repl, flags, x):
        name = "SUB!%s!%r!%r!%d" % (kind, pat, repl, flags)
        self.rewritings[name] = (kind, pat, repl, flags)
        return V.F(name, Str, Str)(x)

    def regex_match(self, ip, pattern, flags, mode, s):
        try:
            g = self.regex_cond(pattern, flags, mode, s)
        except rx.NotRegular as e:
            raise Unsupported("regular expression %r: %s" % (pattern, e))
        if self.decide(g):
            return VMatch((pattern, flags, mode, s))
        return None

    def regex_cond(self, pattern, flags, mode, s):
        # a search for a class of characters distributes over concatenation
        one = rx.single_class(pattern, flags) if mode == "search" else None
        if one is not None:
            gs = []
            for p in s.parts:
                if isinstance(p, str):
                    if re.search(pattern, p, flags):
                        return z3.BoolVal(True)
                else:
                    gs.append(self.has_class(p, one))
            return z3.Or(*gs) if len(gs) != 1 else gs[0]
        return rx.member(zs(s), pattern, flags, mode)

    def has_class(self, x, ranges):
        """Some character of x is in the class: as a fold, the form loops over characters give."""
        i = self.bound()
        return self.fold("ANY", z3.Length(x), i, rx.in_re(V.f_char(x, i), rx.ranges_re(ranges)))

    def regex_sub(self, ip, pattern, flags, repl, s, count):
        if count != 0 or not isinstance(repl, str):
            raise Unsupported("re.sub with a function or a count")
        if pattern == r"\s+" and repl == " " and not flags & re.ASCII and len(s.parts) == 1:
            return mkstr([V.f_WSUB(s.parts[0])])
        if len(s.parts) == 1:
            self.inexact.add("SUB")
            f = re.compile(pattern, flags).flags
            return mkstr([self.sub_term("re", pattern, repl, f, s.parts[0])])
        raise Unsupported("re.sub in a concatenation")

    def regex_list(self, ip, pattern, flags, name, s):
        raise Unsupported("re.%s of a symbolic string" % name)

    def sym_pattern(self, s, flags=0):
        raise Unsupported("symbolic regular expression")

    def sym_regex(self, ip, name, args, kwargs):
        raise Unsupported("symbolic regular expression")

    def match_method(self, ip, o, name, args):
        raise Unsupported("match.%s" % name)

    # ------------------------------------------------------------------ axioms
    def axioms_for(self, t):
        nm = t.decl().name()
        if nm == "value" and self.trimmed_values:
            return [z3.Not(rx.isspace(t))]
        if nm == "NORM":
            x = t.arg(0)
            ax = World.axioms_for(self, t)
            ax.append(z3.Implies(z3.And(z3.Length(x) == 1, z3.Not(rx.isspace(x))), t == x))
            return ax
        if nm == "WSUB":
            x = t.arg(0)
            return [z3.Length(t) <= z3.Length(x), z3.Implies(x == zstr(""), t == zstr(""))]
        return World.axioms_for(self, t)

    # ------------------------------------------------------------------ folds
    def fold(self, kind, n, i, body, extra=None):
        n = z3.simplify(n)
        if kind in ("ANY", "COUNT"):
            body = z3.simplify(body)
            false = z3.BoolVal(False) if kind == "ANY" else z3.IntVal(0)
            if z3.is_false(body):
                return false
            if z3.is_int_value(n):
                k = n.as_long()
                if k <= 0:
                    return false
                if k <= 6:
                    bs = [z3.substitute(body, (i, z3.IntVal(j))) for j in range(k)]
                    return z3.simplify(z3.Or(*bs)) if kind == "ANY" else z3.simplify(z3.Sum(*[z3.If(b, z3.IntVal(1), z3.IntVal(0)) for b in bs]))
            if z3.is_true(body):
                return n > 0 if kind == "ANY" else z3.If(n > 0, n, z3.IntVal(0))
            if kind == "ANY" and not mentions_const(body, i):
                return z3.And(n > 0, body)
            if kind == "ANY":
                body = self.local(body, n, i)
        j = z3.Const("f!%d" % len(self.folds), Int)
        return World.fold(self, kind, n, j, z3.substitute(body, (i, j)), extra)

    def local(self, body, n, i):
        """A canonical form: the disjuncts of an ANY body that do not depend on the index stay, sorted by text."""
        return body

    def concat_fold(self, n, i, body):
        """The concatenation of body(i) for 0 <= i < n, as a z3 string."""
        n = z3.simplify(n)
        if z3.is_int_value(n) and n.as_long() <= 6:
            k = n.as_long()
            return zs(mkstr([z3.substitute(body, (i, z3.IntVal(j))) for j in range(max(k, 0))]))
        c = const_str(body)
        if c == "":
            return zstr("")
        parts = self.flat(body)
        # characters of a string
        if len(parts) == 1 and V.is_char_term(parts[0]) and parts[0].arg(1).eq(i) and not mentions_const(parts[0].arg(0), i):
            x = parts[0].arg(0)
            if n.eq(z3.simplify(z3.Length(x))) or self.valid(n == z3.Length(x)):
                return x
        # words joined by single spaces
        last = parts[-1]
        if last.decl().name() == "word" and last.arg(1).eq(i) and not mentions_const(last.arg(0), i):
            x = last.arg(0)
            if self.valid(n == V.f_nwords(x)):
                lead = zs(mkstr(parts[:-1]))
                if self.valid_at(lead == z3.If(i > 0, zstr(" "), zstr("")), n, i):
                    return self.norm_of(x)
        # a separator after every item but the last: move it in front of every item but the first
        if len(parts) > 1:
            t = parts[-1]
            if const_str(t) is None and mentions_const(t, i) and self.valid(z3.substitute(t, (i, z3.simplify(n - 1))) == zstr(""), [n > 0]):
                lead = z3.If(i > 0, z3.substitute(t, (i, i - 1)), zstr(""))
                body = zs(mkstr([lead] + parts[:-1]))
        return self.fold("CONCAT", n, i, body)

    def fold_lemmas(self, terms):
        """Instances of three lemmas on concatenations F(n, b) = b(0) ++ ... ++ b(n-1), each by induction on n:
        first:    n > 0 -> F(n, b) = b(0) ++ F(n-1, i -> b(i+1))
        last:     n > 0 -> F(n, b) = F(n-1, b) ++ b(n-1)
        rotation: F(n, i -> x(i) ++ y(i)) ++ x(n) = x(0) ++ F(n, i -> y(i) ++ x(i+1))   for n >= 0"""
        out, seen, stack = [], set(), list(terms)
        while stack:
            t = stack.pop()
            if t.get_id() in seen or not z3.is_app(t):
                continue
            seen.add(t.get_id())
            stack.extend(t.children())
            f = self.fold_by_decl.get(t.decl().name())
            if f is None or f.kind != "CONCAT" or len(out) > 12:
                continue
            n, body = f.inst(t.children())
            at = lambda e, k, i=f.i: z3.simplify(z3.substitute(e, (i, k)))  # noqa: E731
            nxt = z3.simplify(f.i + 1)
            m = z3.simplify(n - 1)
            out.append(z3.Implies(n > 0, t == zs(mkstr([at(body, z3.IntVal(0)), self.concat_fold(m, f.i, self.within(at(body, nxt), m, f.i))]))))
            out.append(z3.Implies(n > 0, t == zs(mkstr([self.concat_fold(m, f.i, self.within(body, m, f.i)), at(body, m)]))))
            parts = self.flat(body)
            for k in range(1, min(len(parts), 4)):
                x, y = zs(mkstr(parts[:k])), zs(mkstr(parts[k:]))
                if not mentions_const(x, f.i):
                    continue
                turned = self.concat_fold(n, f.i, self.within(zs(mkstr([y, at(x, nxt)])), n, f.i))
                out.append(z3.Implies(n >= 0, zs(mkstr([t, at(x, n)])) == zs(mkstr([at(x, z3.IntVal(0)), turned]))))
        return out

    def within(self, body, n, i):
        """The body with the conditions on the index that hold for 0 <= i < n resolved."""
        subs = []
        stack, seen = [body], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                g = t.arg(0)
                if self.valid_at(g, n, i):
                    subs.append((t, t.arg(1)))
                elif self.valid_at(z3.Not(g), n, i):
                    subs.append((t, t.arg(2)))
            stack.extend(t.children())
        return z3.simplify(z3.substitute(body, *subs)) if subs else body

    def flat(self, e):
        """The parts of a string term, with what the branches of a conditional have in common factored out."""
        out = []
        for p in _parts(mkstr([e])):
            if not isinstance(p, str) and z3.is_app_of(p, z3.Z3_OP_ITE):
                g = p.arg(0)
                a, b = self.flat(p.arg(1)), self.flat(p.arg(2))
                lead, trail = [], []
                while a and b and a[0].eq(b[0]):
                    lead.append(a.pop(0))
                    b.pop(0)
                while a and b and a[-1].eq(b[-1]):
                    trail.insert(0, a.pop())
                    b.pop()
                out.extend(lead)
                if a or b:
                    out.append(z3.If(g, zs(mkstr(a)), zs(mkstr(b))))
                out.extend(trail)
            else:
                out.append(zstr(p) if isinstance(p, str) else p)
        return out

    def valid_at(self, f, n, i):
        self.generics.append(i)
        try:
            return self.valid(f, [0 <= i, i < n])
        finally:
            self.generics.pop()

    def first_index(self, n, i, g):
        """The first index below n with g (assumed on this path), or None (also assumed)."""
        a = self.fold("ANY", n, i, g)
        if not self.decide(a):
            return None
        # the first index is a function of the fold term (and of the indices free in it): the same on every path.
        # What is not a fold term (D, an unrolled disjunction) does not tell the enumeration: it is told by its range and body.
        key, term = a.get_id(), a
        if a.decl().name() not in self.fold_by_decl:
            n = z3.simplify(n)
            body = z3.simplify(z3.substitute(g, (i, z3.Const("first-of", Int))))
            key, term = (n.get_id(), body.get_id()), z3.And(n >= 0, body)
            _keep.append(term)
        hit = self.firsts.get(key)
        if hit is None:
            free = free_generics(term, self.generics)
            name = "first!%d" % len(self.firsts)
            k = z3.Function(name, *([Int] * len(free) + [Int]))(*free) if free else z3.Const(name, Int)
            self.firsts[key] = (k, a, n, i, g)
        else:
            k = hit[0]
        self.index_term(k)
        self.pc.append(z3.And(0 <= k, k < n))
        self.pc.append(z3.substitute(g, (i, k)))
        none = self.fold("ANY", k, i, g)
        self.pc.append(z3.Not(none))
        return k

    def with_generic(self, fam, fn):
        I, res, writes = self.ip.loops.iteration(fam, fn)
        self.ip.loops.check_writes(writes)
        self.foreign_events(res)
        if any(o[0] == "exc" for _g, o, *_ in res) or any(e for _g, _o, e, *_ in res):
            raise Unsupported("exception or effect while testing elements")
        cases = [z3.And(*(g + [o[1]])) for g, o, *_ in res]
        return z3.simplify(z3.substitute(z3.Or(*cases), (I, fam.i)))

    # ------------------------------------------------------------------ lists under construction
    def prefix_last(self, p):
        if p.state is V.POPPED:
            raise Unsupported("last element of a list after pop")
        if p.state is not None:
            return p.state
        if p.last is None:
            raise NeedShape(p)
        return p.last

    def prefix_replace_last(self, p, v):
        return Prefix(p.key, p.length, p.nonempty, p.last, v)

    def prefix_pop(self, p):
        return Prefix(p.key, p.length, p.nonempty, p.last, V.POPPED)

    def run_length(self, s):
        """Between one and n for n > 0 items; nothing else is known about it."""
        free = free_generics(s.fold.n >= 0, self.generics)
        key = ("nruns", id(s.fold))
        t = self.shared.get(key)
        if t is None:
            name = "nruns!%d" % next(self.counter)
            t = z3.Function(name, *([Int] * len(free) + [Int]))(*free) if free else z3.Const(name, Int)
            self.setitem(self.shared, key, t)
            self.setitem(self.shared, ("keep", id(s.fold)), s.fold)
            n = s.fold.n
            self.pc.append(z3.If(n <= 0, t == 0, z3.And(1 <= t, t <= n)))
        return t

    def run_concat(self, rf):
        f = rf.fold
        acc = next(iter(f.pieces))
        s, i, a = z3.Const("rs!", Int), z3.Const("ri!", Int), z3.Const("ra!", Str)
        news = {k: subst(x, [(f.i, s)]) for k, x in f.new.items()}
        fixed = []
        for k, c in f.consts.items():
            if k == acc:
                continue
            nv = news[k]
            if isinstance(nv, (str, SStr)):
                e = zs(nv)
            elif isinstance(nv, (bool, SBool)):
                e = self.ip.cond(nv)
            else:
                from .models import zi
                e = zi(nv)
            fixed.append((c, e))
        if not isinstance(f.new[acc], (str, SStr)):
            raise Unsupported("runs")
        new = zs(news[acc])
        ext = z3.substitute(z3.substitute(f.ext, (f.i, i)), *fixed)
        piece = zs(subst(f.pieces[acc], [(f.i, i)]))
        if any(mentions_const(piece, c) for c, _e in fixed):
            raise Unsupported("runs: extension depends on the record")
        value = self.string_of(rf.value)
        value = z3.substitute(z3.substitute(value, (f.consts[acc], a)), *fixed)
        n = f.n
        params = free_generics(z3.And(n >= 0, ext, new == piece, value == piece), self.generics)
        for r in self.runs:
            if len(r.params) == len(params) == 0 and self.same_run(r, n, s, i, a, new, ext, piece, value):
                return r.decl()
        if params:
            raise Unsupported("runs inside an iteration")
        decl = z3.Function("runs!%d" % len(self.runs), Str)
        self.push(self.runs, Run(n, s, i, a, new, ext, piece, value, params, decl))
        return decl()

    def same_run(self, r, n, s, i, a, new, ext, piece, value):
        if not self.valid(r.n == n):
            return False
        self.generics.extend([s, i])
        try:
            rng = [0 <= s, s < i, i < n]
            return self.valid(r.new == new, [0 <= s, s < n]) and self.valid(r.ext == ext, rng) and \
                self.valid(z3.Implies(ext, r.piece == piece), rng) and self.valid(r.value == value, [0 <= s, s < n])
        finally:
            del self.generics[-2:]


def _parts(v):
    return [v] if isinstance(v, str) else list(v.parts)
