"""Comprehensions, for loops and recursion, for any number of iterations.

A loop over a family (value(i) for 0 <= i < n) is executed once at a generic index I.  Its effect is then stated as an
invariant: every location the body writes has, at the start of iteration i, a value known(i); the classification below
proposes known(i) and the same run proves it is preserved (the body is executed with known(I) or an arbitrary value in
the location).  Exits (raise, return, break) are taken at the first index whose exit condition holds."""
import ast
import types

import z3

from . import values as V
from .values import (Str, Int, Bool, SStr, SInt, SBool, OElem, ONode, OConv, VIte, One, Fam, Prefix, RunFam, RunFold, VList, VDict,
                     VObj, Unsupported, PyExc, mkstr, zs, zstr, from_z3, subst, same_value, mentions_const)

UNROLL = 6


from .values import Poison, PlaceholderUsed, NeedShape  # noqa: E402


def repeatable(test):
    """Whether a test can be evaluated once more without a difference."""
    for n in ast.walk(test):
        if isinstance(n, (ast.NamedExpr, ast.Yield, ast.Await)) or \
                isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.startswith(("pop", "next", "__next__", "read", "send")) or \
                isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "next":
            return False
    return True


def loc_get(loc):
    c, k = loc
    if isinstance(c, dict):
        return c.get(k, Missing)
    return getattr(c, k)


class Missing:
    pass


class Loops:
    def __init__(self, ip):
        self.ip = ip
        self.w = ip.w

    # ------------------------------------------------------------------ merging
    def merge(self, alts):
        """alts: [(guard z3 Bool, value)] that cover all cases."""
        v = alts[-1][1]
        for g, x in reversed(alts[:-1]):
            v = self.ite(g, x, v)
        return v

    def ite(self, g, a, b):
        if same_value(a, b):
            return a
        if z3.is_true(g):
            return a
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return mkstr([z3.If(g, zs(a), zs(b))])
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return from_z3(z3.If(g, self.ip.cond(a), self.ip.cond(b)))
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) and not isinstance(a, bool) and not isinstance(b, bool):
            from .models import zi
            return from_z3(z3.If(g, zi(a), zi(b)))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(g, x, y) for x, y in zip(a, b))
        if isinstance(a, OElem) and isinstance(b, OElem):
            return OElem(z3.If(g, a.e, b.e))
        if isinstance(a, VObj) and isinstance(b, VObj) and a.cls is b.cls and set(a.fields) == set(b.fields):
            return VObj(a.cls, {k: self.ite(g, a.fields[k], b.fields[k]) for k in a.fields})
        return VIte(g, a, b)

    def guard(self, guards):
        gs = [g for g in guards if not z3.is_true(g)]
        return z3.And(*gs) if len(gs) > 1 else (gs[0] if gs else z3.BoolVal(True))

    # ------------------------------------------------------------------ comprehensions
    def comprehension(self, generators, elt, f, first=None, partial=False):
        from .interp import Frame
        ip = self.ip
        if any(g.is_async for g in generators):
            raise Unsupported("async")
        fr = Frame(f.globals, f, f.defcls, "<comp>")
        fr.self = f.self

        def level(k):
            g = generators[k]
            src = ip.ev(g.iter, f if k == 0 else fr) if k or first is None else first
            lst = ip.m.as_list(src, partial=partial)

            def bind(v):
                ip.assign(g.target, v, fr)

            def cond(v):
                bind(v)
                for c in g.ifs:
                    if not ip.truth(ip.ev(c, fr)):
                        return False
                return True
            if k == len(generators) - 1:
                def one(v):
                    bind(v)
                    return ip.ev(elt, fr)
                return self.map_list(lst, one, cond if g.ifs else None)
            out = []
            small = ip.m.concretise(lst)
            for v in small.items():
                if g.ifs and not cond(v):
                    continue
                bind(v)
                out.extend(level(k + 1))
            return tuple(out)
        return tuple(level(0))

    def map_list(self, lst, elt, cond=None):
        out = []
        for s in lst.segs:
            if isinstance(s, One):
                if cond is None or self.ip.truth(cond(s.v)):
                    out.append(One(elt(s.v)))
            elif isinstance(s, Fam):
                n = self.w.const_int(s.n)
                if n is not None and n <= UNROLL:
                    for k in range(max(n, 0)):
                        if s.cond is not None and not self.w.decide(z3.substitute(s.cond, (s.i, z3.IntVal(k)))):
                            continue
                        v = subst(s.value, [(s.i, z3.IntVal(k))])
                        if cond is None or self.ip.truth(cond(v)):
                            out.append(One(elt(v)))
                else:
                    r = self.map_fam(s, elt, cond)
                    if r is not None:
                        out.append(r)
            elif isinstance(s, RunFam):
                if cond is not None:
                    raise Unsupported("filter over runs")
                out.append(self.map_runs(s, elt))
            else:
                raise Unsupported("iteration over a list under construction")
        return tuple(out)

    class _Skip(Exception):
        pass

    def iteration(self, fam, thunk, facts=()):
        """Explore thunk(value at generic I).  -> (I, [(guard list, outcome, effects, events)])"""
        w = self.w
        I = w.generic()
        w.generics.append(I)
        base = len(w.pc)
        w.pc.append(z3.And(0 <= I, I < fam.n))
        if fam.cond is not None:
            w.pc.append(z3.substitute(fam.cond, (fam.i, I)))
        w.pc.extend(facts)
        w.regions.append([next(V._stamps), {}])
        try:
            v = subst(fam.value, [(fam.i, I)])
            res = w.explore(lambda: thunk(v))
        finally:
            writes = w.regions.pop()[1]
            del w.pc[base:]
            w.generics.pop()
        return I, res, writes

    def map_fam(self, fam, elt, cond):
        w, ip = self.w, self.ip
        skip = self._Skip

        def thunk(v):
            if cond is not None and not ip.truth(cond(v)):
                return skip
            return elt(v)
        I, res, writes = self.iteration(fam, thunk)
        self.check_writes(writes)
        w.foreign_events(res)
        raises = [self.guard(g) for g, o, *_ in res if o[0] == "exc"]
        vals = [(self.guard(g), o[1]) for g, o, *_ in res if o[0] == "val" and o[1] is not skip]
        skips = [self.guard(g) for g, o, *_ in res if o[0] == "val" and o[1] is skip]
        back = [(I, fam.i)]
        if raises:
            g = z3.simplify(z3.substitute(z3.Or(*raises), *back))
            if fam.cond is not None:
                g = z3.And(fam.cond, g)
            k = w.first_index(fam.n, fam.i, g)
            if k is not None:
                thunk(subst(fam.value, [(fam.i, k)]))
                raise Unsupported("exit of a comprehension did not happen")
        if not vals:
            return None
        value = subst(self.merge(vals), back)
        c = fam.cond
        if skips:
            keep = z3.substitute(z3.simplify(z3.Or(*[g for g, _ in vals])), *back)
            c = keep if c is None else z3.And(c, keep)
            if z3.is_true(z3.simplify(c)):
                c = None
        w.forall_effects(fam, I, res)
        return Fam(fam.n, fam.i, c, value, ("map", fam.origin))

    def check_writes(self, writes):
        for (cid, key), (cont, k, obj) in writes.items():
            if getattr(obj, "fn", None) == "<comp>":
                continue
            raise Unsupported("write to %s inside an iteration" % (k,))

    def map_runs(self, s, elt):
        """s.value is a record over the field constants of s.fold."""
        w = self.w
        w.regions.append([next(V._stamps), {}])
        try:
            res = w.explore(lambda: elt(V.copy_value(s.value)))
        finally:
            writes = w.regions.pop()[1]
        self.check_writes(writes)
        w.foreign_events(res)
        if any(o[0] == "exc" for _g, o, *_ in res):
            raise Unsupported("exception while mapping runs")
        if any(e for _g, _o, e, *_ in res):
            raise Unsupported("effects while mapping runs")
        return RunFam(s.fold, self.merge([(self.guard(g), o[1]) for g, o, *_ in res]))

    # ------------------------------------------------------------------ for loops
    def for_(self, s, f):
        from .interp import Break, Continue
        ip, w = self.ip, self.w
        src = ip.force(ip.ev(s.iter, f))
        lst = ip.m.as_list(src, partial=True)
        broke = False
        if isinstance(src, VList) and src.kind == "view":
            src = src.src

        def contents():
            if isinstance(src, VList):
                return src.segs
            if isinstance(src, VDict):
                return (list(src.items), id(src.base), src.fams)
            if isinstance(src, V.VSet):
                return list(map(id, src.vals))
            return None
        before = contents()

        def step(v):
            ip.assign(s.target, v, f)
            try:
                ip.block(s.body, f)
            except Continue:
                pass
            finally:
                now = contents()
                if now is not before and (isinstance(src, VList) or now != before):
                    raise Unsupported("loop over a collection that its body changes")
        for seg in lst.segs:
            try:
                if isinstance(seg, One):
                    step(seg.v)
                    continue
                if not isinstance(seg, Fam):
                    if isinstance(seg, RunFam):
                        self.for_runs(seg, step)
                        continue
                    raise Unsupported("loop over a list under construction")
                n = w.const_int(seg.n)
                if n is not None and n <= UNROLL:
                    for k in range(max(n, 0)):
                        if seg.cond is not None and not w.decide(z3.substitute(seg.cond, (seg.i, z3.IntVal(k)))):
                            continue
                        step(subst(seg.value, [(seg.i, z3.IntVal(k))]))
                    continue
                self.summary(seg, step)
            except Break:
                broke = True
                break
        if not broke and s.orelse:
            ip.block(s.orelse, f)

    def for_runs(self, seg, step):
        """for r in runs: acc += f(r)"""
        raise Unsupported("loop over runs")

    def while_(self, s, f):
        from .interp import Break, Continue
        ip = self.ip
        h = self.w.while_handler
        if h is not None:
            r = h(ip, s, f)
            if r is not NotImplemented:
                return
        scanned = not repeatable(s.test)
        for _ in range(14):
            if self.worklist(s, f):
                return
            t = ip.ev(s.test, f)
            if not scanned and (isinstance(t, (SBool, SInt, SStr, VIte)) or isinstance(s.test, ast.Constant)):
                scanned = True
                try:
                    if self.scan(s, f):
                        return
                except Unsupported as e:
                    self.why = str(e)
            if not ip.truth(t):
                ip.block(s.orelse, f)
                return
            try:
                ip.block(s.body, f)
            except Continue:
                pass
            except Break:
                return
        raise Unsupported("while loop without a bound (%s)" % getattr(self, "why", ""))

    class Ended(Exception):
        """The test of a while loop is false."""

    def scan(self, s, f):
        """`while test: body` as a loop over 0, 1, 2, ... that leaves at the first index at which the test fails."""
        from .interp import Break, Continue
        ip = self.ip
        i = self.w.bound()
        fam = Fam(self.w.fresh("steps", Int), i, None, SInt(i))

        def step(_v):
            if not ip.truth(ip.ev(s.test, f)):
                raise self.Ended()
            try:
                ip.block(s.body, f)
            except Continue:
                pass
        try:
            self.summary(fam, step, total=True)
        except self.Ended:
            ip.block(s.orelse, f)
        except Break:
            pass
        return True

    def bound_of(self, g, i):
        """A number of iterations after which the exit condition g(i) certainly holds: proved, from candidates that the
        comparisons in g suggest."""
        seen, stack, cands = set(), [g], []
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.num_args() == 2 and t.arg(0).sort() == Int and t.decl().kind() in (
                    z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
                d = t.arg(0) - t.arg(1)
                at = lambda e: z3.simplify(z3.substitute(d, (i, e)))  # noqa: E731
                c = z3.simplify(at(i + 1) - at(i))
                if z3.is_int_value(c) and c.as_long() != 0:
                    d0 = at(z3.IntVal(0))
                    for k in (0, 1):
                        cands.append(z3.simplify((d0 if c.as_long() < 0 else -d0) + k))
            stack.extend(t.children())
        for b in cands:
            b = z3.simplify(z3.If(b > 0, b, z3.IntVal(0)))
            if self.w.valid(z3.substitute(g, (i, b))):
                return b
        raise Unsupported("while loop without a bound")

    def worklist(self, s, f):
        """`while work: x = work.pop(); ...; work.extend(x.children)` with the children of an element e in `work`:
        the body is run once for each element strictly below e (each occurs once in a finite tree), in an order about
        which nothing is assumed.  Proved by the step: it takes one element off the list and adds all its children."""
        from .interp import Break, Continue
        ip, w = self.ip, self.w
        first, rest = s.test, []
        if isinstance(first, ast.BoolOp) and isinstance(first.op, ast.And):
            first, rest = first.values[0], first.values[1:]
        if isinstance(first, ast.Compare) and len(first.ops) == 1 and isinstance(first.ops[0], (ast.Gt, ast.NotEq)) and \
                isinstance(first.comparators[0], ast.Constant) and first.comparators[0].value == 0:
            first = first.left
        if isinstance(first, ast.Call) and isinstance(first.func, ast.Name) and first.func.id == "len" and len(first.args) == 1:
            first = first.args[0]
        if not isinstance(first, ast.Name):
            return False
        lst = f.vars.get(first.id)
        if not isinstance(lst, V.VList) or len(lst.segs) != 1 or not isinstance(lst.segs[0], Fam):
            return False
        seg = lst.segs[0]
        if not isinstance(seg.value, OElem) or seg.cond is not None:
            return False
        x = w.children_of(seg)
        if x is None:
            return False
        n = V.f_ndesc(x)
        i = w.bound()
        fam = Fam(n, i, None, OElem(V.f_desc(x, i)))
        ends = []
        for take in (lambda e: (V.Rest(), One(e)), lambda e: (One(e), V.Rest())):
            def step(e, take=take):
                work = V.VList(take(e))
                ip.set_name(first.id, work, f)
                for t in rest:
                    if not ip.truth(ip.ev(t, f)):
                        raise Break()
                try:
                    ip.block(s.body, f)
                except Continue:
                    pass
                work = f.vars.get(first.id)
                ok = isinstance(work, V.VList) and len(work.segs) == 2 and (isinstance(work.segs[0], V.Rest) or isinstance(work.segs[1], V.Rest))
                if ok:
                    more = work.segs[1] if isinstance(work.segs[0], V.Rest) else work.segs[0]
                    y = w.children_of(more) if isinstance(more, Fam) and isinstance(more.value, OElem) and more.cond is None else None
                    ok = y is not None and y.eq(e.e)
                if not ok:
                    # no children: nothing to add
                    ok = isinstance(work, V.VList) and len(work.segs) == 1 and isinstance(work.segs[0], V.Rest) and w.valid(V.f_nkids(e.e) <= 0)
                if not ok:
                    raise Unsupported("loop over a worklist that is not the tree below an element")
                ip.set_name(first.id, V.Poison(("worklist", first.id)), f)
            w.write_segs(lst, (V.Rest(),))
            try:
                try:
                    self.summary(fam, step)
                except Break:
                    return True
            except Unsupported as e:
                ends.append(e)
                continue
            w.write_segs(lst, ())
            ip.set_name(first.id, V.VList(), f)
            ip.block(s.orelse, f)
            return True
        raise ends[0]

    def summary(self, fam, step, total=False):
        from .interp import Break, Return
        ip, w = self.ip, self.w
        if not total and w.decide(fam.n <= 0):
            return
        known = {}        # location -> function(index expr) -> value at the start of that iteration
        typed = {}        # location -> Placeholder in use
        locs = {}         # location key -> (container, key, object)
        initial = {}

        def thunk(v):
            for lk, (c, k, _o) in locs.items():
                w.raw_set(c, k, placeholder(lk))
            try:
                step(v)
                kind = ("next",)
            except Break:
                kind = ("break",)
            except self.Ended:
                kind = ("ended",)
            except Return as r:
                kind = ("return", r.val)
            except NeedShape as e:
                if e.prefix.key not in locs:
                    raise
                return ("dead",), {}
            fin = {lk: loc_get((c, k)) for lk, (c, k, _o) in locs.items()}
            recs = {lk: V.copy_value(t.prefix.last) for lk, t in typed.items() if t.prefix is not None}
            return kind, fin, recs

        def placeholder(lk):
            if lk in known and not (lk in typed and typed[lk].prefix is not None and typed[lk].prefix.last is not None):
                return known[lk](self.cur)
            if lk in typed:
                return typed[lk].make()
            return Poison(lk)

        for _round in range(16):
            w.tick()
            self.cur = w.generic()
            facts = [z3.And(t.prefix.length >= 0, (t.prefix.length > 0) == (self.cur > 0)) for t in typed.values()
                     if t.prefix is not None and t.prefix.last is not None]
            try:
                I, res, writes = self.iteration(fam, thunk, facts)
            except PlaceholderUsed as u:
                lk = u.poison.loc
                if lk not in locs:
                    raise
                self.need_typed(lk, locs, initial, typed)
                continue
            fresh = {lk: t for lk, t in writes.items() if lk not in locs and getattr(t[2], "fn", None) != "<comp>"
                     and not any(t[2] is p.prefix.last for p in typed.values() if p.prefix is not None)}
            if fresh:
                for lk, (c, k, o) in fresh.items():
                    if isinstance(o, OElem) or o is None:
                        raise Unsupported("element written in a loop")
                    locs[lk] = (c, k, o)
                    initial[lk] = loc_get((c, k))
                    if (k == "segs" and isinstance(o, VList)) or (k == "fams" and isinstance(o, VDict)):
                        self.need_typed(lk, locs, initial, typed)
                continue
            live = [r for r in res if not (r[1][0] == "val" and r[1][1][0] == ("dead",))]
            if len(live) < len(res):
                # a list whose last record is looked at: take the shape of the record from a path that appends one
                if not self.find_shape(typed, live):
                    raise Unsupported("loop: last element of a list of unknown shape")
                continue
            w.foreign_events(res)
            back = [(I, fam.i)]
            normal = [(g, o[1][1], o[1][2]) for g, o, *_ in res if o[0] == "val" and o[1][0] == ("next",)]
            exits = [self.guard(g) for g, o, *_ in res if not (o[0] == "val" and o[1][0] == ("next",))]
            progress, todo = False, []
            try:
                for lk in locs:
                    if lk in known:
                        continue
                    r = self.classify(lk, locs, initial, typed, normal, fam, I, back, last_chance=False)
                    if r is None:
                        todo.append(lk)
                    else:
                        known[lk] = r
                        progress = True
                if todo and not progress:
                    for lk in todo:
                        if lk not in typed:
                            # never read before it is written: its value after the loop is not tracked
                            known[lk] = (lambda lk: lambda i: initial[lk] if isinstance(i, int) and i == 0 else Poison(("dead", lk)))(lk)
                            progress = True
            except PlaceholderUsed as u:
                if u.poison.loc not in locs or not self.can_type(initial[u.poison.loc]):
                    known[u.poison.loc] = (lambda lk: lambda i: Poison(("dead", lk)))(u.poison.loc)
                else:
                    self.need_typed(u.poison.loc, locs, initial, typed)
                continue
            if not todo and not progress:
                break
            if not progress:
                raise Unsupported("loop: no invariant for %s" % ", ".join(str(locs[lk][1]) for lk in todo))
        else:
            raise Unsupported("loop: no invariant")
        normal_res = [r for r in res if r[1][0] == "val" and r[1][1][0] == ("next",)]
        if total and not exits:
            raise Unsupported("while loop without a bound")
        if exits:
            g = z3.simplify(z3.substitute(z3.Or(*exits), *back))
            if any(z3.is_const(c) and V.mentions_const(g, c) for t in typed.values() for c in [t.const]):
                raise Unsupported("loop: exit depends on a loop variable")
            if fam.cond is not None:
                g = z3.And(fam.cond, g)
            n = fam.n
            if total:
                n = self.bound_of(g, fam.i) + 1
                w.pc.append(w.fold("ANY", n, fam.i, g))     # it holds at n - 1
            k = w.first_index(n, fam.i, g)
            if k is not None:
                if total:
                    w.pc.append(z3.Implies(k > 0, z3.Not(z3.substitute(g, (fam.i, z3.simplify(k - 1))))))
                for lk, (c, key, o) in locs.items():
                    w.noted_set(c, key, known[lk](k), o)
                w.forall_effects(Fam(k, fam.i, fam.cond, fam.value), I, normal_res)
                step(subst(fam.value, [(fam.i, k)]))
                raise Unsupported("exit of a loop did not happen")
        w.forall_effects(fam, I, normal_res)
        for lk, (c, key, o) in locs.items():
            w.noted_set(c, key, known[lk](fam.n), o)

    class Typed:
        def __init__(self, const, make, prefix=None):
            self.const, self.make, self.prefix = const, make, prefix

    @staticmethod
    def can_type(v0):
        return isinstance(v0, (bool, SBool, str, SStr, int, SInt))

    def need_typed(self, lk, locs, initial, typed):
        w = self.w
        if lk in typed:
            raise Unsupported("loop variable of unknown type")
        v0 = initial[lk]
        name = str(locs[lk][1])
        if isinstance(v0, bool) or isinstance(v0, SBool):
            c = w.fresh("ph_" + name, Bool)
            typed[lk] = self.Typed(c, lambda: SBool(c))
        elif isinstance(v0, (str, SStr)):
            c = w.fresh("ph_" + name, Str)
            typed[lk] = self.Typed(c, lambda: SStr((c,)))
        elif isinstance(v0, (int, SInt)):
            c = w.fresh("ph_" + name, Int)
            typed[lk] = self.Typed(c, lambda: SInt(c))
        elif name in ("segs", "fams"):
            c = w.fresh("len_" + name, Int)
            p = Prefix(lk, c, None, None, None)
            typed[lk] = self.Typed(c, lambda: (p,), p)
        else:
            raise Unsupported("loop variable %s of unknown type" % name)

    def find_shape(self, typed, live):
        for lk, t in typed.items():
            if t.prefix is None or t.prefix.last is not None:
                continue
            for r in live:
                if r[1][0] != "val":
                    continue
                segs = r[1][1][1].get(lk)
                if segs and len(segs) == 2 and isinstance(segs[0], Prefix) and isinstance(segs[1], One):
                    t.prefix.last = V.record_shape(segs[1].v, self.w)
                    return True
        return False

    def classify(self, lk, locs, initial, typed, normal, fam, I, back, last_chance):
        """known(i), or None."""
        w, ip = self.w, self.ip
        v0 = initial[lk]
        ph = typed.get(lk)
        others = []
        for t in typed.values():
            others.append(t.const)
            if t.prefix is not None and t.prefix.last is not None:
                others.extend(x.e if not isinstance(x, SStr) else x.parts[0] for x in V.record_fields(t.prefix.last).values())
        finals = [(self.guard(g), fin[lk]) for g, fin, _r in normal]

        def closed(x):
            return not any(mentions_const(x, c) for c in others)
        if not finals:
            return lambda i: v0
        if ph is None:
            if any(isinstance(v, Poison) and v.loc == lk for _g, v in finals):
                if all(isinstance(v, Poison) for _g, v in finals):
                    return lambda i: v0
                raise PlaceholderUsed(Poison(lk))     # written on some paths only
            if any(isinstance(v, Poison) for _g, v in finals):
                return None
            if not all(closed(g) and closed(v) for g, v in finals):
                return None
            F = self.merge(finals)

            def known(i):
                e = z3.IntVal(i) if isinstance(i, int) else i
                if w.valid(e <= 0):
                    return v0
                if fam.cond is not None and not w.valid(z3.Implies(e > 0, z3.substitute(fam.cond, (fam.i, z3.simplify(e - 1))))):
                    return Poison(("dead", lk))     # the value of the last item with the condition: not tracked
                prev = subst(F, [(I, z3.simplify(e - 1))])
                if w.valid(e > 0):
                    return prev
                if v0 is Missing:
                    return prev
                return self.ite(e > 0, prev, v0)
            return known
        c = ph.const
        if ph.prefix is not None:
            return self.classify_list(lk, v0, ph, normal, fam, I, back, closed)
        if all(same_value(v, ph.make()) for _g, v in finals):
            return lambda i: v0
        if isinstance(v0, (str, SStr)):
            pieces = []
            for g, v in finals:
                if not closed(g):
                    return None
                if not isinstance(v, SStr) or isinstance(v.parts[0], str) or not v.parts[0].eq(c):
                    return None
                rest = mkstr(list(v.parts[1:]))
                if not closed(rest):
                    return None
                pieces.append((g, rest))
            piece = zs(self.merge(pieces))
            body = z3.substitute(piece, *back)
            if fam.cond is not None:
                body = z3.If(fam.cond, body, zstr(""))
            return lambda i: mkstr([v0, w.concat_fold(z3.IntVal(i) if isinstance(i, int) else i, fam.i, body)])
        if isinstance(v0, (bool, SBool)):
            sets = {}
            for g, v in finals:
                if same_value(v, ph.make()):
                    continue
                if not closed(g):
                    return None
                if isinstance(v, SBool) and z3.is_or(v.e) and any(a.eq(c) for a in v.e.children()):
                    rest = [a for a in v.e.children() if not a.eq(c)]
                    if not closed(z3.Or(*rest)):
                        return None
                    sets.setdefault(True, []).append(z3.And(g, z3.Or(*rest)))
                    continue
                if not isinstance(v, bool):
                    return None
                sets.setdefault(v, []).append(g)
            if len(sets) != 1:
                return None
            val, gs = next(iter(sets.items()))
            g = z3.substitute(z3.simplify(z3.Or(*gs)), *back)
            if fam.cond is not None:
                g = z3.And(fam.cond, g)

            def known(i):
                a = w.fold("ANY", z3.IntVal(i) if isinstance(i, int) else i, fam.i, g)
                e0 = ip.cond(v0)
                return from_z3(z3.Or(e0, a) if val else z3.And(e0, z3.Not(a)))
            return known
        if isinstance(v0, (int, SInt)):
            from .models import zi
            incs = []
            for g, v in finals:
                if not isinstance(v, (int, SInt)):
                    return None
                d = z3.simplify(zi(v) - c)
                if not z3.is_int_value(d):
                    return None
                incs.append((g, d.as_long()))
            ds = {d for _g, d in incs}
            if fam.cond is None and len(ds) == 1:
                d = ds.pop()
                return lambda i: from_z3(zi(v0) + d * (z3.IntVal(i) if isinstance(i, int) else i))
            if ds <= {0, 1} and all(closed(g) for g, d in incs):
                g = z3.substitute(z3.simplify(z3.Or(*[g for g, d in incs if d == 1])), *back)
                if fam.cond is not None:
                    g = z3.And(fam.cond, g)
                return lambda i: from_z3(zi(v0) + w.fold("COUNT", z3.IntVal(i) if isinstance(i, int) else i, fam.i, g))
        return None

    def classify_list(self, lk, v0, ph, normal, fam, I, back, closed):
        p = ph.prefix
        finals = [(self.guard(g), fin[lk], recs.get(lk)) for g, fin, recs in normal]
        if p.last is not None:
            return self.classify_runs(v0, p, finals, fam, I)
        apps = []
        for g, segs, _r in finals:
            if not segs or segs[0] is not p:
                return None
            apps.append((g, segs[1:]))
        if all(len(s) == 0 for _g, s in apps):
            return lambda i: v0
        # guards may mention the length of the list: only when the value does not depend on it
        if not all(closed(g) for g, _s in apps):
            return None
        if all(len(s) <= 1 and all(isinstance(x, One) for x in s) for _g, s in apps):
            vals = [(g, s[0].v) for g, s in apps if s]
            if not all(closed(v) for _g, v in vals):
                return None
            value = subst(self.merge(vals), back)
            cond = fam.cond
            if any(not s for _g, s in apps):
                keep = z3.substitute(z3.simplify(z3.Or(*[g for g, s in apps if s])), *back)
                cond = keep if cond is None else z3.And(cond, keep)
            return lambda i: tuple(v0) + (Fam(z3.IntVal(i) if isinstance(i, int) else i, fam.i, cond, value, ("loop",)),)
        # several elements per iteration: usable by join("") only
        if all(all(isinstance(x, One) and isinstance(x.v, (str, SStr)) for x in s) for _g, s in apps) and fam.cond is None:
            if not all(closed(x.v) for _g, s in apps for x in s):
                return None
            value = subst(self.merge([(g, mkstr([x.v for x in s])) for g, s in apps]), back)
            return lambda i: tuple(v0) + (V.GroupFam(z3.IntVal(i) if isinstance(i, int) else i, fam.i, value),)
        return None

    def unchanged(self, g, x, b):
        """x is b whenever g holds."""
        if same_value(x, b):
            return True
        kinds = ((bool, SBool), (str, SStr), (int, SInt))
        for ks in kinds:
            if isinstance(x, ks) and isinstance(b, ks):
                return self.w.valid(self.ip.cond(self.ip.m.eq(x, b)), [g])
        return False

    # ------------------------------------------------------------------ runs: append a record or extend the last one
    def classify_runs(self, v0, p, finals, fam, I):
        """The invariant: before iteration i the list is the runs of the first i items; it is empty exactly when i = 0
        (every path appends or extends), and the last record is arbitrary."""
        w = self.w
        if v0 or fam.cond is not None:
            raise Unsupported("runs after other elements")
        shape = p.last
        consts = {k: (x.parts[0] if isinstance(x, SStr) else x.e) for k, x in V.record_fields(shape).items()}
        clen = [(p.length, z3.If(I > 0, z3.IntVal(1), z3.IntVal(0)))]
        news, exts = [], []
        for g, segs, rec in finals:
            g = z3.simplify(z3.substitute(g, *clen))
            if not segs or not isinstance(segs[0], Prefix) or segs[0].key != p.key:
                raise Unsupported("runs: shape of the list")
            before = V.record_fields(shape)
            if segs[0].state is not None:
                now = None if segs[0].state is V.POPPED else segs[0].state
            else:
                now = rec
            added = segs[1:]
            if now is None and len(added) == 1 and isinstance(added[0], One):
                now, added = added[0].v, ()
            if now is None or any(not isinstance(x, One) for x in added) or len(added) > 1:
                raise Unsupported("runs: shape of the list")
            fields = V.record_fields(now)
            if set(fields) != set(before):
                raise Unsupported("runs: shape of a record")
            same = all(self.unchanged(g, fields[k], before[k]) for k in fields)
            if added:
                if not same:
                    raise Unsupported("runs: append and extend")
                new = V.record_fields(added[0].v)
                if set(new) != set(before) or any(mentions_const(x, c) for x in new.values() for c in consts.values()):
                    raise Unsupported("runs: appended record")
                news.append((g, new))
            elif same:
                raise Unsupported("runs: neither appended nor extended")
            else:
                piece = {}
                for k, x in fields.items():
                    if self.unchanged(g, x, before[k]):
                        continue
                    if not (isinstance(x, SStr) and not isinstance(x.parts[0], str) and x.parts[0].eq(consts[k])):
                        raise Unsupported("runs: extension of a record: %s: %r -> %r" % (k, before[k], x))
                    rest = mkstr(list(x.parts[1:]))
                    if any(mentions_const(rest, c) for c in consts.values()):
                        raise Unsupported("runs: extension depends on the record")
                    piece[k] = rest
                exts.append((g, piece))
        if not news or not exts:
            raise Unsupported("runs: nothing appended or nothing extended")
        keys = sorted({k for _g, pc in exts for k in pc}, key=str)
        if len(keys) != 1:
            raise Unsupported("runs: several extended fields")
        acc = keys[0]
        piece = self.merge([(g, pc.get(acc, "")) for g, pc in exts])
        new = {k: self.merge([(g, nw[k]) for g, nw in news]) for k in consts}
        ext = z3.simplify(z3.Or(*[g for g, _p in exts]))
        if mentions_const(ext, consts[acc]):
            raise Unsupported("runs: extension depends on the text so far")
        if not w.valid(z3.Not(z3.substitute(ext, (I, z3.IntVal(0))))):
            raise Unsupported("runs: the first item extends")
        back = [(I, fam.i)]
        new = {k: subst(x, back) for k, x in new.items()}
        ext, piece = z3.substitute(ext, *back), subst(piece, back)
        frozen = V.copy_value(shape)

        def known(i):
            n = z3.IntVal(i) if isinstance(i, int) else i
            return (RunFam(RunFold(n, fam.i, consts, new, ext, {acc: piece}), frozen),)
        return known

    # ------------------------------------------------------------------ recursion
    def recursion(self, fn, name, args, kwargs):
        """A function that is already being executed, called on something strictly below: its contract is used."""
        for f2, _n in self.ip.stack:
            if f2 is fn and fn is not None:
                break
        else:
            return NotImplemented
        h = self.w.recursive_call
        if h is None:
            return NotImplemented
        return h(self.ip, fn, name, args, kwargs)
