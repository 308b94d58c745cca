"""Path exploration, path conditions, axioms and folds."""
import itertools
import time

import z3

from .values import *  # noqa: F401,F403
from .values import (_stamps, Elem, DNode, Str, Int, Bool, NONNEG, f_STRIP, f_NORM, SStr, SInt, SBool, Unsupported, PyExc, zs, mkstr,
                     const_str, zstr)
from . import rx, second


class Budget(Exception):
    pass


class Fold:
    """CONCAT: the concatenation of body(i) for 0 <= i < n (strings).   ANY: some 0 <= i < n has body(i) (Bool).
    COUNT: how many have.   Others (JOINF, RUNS, ...) are compared by their components.
    The fold's z3 term is decl(params): params are the enclosing generic indices it depends on."""

    def __init__(self, kind, n, i, body, params, decl, extra=None):
        self.kind, self.n, self.i, self.body, self.params, self.decl, self.extra = kind, n, i, body, params, decl, extra

    def term(self):
        return self.decl(*self.params) if self.params else self.decl()

    def inst(self, args):
        pairs = list(zip(self.params, args))
        if not pairs:
            return self.n, self.body
        return z3.substitute(self.n, *pairs), z3.substitute(self.body, *pairs)

    def at(self, args, t):
        n, b = self.inst(args)
        return z3.substitute(b, (self.i, t))


_subterm_cache = {}
_keep = []


def interesting(e):
    """Set of (decl name, expr) applications that carry axioms, in e (cached)."""
    k = e.get_id()
    r = _subterm_cache.get(k)
    if r is not None:
        return r
    out = {}
    stack = [e]
    seen = set()
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                nm = d.name()
                if t.num_args() or nm.startswith("fold!"):
                    out[i] = t
            stack.extend(t.children())
        elif z3.is_quantifier(t):
            raise Unsupported("quantifier")
    _keep.append(e)
    r = list(out.values())
    _subterm_cache[k] = r
    return r


_query_cache = {}
STATS = {"queries": 0, "cached": 0, "solver_s": 0.0, "unknown": 0}


def free_generics(e, generics):
    """The generic index constants occurring in e."""
    ids = {g.get_id(): g for g in generics}
    out = {}
    stack, seen = [e], set()
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            out[i] = ids[i]
        stack.extend(t.children())
    return [g for g in generics if g.get_id() in out]


class Ctx:
    """Decisions of one exploration level."""

    def __init__(self, prefix, base):
        self.prefix, self.pos, self.trace, self.base = prefix, 0, [], base


_vocab = {}


def vocabulary(f):
    """Names of the uninterpreted symbols of a formula, except constants of uninterpreted sorts."""
    i = f.get_id()
    if i in _vocab:
        return _vocab[i][1]
    out, seen, stack = set(), set(), [f]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and (d.arity() or d.range().kind() != z3.Z3_UNINTERPRETED_SORT):
                out.add(d.name())
            stack.extend(t.children())
    _vocab[i] = (f, out)
    return out


def components(fs):
    """The formulas in groups that share no symbol: the conjunction is satisfiable iff every group is (all sorts involved
    have infinite models; constants of uninterpreted sorts constrain nothing by themselves)."""
    groups = []          # [vocabulary, formulas]
    for f in fs:
        v = vocabulary(f)
        hit = [g for g in groups if g[0] & v] if v else []
        if not hit:
            groups.append([set(v), [f]])
            continue
        g = hit[0]
        g[0] |= v
        g[1].append(f)
        for h in hit[1:]:
            g[0] |= h[0]
            g[1] += h[1]
            groups.remove(h)
    return [g[1] for g in groups]


class World:
    def __init__(self, timeout_ms=4000, deadline=None):
        self.timeout = timeout_ms
        self.deadline = deadline
        self.reset()
        self.marks_known = {}     # mark name -> {key: value}: see contracts
        self.xml_names = None

    # -------------------------------------------------------------- per path state
    def reset(self):
        self.pc = []
        self.folds = []
        self.fold_by_decl = {}
        self.journal = []
        self.start = 10 ** 18
        self.closure_cache = {}
        self.counter = itertools.count()
        self.generics = []
        self.index_terms = [z3.IntVal(0), z3.IntVal(1), z3.IntVal(2)]
        self.ctx = None
        self.effects = []
        self.events = []
        self.excluded = {}
        self.frame_violations = []
        self.inexact = set()
        self.depth = 0

    def fresh(self, name, sort):
        return z3.Const("%s!%d" % (name, next(self.counter)), sort)

    # -------------------------------------------------------------- journal
    def is_fresh(self, obj):
        """Created on the current path: nothing outside of it can see the object, so its writes need not be undone (and
        must not be: the object may be part of the result of the path)."""
        return obj is not None and (getattr(obj, "stamp", 0) or 0) > self.start

    def setitem(self, d, k, v, obj=None):
        if self.is_fresh(obj):
            d[k] = v
            return
        if k in d:
            old = d[k]
            self.journal.append(lambda: d.__setitem__(k, old))
        else:
            self.journal.append(lambda: d.pop(k, None))
        d[k] = v

    def setattr(self, o, k, v, obj=None):
        if self.is_fresh(obj):
            setattr(o, k, v)
            return
        old = getattr(o, k)
        self.journal.append(lambda: setattr(o, k, old))
        setattr(o, k, v)

    def push(self, lst, v):
        lst.append(v)
        self.journal.append(lambda: lst.pop())

    def rollback(self, mark):
        while len(self.journal) > mark:
            self.journal.pop()()

    # -------------------------------------------------------------- axioms
    def closure(self, formulas):
        """The formulas with every axiom instance that concerns their terms."""
        state = (self.trimmed_values, tuple(t.get_id() for t in self.index_terms), tuple(t.get_id() for t in self.generics))
        cache = self.closure_cache.get(state)
        if cache is None:
            if len(self.closure_cache) > 200:
                self.closure_cache.clear()
            cache = self.closure_cache[state] = {}
            _keep.extend(self.index_terms)
            _keep.extend(self.generics)
        out, seen = [], set()
        for f in formulas:
            i = f.get_id()
            if i in seen:
                continue
            group = cache.get(i)
            if group is None:
                group = cache[i] = self.closure_one(f)
            for j, g in group:
                if j not in seen:
                    seen.add(j)
                    out.append(g)
        return out

    def closure_one(self, f0):
        out, seen, done = [], set(), set()
        work = [f0]
        rounds = 0
        while work:
            f = work.pop()
            i = f.get_id()
            if i in seen:
                continue
            seen.add(i)
            out.append((i, f))
            for t in interesting(f):
                if t.get_id() in done:
                    continue
                done.add(t.get_id())
                work.extend(self.axioms_for(t))
            rounds += 1
            if rounds > 4000:
                raise Unsupported("too many axiom instances")
        return out

    def char_of(self, x, i):
        """The character of the text x at i, which is in range."""
        return mkstr([f_char(x, i)])

    def part_of(self, x, a, b):
        """The part of the text x from a to b, both in range."""
        return from_z3(z3.simplify(z3.If(b > a, z3.SubString(x, a, b - a), zstr(""))))

    def axioms_for(self, t):
        nm = t.decl().name()
        if nm in NONNEG:
            return [t >= 0]
        if nm == "fold!":
            return []
        fold = self.fold_by_decl.get(nm)
        if fold is not None:
            return self.fold_axioms(fold, t)
        if nm == "STRIP":
            x = t.arg(0)
            return [z3.Implies(rx.isspace(x), t == zstr("")), z3.Length(t) <= z3.Length(x), z3.Implies(x == zstr(""), t == zstr("")),
                    z3.Not(rx.isspace(t)), z3.Implies(rx.trimmed(x), t == x), rx.trimmed(t), z3.Contains(x, t)]
        if nm == "NORM":
            x = t.arg(0)
            return [z3.Implies(rx.isspace(x), t == zstr("")), z3.Length(t) <= z3.Length(x), z3.Implies(x == zstr(""), t == zstr("")),
                    z3.Not(rx.isspace(t))]
        if nm == "R":
            return []
        if nm == "ndesc":
            return [t >= f_nkids(t.arg(0)), z3.Implies(f_nkids(t.arg(0)) <= 0, t == 0)]
        if nm == "D":
            e = t.arg(0)
            return [z3.Implies(f_nkids(e) <= 0, z3.Not(t))]
        if nm == "has":
            return [z3.Implies(t, f_anyattr(t.arg(0)))]
        if nm == "word":
            return [z3.Implies(z3.And(t.arg(1) >= 0, t.arg(1) < f_nwords(t.arg(0))), z3.Length(t) > 0)]
        if nm == "nwords":
            x = t.arg(0)
            return [z3.Implies(rx.isspace(x), t == 0), z3.Implies(x == zstr(""), t == 0),
                    z3.Implies(t == 0, z3.Or(x == zstr(""), rx.isspace(x)))]
        return []

    def fold_axioms(self, fold, t):
        args = t.children()
        n, body = fold.inst(args)
        if fold.kind == "CONCAT":
            at = lambda k: z3.substitute(body, (fold.i, z3.IntVal(k)))  # noqa: E731
            return [z3.Implies(n <= 0, t == zstr("")), z3.Implies(n == 1, t == at(0))]
        if fold.kind == "ANY":
            w = z3.Const("wit!%s!%d" % (fold.decl.name(), t.get_id()), Int)
            ax = [z3.Implies(t, z3.And(0 <= w, w < n, z3.substitute(body, (fold.i, w))))]
            for g in self.index_terms + self.generics:
                ax.append(z3.Implies(z3.And(0 <= g, g < n, z3.substitute(body, (fold.i, g))), t))
            return ax
        if fold.kind == "COUNT":
            at = lambda k: z3.substitute(body, (fold.i, z3.IntVal(k)))  # noqa: E731
            return [t >= 0, z3.Implies(n <= 0, t == 0), z3.Or(n < 0, t <= n), z3.Implies(n == 1, t == z3.If(at(0), 1, 0)),
                    (t > 0) == self.fold("ANY", n, fold.i, body)]
        return []

    # -------------------------------------------------------------- solver
    def check(self, formulas, timeout=None):
        """"unsat", "sat" or "unknown" for the conjunction (with axioms)."""
        if self.deadline and time.monotonic() > self.deadline:
            raise Budget()
        fs = self.closure(formulas)
        for f in fs:
            if z3.is_false(f):
                return "unsat"
        answer = "sat"
        for part in components(fs):
            r = self.check_part(part, timeout)
            if r == "unsat":
                return r
            if r == "unknown":
                answer = r
        return answer

    def check_part(self, fs, timeout):
        key = frozenset(f.get_id() for f in fs)
        if key in _query_cache:
            STATS["cached"] += 1
            return _query_cache[key]
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        s.add(*fs)
        t0 = time.monotonic()
        STATS["queries"] += 1
        r = str(s.check())
        STATS["solver_s"] += time.monotonic() - t0
        if r == "unknown":
            STATS["unknown"] += 1
        elif r == "unsat":
            second.record(s)
        _keep.extend(fs)
        _query_cache[key] = r
        return r

    def model(self, formulas, timeout=None):
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        s.add(*self.closure(formulas))
        return s.model() if s.check() == z3.sat else None

    def valid(self, e, extra=(), timeout=None):
        """True when the path condition implies e."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        return self.check(self.pc + list(extra) + [z3.Not(e)], timeout) == "unsat"

    def feasible(self, extra=()):
        return self.check(self.pc + list(extra)) != "unsat"

    # -------------------------------------------------------------- decisions
    def assume(self, e):
        self.pc.append(e)

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = e.get_id()
        ne = z3.simplify(z3.Not(e))
        for p in self.pc:
            if p.get_id() == i:
                return True
            if p.get_id() == ne.get_id():
                return False
        c = self.ctx
        if c is None:
            raise Unsupported("decision outside exploration")
        if c.pos < len(c.prefix):
            b, forced = c.prefix[c.pos]
            c.pos += 1
            c.trace.append((b, forced))
            if not forced:
                self.pc.append(e if b else ne)
            else:
                self.pc.append(e if b else ne)
            return b
        can_t = self.feasible([e])
        can_f = self.feasible([ne]) if can_t else True
        c.pos += 1
        if can_t and can_f:
            c.trace.append((True, False))
            self.pc.append(e)
            return True
        b = can_t
        c.trace.append((b, True))
        self.pc.append(e if b else ne)
        return b

    def explore(self, thunk, max_paths=400):
        """All paths of thunk() from the current state.  Yields (guards, outcome, effects); state is rolled back after
        each.  outcome = ("val", v) | ("exc", PyExc) | any tuple thunk returns via ("...", ...)."""
        results = []
        saved_ctx = self.ctx
        base = len(self.pc)
        jmark = len(self.journal)
        emark, evmark = len(self.effects), len(self.events)
        prefix = []
        count = 0
        while prefix is not None:
            count += 1
            if count > max_paths:
                self.ctx = saved_ctx
                raise Unsupported("more than %d paths" % max_paths)
            if self.deadline and time.monotonic() > self.deadline:
                self.ctx = saved_ctx
                raise Budget()
            self.ctx = Ctx(prefix, base)
            depth = self.depth
            start, self.start = self.start, next(_stamps)
            try:
                try:
                    out = ("val", thunk())
                except PyExc as e:
                    out = ("exc", e)
                guards = self.pc[base:]
                snap = self.snapshot()
                results.append((guards, out, self.effects[emark:], self.events[evmark:], snap))
            finally:
                trace = self.ctx.trace
                self.rollback(jmark)
                del self.pc[base:]
                del self.effects[emark:]
                del self.events[evmark:]
                self.depth = depth
                self.start = start
                self.ctx = saved_ctx
            prefix = None
            for k in range(len(trace) - 1, -1, -1):
                b, forced = trace[k]
                if b and not forced:
                    prefix = trace[:k] + [(False, False)]
                    break
        return results

    def snapshot(self):
        return None

    # -------------------------------------------------------------- constants under the path condition
    def const_int(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if free_generics(e, self.generics):
            return None
        for p in self.pc:
            if z3.is_eq(p):
                a, b = p.children()
                if a.get_id() == e.get_id() and z3.is_int_value(b):
                    return b.as_long()
                if b.get_id() == e.get_id() and z3.is_int_value(a):
                    return a.as_long()
        if not self.mentions(e):
            return None
        m = None
        key = ("ci", frozenset(p.get_id() for p in self.pc), e.get_id())
        if key in _query_cache:
            return _query_cache[key]
        r = None
        m = self.model(self.pc)
        if m is not None:
            v = m.eval(e, model_completion=True)
            if z3.is_int_value(v) and self.valid(e == v):
                r = v.as_long()
        _query_cache[key] = r
        _keep.append(e)
        return r

    def mentions(self, e):
        ids = {t.get_id() for t in interesting(e)} or {e.get_id()}
        for p in self.pc:
            if any(t.get_id() in ids for t in interesting(p)) or e.get_id() == p.get_id():
                return True
        return False

    # -------------------------------------------------------------- folds
    def generic(self):
        d = len(self.generics)
        return z3.Const("I!%d" % d, Int)

    def fold(self, kind, n, i, body, extra=None):
        """The z3 term for a fold, reusing an existing one that is provably the same."""
        n = z3.simplify(n)
        params = free_generics(z3.And(n >= 0, body if body.sort() == Bool else body == body), self.generics) if self.generics else []
        params = [g for g in params if g.get_id() != i.get_id()]
        for f in self.folds:
            if f.kind != kind or f.extra != extra or f.body.sort() != body.sort():
                continue
            if len(f.params) != len(params):
                continue
            for perm in ([params] if len(params) < 2 else itertools.permutations(params)):
                fn, fb = f.inst(list(perm))
                if self.same_fold(fn, f.i, fb, n, i, body):
                    return f.decl(*perm) if perm else f.decl()
        name = "fold!%d" % len(self.folds)
        sort = {"CONCAT": Str, "ANY": Bool, "COUNT": Int}.get(kind, Str)
        decl = z3.Function(name, *([Int] * len(params) + [sort])) if params else z3.Function(name, sort)
        f = Fold(kind, n, i, body, params, decl, extra)
        self.folds.append(f)
        self.fold_by_decl[name] = f
        return f.term()

    def same_fold(self, n1, i1, b1, n2, i2, b2):
        b1 = z3.substitute(b1, (i1, i2)) if i1.get_id() != i2.get_id() else b1
        if n1.get_id() == n2.get_id() and b1.get_id() == b2.get_id():
            return True
        b1s, b2s = z3.simplify(b1), z3.simplify(b2)
        if not (n1.get_id() == n2.get_id() or self.valid(n1 == n2)):
            return False
        if b1s.get_id() == b2s.get_id():
            return True
        self.generics.append(i2) if all(g.get_id() != i2.get_id() for g in self.generics) else self.generics.append(i2)
        try:
            return self.valid(b1s == b2s, [0 <= i2, i2 < n2])
        finally:
            self.generics.pop()
