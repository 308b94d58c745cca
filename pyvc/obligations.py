"""Proof obligations: the code of /repo, executed symbolically, against the specification, path by path.

A path is a conjunction of decisions about the element (its children, attributes, text).  Paths are enumerated
completely: loops are summarised by folds that hold for every number of iterations, calls by contracts."""
import json
import time
import traceback

import z3

from . import values as V
from .contracts import Code, Engine, ROOT
from .values import Unsupported, PyExc, VObj, SStr, mkstr, zs, zstr, same_value
from .world import Budget, STATS


class Path:
    """Outcome of one path: status proved, refuted or unknown, and what was compared."""

    def __init__(self, status, kind, detail="", model=None, exact=True):
        self.status, self.kind, self.detail, self.model, self.exact = status, kind, detail, model, exact


class Outcome:
    """The result of one obligation."""

    def __init__(self, name):
        self.name = name
        self.paths = []
        self.error = None         # why the obligation could not be generated (unsupported construct, budget)
        self.frame = []
        self.events = []
        self.functions = set()
        self.contracts = {}
        self.inexact = set()
        self.wall = 0.0
        self.hints = []

    @property
    def status(self):
        if self.error:
            return "unsupported"
        if any(p.status == "refuted" for p in self.paths):
            return "refuted"
        if any(p.status != "proved" for p in self.paths):
            return "unknown"
        if not self.paths:
            return "unsupported"
        return "proved"

    def to_dict(self):
        bad = [p for p in self.paths if p.status != "proved"]
        return {"name": self.name, "status": self.status, "paths": len(self.paths), "kinds": sorted({p.kind for p in self.paths}),
                "detail": self.error or "; ".join("%s: %s" % (p.kind, p.detail) for p in bad[:4]),
                "bad": [{"kind": p.kind, "status": p.status, "detail": p.detail, "model": p.model, "exact": p.exact} for p in bad[:12]],
                "frame": sorted(set(self.frame)), "events": sorted({str(e) for e in self.events}), "functions": sorted(self.functions),
                "contracts": self.contracts, "inexact": sorted(self.inexact), "wall": round(self.wall, 2), "hints": self.hints}


def run_pair(w, code_thunk, spec_thunk, exc_code, exc_spec):
    """Outcome of the code and of the specification on the current path, compared."""
    ip = w.ip

    def one(thunk, exc):
        try:
            return ("val", thunk())
        except PyExc as e:
            v = e.val
            if isinstance(v, VObj) and isinstance(v.cls, type) and issubclass(v.cls, exc):
                child = v.fields.get("child")
                return ("child", child, ip.m.str_(v)) if child is not None else ("own", None, ip.m.str_(v))
            return ("other", v, describe(v))

    out = one(code_thunk, exc_code)
    w.setattr(w, "effects", [])
    want = one(spec_thunk, exc_spec)
    return compare(w, out, want)


def describe(v):
    if isinstance(v, VObj):
        return "%s%r" % (getattr(v.cls, "__name__", str(v.cls)), tuple(v.fields.get("args", ()))[:2])
    return type(v).__name__


def compare(w, out, want):
    if want[0] == "other":
        raise Unsupported("the specification failed: %s" % (want[2],))
    if out[0] == "val" and want[0] == "val":
        return same(w, out[1], want[1], "value")
    if out[0] != "val" and want[0] != "val":
        if out[0] == "other":
            return failed(w, "exception", "raises %s where %s is specified" % (out[2], w.code.Arity.__name__))
        if out[0] == "child":
            return Path("proved", "error of a child")
        r = same(w, out[2], want[2], "message")
        if r.status == "proved":
            return Path("proved", "error" if want[0] == "own" else "error of a child")
        return r
    if out[0] == "val":
        return failed(w, "exception", "returns %s where the specification raises %s" % (short(out[1]), short(want[2])))
    return failed(w, "exception", "raises %s %s where the specification returns %s" % (describe_out(out), short(out[2]), short(want[1])))


def describe_out(out):
    return {"own": "InvalidNumberOfChildrenError", "child": "the error of a child", "other": ""}[out[0]]


def short(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


def failed(w, kind, detail):
    r = w.check(w.pc)
    if r == "unsat":
        return Path("proved", "unreachable")
    m, exact = witness_model(w, [])
    return Path("refuted" if r == "sat" else "unknown", kind, detail, m, exact)


def same(w, a, b, kind):
    if a is None or not isinstance(a, (str, SStr, V.VIte)):
        if same_value(a, b):
            return Path("proved", kind)
        return failed(w, kind, "returns %s, not a string" % short(a))
    if same_value(a, b):
        return Path("proved", kind)
    za, zb = w.string_of(a), w.string_of(b)
    r = w.check(w.pc + [za != zb])
    if r != "unsat":
        lemmas = w.fold_lemmas([za, zb])
        if lemmas and w.check(w.pc + [za != zb] + lemmas) == "unsat":
            r = "unsat"
    if r == "unsat":
        return Path("proved", kind)
    m, exact = witness_model(w, [za != zb])
    return Path("refuted" if r == "sat" else "unknown", kind, "%s where the specification gives %s" % (short(a), short(b)), m, exact)


INEXACT = ("NORM", "STRIP", "WSUB", "fold!", "SUB!", "word", "nwords", "runs!", "first!", "IntToStr", "wit!", "CLS!")


def witness_model(w, extra):
    """What the model says about the root: used to build inputs for the replay."""
    out = {}
    exact = True
    try:
        fs = w.pc + list(extra)
        names = set()
        seen = set()
        stack = list(fs)
        terms = []
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t):
                names.add(t.decl().name())
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (t.num_args() or t.decl().name() in ("r",)):
                    terms.append(t)
                stack.extend(t.children())
        exact = not any(n.startswith(k) for n in names for k in INEXACT)
        m = w.model(fs)
        if m is not None:
            vals = {}
            for t in terms:
                if t.sort() == V.Elem:
                    continue
                v = m.eval(t, model_completion=False)
                key = canonical(t, m)
                if z3.is_string_value(v):
                    vals[key] = decode(v)
                elif z3.is_int_value(v):
                    vals[key] = v.as_long()
                elif z3.is_true(v) or z3.is_false(v):
                    vals[key] = z3.is_true(v)
            out = vals
    except Exception:  # noqa: B902  (a model is a hint only)
        pass
    return out, exact


def canonical(t, m):
    """The term with its indices and texts evaluated: "R(kid(r,2),False)"."""
    if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return "%s(%s)" % (t.decl().name(), ",".join(canonical(c, m) for c in t.children()))
    if t.sort() == V.Elem:
        return str(t)
    v = m.eval(t, model_completion=True)
    if z3.is_string_value(v):
        return json.dumps(decode(v))
    return str(v)


def decode(v):
    try:
        return V.const_str(v)
    except Exception:  # noqa: B902
        return None


def obligation(name, build, timeout_ms=4000, deadline=None):
    """build() -> (engine, thunk); the thunk returns a Path."""
    o = Outcome(name)
    t0 = time.monotonic()
    w = None
    try:
        w, thunk = build()
        for guards, out, effects, events, _ in w.explore(thunk):
            if out[0] == "exc":
                o.paths.append(Path("unknown", "escape", "an exception escaped the comparison: %s" % describe(out[1].val)))
            else:
                o.paths.append(out[1])
            for e in events:
                o.events.append(e)
        if not any(p.kind not in ("unreachable",) for p in o.paths):
            o.error = "vacuous: no reachable path"
    except Unsupported as e:
        o.error = "unsupported: %s" % (e,)
        o.trace = traceback.format_exc(limit=-14)
    except Budget:
        o.error = "budget exhausted"
    except PyExc as e:
        o.error = "unsupported: exception %s while setting up" % describe(e.val)
    except (RecursionError, z3.Z3Exception) as e:
        o.error = "unsupported: %s" % type(e).__name__
    if w is not None:
        o.frame = list(w.frame_violations)
        o.functions = set(w.ip.used)
        o.contracts = dict(w.contracts_used)
        o.inexact = set(w.inexact)
    o.wall = time.monotonic() - t0
    return o


# ---------------------------------------------------------------------------------------- render contracts

def render_contract(code, tag, inner, deadline=None, name=None, value=None, label=None, setup=None, require=None,
                    judge=None, count=None):
    """The converter of an element named `tag` computes spec.render, for every such element."""
    lab = label or "render[%s]%s" % (tag, "[inside a table]" if inner else "")

    def build():
        w = Engine(code, 4000, deadline)
        w.root_inner = inner
        w.mark = mark_of(code) if tag == "mtable" else None
        if setup:
            setup(w)

        def thunk():
            el = w.make_root(tag, name=name, value=value, count=count)
            if require:
                require(w)
            spec_el = el
            a = w.new_adapter()

            def run():
                c = w.ip.call(w.ip.getattr(a, "to_latex_converter"), [el], {})
                r = w.ip.call(w.ip.getattr(c, "convert"), [], {})
                w.check_adapter(a)
                return r
            if judge is not None:
                return judge(w, run)
            return run_pair(w, run, lambda: w.ip.call(code.spec.render, [spec_el, inner], {}), code.Arity, code.spec.ArityError)
        return w, thunk
    return obligation(lab, build, deadline=deadline)


_marks = {}


def mark_of(code):
    """The attribute by which an enclosing table marks nested tables: found by running a table's conversion with a
    generic nested table and reading off the write (None when there is no such write)."""
    if "m" in _marks:
        return _marks["m"]
    found = None
    try:
        w = Engine(code, 4000, None)
        w.root_inner = False
        w.mark = None

        def thunk():
            el = w.make_root("mtable")
            a = w.new_adapter()
            try:
                w.ip.call(w.ip.getattr(a, "to_latex_converter"), [el], {})
            except PyExc:
                pass
            return [f[2:] for f in w.effects]
        ks = set()
        for g, out, *_ in w.explore(thunk):
            if out[0] == "val":
                ks |= set(out[1])
        if len(ks) == 1:
            found = ks.pop()
    except (Unsupported, Budget):
        found = None
    _marks["m"] = found
    return found


# ---------------------------------------------------------------------------------------- tokens

def table_keys(code):
    """Every text that some table of the code or of the specification knows: dictionaries, sets and lists of at least
    20 strings reachable from a module or a class of it."""
    import types
    keys = set()
    mods = [m for n, m in list(__import__("sys").modules.items()) if n.split(".")[0] == "mathml_to_latex"] + [code.spec]
    seen = set()

    def add(x, depth):
        if id(x) in seen or depth > 3:
            return
        seen.add(id(x))
        if isinstance(x, (dict, set, frozenset, list, tuple)):
            ks = [k for k in x if isinstance(k, str)]
            if len(ks) >= 20:
                keys.update(ks)
            if isinstance(x, dict):
                for v in x.values():
                    if isinstance(v, (dict, set, frozenset)):
                        add(v, depth + 1)
        elif isinstance(x, types.MappingProxyType):
            add(dict(x), depth + 1)
        elif isinstance(x, type):
            for v in vars(x).values():
                add(v, depth + 1)
    for m in mods:
        for v in list(vars(m).values()):
            add(v, 0)
    return keys


TOKENS = ("mi", "mo", "mn")


def exclude(w, term, keys):
    w.exclude_terms[term.get_id()] = (term, keys)


def token_symbolic(code, tag, keys, inner=False, deadline=None, judge=None, label="render"):
    """Any text that no table knows (neither as it is nor normalised)."""
    keys = frozenset(keys) | {""} if "" in keys else frozenset(keys)

    def setup(w):
        v = V.f_value(ROOT)
        exclude(w, v, keys)
        exclude(w, V.f_NORM(v), keys)
    return render_contract(code, tag, inner, deadline, label="%s[%s]: texts in no table" % (label, tag), setup=setup, judge=judge)


def token_spaced(code, tag, key, keys, inner=False, deadline=None):
    """Texts that are not in a table as they are, but whose normal form is the key."""
    def setup(w):
        exclude(w, V.f_value(ROOT), keys)

    def require(w):
        w.pc.append(V.f_NORM(V.f_value(ROOT)) == zstr(key))
    return render_contract(code, tag, inner, deadline, label="render[%s]: texts that normalise to %a" % (tag, key), setup=setup,
                           require=require)


def token_key(code, tag, key, inner=False, deadline=None, judge=None):
    return render_contract(code, tag, inner, deadline, value=key, label="render[%s]: text %a" % (tag, key), judge=judge)


def ident_contract(code, mode, key, keys, deadline=None, judge=None):
    """MI(e).convert() for an element e without attributes and children equals spec.lone_character of its text.
    mode: "other" (texts in no table, neither as they are nor normalised), "key" (the text is the key) or "norm" (the
    text is in no table but its normal form is the key)."""
    label = {"other": "lone identifier: texts in no table", "key": "lone identifier: text %a" % (key,),
             "norm": "lone identifier: other texts that normalise to %a" % (key,)}[mode]

    def build():
        w = Engine(code, 4000, deadline)
        w.trimmed_values = False
        w.ident_contract = False
        c = z3.Const("text", V.Str)
        if mode == "other":
            exclude(w, c, keys)
            exclude(w, V.f_NORM(c), keys)
        if mode == "norm":
            exclude(w, c, keys)

        def thunk():
            v = key if mode == "key" else SStr((c,))
            if mode == "norm":
                w.pc.append(V.f_NORM(c) == zstr(key))
            cls = code.IdentElement
            el = w.ip.call(cls, [], {"name": "mi", "value": v, "children": V.VList(), "attributes": V.VDict()}) \
                if cls is code.Element else w.ip.call(cls, [v], {})
            for n, x in (("name", "mi"), ("value", v)):
                if not same_value(w.ip.force(w.ip.getattr(el, n)), x):
                    raise Unsupported("the identifier element does not carry its %s" % n)
            w.set_stamp(el, 0)
            def run():
                return w.ip.call(w.ip.getattr(w.ip.call(code.MI, [el], {}), "convert"), [], {})
            if judge is not None:
                return judge(w, run)
            return run_pair(w, run, lambda: w.ip.call(code.spec.lone_character, [v], {}), code.Arity, code.spec.ArityError)
        return w, thunk
    return obligation(label, build, deadline=deadline)



if __name__ == "__main__":
    import sys
    sys.setrecursionlimit(10000)
    code = Code()
    for arg in sys.argv[1:]:
        tag, _, inn = arg.partition(":")
        o = render_contract(code, tag, inn == "in", time.monotonic() + 300)
        d = o.to_dict()
        print(d["name"], d["status"], d["paths"], "paths", d["wall"], "s", d["kinds"], d["detail"][:1500])
        if o.error:
            print(getattr(o, "trace", ""))
        for b in d["bad"][:3]:
            print("    ", b)
        print("   ", STATS, d["contracts"], d["frame"], d["events"])
