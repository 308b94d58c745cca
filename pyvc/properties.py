"""Properties: which obligations decide each of them, run in parallel, and what a failed obligation means.

decide(pid, tier, seed, budget) -> (results, info).  A result is {name, status, detail, witness?}:
  proved        every path of the obligation was discharged
  refuted       the solver has a counter-model in which only exactly modelled terms occur
  unknown       not discharged (time, an inexact counter-model, or a construct that is not modelled)."""
import multiprocessing
import os
import sys
import time

from . import balance as B
from . import dom
from . import ground
from . import obligations as O
from . import repair
from . import replay
from . import second
from .contracts import Code

sys.setrecursionlimit(10000)

CONTAINERS = ["math", "msqrt", "mfenced", "mfrac", "mroot", "maction", "menclose", "merror", "mphantom", "msup", "msub",
              "msubsup", "mmultiscripts", "munderover", "munder", "mover", "mtable", "mtr", "other"]
TAGS = CONTAINERS + ["mi", "mo", "mn", "mtext"]
EXPENSIVE = ("mmultiscripts", "mfenced", "mtext", "mtable")

RENDER = {
    "C02": ["other"], "C04": ["msup", "msub", "msubsup"], "C05": ["mfrac", "mroot", "msqrt"], "C06": ["munder", "mover", "munderover"],
    "C07": ["mmultiscripts"], "C11": ["menclose"], "C12": ["maction", "merror", "mphantom"], "C15": ["mtext"], "C01": ["math"],
}
TOKEN = {"C13": ["mi"], "C14": ["mo", "mn"]}

_code = None


def code():
    global _code
    if _code is None:
        _code = Code()
    return _code


_keys = None


def keys():
    global _keys
    if _keys is None:
        _keys = O.table_keys(code())
    return _keys


# ------------------------------------------------------------------------------------ units
# A unit is (weight, kind, args); it runs in a worker and yields Outcomes.

def u_render(tag, inner, deadline):
    o = (other(inner, deadline) if tag == "other" else
         token(tag, inner, deadline) if tag in O.TOKENS else O.render_contract(code(), tag, inner, deadline))
    if tag not in O.TOKENS:
        probe(o, lambda n, d: other(inner, d, count=n) if tag == "other" else O.render_contract(code(), tag, inner, d, count=n))
    return [o]


def probe(o, instance):
    """Counter-models of an obligation that was not discharged are sought on its instances with 0 to 4 children, in
    which loops over the children are executed and no fold occurs.  They are used for failing inputs only."""
    o.probes = []
    if o.status == "proved":
        return
    t0 = time.monotonic()
    for n in (2, 1, 3, 0, 4):
        if time.monotonic() - t0 > 20:
            break
        d = instance(n, time.monotonic() + 8)
        for b in d.to_dict()["bad"]:
            o.probes.append(dict(b, kind=b["kind"], children=n))


def token(tag, inner, deadline):
    o = O.token_symbolic(code(), tag, keys(), inner, deadline)
    if inner:
        o.name += " [inside a table]"
    return o


def other(inner, deadline, judge=None, count=None):
    import z3
    from . import values as V
    name = V.SStr((V.f_name(O.ROOT),))

    def require(w):
        for k in code().spec.KNOWN:
            w.pc.append(V.f_name(O.ROOT) != V.zstr(k))
    return O.render_contract(code(), "other", inner, deadline, name=name, require=require,
                             label="render[any other name]%s" % ("[inside a table]" if inner else ""), judge=judge, count=count)


def u_fenced(tables, inner, deadline):
    import z3
    from . import values as V

    def require(w):
        d = V.f_D(O.ROOT, V.zstr("mtable"))
        w.pc.append(d if tables else z3.Not(d))
    o = O.render_contract(code(), "mfenced", inner, deadline, require=require,
                          label="render[mfenced %s an mtable below]%s" % ("with" if tables else "without", "[inside a table]" if inner else ""))
    probe(o, lambda n, d: O.render_contract(code(), "mfenced", inner, d, require=require, count=n))
    return [o]


def u_keys(tag, mode, ks, deadline):
    out = []
    for k in ks:
        if mode == "key":
            out.append(O.token_key(code(), tag, k, False, deadline))
        else:
            out.append(O.token_spaced(code(), tag, k, keys(), False, deadline))
        out[-1].key = k
    return out


def u_ident(mode, ks, deadline):
    return [O.ident_contract(code(), mode, k, keys(), deadline) for k in ks]


def u_balance(tag, inner, deadline):
    if tag == "other":
        out = [other(inner, deadline, B.judge)]
    elif tag in O.TOKENS:
        out = [O.token_symbolic(code(), tag, keys(), inner, deadline, B.judge)]
    else:
        out = [O.render_contract(code(), tag, inner, deadline, judge=B.judge)]
    if tag not in O.TOKENS:
        probe(out[0], lambda n, d: other(inner, d, B.judge, n) if tag == "other" else
              O.render_contract(code(), tag, inner, d, judge=B.judge, count=n))
    out[0].name = "balanced " + out[0].name
    return out


def u_balance_keys(tag, ks, deadline):
    out = []
    for k in ks:
        out.append(O.token_key(code(), tag, k, False, deadline, B.judge))
        out[-1].name = "balanced " + out[-1].name
        out[-1].key = k
    return out


def u_balance_ident(ks, deadline):
    out = []
    for k in ks:
        out.append(O.ident_contract(code(), "other" if k is None else "key", k or "", keys(), deadline, B.judge))
        out[-1].name = "balanced " + out[-1].name
        out[-1].key = k
    return out


def u_frame(tag, inner, deadline):
    if tag == "other":
        out = [other(inner, deadline, ran)]
    elif tag in O.TOKENS:
        out = [O.token_symbolic(code(), tag, keys(), inner, deadline, ran)]
    else:
        out = [O.render_contract(code(), tag, inner, deadline, judge=ran)]
    out[0].name = "frame of " + out[0].name
    return out


def ran(w, run):
    """Runs the code on the current path; what it wrote is judged afterwards."""
    from .values import PyExc
    try:
        run()
    except PyExc:
        pass
    return O.Path("proved", "ran")


def u_frame_keys(tag, ks, deadline):
    out = [O.token_key(code(), tag, k, False, deadline, ran) for k in ks]
    for o in out:
        o.name = "frame of " + o.name
    return out


def u_reader(deadline):
    return dom.reader_obligation(code(), deadline)


def u_document(deadline):
    return [dom.document_obligation(code(), deadline)[0]]


def u_rewriting(which, deadline):
    _o, found = dom.document_obligation(code(), deadline)
    return dom.rewriting_obligations(code(), found, which)


def u_repair(which, deadline):
    c = code()

    def soon():
        return min(deadline or 1e18, time.monotonic() + 60)
    if which == "total":
        return [repair.total_obligation(c, True, soon()), repair.total_obligation(c, False, soon())]
    if which == "rest":
        return [repair.rest_obligation(c, soon())]
    return [repair.effect_obligation(c, after, soon()) for after in (">", " ")]


def u_ground(cs, deadline):
    return ground.outcomes(cs)


def u_symbols(tag, cs, deadline):
    out = []
    for c in cs:
        out.append(O.token_key(code(), tag, c, False, deadline, ground.judge_of(tag, c)))
        out[-1].name = "meaning <%s> U+%04X, any attributes" % (tag, ord(c))
        out[-1].key = c
    return out


UNITS = {"render": u_render, "fenced": u_fenced, "keys": u_keys, "ident": u_ident, "balance": u_balance,
         "balance_keys": u_balance_keys, "balance_ident": u_balance_ident, "frame": u_frame, "frame_keys": u_frame_keys,
         "reader": u_reader, "document": u_document, "rewriting": u_rewriting, "repair": u_repair, "ground": u_ground, "symbols": u_symbols}


def chunks(xs, n):
    xs = list(xs)
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def both(tags):
    return [("render", t, i) for t in tags for i in (False, True)]


def norm_ok(k):
    """Keys that a normalised text can be."""
    return k == code().spec.norm(k)


def units(pid):
    if pid in RENDER:
        us = both(RENDER[pid])
        if pid == "C15":
            us += ident_units()
        if pid == "C01":
            us += [("document",), ("rewriting", "specified")]
        return us
    if pid in ("C08", "C09"):
        return [("fenced", pid == "C09", i) for i in (False, True)]
    if pid == "C03":
        return both(TAGS) + [("document",)]
    if pid == "C16":
        from spec import unicode_oracle as U
        cs = sorted(U.expected())
        return ([("symbols", t, x) for t in O.TOKENS for x in chunks(cs, 60 if t == "mi" else 300)] +
                [("ground", x) for x in chunks(cs, 300)])
    if pid == "C17":
        return [("reader",), ("rewriting", "specified")]
    if pid == "C18":
        return [("document",), ("rewriting", None)]
    if pid == "C19":
        return [("document",), ("rewriting", "one line"), ("repair", "total"), ("repair", "effect"), ("repair", "rest")]
    if pid == "C20":
        ks = sorted(k for k in keys() if norm_ok(k) and not set(k) & set("{}\\"))
        return ([("balance", t, i) for t in TAGS for i in (False, True)] +
                [("balance_keys", t, c) for t in O.TOKENS for c in chunks(ks, 60 if t == "mi" else 400)] +
                [("balance_ident", c) for c in chunks([None] + sorted(k for k in keys() if not set(k) & set("{}\\")), 200)])
    if pid == "C21":
        return [("frame", t, i) for t in TAGS for i in (False, True)] + [("reader",), ("document",), ("repair", "total")]
    if pid == "C10":
        return both(["mtable", "mtr"]) + both([t for t in CONTAINERS if t not in ("mtable", "mtr")])
    if pid in TOKEN:
        us = both(TOKEN[pid])
        for t in TOKEN[pid]:
            n = 60 if t == "mi" else 400
            ks = sorted(k for k in keys() if norm_ok(k))      # a trimmed text is never another key
            us += [("keys", t, m, c) for m in ("key", "spaced") for c in chunks(ks, n)]
        return us
    return []


def ident_units():
    us = [("ident", "other", [""])]
    ks = sorted(keys())
    us += [("ident", "key", c) for c in chunks(ks, 200)]
    us += [("ident", "norm", c) for c in chunks([k for k in ks if norm_ok(k)], 200)]
    return us


# ------------------------------------------------------------------------------------ running

_deadline = None


def run_unit(args):
    i, unit = args
    t0 = time.monotonic()
    from .world import STATS
    s0 = dict(STATS, **second.COUNT)
    try:
        out = [dict(o.to_dict(), **{k: getattr(o, k, None) for k in ("key", "witness", "known", "probes")}) for o in UNITS[unit[0]](*unit[1:], _deadline)]
    except Exception as e:  # noqa: B902  (an error of the machinery is never a violation)
        import traceback
        out = [{"name": "%s%r" % (unit[0], unit[1:3]), "status": "unsupported", "detail": "error of the verifier: %s: %s" % (type(e).__name__, e),
                "bad": [], "paths": 0, "frame": [], "events": [], "functions": [], "contracts": {}, "inexact": [], "wall": 0, "kinds": [],
                "trace": traceback.format_exc(limit=-6)}]
    second.flush()
    if second.COUNT["contradicted"]:
        for d in out:
            if d["status"] == "proved":
                d.update(status="unsupported", detail="z3 and cvc5 contradict each other")
    now = dict(STATS, **second.COUNT)
    return i, out, {k: now[k] - s0.get(k, 0) for k in now}, time.monotonic() - t0


def weight(u):
    if u[0] == "fenced" or u[0] == "render" and u[1] in EXPENSIVE:
        return 0
    return 1


def run_all(us, budget):
    """Outcomes of all units: {index: [dict]}, and solver statistics."""
    global _deadline
    t0 = time.monotonic()
    _deadline = t0 + budget * 0.9
    code()
    keys()
    O.mark_of(code())
    order = sorted(range(len(us)), key=lambda i: weight(us[i]))
    second.flush()
    from .world import STATS
    res, stats = {}, dict(STATS, **second.COUNT)
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(min(8, max(1, len(us)), os.cpu_count() or 8))
    try:
        it = pool.imap_unordered(run_unit, [(i, us[i]) for i in order], chunksize=1)
        while len(res) < len(us):
            left = t0 + budget - time.monotonic()
            if left <= 0:
                break
            try:
                i, out, st, _t = it.next(timeout=left)
            except multiprocessing.TimeoutError:
                break
            except StopIteration:
                break
            res[i] = out
            for k in stats:
                stats[k] += st.get(k, 0)
    finally:
        pool.terminate()
    stats["solver_s"] = round(stats["solver_s"], 2)
    return res, stats


# ------------------------------------------------------------------------------------ projection

PATHS = ("wellformed", "repaired", "malformed")


def relevant(pid, b, bad=()):
    """Whether a path that was not discharged matters to the property: True, False, or None when it only keeps the
    obligation from being discharged."""
    kind, detail = b["kind"], b["detail"] or ""
    if kind.startswith(PATHS):
        return relevant_document(pid, *kind.partition(": ")[::2], bad)
    if kind == "escape":
        return True
    if pid == "C03":
        return kind in ("exception", "message")
    if pid == "C10e":
        return False
    if kind == "message":
        return False
    if kind == "exception" and pid not in ("C16", "C17"):
        return "where the specification returns" in detail
    return True


def relevant_document(pid, doc, what, bad):
    """A path of the document obligation: of a document that is well-formed, repaired or malformed; `what` is empty for
    a path that parses or repairs otherwise than specified, else it tells how the outcome differs."""
    if pid == "C19":
        return not what or doc == "repaired" and what != "message" and not any(b["kind"] == "wellformed: " + what for b in bad)
    if pid == "C18":
        return None
    if doc != "wellformed":
        return False
    if not what:
        return None
    if pid == "C03":
        return what in ("exception", "message")
    return what != "message"


def project(pid, unit, d):
    """(status, detail, bad paths) of an outcome for this property."""
    if d.get("known"):
        return "known finding", d["detail"], []
    if pid == "C21":
        what = sorted(set(d["frame"]) | set(d["events"]))
        if what:
            return "unknown", "the frame condition fails: " + "; ".join(what[:6]), []
        return ("unknown", d["detail"], []) if d["status"] == "unsupported" else ("proved", "", [])
    if d["status"] == "proved":
        return "proved", "", []
    if d["status"] == "unsupported":
        return "unknown", d["detail"], []
    p = pid
    if pid == "C10" and not (unit[0] == "render" and unit[1] in ("mtable", "mtr")):
        p = "C10e"
    verdicts = [(relevant(p, b, d["bad"]), b) for b in d["bad"]]
    bad = [b for v, b in verdicts if v]
    if not bad:
        if any(v is None for v, b in verdicts):
            return "unknown", d["detail"], []
        return "proved", "", []
    exact = any(b["status"] == "refuted" and b["exact"] for b in bad)
    return ("refuted" if exact else "unknown"), "; ".join("%s: %s" % (b["kind"], b["detail"]) for b in bad[:3]), bad


def tag_of(unit):
    return "mfenced" if unit[0] == "fenced" else "mtext" if unit[0] in ("ident", "balance_ident") else unit[1]


DOCUMENT_UNITS = ("reader", "document", "rewriting", "repair", "ground")


def find_witness(pid, unit, d, bad):
    """(a failing input or None, whether exact counter-models were replayed and did not fail)"""
    if d.get("witness"):
        return d["witness"], False
    if unit[0] in DOCUMENT_UNITS:
        for b in bad[:6]:
            w = replay.document_witness(pid, unit, b["model"])
            if w is not None:
                return w, False
        return None, unit[0] == "rewriting"
    tested = False
    for b in sorted(bad, key=lambda b: not b["exact"])[:6]:
        w, t = replay.witness(pid, tag_of(unit), b["model"], d.get("key"))
        if w is not None:
            return w, tested
        tested = tested or (t and b["exact"])
    for b in (d.get("probes") or [])[:24]:
        p = "C10e" if pid == "C10" and unit[1] not in ("mtable", "mtr") else pid
        if relevant(p, b):
            w, _t = replay.witness(pid, tag_of(unit), b["model"])
            if w is not None:
                return w, tested
    if not bad and d.get("key") is not None:
        return replay.witness(pid, tag_of(unit), {}, d["key"])
    return None, tested


def decide(pid, tier, seed, budget):
    us = units(pid)
    if not us:
        return [], {}
    res, stats = run_all(us, budget)
    results = []
    functions, contracts, inexact, paths, kinds = set(), {}, set(), 0, {}
    searched = 0
    for i, u in enumerate(us):
        if i not in res:
            results.append({"name": "%s %s" % (u[0], u[1:3]), "status": "unknown", "detail": "budget exhausted"})
            continue
        for d in res[i]:
            functions |= set(d["functions"])
            contracts.update(d["contracts"])
            inexact |= set(d["inexact"])
            paths += d["paths"]
            status, detail, bad = project(pid, u, d)
            r = {"name": d["name"], "status": status, "detail": detail, "paths": d["paths"]}
            if status != "proved":
                r["trace"] = d.get("trace")
                if searched < 40:
                    searched += 1
                    w, tested = find_witness(pid, u, d, bad)
                    if w is not None:
                        r["witness"] = w
                        r["status"] = "refuted"
                    elif tested and status == "refuted":
                        r["status"] = "unknown"
                        r["detail"] = "counter-model not confirmed by running the code on inputs built from it: " + detail
            results.append(r)
    info = {"functions": sorted(functions), "by_backend": {"pyvc path enumeration + z3, unsat answers confirmed by cvc5": sum(r["status"] == "proved" for r in results)},
            "solver": dict(stats, paths=paths, back_end="z3, then cvc5 for every unsat answer"), "contracts_inferred": contracts,
            "trusted_base": TRUSTED, "assumptions": assumptions(pid, inexact)}
    return results, info


TRUSTED = [
    "pyvc: the symbolic evaluator of Python in /verif/pyvc (semantics of the subset it accepts; it refuses what it does not model)",
    "z3: an unsat answer that cvc5 does not confirm (solver.no_answer counts them), and its simplifier",
    "CPython's parser (ast) and the identity of the source read with the source that runs",
    "models of built-in types (str, list, dict, int) and of re in /verif/pyvc/models.py and rx.py",
]


def assumptions(pid, inexact):
    out = ["strings are sequences of code points up to U+2FFFF in solver terms (z3); larger code points only through uninterpreted text",
           "recursion depth and memory are unbounded (RecursionError and MemoryError are outside the properties)",
           "elements form a finite tree; the induction is on its height"]
    if pid in ("C01", "C03", "C17", "C18", "C19", "C21"):
        out.append("contract of xml.dom.minidom in pyvc/dom.py: parseString of a text is deterministic, gives a tree of nodes for a well-formed document "
                   "and raises ExpatError with code, lineno and offset otherwise; getElementsByTagName is in document order")
    if pid in ("C19", "C21"):
        out.append("expat counts one line in a text without LF and CR, and the offset of its error is within the text")
    if pid == "C19":
        out.append("expat reports code 4 (invalid token) for an attribute without value at the '>' after its name and for a value without quotes at "
                   "its first character; white space before the '>' of a tag is insignificant (both are exercised by the bounded cross-check)")
        out.append("not proved, bounded only: that a document whose first error is a mismatched, unclosed or missing tag or an undefined entity is "
                   "never turned into a well-formed one by the (up to four) repairs; proved is that the repair of such an error changes no markup")
    if inexact:
        out.append("uninterpreted with axioms: " + ", ".join(sorted(inexact)))
    return out


if __name__ == "__main__":
    for pid in sys.argv[1:]:
        t0 = time.monotonic()
        results, info = decide(pid, "quick", 1, 420)
        bad = [r for r in results if r["status"] != "proved"]
        print(pid, len(results), "obligations", len(bad), "open", "%.1f s" % (time.monotonic() - t0), info.get("solver"))
        for r in bad[:8]:
            print("   ", r["name"], r["status"], str(r["detail"])[:300], "WITNESS" if r.get("witness") else "", r.get("trace") or "")
