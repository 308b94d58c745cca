"""Runs the real code of /repo (never a copy) and reports outcomes."""
import ast
import glob
import importlib
import json
import os
import re
import signal
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.dont_write_bytecode = True
if SRC not in sys.path:
    sys.path.insert(0, SRC)

PKG = "mathml_to_latex"


def module(name=""):
    return importlib.import_module(PKG + ("." + name if name else ""))


class _Timeout(BaseException):
    pass


def _alarm(_s, _f):
    raise _Timeout()


def outcome(fn, *args, limit=10.0):
    """("ok", value) | ("raise", type name, message, arity?) | ("hang",)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try:
            v = fn(*args)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return ("ok", v)
    except _Timeout:
        return ("hang",)
    except RecursionError:
        return ("raise", "RecursionError", "", False)
    except BaseException as e:  # noqa: BLE001 - any exception is an outcome
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and type(e) is KeyboardInterrupt:
            raise
        arity = any(c.__name__ == "InvalidNumberOfChildrenError" for c in type(e).__mro__)
        return ("raise", type(e).__name__, str(e), arity)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


_conv = None


def convert(xml):
    global _conv
    if _conv is None:
        _conv = module("converter").MathMLToLaTeX
    return outcome(_conv.convert, xml)


def convert_fresh(xml):
    return outcome(lambda x: module("converter").MathMLToLaTeX().convert(x), xml)


_el = None


def build(node):
    """A fresh tree of the real element class from a search.gen.Node."""
    global _el
    if _el is None:
        _el = (module("el_to_tex.protocols").GenericMathMLElement,
               module("el_to_tex.adapter").MathMLElementToLatexConverterAdapter)
    kids = [build(k) for k in node.kids]
    value = "" if kids else (node.text or "").strip()
    attrs = {k: ("" if v == k else v) for k, v in node.attrs.items()}
    return _el[0](node.name, value, kids, attrs)


def convert_element(node):
    el = build(node)
    return outcome(lambda: _el[1]().to_latex_converter(el).convert())


def source_files():
    return sorted(glob.glob(os.path.join(SRC, PKG, "**", "*.py"), recursive=True))


def _baseline():
    try:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline.json"), encoding="utf-8") as f:
            return json.load(f)
    except (OSError, ValueError):
        return {"strings": [], "ints": []}


def novel():
    """The constants that the tree these generators were written for does not have: they are tried first and most."""
    s, i = _mined()
    b = _baseline()
    more = set(_more(b.get("counts", {})))
    known = set(b["strings"])
    return sorted(s - known) + sorted(x for x in s & known & more), \
        sorted(i - set(b["ints"])) + sorted(x for x in i & set(b["ints"]) & more if type(x) is int)


def _counts():
    """{file: {constant: occurrences}}"""
    out = {}
    for f in source_files():
        c = {}
        for x in _constants(f):
            c[x] = c.get(x, 0) + 1
        out[os.path.relpath(f, SRC)] = c
    return out


def _more(base):
    """The constants that some file has more often than in the tree these generators were written for."""
    for f, c in _counts().items():
        b = base.get(f, {})
        for x, n in c.items():
            if n > b.get(("i:%d" % x) if type(x) is int else "s:" + x, 0) and (type(x) is str or x > 3):
                yield x


def mined():
    """Constants of the current source: strings and integers (symbol tables excluded: they are enumerated), novel ones first."""
    s, i = _mined()
    ns, ni = novel()
    return ns + sorted(s - set(ns)), ni + sorted(i - set(ni))


def _constants(f):
    try:
        tree = ast.parse(open(f, encoding="utf-8").read())
    except (SyntaxError, OSError, ValueError):
        return
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Dict) and len(n.keys) > 40:
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value))
    for n in ast.walk(tree):
        if id(n) in skip or not isinstance(n, ast.Constant):
            continue
        if isinstance(n.value, str) and len(n.value) <= 60:
            yield n.value
        elif type(n.value) is int and 0 <= n.value <= 300000:
            yield n.value


def _mined():
    strings, ints = set(), set()
    for f in source_files():
        for x in _constants(f):
            (strings if isinstance(x, str) else ints).add(x)
    for x in list(strings):
        if re.search(r"[\[(|\\^$*+?]", x):
            strings.update(w for w in re.findall(r"[A-Za-z][\w:.-]*|[^\x00-\x7f]", x) if len(w) <= 40)
            ints.update(int(w) for w in re.findall(r"(?<![\w.])\d{1,4}(?!\w)", x) if int(w) <= 5000)
    return strings, ints
