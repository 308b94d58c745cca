"""Ground obligations: no variable is left, so running the real code decides them.

C16: the domain is finite (every code point that Unicode's data gives a meaning, as mi, mo and mn)."""
import json
import os
import re

from . import obligations as O
from . import balance as B
from .values import PyExc, Unsupported, zs

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WRAP = re.compile(r"\\math[a-z]+\{(.*)\}\Z", re.S)


def known(pid):
    d = json.load(open(os.path.join(HERE, "known_findings.json"), encoding="utf-8"))
    return [k for k in d["findings"] if k["property"] == pid]


def outcomes(chars, deadline=None):
    """The whole way through convert(), for bare tokens."""
    from search import docs as D
    ks = known("C16")
    out = []
    for c in chars:
        for kind in ("mi", "mo", "mn"):
            o = O.Outcome("convert <%s> U+%04X" % (kind, ord(c)))
            w = D.check_c16((kind, c))
            if w is None:
                o.paths.append(O.Path("proved", "value"))
            else:
                o.paths.append(O.Path("refuted", "value", "gives %a" % (w.get("actual"),), {}, True))
                if D.check_c16((kind, c), ks) is None:
                    o.known = True
                else:
                    o.witness = w
            o.functions = {"converter.MathMLToLaTeX.convert"}
            out.append(o)
    return out


def stripped(s):
    """The text itself and what is left after taking off font commands, outermost first."""
    while True:
        yield s
        m = WRAP.match(s)
        if not m:
            return
        s = m.group(1)


def judge_of(kind, c):
    """Whatever the attributes, the result is a replacement that Unicode allows, inside font commands at most."""
    from search import docs as D
    ks = [k["actual"] for k in known("C16") if k["token"] == kind and k["char"] == c]

    def judge(w, run):
        try:
            v = run()
        except PyExc:
            return O.failed(w, "exception", "raises")
        for s in B.Balance(w).alternatives(zs(v) if isinstance(v, str) else w.string_of(v)):
            if B.MARK in s:
                raise Unsupported("the rendering of a symbol depends on more than the symbol")
            if not any(x in ks or D.c16_ok(kind, c, x) for x in stripped(s)):
                return O.failed(w, "value", "gives %a" % s)
        return O.Path("proved", "value")
    return judge
