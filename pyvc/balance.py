"""Balance of a rendered term (property C20): the renderings of children, tokens and fence delimiters are neutral by
induction or assumption, everything else is constant text."""
import re

import z3

from . import values as V
from .values import Unsupported, zs, zstr, const_str

MARK = "\ue000"
ENV = re.compile(r"\\(begin|end)\{([A-Za-z*]*)\}")
FENCE = ("open", "close", "separators")


def problem(s):
    """None, or what is not balanced in a text in which MARK stands for neutral text."""
    stack = []
    i = 0
    while i < len(s):
        c = s[i]
        m = ENV.match(s, i) if c == "\\" else None
        if m:
            if m.group(1) == "begin":
                stack.append(m.group(2))
            elif not stack or stack.pop() != m.group(2):
                return "\\end{%s} without its \\begin" % m.group(2)
            i = m.end()
            continue
        if c == "\\":
            if i + 1 >= len(s) or s[i + 1] == MARK:
                return "a backslash before text that is not constant, or at the end"
            if s[i + 1].isspace() and i + 2 >= len(s):
                return "escaped white space at the end"
            if s.startswith("\\begin", i) or s.startswith("\\end{", i):
                return "an environment with a name that is not constant"
            i += 2
            continue
        if c == "{":
            stack.append("{")
        elif c == "}":
            if not stack or stack.pop() != "{":
                return "} without {"
        i += 1
    return "%s without its end" % stack[-1] if stack else None


class Balance:
    def __init__(self, w, limit=512):
        self.w, self.limit = w, limit
        self.seen = {}

    def check(self, e):
        """None when every alternative of the string term is balanced, else a description."""
        k = e.get_id()
        if k not in self.seen:
            self.seen[k] = (None, e)
            bad = None
            for s in self.alternatives(e):
                bad = problem(s)
                if bad:
                    bad = "%s in %a" % (bad, s.replace(MARK, "#"))
                    break
            self.seen[k] = (bad, e)
        return self.seen[k][0]

    def alternatives(self, e):
        c = const_str(e)
        if c is not None:
            return [c]
        k = e.decl().kind()
        if k == z3.Z3_OP_SEQ_CONCAT:
            out = [""]
            for x in e.children():
                out = [a + b for a in out for b in self.alternatives(x)]
                if len(out) > self.limit:
                    raise Unsupported("too many alternatives")
            return out
        if k == z3.Z3_OP_ITE:
            return list(dict.fromkeys(self.alternatives(e.arg(1)) + self.alternatives(e.arg(2))))
        if self.neutral(e):
            return [MARK]
        raise Unsupported("balance of %s" % e.decl().name())

    def neutral(self, e):
        nm = e.decl().name()
        k = e.decl().kind()
        if self.plain(e):
            return True
        if nm in ("R", "IDENT"):
            return True
        if nm in ("NORM", "STRIP", "WSUB"):
            bad = self.check(e.arg(0))
            if bad:
                raise Unbalanced(bad)
            return True
        f = self.w.fold_by_decl.get(nm)
        if f is not None and f.kind == "CONCAT":
            bad = self.check(f.inst(e.children())[1])
            if bad:
                raise Unbalanced("in every item: " + bad)
            return True
        for r in self.w.runs:
            if r.decl.name() == nm:
                bad = self.check(r.value)
                if bad:
                    raise Unbalanced("in every run: " + bad)
                return True
        if k == z3.Z3_OP_UNINTERPRETED:
            raise Unbalanced("%s is put into the result as it is" % e)
        return False

    def plain(self, e):
        """A piece of a token's text or of a fence delimiter: without braces and backslashes."""
        c = const_str(e)
        if c is not None:
            return not set(c) & set("{}\\")
        nm, k = e.decl().name(), e.decl().kind()
        if nm in ("value", "text"):
            return True
        if nm == "attr" and const_str(e.arg(1)) in FENCE:
            return True
        if nm in ("ra!",) and not e.num_args():
            return True
        if nm in ("NORM", "STRIP", "WSUB", "char", "word"):
            return self.plain(e.arg(0))
        if k in (z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_SEQ_AT):
            return self.plain(e.arg(0))
        if k == z3.Z3_OP_SEQ_CONCAT:
            return all(self.plain(x) for x in e.children())
        if k == z3.Z3_OP_ITE:
            return self.plain(e.arg(1)) and self.plain(e.arg(2))
        if k in (z3.Z3_OP_INT_TO_STR,):
            return True
        return False


class Unbalanced(Exception):
    pass


def judge(w, run):
    """Path for the value of run() on the current path."""
    from .obligations import Path, witness_model
    from .values import PyExc
    try:
        v = run()
    except PyExc:
        return Path("proved", "error")
    try:
        bad = Balance(w).check(zs(v) if isinstance(v, str) else w.string_of(v))
    except Unbalanced as e:
        bad = str(e)
    if bad is None:
        return Path("proved", "balanced")
    m, _exact = witness_model(w, [])
    return Path("unknown", "balance", bad, m, False)
