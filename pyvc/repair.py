"""Obligations about the error handler: what it does to a document that does not parse.

The texts of regular-expression calls are opaque here, so a path that is taken may not exist: an obligation is proved or
left open, never refuted.  The bounded search decides then.
"""
import re
from xml.parsers.expat import ExpatError

import z3

from . import values as V
from .dom import DomEngine
from .obligations import Path, obligation
from .values import Str, SInt, SStr, VList, VMatch, VObj, PyExc, Unsupported, mkstr, zs, zstr

TEXT = z3.Const("text", Str)
f_ESC = z3.Function("ESC", Str, Str)                      # re.escape
f_RSUB = z3.Function("RSUB", Str, Str, Str)               # re.sub(pattern, "", text)


def one_line(t):
    """The text t has no line break if TEXT has none: by its construction."""
    if z3.is_string_value(t):
        return not set(V.const_str(t)) & set("\n\r")
    if t.eq(TEXT):
        return True
    if not z3.is_app(t):
        return False
    k, nm = t.decl().kind(), t.decl().name()
    if k == z3.Z3_OP_SEQ_CONCAT:
        return all(one_line(c) for c in t.children())
    if k == z3.Z3_OP_ITE:
        return one_line(t.arg(1)) and one_line(t.arg(2))
    if k in (z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_SEQ_AT) or nm in ("STRIP", "NORM"):
        return one_line(t.arg(0))
    if nm == "RSUB":
        return one_line(t.arg(1))
    if nm.startswith("SUB!"):
        # a replacement made of groups and plain characters
        kind, _pat, repl, _flags = REWRITINGS.get(nm, ("", "", "\n", 0))
        return not set(repl) & set("\n\r") and (kind == "replace" or re.fullmatch(r"(\\[1-9]|[^\\])*", repl) is not None) and one_line(t.arg(0))
    return False


REWRITINGS = {}


class RepairEngine(DomEngine):
    """Regular expressions over an arbitrary document are opaque functions of it, with what holds of every of them."""

    def __init__(self, code, timeout_ms=4000, deadline=None):
        DomEngine.__init__(self, code, timeout_ms, deadline)
        self.root = None
        self.root_tag = None
        self.ip.hooks[re.escape] = self.escape
        self.rewritings = REWRITINGS

    def escape(self, ip, args, kwargs):
        s = ip.force(args[0])
        return re.escape(s) if isinstance(s, str) else mkstr([f_ESC(zs(s))])

    def str_split(self, ip, o, name, args, kwargs):
        if name in ("split", "rsplit") and list(args) == ["\n"] and not kwargs and one_line(zs(o)):
            return VList.of([o])
        return DomEngine.str_split(self, ip, o, name, args, kwargs)

    # -------------------------------------------------------------- regular expressions
    def regex_match(self, ip, pattern, flags, mode, s):
        g = z3.Function("MATCH!%s!%r!%d" % (mode, pattern, flags), Str, V.Bool)(zs(s))
        return VMatch((pattern, flags, mode, s)) if self.decide(g) else None

    def regex_sub(self, ip, pattern, flags, repl, s, count):
        if count != 0 or not isinstance(repl, str):
            raise Unsupported("re.sub with a function or a count")
        self.template(pattern, flags, repl)
        x = zs(s)
        return mkstr([self.sub_term("re", pattern, repl, re.compile(pattern, flags).flags, x)])

    def template(self, pattern, flags, repl):
        try:
            re.sub(pattern, repl, "", flags=flags)
        except (re.error, IndexError):
            raise Unsupported("replacement %r" % (repl,))

    def sym_pattern(self, s, flags=0):
        """A pattern with escaped texts in it is a pattern whatever the texts are: they stand for sequences of literals."""
        if not all(isinstance(p, str) or z3.is_app(p) and p.decl().name() == "ESC" for p in s.parts):
            raise Unsupported("symbolic regular expression")
        for lit in ("a", "", "ab"):
            try:
                re.compile("".join(p if isinstance(p, str) else lit for p in s.parts), flags)
            except re.error:
                raise Unsupported("symbolic regular expression")
        return V.SymPattern(s, flags)

    def sym_regex(self, ip, name, args, kwargs):
        pat = args[0]
        if not isinstance(pat, V.SymPattern):
            pat = self.sym_pattern(ip.force(pat), kwargs.get("flags", 0))
        if name in ("search", "match", "fullmatch") and len(args) == 2:
            s = ip.force(args[1])
            g = z3.Function("MATCH!%s" % name, Str, Str, V.Bool)(zs(pat.src), zs(s))
            return VMatch((pat, 0, name, s)) if self.decide(g) else None
        if name == "sub" and len(args) == 3:
            repl, s = ip.force(args[1]), ip.force(args[2])
            if repl == "":
                return mkstr([f_RSUB(zs(pat.src), zs(s))])
        raise Unsupported("symbolic regular expression")


def total_obligation(code, expat, deadline=None):
    """fix_error returns a text without line breaks, for every text without line breaks and every error about it;
    nothing else changes."""
    def build():
        w = RepairEngine(code, 4000, deadline)

        def thunk():
            if expat:
                o = V.f_eoff(TEXT)
                w.pc.extend([V.f_eline(TEXT) == 1, o >= 0, o <= z3.Length(TEXT), z3.Not(V.f_WF(TEXT))])
                e = VObj(ExpatError, {"args": (mkstr([z3.Function("emsg", Str, Str)(TEXT)]),), "code": SInt(V.f_ecode(TEXT)),
                                      "lineno": SInt(V.f_eline(TEXT)), "offset": SInt(o)})
            else:
                e = VObj(Exception, {"args": ()})
            h = w.ip.call(code.Handler, [], {})
            try:
                got = w.ip.force(w.ip.call(w.ip.getattr(h, "fix_error"), [mkstr([TEXT]), e], {}))
            except PyExc as x:
                raise Unsupported("the repair raises %r" % (x.val,))
            if w.log:
                raise Unsupported("the repair parses")
            if not isinstance(got, (str, SStr)):
                raise Unsupported("the repair returns %r" % (got,))
            if not one_line(zs(got)):
                raise Unsupported("the repaired text may contain a line break: %s" % (got,))
            return Path("proved", "value")
        return w, thunk
    return obligation("repair: every text and every %s" % ("position of a parse error" if expat else "other exception"), build, deadline=deadline)


# ------------------------------------------------------------------------------------ the effect of the repair

p, m = z3.Int("start"), z3.Int("width")                   # TEXT = pre ++ " " ++ WORD ++ next ++ post, |pre| + 1 = p, |WORD| = m
WORD = z3.Const("word", Str)
f_CH = z3.Function("CH", V.Int, Str)                      # the characters of TEXT
CUT = z3.Const("text without word", Str)


class EffectEngine(RepairEngine):
    """The text is known around one attribute: a space, a word without spaces and without '>' that occurs nowhere else,
    and the character after it."""

    def __init__(self, code, after, deadline=None):
        RepairEngine.__init__(self, code, 4000, deadline)
        self.after = after

    def assumptions(self):
        n = z3.Length(TEXT)
        return [p >= 1, m >= 1, p + m + 1 <= n, z3.Length(WORD) == m, z3.Length(CUT) == n - m, CUT != TEXT, WORD != TEXT]

    def axioms_for(self, t):
        if t.decl().name() == "CH":
            i = t.arg(0)
            return [z3.Length(t) == 1, z3.Implies(i == p - 1, t == zstr(" ")), z3.Implies(i == p + m, t == zstr(self.after)),
                    z3.Implies(z3.And(p <= i, i < p + m), z3.And(*[t != zstr(c) for c in " >\t\"'<"]))]
        return RepairEngine.axioms_for(self, t)

    def char_of(self, x, i):
        if x.eq(TEXT):
            return mkstr([f_CH(z3.simplify(i))])
        return RepairEngine.char_of(self, x, i)

    def part_of(self, x, a, b):
        if x.eq(TEXT):
            for u, v, r in ((p, p + m, WORD), (z3.IntVal(0), z3.Length(TEXT), TEXT)):
                if self.valid(z3.And(a == u, b == v)):
                    return mkstr([r])
        return RepairEngine.part_of(self, x, a, b)

    def sym_regex(self, ip, name, args, kwargs):
        """The pattern is applied to the only place where its literal occurs."""
        pat = args[0]
        if not isinstance(pat, V.SymPattern):
            pat = self.sym_pattern(ip.force(pat), kwargs.get("flags", 0))
        s = ip.force(args[-1])
        if name == "sub" and ip.force(args[1]) == "" and isinstance(s, SStr) and zs(s).eq(TEXT) and not kwargs:
            for q in pat.src.parts:
                if not isinstance(q, str) and not q.eq(f_ESC(WORD)):
                    raise Unsupported("the pattern is not about the word")
            k = removed(pat.src.parts, pat.flags, self.after)
            if k is None:
                return s
            if k == 0:
                return mkstr([CUT])
            raise Unsupported("more than the word is removed")
        raise Unsupported("symbolic regular expression")


HOLD = "\uE000"


def removed(parts, flags, after):
    """How many characters after the literal a match takes along, or None: the pattern does not match there.  The text
    after the literal is `after` and then unknown; what comes before it is unknown."""
    import re._parser as sp
    import re._constants as K
    if flags & (re.I | re.X | re.S):
        raise Unsupported("flags of the pattern")
    tree = list(sp.parse("".join(q if isinstance(q, str) else HOLD for q in parts), flags))

    def match(items, i, seen):
        """Generator of (end, literal seen?) for every way to match, in the order of preference; i counts from the literal's end."""
        if not items:
            yield i, seen
            return
        (op, av), rest = items[0], items[1:]
        if op is K.LITERAL and av == ord(HOLD):
            if not seen:
                for r in match(rest, 0, True):
                    yield r
            return
        if op in (K.LITERAL, K.NOT_LITERAL, K.IN, K.ANY):
            if not seen:
                raise Unsupported("the pattern looks at the text before the word")
            if i >= len(after):
                raise Unsupported("the pattern looks at the text after the word")
            if re.fullmatch(_src(items[0]), after[i]):
                for r in match(rest, i + 1, seen):
                    yield r
            return
        if op is K.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("flags in the pattern")
            for r in match(list(av[3]) + rest, i, seen):
                yield r
            return
        if op is K.BRANCH:
            for b in av[1]:
                for r in match(list(b) + rest, i, seen):
                    yield r
            return
        if op in (K.ASSERT, K.ASSERT_NOT):
            if av[0] < 0 or not seen:
                raise Unsupported("look-behind in the pattern")
            hit = any(True for _ in match(list(av[1]), i, seen))
            if hit == (op is K.ASSERT):
                for r in match(rest, i, seen):
                    yield r
            return
        if op in (K.MAX_REPEAT, K.MIN_REPEAT) and av[0] == 0 and av[1] == 1:
            ways = [list(av[2]) + rest, rest]
            for w in ways if op is K.MAX_REPEAT else ways[::-1]:
                for r in match(w, i, seen):
                    yield r
            return
        raise Unsupported("pattern")
    for end, seen in match(tree, 0, False):
        if not seen:
            raise Unsupported("the pattern matches without the word")
        return end
    return None


def _src(item):
    import re._constants as K
    op, av = item
    if op is K.LITERAL:
        return re.escape(chr(av))
    if op is K.NOT_LITERAL:
        return "[^%s]" % re.escape(chr(av))
    if op is K.IN and all(x[0] in (K.LITERAL, K.NEGATE, K.RANGE) for x in av):
        return "[%s]" % "".join("^" if o is K.NEGATE else re.escape(chr(v)) if o is K.LITERAL else re.escape(chr(v[0])) + "-" + re.escape(chr(v[1])) for o, v in av)
    raise Unsupported("pattern")


def effect_obligation(code, after, deadline=None):
    """fix_error takes the word of the error, and nothing else, out of the text."""
    def build():
        w = EffectEngine(code, after, deadline)

        def thunk():
            o = V.f_eoff(TEXT)
            w.pc.extend(w.assumptions())
            # expat: at the character after an attribute name without "=", or at the first character of a value without quotes
            w.pc.extend([V.f_ecode(TEXT) == 4, V.f_eline(TEXT) == 1, p <= o, o <= p + m if after == ">" else o < p + m])
            w.index_term(z3.simplify(o - p))
            w.index_term(z3.simplify(p + m - o))
            e = VObj(ExpatError, {"args": (mkstr([z3.Function("emsg", Str, Str)(TEXT)]),), "code": SInt(V.f_ecode(TEXT)),
                                  "lineno": SInt(V.f_eline(TEXT)), "offset": SInt(o)})
            h = w.ip.call(code.Handler, [], {})
            try:
                got = w.ip.force(w.ip.call(w.ip.getattr(h, "fix_error"), [mkstr([TEXT]), e], {}))
            except PyExc as x:
                raise Unsupported("the repair raises %r" % (x.val,))
            if isinstance(got, SStr) and zs(got).eq(CUT):
                return Path("proved", "value")
            raise Unsupported("the repaired text is %r" % (got,))
        return w, thunk
    what = "an attribute without value before '>', or without quotes" if after == ">" else "an attribute=value without quotes, others follow"
    return obligation("repair: " + what, build, deadline=deadline)


# ------------------------------------------------------------------------------------ errors that no repair is about

MARKUP = set("<>&;\"'/!?[]-:#%")


def rest_obligation(code, deadline=None):
    """For a parse error other than an invalid token (code 4) - among them the mismatched, unclosed and missing tags and
    undefined entities - fix_error takes away at most runs of letters, digits, '_', '=' and white space: no character that
    markup is made of is added, taken away or moved."""
    def build():
        w = RepairEngine(code, 4000, deadline)

        def thunk():
            o = V.f_eoff(TEXT)
            w.pc.extend([V.f_eline(TEXT) == 1, o >= 0, o <= z3.Length(TEXT), z3.Not(V.f_WF(TEXT)), V.f_ecode(TEXT) != 4])
            e = VObj(ExpatError, {"args": (mkstr([z3.Function("emsg", Str, Str)(TEXT)]),), "code": SInt(V.f_ecode(TEXT)),
                                  "lineno": SInt(V.f_eline(TEXT)), "offset": SInt(o)})
            h = w.ip.call(code.Handler, [], {})
            try:
                got = w.ip.force(w.ip.call(w.ip.getattr(h, "fix_error"), [mkstr([TEXT]), e], {}))
            except PyExc as x:
                raise Unsupported("the repair raises %r" % (x.val,))
            if not isinstance(got, SStr):
                raise Unsupported("the repair returns %r" % (got,))
            thinned(zs(got))
            return Path("proved", "value")
        return w, thunk
    return obligation("repair: another error than an invalid token leaves the markup alone", build, deadline=deadline)


def thinned(t):
    """The term is TEXT without some runs of characters that are no markup."""
    while not t.eq(TEXT):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            thinned(t.arg(1))
            t = t.arg(2)
            continue
        nm = t.decl().name() if z3.is_app(t) else ""
        if nm not in REWRITINGS or t.num_args() != 1:
            raise Unsupported("the repaired text is %s" % (str(t)[:80],))
        kind, pat, repl, flags = REWRITINGS[nm]
        if kind == "replace":
            ok = repl == "" and not set(pat) & MARKUP
        else:
            ok = only_deletes(pat, repl, flags)
        if not ok:
            raise Unsupported("markup may change: %r by %r" % (pat, repl))
        t = t.arg(0)


def only_deletes(pattern, repl, flags):
    """Replacing the matches of the pattern gives the text without the parts that some items of it matched, and these
    parts are no markup."""
    import re._parser as sp
    import re._constants as K
    tree = list(sp.parse(pattern, flags))
    kept = re.findall(r"\\g<(\d+)>|\\(\d)(?!\d)|(.)", repl, re.S)
    if any(c for _, _, c in kept):
        return False
    kept = [int(a or b) for a, b, _ in kept]
    rest = list(kept)
    for op, av in tree:
        if op is K.SUBPATTERN and rest and av[0] == rest[0]:
            rest.pop(0)
            continue
        if op in (K.AT, K.ASSERT, K.ASSERT_NOT):
            continue
        if set(chars_of([(op, av)], flags)) & MARKUP:
            return False
    return not rest


def chars_of(items, flags):
    """The markup characters that a text matched by the items may have."""
    import re._constants as K
    out = set()
    for op, av in items:
        if op in (K.AT, K.ASSERT, K.ASSERT_NOT):
            continue
        if op is K.SUBPATTERN:
            out |= chars_of(list(av[3]), flags | av[1])
        elif op is K.BRANCH:
            for b in av[1]:
                out |= chars_of(list(b), flags)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            out |= chars_of(list(av[2]), flags)
        elif op is K.LITERAL:
            out |= {chr(av)}
        elif op is K.IN and all(x[0] is not K.NEGATE and x[0] is K.CATEGORY and x[1] in (K.CATEGORY_WORD, K.CATEGORY_DIGIT, K.CATEGORY_SPACE)
                                or x[0] is K.LITERAL or x[0] is K.RANGE and x[1][1] - x[1][0] < 1000 for x in av):
            for k, v in av:
                out |= {chr(v)} if k is K.LITERAL else set(map(chr, range(v[0], v[1] + 1))) if k is K.RANGE else set()
        else:
            return set(MARKUP)
    return out
