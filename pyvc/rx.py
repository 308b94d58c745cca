"""Python regular expressions over symbolic strings: translation of the regular fragment into z3 regexes.
Character classes are computed by asking Python's own re about every code point z3 can represent."""
import functools
import re
import re._constants as sc
import re._parser as sp
import sys

import z3

MAXCP = 0x2FFFF
ALL = [chr(o) for o in range(MAXCP + 1)]
ALLSTR = "".join(ALL)


class NotRegular(Exception):
    pass


@functools.lru_cache(None)
def class_of(pattern, flags):
    """Ranges of the code points that fully match a one-character pattern."""
    p = re.compile(pattern, flags)
    cps = [ord(m.group()) for m in p.finditer(ALLSTR) if len(m.group()) == 1]
    return ranges(cps)


@functools.lru_cache(None)
def class_by_method(name):
    return ranges([o for o in range(MAXCP + 1) if getattr(chr(o), name)()])



def in_re(x, r):
    """In the form that simplification gives it: one membership is one term, wherever it comes from."""
    return z3.simplify(z3.InRe(x, r))


def ranges(cps):
    out = []
    for c in cps:
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return tuple(map(tuple, out))


def _chr(o):
    return z3.StringVal("\\u{%x}" % o)


_full = z3.Full(z3.ReSort(z3.StringSort()))
_allchar = z3.AllChar(z3.ReSort(z3.StringSort()))
_eps = z3.Re(z3.StringVal(""))


@functools.lru_cache(None)
def ranges_re(rs):
    if not rs:
        return z3.Empty(z3.ReSort(z3.StringSort()))
    parts = [z3.Re(_chr(a)) if a == b else z3.Range(_chr(a), _chr(b)) for a, b in rs]
    return parts[0] if len(parts) == 1 else z3.Union(*parts)


def class_re(pattern, flags=0):
    return ranges_re(class_of(pattern, flags))


SPACE = class_by_method("isspace")


def trimmed(x):
    """No white space at either end."""
    global _trim
    if _trim is None:
        non = ranges_re(ranges([o for o in range(MAXCP + 1) if not chr(o).isspace()]))
        _trim = z3.Union(_eps, non, z3.Concat(non, _full, non))
    return in_re(x, _trim)


_trim = None


def isspace(x):
    return in_re(x, z3.Plus(ranges_re(SPACE)))


def all_in_class(x, method):
    return in_re(x, z3.Plus(ranges_re(class_by_method(method))))


def char_in_class(x, method):
    """For one character.  A class of hundreds of ranges is given by its ASCII part and an uninterpreted predicate on the others."""
    rs = class_by_method(method)
    if len(rs) <= 40:
        return in_re(x, ranges_re(rs)), True
    low = tuple((a, min(b, 127)) for a, b in rs if a < 128)
    other = z3.Function("CLS!" + method, z3.StringSort(), z3.BoolSort())(x)
    return z3.Or(in_re(x, ranges_re(low)), z3.And(z3.Not(in_re(x, ranges_re(((0, 127),)))), other)), False


def concat(ps):
    ps = [p for p in ps if p is not _eps]
    if not ps:
        return _eps
    return ps[0] if len(ps) == 1 else z3.Concat(*ps)


def _set_ranges(items, flags):
    """Ranges of a set node (list of LITERAL/RANGE/CATEGORY, maybe NEGATE)."""
    neg = False
    cps = set()
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            cps |= _lit(av, flags)
        elif op is sc.RANGE:
            for o in range(av[0], min(av[1], MAXCP) + 1):
                cps |= _lit(o, flags)
        elif op is sc.CATEGORY:
            cps |= _category(av, flags)
        else:
            raise NotRegular(str(op))
    if neg:
        cps = set(range(MAXCP + 1)) - cps
    return cps


@functools.lru_cache(None)
def _ci(o):
    return frozenset(ord(m.group()) for m in re.compile(re.escape(chr(o)), re.I).finditer(ALLSTR))


def _lit(o, flags):
    if flags & re.IGNORECASE:
        return set(_ci(o))
    return {o}


@functools.lru_cache(None)
def _cat(pat, flags):
    return frozenset(ord(m.group()) for m in re.compile(pat, flags).finditer(ALLSTR))


def _category(av, flags):
    pat = {sc.CATEGORY_DIGIT: r"\d", sc.CATEGORY_NOT_DIGIT: r"\D", sc.CATEGORY_SPACE: r"\s", sc.CATEGORY_NOT_SPACE: r"\S",
           sc.CATEGORY_WORD: r"\w", sc.CATEGORY_NOT_WORD: r"\W"}[av]
    return set(_cat(pat, flags & re.ASCII))


def node_re(items, flags):
    out = []
    for op, av in items:
        if op is sc.LITERAL:
            out.append(ranges_re(ranges(sorted(_lit(av, flags)))))
        elif op is sc.NOT_LITERAL:
            out.append(ranges_re(ranges(sorted(set(range(MAXCP + 1)) - _lit(av, flags)))))
        elif op is sc.ANY:
            s = set(range(MAXCP + 1)) - (set() if flags & re.DOTALL else {10})
            out.append(ranges_re(ranges(sorted(s))))
        elif op is sc.IN:
            out.append(ranges_re(ranges(sorted(_set_ranges(av, flags)))))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            r = node_re(sub, flags)
            if hi is sc.MAXREPEAT or hi == sc.MAXREPEAT:
                if lo == 0:
                    out.append(z3.Star(r))
                elif lo == 1:
                    out.append(z3.Plus(r))
                else:
                    out.append(concat([r] * lo + [z3.Star(r)]))
            elif (lo, hi) == (0, 1):
                out.append(z3.Option(r))
            else:
                out.append(z3.Loop(r, lo, hi))
        elif op is sc.SUBPATTERN:
            group, add, dele, sub = av
            out.append(node_re(sub, (flags | add) & ~dele))
        elif op is sc.BRANCH:
            out.append(z3.Union(*[node_re(b, flags) for b in av[1]]))
        else:
            raise NotRegular(str(op))
    return concat(out)


def strip_anchors(items):
    items = list(items)
    start = end = None
    if items and items[0][0] is sc.AT and items[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
        start = items.pop(0)[1]
    if items and items[-1][0] is sc.AT and items[-1][1] in (sc.AT_END, sc.AT_END_STRING):
        end = items.pop()[1]
    return items, start, end


@functools.lru_cache(None)
def language(pattern, flags, mode):
    """z3 regex of the strings for which re.<mode>(pattern, s) is not None."""
    tree = sp.parse(pattern, flags)
    flags = tree.state.flags
    if flags & re.MULTILINE or flags & re.LOCALE:
        if any(op is sc.AT for op, _ in list(tree)):
            raise NotRegular("multiline anchors")
    items, start, end = strip_anchors(tree)
    if mode == "search" and not start and items:
        # X+ inside a search is X at either end
        items = [_weaken(it, k, len(items), start, end) for k, it in enumerate(items)]
    body = node_re(items, flags)
    if end is sc.AT_END:
        tail = z3.Option(z3.Re(_chr(10)))
    elif end is sc.AT_END_STRING or mode == "fullmatch":
        tail = _eps
    else:
        tail = _full
    if mode == "fullmatch" and end is sc.AT_END:
        tail = _eps
    head = _full if mode == "search" and start is None else _eps
    return concat([head, body, tail])


def _weaken(it, k, n, start, end):
    op, av = it
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and av[0] == 1 and av[1] == sc.MAXREPEAT and len(av[2]) == 1 and \
            av[2][0][0] in (sc.IN, sc.LITERAL, sc.ANY, sc.NOT_LITERAL) and n == 1 and end is None:
        return av[2][0]
    return it


def member(x, pattern, flags, mode):
    return in_re(x, language(pattern, flags, mode))


def contains_class(x, rs):
    return in_re(x, z3.Concat(_full, ranges_re(rs), _full))


@functools.lru_cache(None)
def single_class(pattern, flags):
    """Ranges of a pattern that is one class of characters, maybe repeated (X or X+), else None."""
    tree = sp.parse(pattern, flags)
    flags = tree.state.flags
    items = list(tree)
    if len(items) == 1 and items[0][0] is sc.SUBPATTERN and not items[0][1][1] and not items[0][1][2]:
        items = list(items[0][1][3])
    if len(items) != 1:
        return None
    op, av = items[0]
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and av[0] == 1 and len(av[2]) == 1:
        op, av = av[2][0]
    try:
        if op is sc.IN:
            return ranges(sorted(_set_ranges(av, flags)))
        if op is sc.LITERAL:
            return ranges(sorted(_lit(av, flags)))
    except NotRegular:
        pass
    return None
