"""String rewriting as finite transducers: equality of the rewriting the code applies to a document with the one that is
specified, for every input, decided by the equivalence test for functional transducers.

A rewriting is a pipeline of str.replace and re.sub calls with constant arguments.  Each step must match words of a
finite language, optionally followed by a look-ahead; anything else is refused."""
import itertools
import re
from re import _constants as sc
from re import _parser as sre_parse

from .values import Unsupported

LIMIT = 60000


# ------------------------------------------------------------------------------------ alphabet

class Alphabet:
    """Characters the patterns tell apart, one letter each, and two letters for all the others."""

    def __init__(self, pipelines, extra=""):
        singles = set(extra)
        for ops in pipelines:
            for op in ops:
                singles |= op_chars(op)
        self.sigma = sorted(singles)
        rest = [c for c in "abxyz§¤éQ" if c not in singles][:2]
        if len(rest) < 2:
            raise Unsupported("alphabet")
        self.other = rest
        self.sigma += rest


def op_chars(op):
    kind, a, b, flags = op
    if kind == "replace":
        return set(a) | set(b)
    out = set(b)
    if flags & re.IGNORECASE:
        raise Unsupported("case-insensitive rewriting")
    for s in sets_of(sre_parse.parse(a, flags & ~re.DEBUG)):
        out |= s
    return out


CLASSES = set("ab01 \t\u00a0\u2003§¤")                 # two letters of every kind that \\w, \\d, \\s and \\b tell apart


def sets_of(tree):
    for o, v in tree:
        if o is sc.LITERAL or o is sc.NOT_LITERAL:
            yield {chr(v)}
        elif o is sc.IN:
            s = set()
            for k, x in v:
                if k is sc.LITERAL:
                    s.add(chr(x))
                elif k is sc.RANGE and x[1] - x[0] < 40:
                    s |= {chr(i) for i in range(x[0], x[1] + 1)}
                elif k is sc.CATEGORY:
                    s |= CLASSES
                elif k is sc.NEGATE:
                    pass
                else:
                    raise Unsupported("character class in a rewriting")
            yield s
        elif o is sc.CATEGORY or o is sc.AT and v in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            yield CLASSES
        elif o is sc.AT and v in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            yield {"\n"}
        elif o is sc.BRANCH:
            for t in v[1]:
                yield from sets_of(t)
        elif o is sc.SUBPATTERN:
            yield from sets_of(v[3])
        elif o in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            yield from sets_of(v[2])
        elif o in (sc.ASSERT, sc.ASSERT_NOT):
            yield from sets_of(v[1])
        elif o is sc.ANY:
            yield {"\n"}
        else:
            raise Unsupported("rewriting with %s" % o)


# ------------------------------------------------------------------------------------ patterns

BEGIN = "\ue001"                                          # stands before the first character


class Alt:
    """One word that matches, with what must come before it, what must follow it and the groups it fills."""

    def __init__(self, word="", la=None, lb=(), groups=(), edge=()):
        self.word, self.la, self.lb, self.groups, self.edge = word, la, lb, groups, edge

    def then(self, o):
        if self.la is not None and (o.word or o.la is not None):
            raise Unsupported("look-ahead in the middle of a pattern")
        if self.word and o.lb:
            raise Unsupported("look-behind in the middle of a pattern")
        if o.edge and len(self.edge) + len(o.edge) > 2:
            raise Unsupported("boundaries")
        return Alt(self.word + o.word, o.la if o.la is not None else self.la, self.lb + o.lb, self.groups + o.groups,
                   self.edge + tuple((i + len(self.word), w) for i, w in o.edge))

    def resolve(self, sigma):
        """Boundaries as look-behind and look-ahead, for the word that is known now; None when it never matches."""
        words = frozenset(c for c in sigma if wordy(c))
        la, lb, n = self.la, self.lb, len(self.word)
        for i, want in self.edge:
            if not n:
                raise Unsupported("rewriting that matches the empty word")
            if 0 < i < n:
                if (wordy(self.word[i - 1]) != wordy(self.word[i])) != want:
                    return None
            elif i == 0:
                lb += ((words, wordy(self.word[0]) != want),)
            else:
                if la is not None:
                    raise Unsupported("boundary and look-ahead")
                la = ([(sc.IN, [(sc.CATEGORY, sc.CATEGORY_WORD)])], wordy(self.word[-1]) != want)
        return Alt(self.word, la, lb, self.groups)


def wordy(c):
    return c.isalnum() or c == "_"


def alternatives(tree, sigma, flags=0):
    """[Alt] in order of preference; a look-ahead is (tree, wanted), a look-behind (words, wanted)."""
    out = [Alt()]
    for o, v in tree:
        if o is sc.LITERAL:
            opts = [Alt(chr(v))]
        elif o in (sc.NOT_LITERAL, sc.IN, sc.ANY):
            opts = [Alt(c) for c in sigma if in_set(o, v, c)]
        elif o is sc.BRANCH:
            opts = [a for t in v[1] for a in alternatives(t, sigma, flags)]
        elif o is sc.SUBPATTERN:
            if v[1] or v[2]:
                raise Unsupported("flags in the pattern")
            opts = alternatives(v[3], sigma, flags)
            if v[0] is not None:
                opts = [Alt(a.word, a.la, a.lb, a.groups + ((v[0], a.word),), a.edge) for a in opts]
        elif o in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, t = v
            if hi is sc.MAXREPEAT or hi > 12:
                raise Unsupported("unbounded repetition in a rewriting")
            one = alternatives(t, sigma, flags)
            if len(one) ** hi > 2000:
                raise Unsupported("pattern with too many words")
            opts = []
            for n in (range(hi, lo - 1, -1) if o is sc.MAX_REPEAT else range(lo, hi + 1)):
                for ws in itertools.product(one, repeat=n):
                    if any(a.la or a.lb or a.edge or not a.word for a in ws):
                        raise Unsupported("assertion inside a repetition")
                    opts.append(Alt("".join(a.word for a in ws), None, (), tuple(g for a in ws for g in a.groups)))
        elif o in (sc.ASSERT, sc.ASSERT_NOT) and v[0] == 1:
            opts = [Alt("", (v[1], o is sc.ASSERT))]
        elif o in (sc.ASSERT, sc.ASSERT_NOT):
            inner = alternatives(v[1], sigma, flags)
            if any(a.la or a.lb or a.edge or not a.word or a.groups for a in inner):
                raise Unsupported("look-behind")
            opts = [Alt("", None, ((frozenset(a.word for a in inner), o is sc.ASSERT),))]
        elif o is sc.AT and v in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            opts = [Alt("", None, (), (), ((0, v is sc.AT_BOUNDARY),))]
        elif o is sc.AT and v in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            multi = v is sc.AT_BEGINNING and flags & re.MULTILINE
            opts = [Alt("", None, ((frozenset(BEGIN + "\n" if multi else BEGIN), True),))]
        else:
            raise Unsupported("rewriting with %s" % o)
        out = [x.then(y) for x in out for y in opts]
        if len(out) > 400:
            raise Unsupported("pattern with too many words")
    return out


CATEGORY = {sc.CATEGORY_WORD: r"\w", sc.CATEGORY_NOT_WORD: r"\W", sc.CATEGORY_DIGIT: r"\d", sc.CATEGORY_NOT_DIGIT: r"\D",
            sc.CATEGORY_SPACE: r"\s", sc.CATEGORY_NOT_SPACE: r"\S"}


def in_set(o, v, c):
    if o is sc.ANY:
        return c != "\n"
    if o is sc.NOT_LITERAL:
        return c != chr(v)
    neg, hit = False, False
    for k, x in v:
        if k is sc.NEGATE:
            neg = True
        elif k is sc.LITERAL:
            hit = hit or c == chr(x)
        elif k is sc.RANGE:
            hit = hit or x[0] <= ord(c) <= x[1]
        elif k is sc.CATEGORY and x in CATEGORY:
            hit = hit or re.fullmatch(CATEGORY[x], c) is not None
        else:
            raise Unsupported("character class in a rewriting")
    return hit != neg


class Nfa:
    def __init__(self):
        self.eps, self.edges, self.n = {}, {}, 0

    def new(self):
        self.n += 1
        return self.n - 1

    def build(self, tree, s, sigma):
        for o, v in tree:
            if o in (sc.LITERAL, sc.NOT_LITERAL, sc.IN, sc.ANY):
                t = self.new()
                cs = {chr(v)} if o is sc.LITERAL else {c for c in sigma if in_set(o, v, c)}
                self.edges.setdefault(s, []).append((cs, t))
            elif o is sc.BRANCH:
                t = self.new()
                for b in v[1]:
                    e = self.build(b, self.link(s), sigma)
                    self.eps.setdefault(e, []).append(t)
            elif o is sc.SUBPATTERN:
                t = self.build(v[3], s, sigma)
            elif o in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, b = v
                for _ in range(lo):
                    s = self.build(b, s, sigma)
                t = self.new()
                self.eps.setdefault(s, []).append(t)
                if hi is sc.MAXREPEAT:
                    e = self.build(b, self.link(t), sigma)
                    self.eps.setdefault(e, []).append(t)
                else:
                    if hi - lo > 400:
                        raise Unsupported("repetition")
                    for _ in range(hi - lo):
                        s = self.build(b, s, sigma)
                        self.eps.setdefault(s, []).append(t)
            else:
                raise Unsupported("look-ahead with %s" % o)
            s = t
        return s

    def link(self, s):
        t = self.new()
        self.eps.setdefault(s, []).append(t)
        return t

    def closure(self, ss):
        out, st = set(ss), list(ss)
        while st:
            for t in self.eps.get(st.pop(), ()):
                if t not in out:
                    out.add(t)
                    st.append(t)
        return frozenset(out)


class Prefix:
    """Deterministic automaton of "some prefix of the input is the word, and the look-ahead holds after it": states are False
    (no), True (yes) or a live state; after(q) is the answer when the input ends there."""

    def __init__(self, word, la, sigma):
        self.word = word
        self.want = True
        self.n = None
        if la is not None:
            self.want = la[1]
            self.n = n = Nfa()
            s = n.new()
            self.end = n.build(la[0], s, sigma)
            self.ahead = self.norm(n.closure({s}))
        else:
            self.ahead = True
        self.cache = {}
        self.init = 0                                      # characters of the word seen, or a set of look-ahead states

    def norm(self, ss):
        if self.end in ss:
            return self.want
        return ss if ss else not self.want

    def step(self, q, c):
        if q is True or q is False:
            return q
        if isinstance(q, int):
            if self.word[q] != c:
                return False
            return q + 1 if q + 1 < len(self.word) else self.ahead
        k = (q, c)
        if k not in self.cache:
            nx = set()
            for s in q:
                for cs, t in self.n.edges.get(s, ()):
                    if c in cs:
                        nx.add(t)
            self.cache[k] = self.norm(self.n.closure(nx))
        return self.cache[k]

    def after(self, q):
        return False if isinstance(q, int) else not self.want


# ------------------------------------------------------------------------------------ transducers
# start: state; step(state, letter) -> [(state, output)]; final(state) -> [output]

class Sub:
    """Leftmost replacement of the alternatives: nondeterministic guess of what matches, with the guesses verified by the
    automata in the state.  The state also knows what was just read, as far as a look-behind can ask."""

    def __init__(self, op, sigma):
        kind, a, b, flags = op
        if kind == "replace":
            alts, self.out = [Alt(a)], [b]
        else:
            tree = sre_parse.parse(a, flags & ~re.DEBUG)
            alts = [x for x in (y.resolve(sigma) for y in alternatives(tree, sigma, flags)) if x is not None]
            self.out = [expand(b, a, flags, tree, x) for x in alts]
        if any(not x.word for x in alts):
            raise Unsupported("rewriting that matches the empty word")
        keep, seen = [], set()
        for x, o in zip(alts, self.out):
            k = (x.word, x.lb, repr(x.la))
            if k not in seen:
                seen.add(k)
                keep.append((x, o))
        self.auto = [(x.word, Prefix(x.word, x.la, sigma), x.lb, o) for x, o in keep]
        self.heads = {w[:i] for x, _o in keep for ws, _w in x.lb for w in ws for i in range(1, len(w) + 1)}
        self.start = (0, frozenset(), BEGIN if BEGIN in self.heads else "")

    def read(self, h, c):
        h += c
        while h and h not in self.heads:
            h = h[1:]
        return h

    def behind(self, h, lb):
        return all(any(h.endswith(w) for w in ws) == want for ws, want in lb)

    def advance(self, obs, c):
        out = set()
        for k, q, want in obs:
            q2 = self.auto[k][1].step(q, c)
            if q2 is True or q2 is False:
                if q2 is not want:
                    return None
                continue
            out.add((k, q2, want))
        return frozenset(out)

    def step(self, st, c):
        skip, obs, h = st
        h2 = self.read(h, c)
        if skip:
            o = self.advance(obs, c)
            return [] if o is None else [((skip - 1, o, h2), "")]
        res = []
        neg = set()
        for k, (w, au, lb, repl) in enumerate(self.auto):
            if not self.behind(h, lb):
                continue
            if w[0] == c:
                o = self.advance(obs | neg | {(k, au.init, True)}, c)
                if o is not None:
                    res.append(((len(w) - 1, o, h2), repl))
            neg.add((k, au.init, False))
        o = self.advance(obs | neg, c)
        if o is not None:
            res.append(((0, o, h2), c))
        return res

    def final(self, st):
        skip, obs, _h = st
        if skip or any(self.auto[k][1].after(q) != want for k, q, want in obs):
            return []
        return [""]


def expand(template, pattern, flags, tree, alt):
    """The replacement for one word."""
    if "\\" not in template:
        return template
    inside = set()

    def scan(t, ahead):
        for o, v in t:
            if o is sc.SUBPATTERN:
                if ahead and v[0] is not None:
                    inside.add(v[0])
                scan(v[3], ahead)
            elif o is sc.BRANCH:
                for x in v[1]:
                    scan(x, ahead)
            elif o in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                scan(v[2], ahead)
            elif o in (sc.ASSERT, sc.ASSERT_NOT):
                scan(v[1], True)
    scan(tree, False)
    out = ""
    got = dict(alt.groups)
    got[0] = alt.word
    try:
        parts = sre_parse.parse_template(template, re.compile(pattern, flags))
    except (re.error, IndexError):
        raise Unsupported("replacement %r" % (template,))
    for p in parts:
        if isinstance(p, int):
            if p in inside:
                raise Unsupported("replacement with a group of a look-ahead")
            out += got.get(p, "")
        else:
            out += p
    return out


class Compose:
    """t2 after t1."""

    def __init__(self, t1, t2):
        self.t1, self.t2 = t1, t2
        self.start = (t1.start, t2.start)

    def feed(self, s2, word):
        cur = [(s2, "")]
        for c in word:
            cur = [(n, o + o2) for s, o in cur for n, o2 in self.t2.step(s, c)]
        return cur

    def step(self, st, c):
        return [((n1, n2), o2) for n1, o1 in self.t1.step(st[0], c) for n2, o2 in self.feed(st[1], o1)]

    def final(self, st):
        return [o2 + f for o1 in self.t1.final(st[0]) for s2, o2 in self.feed(st[1], o1) for f in self.t2.final(s2)]


class Identity:
    start = 0

    def step(self, st, c):
        return [(0, c)]

    def final(self, st):
        return [""]


def pipeline(ops, sigma):
    t = Identity()
    for op in ops:
        t = Compose(t, Sub(op, sigma)) if not isinstance(t, Identity) else Sub(op, sigma)
    return t


class Breaks:
    """Specification: every line break (LF, CR LF or CR) becomes one space."""
    start = False

    def step(self, cr, c):
        if c == "\r":
            return [(True, " ")]
        if c == "\n":
            return [(False, "" if cr else " ")]
        return [(False, c)]

    def final(self, st):
        return [""]


class Prefixes:
    """Specification: inside tags, the text mml: is removed where it stands (leftmost, without rescanning)."""
    start = (False, "")
    W = "mml:"

    def step(self, st, c):
        tag, b = st
        if not tag:
            return [((c == "<", ""), c)]
        if c in "<>":
            return [((c == "<", ""), b + c)]
        b2 = b + c
        if b2 == self.W:
            return [((True, ""), "")]
        out = ""
        while b2 and not self.W.startswith(b2):
            out, b2 = out + b2[0], b2[1:]
        return [((True, b2), out)]

    def final(self, st):
        return [st[1]]


class Inject:
    """The relation that replaces any of the spaces by a line break."""
    start = 0

    def __init__(self, brk):
        self.brk = brk

    def step(self, st, c):
        return [(0, c), (0, self.brk)] if c == " " else [(0, c)]

    def final(self, st):
        return [""]


class AddPrefix:
    """Writes mml: in front of the name of every tag."""
    start = 0      # 0 text, 1 after <, 2 after </, 3 in a tag

    def step(self, st, c):
        if c == "<":
            return [(1, c)]
        if c == ">":
            return [(0, c)]
        if st == 1:
            if c == "/":
                return [(2, c)]
            return [(3, c if c in "!?" else "mml:" + c)]
        if st == 2:
            return [(3, "mml:" + c)]
        return [(st, c)]

    def final(self, st):
        return [""]


# ------------------------------------------------------------------------------------ domains (deterministic)

class Everything:
    start = 0

    def step(self, q, c):
        return 0

    def ok(self, q):
        return True


class NoBreaks(Everything):
    def step(self, q, c):
        return None if c in "\r\n" else 0


class Tagged(Everything):
    """Text without < and >, and tags without < and > inside."""

    def step(self, q, c):
        if c == "<":
            return 1 if q == 0 else None
        if c == ">":
            return 0 if q == 1 else None
        return q

    def ok(self, q):
        return q == 0


# ------------------------------------------------------------------------------------ equivalence

def difference(a, b, dom, sigma):
    """None when a and b give the same outputs on every input of the domain, else a shortest-found input on which some
    output differs."""
    start = (a.start, b.start, dom.start)
    succ, order, back = {}, [start], {start: None}
    i = 0
    while i < len(order):
        x = order[i]
        i += 1
        if len(order) > LIMIT:
            raise Unsupported("rewriting: too many states")
        out = []
        for c in sigma:
            q = dom.step(x[2], c)
            if q is None:
                continue
            for sa, oa in a.step(x[0], c):
                for sb, ob in b.step(x[1], c):
                    y = (sa, sb, q)
                    out.append((c, y, oa, ob))
                    if y not in back:
                        back[y] = (x, c)
                        order.append(y)
        succ[x] = out
    # states from which an input of the domain can be completed
    pred = {}
    good = []
    for x in order:
        if dom.ok(x[2]) and a.final(x[0]) and b.final(x[1]):
            good.append(x)
        for c, y, _oa, _ob in succ[x]:
            pred.setdefault(y, []).append((c, x))
    alive = {x: "" for x in good}
    i = 0
    while i < len(good):
        y = good[i]
        i += 1
        for c, x in pred.get(y, ()):
            if x not in alive:
                alive[x] = c + alive[y]
                good.append(x)
    if start not in alive:
        raise Unsupported("rewriting: no input")

    def cut(da, db):
        k = 0
        while k < len(da) and k < len(db) and da[k] == db[k]:
            k += 1
        return da[k:], db[k:]

    delay = {start: ("", "")}
    path = {start: ""}
    work = [start]
    for x in work:
        da, db = delay[x]
        if dom.ok(x[2]):
            for fa in a.final(x[0]):
                for fb in b.final(x[1]):
                    if da + fa != db + fb:
                        return path[x]
        for c, y, oa, ob in succ[x]:
            if y not in alive:
                continue
            d = cut(da + oa, db + ob)
            if d[0] and d[1]:
                return path[x] + c + alive[y]
            if y not in delay:
                delay[y] = d
                path[y] = path[x] + c
                work.append(y)
            elif delay[y] != d:
                return path[x] + c + alive[y]
    return None


def candidates(a, b, dom, sigma, text):
    """Inputs to try on the real code: the difference found and its neighbours."""
    yield text


def functional(t, dom, sigma):
    """Every input of the domain has exactly one output (sanity check of the machinery)."""
    return difference(t, t, dom, sigma) is None


def apply(t, text):
    outs = [(t.start, "")]
    for c in text:
        outs = [(n, o + o2) for s, o in outs for n, o2 in t.step(s, c)]
    return sorted({o + f for s, o in outs for f in t.final(s)})


TESTS = [
    [(r"\bmml:(?=[^<>]*>)", "", 0)], [(r"(</?)mml:", r"\1", 0)], [(r"(?<=<)mml:|(?<=</)mml:", "", 0)], [(r"(?<![\w-])mml:\b", "", 0)],
    [(r"\n(?!\n)|\r\n|\r", " ", 0)], [(r"^mml:|(m)(?:l|:)?", r"<\1>", 0)], [(r"^mml:|\Bm\b", "-", 8)], [(r"mml:(?!\s)", "", 0)],
    [(r"\r\n|[\n\r]", " ", 0), (r"(<(/)?)mml:", r"\g<1>", 0)], [(r"\r\n|[\n\r]", " ", 0), (r"(?<=[</])mml:", "", 0)],
    [(r"\r\n|[\n\r]", " ", 0), (r"\bmml:(?=[^<>]*>)", "", 0)], [(r"\r\n|[\n\r]", " ", 0), (r"mml:(?=[^<>]{0,20}>)", "", 0)],
]

if __name__ == "__main__":
    import random
    ops = [("re", r"\n|\r\n|\r", " ", 32), ("re", r"mml:(?=[^<>]*>)", "", 32)]
    A = Alphabet([ops], "\n\r <>ml:/!?")
    t = pipeline(ops, A.sigma)
    r = random.Random(1)
    for _ in range(3000):
        s = "".join(r.choice(["mml:", "m", "l", ":", "<", ">", "\n", "\r", " ", "a"]) for _ in range(r.randrange(9)))
        e = re.sub(ops[1][1], "", re.sub(ops[0][1], " ", s))
        assert apply(t, s) == [e], (s, apply(t, s), e)
    spec = Compose(Breaks(), Prefixes())
    print(A.sigma, difference(t, spec, Tagged(), A.sigma), difference(t, spec, Everything(), A.sigma))
    for brk in ("\n", "\r", "\r\n"):
        print(difference(Compose(Inject(brk), t), t, NoBreaks(), A.sigma), difference(Compose(Inject(brk), spec), spec, NoBreaks(), A.sigma))
    print(difference(Compose(AddPrefix(), t), t, Tagged(), A.sigma), difference(Compose(AddPrefix(), spec), spec, Tagged(), A.sigma))
    bad = pipeline([("re", r"\n|\r", " ", 32), ops[1]], A.sigma)
    print(repr(difference(Compose(Inject("\r\n"), bad), bad, NoBreaks(), A.sigma)), repr(difference(bad, spec, Tagged(), A.sigma)))
    ok = pipeline([("replace", "\r\n", " ", 0), ("replace", "\r", " ", 0), ("replace", "\n", " ", 0), ops[1]], A.sigma)
    print(difference(ok, spec, Tagged(), A.sigma))
    for pats in TESTS:
        ops = [("re", p, q, 32 | f) for p, q, f in pats]
        A = Alphabet([ops], "\n\r <>ml:/!?")
        t = pipeline(ops, A.sigma)
        for _ in range(3000):
            s = "".join(r.choice(["mml:", "m", "<", "</", ">", "\n", "\r", " "] + A.sigma) for _ in range(r.randrange(9)))
            e = s
            for _k, p, q, f in ops:
                e = re.sub(p, q, e, flags=f)
            assert apply(t, s) == [e], (ops, s, apply(t, s), e)
        try:
            d = difference(t, spec, Tagged(), A.sigma)
        except Unsupported as e:
            d = e
        print(pats[-1], repr(d))
    g = pipeline([("re", r"\r\n?|\n", " ", 32), ("re", "mml:", "", 32)], A.sigma)
    print(repr(difference(g, spec, Tagged(), A.sigma)))
