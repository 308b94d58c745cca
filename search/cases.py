"""Per-property case generators and checks of the bounded search on the real public API.

Every check function returns None or a witness dict.  A mismatch of an element tree is reported for a property
only when the smallest subtree that already mismatches has that property's element type as its root.
"""
import itertools
import os
import random
import sys
import unicodedata

from . import gen as G
from . import real
from .gen import N, Node, mi, mo, mn, mtext, mrow, table
from spec import render as R

BASIC = ["mi", "mo", "mn", "mtext", "mrow"]

FOCUS = {
    "C01": ["math"],
    "C04": ["msup", "msub", "msubsup"],
    "C05": ["mfrac", "mroot", "msqrt"],
    "C06": ["munder", "mover", "munderover"],
    "C07": ["mmultiscripts"],
    "C08": ["mfenced"],
    "C09": ["mfenced"],
    "C10": ["mtable", "mtr"],
    "C11": ["menclose"],
    "C12": ["maction", "merror", "mphantom"],
    "C13": ["mi"],
    "C14": ["mo", "mn"],
    "C15": ["mtext"],
}


def is_focus(pid, n):
    if pid == "C02":
        return n.name not in R.KNOWN
    if pid in ("C08", "C09"):
        return n.name == "mfenced" and (R.table_below(G.el(n).children) == (pid == "C09"))
    return n.name in FOCUS[pid]


# ------------------------------------------------------------------ tree generation

def pools(pid, strings, ints=()):
    s = [x for x in strings if G.xml_ok(x)]
    attr_names = [x for x in s if G.NAME.match(x) and not x.lower().startswith("xml")]
    return {
        "mathvariant": G.VARIANTS + s, "notation": G.NOTATIONS + s, "actiontype": G.ACTIONS + s, "open": G.DELIMS + s,
        "close": G.DELIMS + s, "separators": G.SEPS + s, "bevelled": ["true", "", "false", "bevelled", "0", "1", " "] + s,
        "#": [str(i) for i in ints],
    }, attr_names


RELEVANT = {"mfrac": ["bevelled"], "mfenced": ["open", "close", "separators"], "menclose": ["notation"],
            "maction": ["actiontype"], "mi": ["mathvariant"], "mtext": ["mathvariant"]}


def rand_attrs(rng, name, pool, names):
    a = {}
    nums = pool["#"]
    for k in RELEVANT.get(name, []):
        if rng.random() < 0.7:
            a[k] = rng.choice(pool[k])
    while rng.random() < 0.25:
        k = rng.choice(names) if names and rng.random() < 0.4 else rng.choice(G.ATTRS + G.MORE_ATTRS)
        if k == "xmlns":
            continue
        a[k] = rng.choice(pool.get(k) or (["0", "1", "2", "3", "true", "x", k, ""] * 2 + G.VALUES + pool["open"] + nums))
    return a


def rand_leaf(rng):
    return rng.choice(KIDS)()


KIDS = G.kid_pool()


def rand_tree(rng, focus, depth, pool, names, root=None, texts=None):
    if root is None:
        r = rng.random()
        if r < 0.4:
            root = rng.choice(focus)
        elif r < 0.75:
            return rand_leaf(rng)
        elif r < 0.92:
            root = "mrow"
        else:
            root = rng.choice(["mstyle", "mtd", "mtr", "mtable", "msqrt", "mphantom", "mfenced", "menclose", "mpadded"])
    attrs = rand_attrs(rng, root, pool, names)
    if root in ("mi", "mo", "mn", "mtext"):
        return Node(root, [], attrs, rng.choice(texts) if texts and rng.random() < 0.6 else G.rand_text(rng))
    if root in R.EXACT:
        n = R.EXACT[root] if rng.random() < 0.95 else rng.randrange(6)
    elif root == "mmultiscripts":
        n = rng.choice([3, 3, 4, 5, 6, 6, 7, 8, 9]) if rng.random() < 0.95 else rng.randrange(4)
    else:
        n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6])
    if depth <= 0:
        kids = [rand_leaf(rng) for _ in range(n)]
    else:
        kids = [rand_tree(rng, focus, depth - 1, pool, names, None, texts) for _ in range(n)]
    if root == "mmultiscripts":
        for i in range(1, n):
            if rng.random() < 0.2:
                kids[i] = N("mprescripts")
    return Node(root, kids, attrs, "stray" if not kids and rng.random() < 0.1 else "")


def contexts(n, i):
    """The case itself, then one of a few surroundings."""
    yield n
    k = i % 8
    if k == 7:
        yield mrow(*([mi("w")] * (3 + i % 5 * 13) + [n]))
    elif k == 0:
        yield mrow(mi("p"), n, mi("q"))
    elif k == 1:
        yield N("mtable", N("mtr", N("mtd", n), N("mtd", mi("q"))), N("mtr", N("mtd", n)))
    elif k == 2:
        m = n
        for _ in range(12):
            m = mrow(m)
        yield m
    elif k == 3:
        yield N("msqrt", n, n)
    elif k == 4:
        yield N("mstyle", N("mfenced", n, mi("s"), separators=";"))
    elif k == 5:
        yield N("msup", n, n)
    elif k == 6:
        yield N("menclose", mi("k"), n, notation="box")


def near(values):
    """Values next to the meaningful ones."""
    out = []
    for v in values:
        if len(v) > 2 and v.isascii():
            out += [v + "x", "x" + v, v[:-1], v[1:], v.upper(), v.capitalize(), " " + v, v + " ", "sans-" + v, v + "-x", v + " " + v, v + "," + v, v.replace("-", " "), v.replace("-", "")]
    return [v for v in dict.fromkeys(out) if v not in values]


LEAVES = ("mi", "mo", "mn", "mtext")


KNOWN_VALUES = {"mathvariant": G.VARIANTS, "notation": G.NOTATIONS, "actiontype": G.ACTIONS, "open": G.DELIMS, "close": G.DELIMS, "separators": G.SEPS,
                "bevelled": ["true", "false", "0", "1"]}


def novel_cases(tags, ns, ni):
    """Elements around the constants that the current source has and the tree these generators were written for has not."""
    ns = [s for s in ns if G.xml_ok(s)]
    attrs = sorted({a for t in tags for a in RELEVANT.get(t, [])}) + ["id", "class", "display", "form", "accent"]
    names = [s for s in ns if G.NAME.match(s) and not s.lower().startswith("xml")]

    def body(t, k=0):
        n = R.EXACT.get(t) or (6 if t == "mmultiscripts" else 3)
        return [mi("abcdefgh"[(j + k) % 8]) for j in range(n)]
    for s in ns[:40]:
        for t in tags:
            leaf = t in LEAVES
            for a in attrs + RELEVANT.get(t, []):
                for v in (s, s + "x", "x" + s, s + " " + s, s.upper(), " " + s):
                    yield Node(t, [] if leaf else body(t), {a: v}, "a b" if leaf else "")
            for v in (s, s + "a", "a" + s, "a" + s + "b", s * 2, s + " " + s, s.upper(), s.capitalize(), "é" + s):
                for var in (None, "bold"):
                    at = {} if var is None else {"mathvariant": var}
                    if leaf:
                        yield Node(t, [], at, v)
                    elif var is None:
                        for lt in LEAVES:
                            for i in range(len(body(t))):
                                k = body(t)
                                k[i] = Node(lt, [], {}, v)
                                yield Node(t, k)
            if len(s) <= 8:
                for a in RELEVANT.get(t, []):
                    for v in sorted({x for x in KNOWN_VALUES[a] if x}):
                        for x in (v + s, s + v, v[:len(v) // 2] + s + v[len(v) // 2:]):
                            yield Node(t, [] if leaf else body(t), {a: x}, "a b" if leaf else "")
            if s in names:
                for v in G.VALUES[:12] + [s] + ns[:8]:
                    yield Node(t, [] if leaf else body(t), {s: v}, "a b" if leaf else "")
                if not leaf:
                    for i in range(len(body(t))):
                        for inner in ([], [mi("u")], [mi("u"), mi("v"), mi("w")]):
                            k = body(t)
                            k[i] = Node(s, inner)
                            yield Node(t, k)
    for n in [c + d for c in ni if c < 3000 for d in (0, 1, -1)]:
        if n < 2:
            continue
        for t in tags:
            if t in LEAVES:
                for v in ("1" * n + "b", "a" * n + "1", "a" * n + "B", "1" * n + " b", "A" * n + "é" + "1" * n + "z", "a" * n, "é" * min(n, 400), "1" * n, ("ab " * n)[:n], "a" * n + "b", "+" * n, "∑" + "x" * (n - 1), "a" * (n - 1) + " é", "a" * n + " é", "é " + "a" * n,
                          "é" + "a" * n + "é", ("a" * n + " é") * 2, " ".join("a" * n if n < 400 else "a"), "é" + " a" * min(n, 300) + " é"):
                    yield Node(t, [], {}, v)
                    yield Node(t, [], {"mathvariant": "bold"}, v)
            elif t not in R.EXACT and n < 400:
                for k, m in ((n, n + 2), (n + 1, n + 1), (n + 2, n + 3), (2 * n, 2 * n + 2)):
                    yield Node(t, [mi("abcdefg"[j % 7]) for j in range(m)], {"open": "[", "close": "]", "separators": "".join(";,.:|/!?+-*"[j % 11] for j in range(k))})
                yield Node(t, [mi("abcdefg"[j % 7]) for j in range(n)])
                yield Node(t, [mi("abcdefg"[j % 7]) for j in range(n)], {"open": "[", "separators": ";,.:"[:n] * (n // 4 + 1)})
            elif t in R.EXACT:
                for i in range(R.EXACT[t]):
                    for v in ("a" * n, "é" * min(n, 300)):
                        k = body(t)
                        k[i] = mi(v)
                        yield Node(t, k)
                    if n < 300:
                        k = body(t)
                        k[i] = mrow(*[mi("y") for _ in range(n)])
                        yield Node(t, k)
            if n < 120:
                m = Node(t, [] if t in LEAVES else body(t), {}, "a b" if t in LEAVES else "")
                for d in range(n):
                    m = mrow(m) if d % 2 else N("mstyle", m)
                yield m


def focus_cases(pid, tags, rng, strings, clean=False):
    """Around the elements whose obligations are open: every relevant attribute value with every two kinds of children."""
    pool, _ = pools(pid, strings)

    def ok(v):
        return not clean or not set(v) & set("{}\\")
    lib = list(KIDS)
    for t in sorted(R.KNOWN):
        if t in LEAVES or t == "math":
            continue
        k = R.EXACT.get(t) or (5 if t == "mmultiscripts" else 2)
        lib.append(lambda t=t, k=k: Node(t, [mi("abcdefg"[j]) for j in range(k)]))
        for a in RELEVANT.get(t, []):
            for v in pool[a][:14]:
                if ok(v):
                    lib.append(lambda t=t, k=k, a=a, v=v: Node(t, [mi("abcdefg"[j]) for j in range(k)], {a: v}))
    lib = [x for x in lib if not clean or not any(set(y.text) & set("{}\\") for y in x().walk())]
    for t in tags:
        settings = [{}] + [{a: v} for a in RELEVANT.get(t, []) for v in pool[a] if ok(v)]
        rng.shuffle(settings)
        n = R.EXACT.get(t) or (3 if t == "mmultiscripts" else 2)
        pairs = [(x, y) for x in lib for y in lib]
        rng.shuffle(pairs)
        full = max(1, 40000 // len(pairs)) if t not in R.EXACT else len(settings)
        todo = []
        for i, (x, y) in enumerate(pairs):
            for j in range(min(full, len(settings))):
                todo.append((x, y, settings[(i * full + j) % len(settings)]))
        for i, (x, y, at) in enumerate(todo):
            kids = [x(), y()]
            if n == 1 or t not in R.EXACT and i % 5 == 4:
                kids = [mrow(*kids)] if i % 2 else [kids[i // 2 % 2]]
            while len(kids) < n or t not in R.EXACT and i % 3 == 2 and len(kids) < 4:
                kids.insert(rng.randrange(len(kids) + 1), mi("w"))
            yield Node(t, kids, at)


def mixed(sweep, rand, every=4):
    """The sweep, with a random case after every few of its cases; then random cases only."""
    i = 0
    for x in sweep:
        yield x
        i += 1
        if i % every == 0:
            yield next(rand)
    for x in rand:
        yield x


def tree_cases(pid, rng, strings, ints):
    return mixed(tree_sweep(pid, rng, strings, ints), tree_random(pid, random.Random(rng.random()), strings, ints))


def tree_tags(pid, strings):
    if pid == "C02":
        return ["mrow", "mpadded"] + G.OTHER_NAMES + [s for s in strings if G.NAME.match(s) and s not in R.KNOWN]
    return FOCUS[pid]


def tree_random(pid, rng, strings, ints):
    pool, names = pools(pid, strings, ints)
    tags = tree_tags(pid, strings)
    texts = G.text_pool(rng, strings)
    i = 0
    while True:
        i += 1
        n = rand_tree(rng, tags, rng.choice([0, 1, 1, 2, 2, 3]), pool, names, rng.choice(tags), texts)
        if i % 40 == 7 and n.kids and n.name not in R.EXACT:
            n.kids = n.kids * rng.choice([7, 20, 45])
        if n.size() > 400:
            continue
        yield n


def tree_sweep(pid, rng, strings, ints):
    pool, names = pools(pid, strings, ints)
    kids = KIDS
    ns, ni = real.novel()
    focus = ["mrow", "mpadded", "foo"] if pid == "C02" else FOCUS[pid]
    for n in novel_cases(focus, ns, ni):
        yield n
    tags = tree_tags(pid, strings)
    texts = G.text_pool(rng, strings)
    # single-attribute sweep with every relevant value, few children
    for t in tags:
        for k in RELEVANT.get(t, []):
            for v in pool[k] + near(pool[k][:30]):
                for kk in ([mi("a")], [mi("ab"), mrow(mi("c"), mi("d"))], []):
                    yield Node(t, kk, {k: v}, "" if kk else "t")
    # every attribute with usual values
    for t in (tags if len(tags) < 6 else tags[:2]):
        n = R.EXACT.get(t) or (6 if t == "mmultiscripts" else 3)
        for k in G.ATTRS + G.MORE_ATTRS + [x for x in names if x not in G.ATTRS]:
            if k == "xmlns":
                continue
            for v in G.VALUES + [k] + (pool["open"][len(G.DELIMS):][:40] if k in names else []):
                if t in ("mi", "mo", "mn", "mtext"):
                    yield Node(t, [], {k: v}, "a b" if t == "mtext" else "x")
                else:
                    yield Node(t, [mi("abcdef"[j]) for j in range(n)], {k: v})
    # every number of children
    counts = sorted(set(list(range(0, 9)) + [c + d for c in ints if c <= 60 for d in (-1, 0, 1) if c + d >= 0]))
    for t in tags:
        for n in counts:
            for s in range(3):
                yield Node(t, [kids[(j * (s + 1) + s) % len(kids)]() for j in range(n)])
                if s == 0:
                    yield Node(t, [mi("abcdefghijklmnopqrstuvwxyz"[j % 26]) for j in range(n)])
    # pairs of children
    two = [t for t in tags if R.EXACT.get(t) == 2] or ([tags[0]] if pid in ("C01", "C02", "C08", "C10") else [])
    for t in two:
        for a in kids:
            for b in kids:
                yield N(t, a(), b())
    if pid == "C05":
        for a in kids:
            for b in kids:
                yield N("mfrac", a(), b(), bevelled="true")
    if pid in ("C04", "C06"):
        t = "msubsup" if pid == "C04" else "munderover"
        for a, b, c in itertools.product(kids[::2], kids[::3], kids[::5]):
            yield N(t, a(), b(), c())
    if pid == "C07":
        for n in range(0, 11):
            for pos in itertools.chain([()], ((i,) for i in range(n)), itertools.combinations(range(n), 2)):
                for base in (mi("x"), mi("x y"), mtext("a b"), mrow(mi("x"), mi("y")), mo("≣")):
                    yield N("mmultiscripts", *[N("mprescripts") if i in pos else (base if i == 0 else mi(chr(97 + i)))
                                               for i in range(n)])
    if pid in ("C08", "C09"):
        inner = (lambda: [mi("a"), mi("b"), mi("c")]) if pid == "C08" else (lambda: [table(((1, 1), (1,)))])
        ds = pool["open"]
        for o in ds[:40]:
            for c in ds[:40]:
                yield Node("mfenced", inner(), {"open": o, "close": c})
        for s in pool["separators"][:60]:
            for n in range(0, 9):
                if pid == "C08":
                    yield Node("mfenced", [mi(chr(97 + j)) for j in range(n)], {"separators": s})
                    yield Node("mfenced", [kids[(3 * j + n) % len(kids)]() for j in range(n)], {"separators": s, "open": "["})
        if pid == "C09":
            for d in list(range(0, 12)) + [c for c in ints if c < 100]:
                for wrap in ("mrow", "mstyle", "mfenced", "msqrt", "mphantom", "mtd", "mfoo"):
                    t = table(((1, 1), (1, 1)))
                    for _ in range(d):
                        t = N(wrap, t) if d % 2 else N(wrap, mi("u"), t, mi("v"))
                    for at in ({}, {"open": "[", "close": "]"}, {"open": "|", "close": "|"}, {"open": "<", "close": ")"},
                               {"open": "{"}, {"separators": ";"}):
                        yield Node("mfenced", [t], at)
                        yield Node("mfenced", [mi("x"), mi("y"), t, mi("z")], at)
    if pid == "C10":
        shapes = [((),), ((1,),), ((1, 1),), ((1,), (1,)), ((1, 1), (1, 1), (1,)), ((), (1,)), ((), ()), ((1,), ()), ()]
        for s in shapes:
            yield table(s)
            for s2 in shapes:
                yield table(s, table(s2))
                yield table(s, mrow(mi("x"), table(s2)))
                yield table(s, N("mfenced", table(s2), open="["))
                yield table(s, table(s2, table(s)))
        for d in list(range(0, 10)) + [c for c in ints if c < 60]:
            for wrap in ("mrow", "mstyle", "mphantom", "mfrac", "maction", "msup", "mfenced", "menclose", "math", "semantics"):
                t = table(((1,),))
                for _ in range(d):
                    t = N(wrap, t, mi("k")) if wrap in ("mfrac", "msup") else N(wrap, t)
                yield table(((1, 1),), t)
                yield mrow(t, t)
                yield table(((1,),), table(((1,),), t))
        for k in sorted({5, 12} | {c + d for c in ints if c < 120 for d in (0, 1)}):
            wide = [mi("w") for _ in range(k)]
            for wrap in ("mrow", "mtd", "mfenced", "mtable", "mstyle"):
                for at in (0, k // 2, k):
                    yield table(((1,),), N(wrap, *(wide[:at] + [table(((1,), (1,)))] + wide[at:])))
        for a in G.ATTRS + names:
            if a == "xmlns":
                continue
            for v in ("1", "true", a, "innerTable"):
                yield Node("mtable", table(((1,),)).kids, {a: v})
                yield mrow(table(), Node("mtable", table(((1,), (1,))).kids, {a: v}), table())
        yield mrow(table(), table(((1,),), table()), table())
    if pid in ("C13", "C14"):
        tab = {"C13": R.MI_TABLE, "C14": R.MO_TABLE}[pid]
        for t in tags:
            for s in texts:
                for v in [None] + (G.VARIANTS if t == "mi" else ["bold"]):
                    yield Node(t, [], {} if v is None else {"mathvariant": v}, s)
            few = [k for k in sorted({"mi": R.MI_TABLE, "mo": R.MO_TABLE, "mn": R.MN_TABLE}[t]) if G.xml_ok(k)]
            few = few[::max(1, len(few) // 40)]
            for m in G.AFFIXES + [x for x in strings if len(x) <= 6 and G.xml_ok(x)]:
                for k in few:
                    yield Node(t, [], {}, k + m)
                    yield Node(t, [], {}, m + k)
            for k in sorted(set(R.MI_TABLE) | set(R.MO_TABLE) | set(R.MN_TABLE)):
                if G.xml_ok(k):
                    yield Node(t, [], {}, k)
                    yield Node(t, [], {"mathvariant": "bold"}, k)
                    yield Node(t, [], {}, " " + k + "  ")
            for k in sorted(tab):
                if G.xml_ok(k):
                    yield Node(t, [], {}, k + "x")
                    yield Node(t, [], {}, k + " " + k)
                    yield Node(t, [], {}, "1" + k)
            for o in list(range(32, 0x3000)) + list(range(0xA000, 0xA800)) + list(range(0xF900, 0x10000)) + list(range(0x1D400, 0x1D800)):
                if G.xml_char(chr(o)):
                    yield Node(t, [], {}, chr(o))
    if pid == "C15":
        for s in texts:
            for v in [None] + G.VARIANTS:
                yield Node("mtext", [], {} if v is None else {"mathvariant": v}, s)
        for L in range(1, 7):
            for w in itertools.product("a é" if L > 4 else "a1 é-", repeat=L):
                yield Node("mtext", [], {}, "".join(w))
        for n in [c + d for c in ints if c < 3000 for d in (-1, 0, 1)]:
            if n > 0:
                yield mtext("a" * n)
                yield mtext("é" * min(n, 300))
                yield mtext("a" * n + "é" + "b" * n)
        for o in range(32, 0x2100):
            if G.xml_char(chr(o)):
                yield mtext("a" + chr(o) + "b")
                yield mtext(chr(o))
        for s in strings:
            if G.xml_ok(s):
                yield mtext("a" + s + "b")
                yield mtext("é" + s + "é")
    if pid == "C12":
        for a in G.BAD_KIDS:
            yield N("mphantom", a())
            yield N("maction", mi("x"), a(), actiontype="tooltip")
            yield N("maction", mi("x"), a())
            yield N("merror", a())
    if pid == "C01":
        for a in kids:
            yield N("math", mrow(a()), N("math", a(), a()))

def blame(pid, n, exp, act):
    """The smallest subtrees that mismatch on their own must belong to the property."""
    for sub in n.walk():
        e = G.expected(sub)
        a = real.convert_element(sub)
        if not G.agree(e, a):
            return sub, e, a
    return None


def check_tree(pid, n):
    exp = G.expected(n)
    act = real.convert_element(n)
    if G.agree(exp, act):
        return None
    b = blame(pid, n, exp, act)
    if b is None or not is_focus(pid, b[0]):
        return None
    # confirm through the public API
    for cand in (b[0], n):
        d = G.document(cand)
        e = G.expected(cand if cand.name == "math" else N("math", cand))
        a = real.convert(d)
        if not doc_agree(e, a):
            return witness(d, e, a, element=cand.name)
    sub, e, a = b
    return witness(G.document(sub), e, a, element=sub.name,
                   note="element-level call: MathMLElementToLatexConverterAdapter().to_latex_converter(e).convert()")


def doc_agree(e, a):
    if e[0] == "ok":
        return a == ("ok", e[1].strip())
    return G.agree(e, a)


def show(o):
    if o[0] == "arity":
        return {"raises": "InvalidNumberOfChildrenError", "one of": sorted(o[1])}
    if o[0] == "ok":
        return {"returns": o[1]}
    if o[0] == "raise":
        return {"raises": o[1], "message": o[2]}
    return {"outcome": list(o)}


def witness(xml, e, a, **kw):
    w = {"input": xml, "expected": show(e) if isinstance(e, tuple) else e, "actual": show(a) if isinstance(a, tuple) else a}
    w.update(kw)
    return w
