"""Case generators and checks for the properties about documents, symbols and histories."""
import itertools
import os
import random
import re
import unicodedata
import xml.dom.minidom as minidom
from xml.parsers.expat import ExpatError

from . import gen as G
from . import real
from . import cases as C
from .gen import N, Node, mi, mo, mn, mtext, mrow, table
from spec import render as R
from spec import unicode_oracle as U

# ------------------------------------------------------------------ reference reading of a document


def read(dom):
    kids = [c for c in dom.childNodes if c.nodeType == 1]
    text = "" if kids else "".join(c.data for c in dom.childNodes if c.nodeType in (3, 4))
    attrs = {}
    for i in range(dom.attributes.length):
        a = dom.attributes.item(i)
        attrs[a.name] = "" if a.value == a.name else a.value
    return G.El(dom.tagName, text.strip(), [read(k) for k in kids], attrs)


def math_elements(node, out):
    for c in node.childNodes:
        if c.nodeType == 1:
            if c.tagName == "math":
                out.append(c)
            math_elements(c, out)
    return out


TAG = re.compile(r"<[^<>]*>")


def prepare(xml):
    xml = xml.replace("\r\n", " ").replace("\r", " ").replace("\n", " ")
    return TAG.sub(lambda m: m.group().replace("mml:", ""), xml)


def expected_doc(xml):
    try:
        dom = minidom.parseString(prepare(xml))
    except ExpatError:
        return ("malformed",)
    els = [read(m) for m in math_elements(dom, [])]
    bad = set()
    for e in els:
        G.offences(e, bad)
    if bad:
        return ("arity", bad)
    return ("ok", "".join(R.render(e, False) for e in els).strip())


# ------------------------------------------------------------------ C01

def c01(rng, strings, ints):
    junk = ["", " ", "text", "<p>para</p>", "<mi>stray</mi>", "<!-- c -->", "<?pi x?>", "<p>a<b>c</b></p>", "&amp;", "<maths><mi>n</mi></maths>",
            "<MATH><mi>n</mi></MATH>", "<m><mi>k</mi></m>", "<msup><mi>a</mi></msup>", "<![CDATA[<math>]]>"]

    def m(depth):
        n = rng.choice([0, 1, 1, 2, 3])
        kids = "".join(G.xml(rng.choice(SIMPLE)()) for _ in range(n))
        if depth and rng.random() < 0.3:
            kids += "<mrow>" + m(depth - 1) + "</mrow>"
        if depth and rng.random() < 0.2:
            kids += m(depth - 1)
        return "<math%s>%s</math>" % (rng.choice(["", " display='block'", " xmlns='http://www.w3.org/1998/Math/MathML'"]), kids)

    for k in list(range(0, 8)) + [c + d for c in ints if c < 80 for d in (0, 1)]:
        yield "<doc>" + "".join("<math><mi>x%d</mi></math>" % i for i in range(k)) + "</doc>"
        yield "<doc>" + "".join("<p><math><mi>x%d</mi><mo>+</mo></math></p>" % i for i in range(k)) + "</doc>"
        yield "<math>" + "".join("<mi>x%d</mi>" % i for i in range(k)) + "</math>"
        x = "<mi>z</mi>"
        for _ in range(min(k, 12)):
            x = "<math>" + x + "</math>"
        yield "<doc>" + x + "</doc>"
    for j in junk:
        yield "<doc>" + j + "</doc>"
        yield "<doc>" + j + "<math><mi>a</mi></math>" + j + "<math><mi>b</mi></math>" + j + "</doc>"
    two = "<math><mi>a</mi></math><math display='block'><mrow><mi>b</mi></mrow></math>"
    for t in "mrow mi mo mn mtext msqrt mfrac mtable mtr mtd menclose maction merror mphantom mfenced msup semantics annotation annotation-xml mstyle".split():
        yield "<%s>%s</%s>" % (t, two, t)
        yield "<doc><%s>%s</%s>%s</doc>" % (t, two, t, two)
        yield "<math><%s>%s<mi>c</mi></%s></math>" % (t, two, t)
    yield "<!DOCTYPE math><math><mi>a</mi></math>"
    ns, ni = real.novel()
    for x in c01_novel([x for x in ns if G.xml_ok(x)], ni):
        yield x
    for k in sorted({c + d for c in ni if c < 3000 for d in (-1, 0, 1) if c + d > 0}) + [9, 17, 40, 99, 130, 260, 520, 1030]:
        for x in c01_long(k):
            yield x
    yield "<?xml version='1.0'?><math><mi>a</mi></math>"
    yield "<math><mtext>a   b</mtext><mtext>  c</mtext><mtext/></math>"
    yield "<math><mtext/><mi>a</mi><mtext/><mtext/><mi>b</mi><mtext/></math>"
    while True:
        parts = []
        for _ in range(rng.randrange(6)):
            parts.append(rng.choice(junk) if rng.random() < 0.5 else m(rng.choice([0, 1, 2])))
            if rng.random() < 0.3:
                parts[-1] = "<p>" + parts[-1] + "</p>"
        yield rng.choice(["", "<!-- x -->", "<?xml version='1.0'?>"])[:0] + "<doc>" + "".join(parts) + "</doc>"


def c01_long(k):
    """Documents in which something is repeated k times."""
    yield "<math>" + "".join("<mi>x%d</mi><mtext> </mtext>" % i for i in range(k)) + "</math>"
    yield "<math>" + "".join("<mn>%d</mn><mo>+</mo>" % i for i in range(k)) + "<mi>z</mi></math>"
    yield "<math><mtext>" + " a" * k + "</mtext><mi>z</mi></math>"
    yield "<math><mi>a</mi><mtext>" + " " * k + "</mtext><mi>z</mi></math>"
    yield "<math>" + "<mtext> </mtext>" * k + "<mi>a</mi>" + "<mtext> </mtext>" * k + "</math>"
    yield "<math>" + "<mi></mi>" * k + "<mi>a</mi>" + "<mrow></mrow>" * k + "<mi>b</mi></math>"
    yield "<math>" + "<mrow>" * min(k, 150) + "<mi>z</mi>" + "</mrow>" * min(k, 150) + "<mi>a</mi></math>"
    yield "<doc>" + "".join("<math><mi>x%d</mi></math>" % i for i in range(k)) + "</doc>"
    yield "<doc>" + "<p>t</p>" * k + "<math><mi>a</mi></math>" + "<b/>" * k + "<math><mi>b</mi></math></doc>"
    yield "<doc>" + "<p>" * min(k, 300) + "<math><mi>a</mi></math>" + "</p>" * min(k, 300) + "<math><mi>b</mi></math></doc>"
    yield "<doc>" + "<math>" * min(k, 40) + "<mi>a</mi>" + "</math>" * min(k, 40) + "</doc>"
    yield "<doc>" + "x" * k + "<math><mi>a</mi></math>" + "y" * k + "</doc>"
    yield "<math><mi>%s</mi><mo>+</mo><mi>%s</mi></math>" % ("x" * k, "y" * k)


def c01_novel(ns, ni):
    esc = lambda x: x.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")
    one, two = "<math><mi>a</mi></math>", "<math display='block'><mrow><mi>b</mi><mo>+</mo></mrow></math>"
    for s in ns[:60]:
        q = esc(s)
        name = bool(G.NAME.match(s)) and not s.lower().startswith("xml")
        for at in ("id", "display", "class") + ((s,) if name else ()):
            for vs in (("2", "1"), ("b", "c", "a"), ("x", "x"), ("", "a", ""), (q, "a"), ("z", q, q)):
                yield "<doc>" + "".join('<math %s="%s"><mi>x%d</mi></math>' % (at, v, i) for i, v in enumerate(vs)) + "</doc>"
                yield "<math>" + "".join('<mrow %s="%s"><mi>x%d</mi></mrow>' % (at, v, i) for i, v in enumerate(vs)) + "</math>"
        for v in (q, " " + q, q + " ", q + q):
            for at in ("id", "display", "class") + ((s,) if name else ()):
                yield '<doc><math %s="%s"><mi>a</mi></math>%s</doc>' % (at, v, two)
                yield '<doc><p %s="%s">%s</p>%s</doc>' % (at, v, one, two)
                yield '<math><mrow %s="%s"><math><mi>n</mi></math><mi>a</mi></mrow></math>' % (at, v)
            yield "<doc>%s%s%s%s</doc>" % (v, one, v, two)
            yield "<doc><!-- %s -->%s<!-- %s -->%s</doc>" % (s.replace("-", ""), one, s.replace("-", ""), two)
            yield "<math><mtext>%s</mtext><mi>a</mi><mtext>%s</mtext></math>" % (v, v)
            yield "<math><mi>a</mi>%s<mi>b</mi></math>" % v
        if not name:
            continue
        for x in (one, two, one + two, "<p>%s</p>" % one, "<p>%s</p>%s" % (one, two)):
            yield "<doc><%s>%s</%s>%s</doc>" % (s, x, s, two)
            yield "<%s>%s</%s>" % (s, x, s)
            yield "<math><mi>u</mi><%s>%s</%s></math>" % (s, x, s)
            yield "<math><mrow><%s>%s</%s><mi>u</mi></mrow><mi>v</mi></math>" % (s, x, s)
            yield "<math>%s<%s><mi>u</mi></%s></math>" % (x, s, s)
            yield "<math><%s/>%s<mi>u</mi></math>" % (s, x)
            yield "<doc>%s<%s/>%s</doc>" % (x, s, x)
    for n in [c + d for c in ni if 3000 <= c < 300000 for d in (-40, 1)]:
        yield "<math><mtext>%s</mtext><mi>x</mi></math>" % ("u" * n)
        yield "<doc>%s%s</doc>" % ("<math><mi>y</mi></math>" * (n // 23 + 1), two)
        yield "<doc>%s%s</doc>" % ("u" * n, two)
        yield "<math>%s</math>" % ("<mi>y</mi>" * (n // 10 + 1))
    names = [s for s in ns[:60] if G.NAME.match(s) and not s.lower().startswith("xml")][:12]
    for a in names:
        for b in names + ["mrow", "math"]:
            for x in (one, one + two, "<mi>u</mi>" + one):
                yield "<math><%s><%s>%s</%s></%s><mi>v</mi></math>" % (a, b, x, b, a)
                yield "<math><%s><mi>w</mi><%s>%s</%s></%s><mi>v</mi></math>" % (a, b, x, b, a)
                yield "<doc><%s><%s>%s</%s></%s></doc>" % (a, b, x, b, a)
    for n in sorted({c + d for c in ni if c < 3000 for d in (-1, 0, 1) if c + d > 0}):
        yield "<doc>" + "<math/>" * n + one + "</doc>"
        yield "<doc>" + (one + "<!--c-->") * n + two + "</doc>"
        yield '<doc><p id="%s">%s</p>%s</doc>' % ("i" * n, one, two)


SIMPLE = [lambda: mi("x"), lambda: mi("xy"), lambda: mn("1"), lambda: mo("+"), lambda: mtext("a b"), lambda: mtext("a  b"), lambda: mtext(""),
          lambda: mi(""), lambda: mrow(mi("u"), mi("v")), lambda: mrow(), lambda: mtext("é"), lambda: mi("α")]


def check_c01(xml):
    e = expected_doc(xml)
    a = real.convert(xml)
    if e[0] == "malformed" or G.agree(e, a):
        return None
    # the renderings of leaf elements belong to other properties
    dom = minidom.parseString(prepare(xml))
    for m in math_elements(dom, []):
        for d in [m] + m.getElementsByTagName("*"):
            if d.tagName not in ("math",):
                node = to_node(d)
                if not G.agree(G.expected(node), real.convert_element(node)):
                    return None
    return C.witness(xml, e, a)


def to_node(dom):
    e = read(dom)

    def f(e):
        return Node(e.name, [f(k) for k in e.children], e.attributes, e.value)
    return f(e)


# ------------------------------------------------------------------ C03

ARITY_TAGS = sorted(R.EXACT) + ["mmultiscripts", "maction"]


def c03(rng, strings, ints):
    pool, names = C.pools("C03", strings)
    counts = sorted(set(list(range(0, 10)) + [c + d for c in ints if c <= 60 for d in (-1, 0, 1) if c + d >= 0]))
    other = ["math", "mrow", "mfenced", "mtable", "mtr", "mtd", "menclose", "merror", "msqrt", "mphantom", "mstyle", "foo", "mpadded"]
    for t in ARITY_TAGS + other:
        for n in counts:
            for at in ({}, {"actiontype": "toggle"}, {"actiontype": "tooltip"}, {"bevelled": "true"}, {"open": "["}):
                yield Node(t, [mi(chr(97 + i % 26)) for i in range(n)], at)
            for pos in range(n):
                ks = [mi("a") for i in range(n)]
                ks[pos] = N("mprescripts")
                yield Node(t, ks)
                ks = [mi("a") for i in range(n)]
                ks[pos] = N("msup", mi("q"))
                yield Node(t, ks, {"actiontype": "tooltip"})
    bad = [N(t, *[mi("a")] * n) for t in ARITY_TAGS for n in (0, 1, 2, 3, 4)] + [N("maction", actiontype="x")]
    for b in bad:
        for t in ARITY_TAGS + other:
            for n in (1, 2, 3, 4, 6):
                for pos in range(n):
                    ks = [mi("a") for i in range(n)]
                    ks[pos] = b
                    yield Node(t, ks)
    while True:
        n = C.rand_tree(rng, ARITY_TAGS, rng.choice([0, 1, 2, 3]), pool, names, rng.choice(ARITY_TAGS))
        if n.size() < 120:
            yield n


def check_c03(n):
    e = G.expected(n)
    a = real.convert_element(n)
    if G.same_kind(e, a):
        return None
    for cand in (n,):
        d = G.document(cand)
        e2, a2 = G.expected(cand if cand.name == "math" else N("math", cand)), real.convert(d)
        if not G.same_kind(e2, a2):
            return C.witness(d, e2, a2)
    return C.witness(G.document(n), e, a, note="element-level call")


# ------------------------------------------------------------------ C16

def c16(rng, strings, ints):
    for c in U.expected():
        for kind in ("mi", "mo", "mn"):
            yield (kind, c)


GREEK = {"ALPHA": "A", "BETA": "B", "GAMMA": "\\Gamma", "DELTA": "\\Delta", "EPSILON": "E", "ZETA": "Z", "ETA": "H",
         "THETA": "\\Theta", "IOTA": "I", "KAPPA": "K", "LAMDA": "\\Lambda", "MU": "M", "NU": "N", "XI": "\\Xi", "OMICRON": "O",
         "PI": "\\Pi", "RHO": "P", "SIGMA": "\\Sigma", "TAU": "T", "UPSILON": "\\Upsilon", "PHI": "\\Phi", "CHI": "X",
         "PSI": "\\Psi", "OMEGA": "\\Omega"}
STYLE = {"BOLD": "\\mathbf", "ITALIC": "\\mathit", "DOUBLE-STRUCK": "\\mathbb", "SCRIPT": "\\mathcal", "FRAKTUR": "\\mathfrak",
         "SANS-SERIF": "\\mathsf"}
FONT = re.compile(r"((?:\\math[a-z]+\{)*)([^{}]*)(\}*)\Z")
_UEXP = U.expected()


def c16_ok(kind, c, result):
    cls, want = _UEXP[c]
    if result == c:
        always = cls in ("superscript", "subscript", "circled") or (cls == "fraction" and c != "\u2189")
        return not always
    if isinstance(want, set):
        return result in want
    m = FONT.match(result)
    if not m or m.group(1).count("{") != len(m.group(3)):
        return False
    if cls == "alphanumeric":
        style = re.sub(r" (SMALL|CAPITAL|DIGIT) \w+$", "", unicodedata.name(c))[len("MATHEMATICAL "):]
        fonts = m.group(1)
        return m.group(2) == want and (fonts == "" or style not in STYLE or fonts == STYLE[style] + "{")
    return m.group(2) == GREEK[want]


KNOWN_C16 = {("mi", "\u1e41"): "m"}


def check_c16(case, known=None):
    kind, c = case
    a = real.convert("<math><%s>%s</%s></math>" % (kind, c, kind))
    if a[0] == "ok" and c16_ok(kind, c, a[1]):
        return None
    if known is not None and a[0] == "ok" and any(k.get("token") == kind and k.get("char") == c and k.get("actual") == a[1] for k in known):
        return None
    cls, want = _UEXP[c]
    return C.witness("<math><%s>%s</%s></math>" % (kind, c, kind),
                     {"class": cls, "meaning": sorted(want) if isinstance(want, set) else want}, a,
                     unicode_name=unicodedata.name(c, "?"))


# ------------------------------------------------------------------ C17

MML = "http://www.w3.org/1998/Math/MathML"


def c17(rng, strings, ints):
    noise = ["<!-- c -->", "<!---->", "<?pi data?>", "<?pi?>", "<!-- <mi>y</mi> -->"]
    texts = ["x", " x ", "ab", "a b", "&lt;", "&amp;", "&#65;", "&#x3b1;", "<![CDATA[q]]>", "<![CDATA[]]>", "<![CDATA[ a<b ]]>", " ", "  ", "é"]
    texts += ["<![CDATA[ ]]>", "<![CDATA[  q ]]>", "&#160;x", "x&#160;", "&#x3000;", "&#9;x", "x&#10;", "&#13;", "a&#x2003;b", "&#x200B;x", "&#x85;x&#x85;", "\t", "a\u2028b", "\u2028", "a\x85b", "a\u2029\x85b", "a\u200bb", "a\ufeffb", "a\xa0b", "a\u3000b"]
    ns, ni = real.novel()
    for x in c17_novel([x for x in ns if G.xml_ok(x)], ni):
        yield x
    for t in ("mi", "mn", "mtext", "mo"):
        for a in texts:
            yield "<math><%s>a%sb</%s></math>" % (t, a, t)
            for b in texts[:6]:
                for n in noise:
                    for w in (n + a, a + n, a + n + b, n + a + n + b + n, a + "<![CDATA[q]]>" + b, n, n + n):
                        yield "<math><%s>%s</%s></math>" % (t, w, t)
    for n in noise + ["text", "<![CDATA[q]]>", " "]:
        for t in ("mrow", "mstyle", "mfrac", "msup", "mfenced", "math"):
            yield "<math><%s>%s<mi>a</mi>%s<mi>b</mi>%s</%s></math>" % (t, n, n, n, t)
        yield "<math><mi>%s<mi>a</mi>%s</mi></math>" % (n, n)
        yield "<math><mtable><mtr><mtd>%s</mtd><mtd>%s<mi>x</mi>%s</mtd></mtr></mtable></math>" % (n, n, n)
    for k in range(1, 14):
        for n in ("<!-- c -->", "<![CDATA[q]]>", "<!--c-->t", "t<?pi?>", "<!--c--> ", "<![CDATA[ ]]>u<!--c-->"):
            w = n * k
            yield "<math>%s<mi>a</mi></math>" % w
            yield "<math><mrow>%s<mi>a</mi>%s<mi>b</mi>%s</mrow></math>" % (w, w, w)
            yield "<math><mi>x%sy</mi></math>" % w
            yield "<math><mi>%s<mrow><mi>b</mi></mrow>%s</mi></math>" % (w, w)
            yield "<math><mfenced open='['><mi>p</mi>%s<mfrac>%s<mi>a</mi>%s<mi>b</mi></mfrac></mfenced></math>" % (w, w, w)
    for a in G.ATTRS + [s for s in strings if G.NAME.match(s) and not s.lower().startswith("xml")]:
        if a == "xmlns":
            continue
        for v in (a, "", "x", a.upper(), " " + a, a + " ", "(", "true"):
            for t in ("mi", "mfenced", "menclose", "mfrac", "maction", "mtable", "mtext"):
                inner = "<mi>p</mi><mi>q</mi>" if t not in ("mi", "mtext") else "p"
                yield '<math><%s %s="%s">%s</%s></math>' % (t, a, v, inner, t)
    ns = 'xmlns:p="http://www.w3.org/1999/xlink" xmlns:q="urn:q" xmlns:open="urn:o"'
    for p in ("p", "q", "xml", "open"):
        for a in ("open", "close", "separators", "notation", "mathvariant", "bevelled", "actiontype", "lang", "href", "p"):
            for v in (a, p + ":" + a, "q:" + a, "x", "", p, "["):
                for b in ('', ' %s=")"' % a, ' q:%s="]"' % a if p != "q" else ''):
                    for t in ("mfenced", "mi"):
                        yield '<math %s><%s %s:%s="%s"%s>x</%s></math>' % (ns, t, p, a, v, b, t)
    known = {"xlink": "http://www.w3.org/1999/xlink", "xsi": "http://www.w3.org/2001/XMLSchema-instance", "epub": "http://www.idpf.org/2007/ops", "m": MML, "mml": MML,
             "svg": "http://www.w3.org/2000/svg", "html": "http://www.w3.org/1999/xhtml", "dsi": "urn:dsi", "om": "http://www.openmath.org/OpenMath", "XML": "urn:x"}
    for w in strings:
        for x in (w, w.rstrip(":"), w.split(":")[0]):
            if G.NAME.match(x) and ":" not in x and not x.lower().startswith("xml"):
                known.setdefault(x, "urn:" + x)
    for p, u in known.items():
        for a in ("href", "type", "open", "mathvariant", "id", "notation", "lang", p):
            for b in ("", ' %s="["' % a):
                for t in ("mi", "mfenced"):
                    yield '<math xmlns:%s="%s"><%s %s:%s="v"%s>x</%s></math>' % (p, u, t, p, a, b, t)
                    yield '<math><%s xmlns:%s="%s" %s:%s="("%s>x</%s></math>' % (t, p, u, p, a, b, t)
        yield '<math xmlns:%s="%s"><%s:mi>x</%s:mi><mrow %s:class="MathML"><mi>y</mi></mrow></math>' % (p, u, p, p, p)
        yield '<%s:math xmlns:%s="%s"><%s:mi>x</%s:mi></%s:math>' % (p, p, u, p, p, p)
    for t in ("p:mi", "q:mfenced", "p:math", "open:mrow", "p:x"):
        yield "<math %s><%s>x</%s></math>" % (ns, t, t)
        yield "<math %s><mrow><%s><mi>x</mi></%s><mi>y</mi></mrow></math>" % (ns, t, t)
        yield "<%s %s><math><mi>x</mi></math></%s>" % (t, ns, t)
    for k in list(range(0, 12)) + [c + d for c in ints if c < 200 for d in (-1, 0, 1)]:
        yield "<math>" + "".join("<mi>x%d</mi>" % i for i in range(max(k, 0))) + "</math>"
        yield "<math><mtext>" + "<!--c-->y" * max(k, 0) + "</mtext></math>"
        yield "<math>" + "<mrow>" * max(min(k, 60), 0) + "<mi>z</mi>" + "</mrow>" * max(min(k, 60), 0) + "</math>"
        yield "<math><mfenced " + " ".join('a%d="v%d"' % (i, i) for i in range(max(k, 0))) + ' open="["><mi>x</mi></mfenced></math>'

    def content(depth):
        out = []
        for _ in range(rng.randrange(5)):
            r = rng.random()
            if r < 0.3:
                out.append(rng.choice(texts))
            elif r < 0.5:
                out.append(rng.choice(noise))
            elif depth:
                t = rng.choice(["mrow", "mi", "mstyle", "mfenced", "mtext", "mn", "mtd", "mtr", "mtable", "mphantom", "foo:bar", "x-y", "_a", "é"])
                if ":" in t:
                    t = "foo"
                at = "".join(' %s="%s"' % kv for kv in {rng.choice(G.ATTRS[:12]): rng.choice(["open", "close", "(", "bold", "", "notation", "1"])
                                                        for _ in range(rng.randrange(3))}.items())
                out.append("<%s%s>%s</%s>" % (t, at, content(depth - 1), t))
        return "".join(out)
    while True:
        yield "<math>" + content(rng.choice([1, 2, 3])) + "</math>"


def c17_novel(ns, ni):
    esc = G.esc_attr if hasattr(G, "esc_attr") else (lambda x: x.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;"))
    for s in ns[:40]:
        q = esc(s)
        name = G.NAME.match(s) and not s.lower().startswith("xml")
        for t in ("mi", "mtext", "mfenced", "mrow"):
            leaf = t in ("mi", "mtext")
            inner = "p" if leaf else "<mi>p</mi><mi>q</mi>"
            for v in (q, " " + q, q + " ", "x" + q, q + "x", q + q):
                for a in ("open", "mathvariant", "id", "foo") + ((s,) if name else ()):
                    yield '<math><%s %s="%s">%s</%s></math>' % (t, a, v, inner, t)
                if leaf:
                    for y in (v, "<!--c-->" + v, v + "<!--" + s.replace("-", "") + "-->z", "a<![CDATA[" + s + "]]>b", "<?%s x?>y" % (s if name else "pi")):
                        yield "<math><%s>%s</%s></math>" % (t, y, t)
            for at in ("id", "class", "foo") + ((s,) if name else ()):
                for vs in (("2", "1"), ("b", "c", "a"), ("x", "x"), ("", "a", ""), (q, "a", "B")):
                    yield "<math><%s>%s</%s></math>" % (t, "".join('<mi %s="%s">x%d</mi>' % (at, v, i) for i, v in enumerate(vs)), t)
            if name:
                for v in ("", "x", "(", "bold", "true", "1", s.upper()):
                    yield '<math><%s %s="%s">%s</%s></math>' % (t, s, v, inner, t)
                    yield '<math><%s %s="%s" open="[" mathvariant="bold">%s</%s></math>' % (t, s, v, inner, t)
                yield "<math><%s><%s>u</%s><mi>p</mi></%s></math>" % (t, s, s, t)
                yield "<math><%s><%s><mi>u</mi></%s>x</%s></math>" % (t, s, s, t)
                yield "<%s><math><%s>%s</%s></math></%s>" % (s, t, inner, t, s)
    for n in [c + d for c in ni if c < 3000 for d in (-1, 0, 1) if c + d > 0]:
        yield "<math><mi>%s</mi></math>" % ("x" * n)
        yield "<math><mi>%s</mi></math>" % (" " * n + "x" + " " * n)
        yield "<math><mi>x%sy</mi></math>" % (" " * n)
        yield '<math><mi mathvariant="%s">x</mi></math>' % ("b" * n)
        yield '<math><mi %s="1" mathvariant="bold">x</mi></math>' % ("b" * n)
        if n < 400:
            yield "<math>" + "<!--c-->" * n + "<mi>x</mi></math>"
            yield "<math><mtext>" + "<![CDATA[k]]>" * n + "</mtext></math>"
            yield "<math><mtext>" + "k<!-- -->" * n + "</mtext></math>"
            yield "<math>" + "".join("<mi>x%d</mi>t" % i for i in range(n)) + "</math>"
            yield "<math><mfenced " + " ".join('a%d="v%d"' % (i, i) for i in range(n)) + ' open="["><mi>x</mi></mfenced></math>'
        if n < 150:
            yield "<math>" + "<mrow>" * n + "<mi>z</mi>" + "</mrow>" * n + "</math>"


def struct_real(e):
    return (e.name, e.value, [struct_real(c) for c in e.children], dict(e.attributes))


def struct_spec(e):
    return (e.name, e.value, [struct_spec(c) for c in e.children], dict(e.attributes))


def check_c17_document(xml):
    """The rendering, for a document on which the reading of the prepared text is right."""
    e, a = expected_doc(xml), real.convert(xml)
    return None if e[0] == "malformed" or G.agree(e, a) or check_c01(xml) is None else C.witness(xml, e, a)


def check_c17(xml):
    try:
        dom = minidom.parseString(xml)
    except ExpatError:
        return None
    ms = math_elements(dom, [])
    want = [struct_spec(read(m)) for m in ms]

    def reading():
        d2 = minidom.parseString(xml)
        conv = real.module("xml_to_mathml.services.xml_elements_to_mathml_element").ElementsToMathMLAdapter()
        return [struct_real(e) for e in conv.convert(math_elements(d2, []))]
    got = real.outcome(reading)
    if got == ("ok", want):
        return None
    if got[0] == "raise" and got[1] in ("ImportError", "ModuleNotFoundError", "AttributeError"):
        e = expected_doc(xml)
        a = real.convert(xml)
        return None if G.agree(e, a) else C.witness(xml, e, a)
    e, a = expected_doc(xml), real.convert(xml)
    return C.witness(xml, {"elements": repr(want)}, {"elements": repr(got)}, rendering_expected=C.show(e), rendering_actual=C.show(a))


# ------------------------------------------------------------------ C18

def C18_NOVEL(strings):
    out = []
    for x in real.novel()[0]:
        if G.xml_ok(x) and x.strip() and not set(x) & set("<>&\n\r"):
            out += [x, "a " + x + " b"]
    return out[:24]


def c18(rng, strings, ints):
    pool, names = C.pools("C18", [])
    base = ["<math> <mi> x </mi> </math>", "<math><mtext>a b  c</mtext></math>", '<math ><mi mathvariant = "bold" >x</mi ></math >',
            '<math><mfenced open="(" close=")" separators="; ,"><mi>x y</mi><mi>y</mi></mfenced></math>', "<doc> a b <math><mi>x</mi></math> c </doc>",
            "<math><mi>sin x</mi> <mo>+ +</mo> <mn>1 2</mn></math>", "<math><!-- a b --><mi>x<!-- c d --> y</mi></math>",
            "<math><mtext><![CDATA[a b c]]></mtext></math>", "<math><mtext>  a  b  </mtext></math>", "<?pi a b?><math><mi>x</mi></math>",
            "<!DOCTYPE math ><math><mi>x</mi></math>", '<math><mi mathvariant="bold">x</mi> <menclose notation="box"> <mi>y</mi> </menclose></math>']
    base += [b + " " for b in base] + [" " + b + "  " for b in base if not b.startswith("<?xml")] + ["  " + b for b in base[:4]]
    for b in base:
        sp = [i for i, c in enumerate(b) if c == " "]
        for br in ("\n", "\r", "\r\n"):
            yield ("lb", b, inject(b, sp, br))
            for i in sp:
                yield ("lb", b, inject(b, [i], br))
            for i, j in itertools.combinations(sp[:14], 2):
                yield ("lb", b, inject(b, [i, j], br))
        yield ("mml", b, prefixed(b))
    for b in ("<math><mtext>a  b</mtext></math>", "<math>  <mi  mathvariant='bold' >x  y</mi>  </math>", "<math><mtext>a   b  c</mtext><mo>a  b</mo></math>",
              '<math><mfenced open="  " separators=";  ,"><mi>x</mi><mi>y</mi><mi>z</mi></mfenced></math>', "<math><mtext><![CDATA[a  b]]>  <!--  --></mtext></math>"):
        sp = [i for i, c in enumerate(b) if c == " "]
        for br in ("\n", "\r", "\r\n"):
            yield ("lb", b, inject(b, sp, br))
            for k in (1, 2, 3):
                for i in range(len(sp)):
                    yield ("lb", b, inject(b, sp[i:i + k], br))
    for n in [c + d for c in real.novel()[1] if c < 3000 for d in (-1, 0, 1) if c + d > 0]:
        for b in ("<math>" + " " * n + "<mi>x</mi></math>", "<math><mtext>a%sb</mtext></math>" % (" " * n), "<math>" + "<mi>x</mi> " * min(n, 500) + "</math>",
                  "<math><mtext>%s b</mtext></math>" % ("a" * n), "<math><mi id='%s' mathvariant='bold'>x</mi></math>" % ("a" * n), " " * n + "<math><mi>x</mi></math>"):
            sp = [i for i, c in enumerate(b) if c == " "]
            for br in ("\n", "\r", "\r\n"):
                yield ("lb", b, inject(b, sp, br))
                yield ("lb", b, inject(b, sp[-2:], br))
                yield ("lb", b, inject(b, sp[:1], br))
            yield ("mml", b, prefixed(b))
    for n in LENGTHS:
        a = "abcdefgh"
        for b in ("<math><mi id='%s'>x</mi></math>" % (a * n)[:n], "<math><mi id='%s' mathvariant='bold' >x</mi ></math>" % ("a " * n)[:n],
                  "<math><mtext>%s</mtext><mi>y</mi></math>" % ("a b" * n)[:n], "<math %s><mi>x</mi></math>" % " ".join("a%d='1'" % i for i in range(min(n, 300)))):
            yield ("mml", b, prefixed(b))
            sp = [i for i, c in enumerate(b) if c == " "]
            for br in ("\n", "\r", "\r\n"):
                yield ("lb", b, inject(b, sp, br))
                yield ("lb", b, inject(b, sp[-1:], br))
        if n <= 256:
            b = "<math>" + "<mrow>" * n + "<mi>x</mi>" + "</mrow>" * n + "</math>"
            yield ("mml", b, prefixed(b))
        b = "<math>" + "<mi>x</mi>" * n + "</math>"
        yield ("mml", b, prefixed(b))
        yield ("mml", b, b[:-12] + b[-12:].replace("<", "<mml:").replace("mml:/", "/mml:").replace("</mml:math>", "</math>"))
    for b in ("<math><mrow><mi>x</mi><mo>+</mo></mrow><msup><mi>a</mi><mn>2</mn></msup></math>", "<math><mfrac ><mi />x<mn>1</mn></mfrac ></math>",
              '<math><mfenced open="/" close=" = "><mi>x</mi><mi/></mfenced></math>', "<math><mtext>a&lt;/b &gt; c</mtext><mi a='/'>x</mi></math>"):
        for v in partly(b):
            yield ("mml", b, v)
            sp = [i for i, c in enumerate(v) if c == " "]
            for br in ("\n", "\r", "\r\n"):
                yield ("lb", v, inject(v, sp, br))
    for t in ["mml:", "mml:x", "a mml:b", "mml: mml:", "xmml:y", "mml", "mml&gt;:", ":mml:mml:", "mml:mi", "&lt;mml:mi&gt;", "MML:x", "m:x", "a/mml:b", "/mml:", "&gt;mml:x",
              "=mml:x", '"mml:x', "mml:x/", "mml:x &gt;", "a mml:x=1"] + ["mml:" + x for x in C18_NOVEL(strings)] + C18_NOVEL(strings):
        for tag in ("mtext", "mi", "mn", "mo"):
            for pre in (False, True):
                b = "<math><%s>%s</%s><mi>y</mi></math>" % (tag, t, tag)
                yield ("text", b, prefixed(b) if pre else b)
    while True:
        n = C.rand_tree(rng, ["mrow", "mfrac", "msup", "mfenced", "mtable", "menclose"], rng.choice([1, 2]), pool, names, "mrow")
        if n.size() > 40:
            continue
        b = G.document(n)
        b = b.replace("><", "> <") if rng.random() < 0.5 else b
        if "\n" in b or "\r" in b or "mml:" in b:
            continue
        sp = [i for i, c in enumerate(b) if c == " "]
        br = rng.choice(["\n", "\r", "\r\n"])
        if sp:
            yield ("lb", b, inject(b, [i for i in sp if rng.random() < rng.choice([0.1, 0.5, 1])], br))
        yield ("mml", b, prefixed(b))
        if rng.random() < 0.3:
            v = rng.choice(list(itertools.islice(partly(b, rng), 6)) or [prefixed(b)])
            yield ("mml", b, v)
            sp = [i for i, c in enumerate(v) if c == " "]
            yield ("lb", v, inject(v, [i for i in sp if rng.random() < rng.choice([0.1, 0.5, 1])], br))


def inject(s, at, br):
    at = set(at)
    return "".join(br if i in at else c for i, c in enumerate(s))


def prefixed(b):
    return re.sub(r"<(/?)([A-Za-z_])", r"<\1mml:\2", b) if "<![CDATA" not in b and "<!--" not in b else b


LENGTHS = (40, 63, 64, 65, 80, 100, 120, 128, 150, 200, 250, 256, 300, 400, 500, 512, 600, 800, 1000, 1023, 1024, 1025, 1500, 2000, 2048, 3000, 4096, 5000, 8192, 10000)


def partly(b, rng=None):
    """The document with the prefix on some of its elements."""
    pairs, stack = [], []
    for m in re.finditer(r"<(/?)([A-Za-z_][^\s/>]*)(?:[^<>]*?)(/?)>", b):
        if m.group(1):
            if not stack:
                return
            pairs.append((stack.pop(), m.start(2)))
        elif m.group(3):
            pairs.append((m.start(2),))
        else:
            stack.append(m.start(2))
    if stack or "<!" in b or len(pairs) > 60:
        return
    for k in range(min(2 ** len(pairs), 64)):
        pick = k if rng is None and len(pairs) <= 6 else (rng or random.Random(k)).getrandbits(len(pairs))
        at = {i for j, q in enumerate(pairs) if pick >> j & 1 for i in q}
        yield "".join("mml:" + c if i in at else c for i, c in enumerate(b))


def check_c18(case):
    kind, base, variant = case
    if kind == "text":
        # the text must come through as if "mml:" were any other letters
        e = expected_doc(base)
        if e[0] == "malformed":
            return None
        a = real.convert(variant)
        neutral = real.convert(base.replace("mml:", "qqq:"))
        if a == e or (a[0] == neutral[0] == "ok" and a[1] == neutral[1].replace("qqq:", "mml:")):
            return None
        return C.witness(variant, e, a, compared_with=base)
    r0 = real.convert(base)
    r1 = real.convert(variant)
    if r0 == r1 or (r0[0] == r1[0] == "raise" and r0[1] == r1[1]):
        return None
    return C.witness(variant, r0, r1, compared_with=base)


# ------------------------------------------------------------------ C19

class ParseCounter:
    def __enter__(self):
        import xml.dom.expatbuilder as eb
        self.eb, self.n, self.old = eb, 0, eb.parseString
        self.inputs = []

        def counted(s, namespaces=True):
            self.n += 1
            self.inputs.append(s)
            if self.n > 50:
                raise RuntimeError("more than 50 parses")
            return self.old(s, namespaces)
        eb.parseString = counted
        return self

    def __exit__(self, *a):
        self.eb.parseString = self.old


def c19(rng, strings, ints):
    wf = ["<math><mtext>a=b</mtext></math>", "<math><mtext> foo></mtext></math>", '<math><mi a="1" b="2">x</mi></math>', "<math><mi>x= y</mi></math>",
          "<math><mtext>a=1 b=2 c</mtext></math>", "<math><mo>=</mo><mi a='x y=z'>x</mi></math>", "<math/>", "<doc>a=b c> d</doc>",
          '<math><mfenced open="=" close=""><mi>x</mi></mfenced></math>', "<math><mtext><![CDATA[ <a b=c> ]]></mtext></math>",
          '<math open=""><mi>x</mi></math>', '<math alttext="x = y"><mi>x</mi></math>', "<math><mi>&lt;a b&gt;</mi></math>"]
    for x in wf:
        yield ("wellformed", x, None)
    ns, ni = real.novel()
    for k in c19_novel(ns, ni):
        yield k
    for k in c19_markup(rng, ns):
        yield k
    uniq = ["foo", "nowrap", "q", "data-x", "abc1", "displ", "x_y", "zz", "Foo", "DISPLAY", "xA", "a.b", "_u", "w" * 40]
    bodies = [("<math>", "<mi{}>x</mi>", "</math>"), ("<math><mi>a</mi> ", "<mfenced{}><mi>x</mi><mi>y</mi></mfenced>", "</math>"),
              ("<math><mi>αβγ</mi>", "<mrow{}><mi>x</mi></mrow>", "<mo>+</mo><mtext>a b</mtext></math>"),
              ("", "<math{}><mi>x</mi></math>", ""), ("<doc> <p>x y</p> <math> ", "<menclose notation=\"box\"{}> <mi>x</mi> </menclose>", " </math></doc>"),
              ("<math>\n", "<mi{}>x</mi>\n", "</math>"), ("<math><mtext>𝐀 é</mtext>", "<mfenced open=\"[\" close=\"]\"{}><mi>x</mi></mfenced>", "</math>"),
              ("<math>\n  <mrow>\n", "<mi\n{}>x</mi>\n", "</mrow></math>")]
    for a in uniq:
        for pre, mid, post in bodies:
            if a in pre + mid + post:
                continue
            base = pre + mid.format("") + post
            yield ("repair", base, pre + mid.format(" " + a) + post)
            for v in ("bar1", "1", "true0", "%"):
                if v in base:
                    continue
                yield ("repair", base, pre + mid.format(" " + a + "=" + v) + post)
    for k in (2, 3, 4):
        base = "<math>" + "<mi>x</mi>" * k + "</math>"
        yield ("repair", base, "<math>" + "".join("<mi foo%s>x</mi>" % chr(97 + i) for i in range(k)) + "</math>")
        yield ("repair", base, "<math>" + "".join("<mi foo%s=bar>x</mi>" % chr(97 + i) for i in range(k)) + "</math>")
    for n in [x for x in LENGTHS if x <= 5000] + [c + d for c in ni if c < 3000 for d in (-1, 0, 1) if c + d > 0]:
        for pre, name in (("<math><mtext>%s</mtext>" % ("u" * n), "foo"), ("<math><mtext>%s</mtext>" % ("u " * n)[:n], "nowrap"),
                          ("<math>%s" % ("<mi>y</mi>" * (n // 10 + 1)), "foo"), ("<math>%s" % ("<mn g='1'>y</mn>" * (n // 17 + 1)), "foo"),
                          ("<math>", ("abcdefghij" * n)[:n]), (" " * n + "<math>" if n % 2 else "<!--%s--><math>" % ("u" * n), "q")):
            base = pre + "<mi>x</mi></math>"
            if n > 1500 and len(name) > 1500 or "<mi %s" % name in pre:
                continue
            yield ("repair", base, pre + "<mi %s>x</mi></math>" % name)
            yield ("repair", base, pre + "<mi %s=%%>x</mi></math>" % name)
    for n in [c + d for c in ni if 3000 <= c < 300000 for d in (-40, 1)]:
        for pre in ("<math><mtext>%s</mtext>" % ("u" * n), "<math>%s" % ("<mi>y</mi>" * (n // 10 + 1))):
            base = pre + "<mi>x</mi></math>"
            yield ("repair", base, pre + "<mi foo>x</mi></math>")
            yield ("repair", base, pre + "<mi foo=%>x</mi></math>")
    bad = ["", " ", "x", "<math>", "</math>", "<math><mi>x</math>", "<math><mi>x</mrow></math>", "<math><mi>x</mi>", "<math></math", "<math",
           "<math><mi>&foo;</mi></math>", "<math>&nbsp;<mi>x</mi></math>", "<math><mi>&alpha;</mi><mi>x</mi></math>", "<math><mrow><mi>x</mi></math></mrow>",
           "<doc><math><mi>x</mi></math>", "<math><mi>x</mi></math></math>", "<math><mi a='1' a='1'>x</mi></math>", "<math><mi>x<mi></math>",
           "<math><mi>x</mi></Math>", "<math><!-- <mi>x</mi></math>", "<math><mi foo>x</math>", "<math><mi foo=bar>x</mi></mrow></math>",
           "<math><mi>x</mi> <mi>a=b</mi>", "<math> <mi>a b</mi> <mo a='1' >x</mo", "<math><mi>&a b;</mi></math", "<math><mi foo>&foo;</mi></math>"]
    for b in bad:
        yield ("bad", None, b)
    frag = ["<math>", "</math>", "<mi>", "</mi>", "x", " ", "=", " a", " b=c", ">", "<", "<mi foo>", "<mrow bar=baz>", "</mrow>", "&", "&x;", '"', "\n", "<mi a=\"b\">",
            "<math foo bar>", "é", "/>", "'", "<!--", "-->", "1"]
    good = ["<math><mi>x</mi></math>", "<math><mfenced open=\"(\"><mi>x</mi> <mi>y</mi></mfenced></math>"]
    while True:
        if rng.random() < 0.5:
            yield ("any", None, "".join(rng.choice(frag) for _ in range(rng.randrange(1, 14))))
        else:
            s = rng.choice(good)
            for _ in range(rng.randrange(1, 4)):
                i = rng.randrange(len(s) + 1)
                s = s[:i] + rng.choice(frag) + s[i + rng.choice([0, 0, 1, 2]):]
            yield ("any", None, s)


def c19_novel(ns, ni):
    names = [x for x in ns if G.NAME.match(x)][:12]
    for a in names:
        for pre, mid, post in (("<math>", "<mi{}>x</mi>", "</math>"), ("<math><mtext>u v</mtext> ", "<mfenced{}><mi>y</mi></mfenced>", "</math>")):
            base = pre + mid.format("") + post
            if a not in base:
                yield ("repair", base, pre + mid.format(" " + a) + post)
                yield ("repair", base, pre + mid.format(" " + a + "=%") + post)
    for s in [x for x in ns if G.xml_ok(x)][:30] + ["&", "<", ">", "=", '"', "</math>", "&lt;", "&amp;", "&x;", "<mi>", " ", " a", "</mi>", "]]>", "<!--", "\x00"]:
        for w in ("<math>{}</math>", "<math><mi>{}</mi></math>", "<math><mi {}>x</mi></math>", "<math><mi>x</mi></math>{}", "{}<math><mi>x</mi></math>", "<math><mi>{}</math>",
                  '<math><mi a="{}">x</mi></math>', "<math><mi>&{};</mi></math>"):
            for r in sorted({1, 2, 3, 5, 6, 7} | {c + d for c in ni if c < 400 for d in (0, 1)}):
                yield ("any", None, w.format(s * r))
                if s == "&" and r > 7:
                    yield ("any", None, w.format("<mi>&alpha;</mi>" * r))


ENTITIES = ["nbsp", "alpha", "foo", "x", "InvisibleTimes", "#0", "#xZZ", "Amp", "lt2", "times", "copy", "a1", "&x"]


def c19_markup(rng, ns):
    """Well-formed documents around every known tag, broken in one respect that no repair is about: an entity that is not
    defined, a closing tag that is missing, another one's or one too many, a text cut off, something after the root."""
    names = ENTITIES + [x for x in ns if G.NAME.match(x)][:8]
    tags = G_TAGS + ["math", "semantics", "annotation", "mtr", "mtd", "none", "foo"]
    for i, t in enumerate(tags):
        for inner in ("x", "<mi>x</mi><mn>2</mn>", ' <mi mathvariant="bold">x</mi> '):
            for pre, post in (("<math>", "</math>"), ("<doc><p>u</p><math> <mrow>", "</mrow> </math>v</doc>")):
                el = "<%s>%s</%s>" % (t, inner, t)
                if inner == "x":
                    for n in names if i % 4 == 0 or pre == "<math>" else names[:3]:
                        e = "&%s;" % n
                        for at in ("<%s>%s</%s>" % (t, e, t), "<%s>u %s v</%s>" % (t, e, t), "<%s>%s%s</%s>" % (t, e, e, t), el + e, e + el,
                                   '<%s a="%s">x</%s>' % (t, e, t), "<%s><mi>%s</mi><mi>y</mi></%s>" % (t, e, t)):
                            yield ("any", None, pre + at + post)
                for cut in ("<%s>%s" % (t, inner), "%s</%s>" % (inner, t), "<%s>%s</%s>" % (t, inner, "mi" if t != "mi" else "mo"), el + "</%s>" % t, "<%s>" % t + el,
                            "<%s>%s</%s>" % (t, inner, t.upper()), "<%s>%s</%s" % (t, inner, t), "<%s>%s<%s/>" % (t, inner, t), "<%s>%s<%s>" % (t, inner, t)):
                    yield ("any", None, pre + cut + post)
                whole = pre + el + post
                for x in ("x", "&", "<mi>y</mi>", "<%s/>" % t, whole, "</%s>" % t, "]]>", "<!--"):
                    yield ("any", None, whole + x)
                    yield ("any", None, x + whole)
                for j in range(1, len(whole), 1 if i % 9 == 0 else 5):
                    yield ("any", None, whole[:j])
                    if j % 3 == 0:
                        yield ("any", None, whole[j:])


def definitely_unrepairable(xml):
    """The first error is a mismatched, unclosed or missing tag or an undefined entity."""
    try:
        minidom.parseString(prepare(xml))
    except ExpatError as e:
        return e.code in (3, 5, 7, 11)
    return False


def check_c19(case):
    kind, base, xml = (case[0], case[1], case[2])
    if kind == "wellformed":
        xml = base
    with ParseCounter() as pc:
        a = real.convert(xml)
    if kind == "repair":
        b = real.convert(base)
        if a != b:
            return C.witness(xml, b, a, compared_with=base)
        if pc.n > 5:
            return C.witness(xml, {"parses": "at most 5"}, {"parses": pc.n})
        return None
    e = expected_doc(xml)
    if e[0] != "malformed":
        if pc.n > 1:
            return C.witness(xml, {"parses": 1}, {"parses": pc.n}, why="a well-formed document was repaired")
        if kind == "wellformed" and not G.agree(e, a):
            return C.witness(xml, e, a)
        return None
    if pc.n > 5:
        return C.witness(xml, {"parses": "at most 5"}, {"parses": pc.n})
    if a[0] == "hang":
        return C.witness(xml, {"raises": "ExpatError, or a repaired document"}, a)
    if a[0] == "raise" and not (a[1] == "ExpatError" or a[3]):
        return C.witness(xml, {"raises": "ExpatError"}, a)
    if a[0] == "raise" and a[1] == "ExpatError" and pc.inputs:
        pass
    if (kind == "bad" or definitely_unrepairable(xml)) and not (a[0] == "raise" and a[1] == "ExpatError"):
        return C.witness(xml, {"raises": "ExpatError"}, a)
    return None


# ------------------------------------------------------------------ C20

def balance(s):
    """None, or what is wrong with the groups of a LaTeX string."""
    depth, i, envs = 0, 0, []
    while i < len(s):
        c = s[i]
        if c == "\\":
            m = re.match(r"\\(begin|end)\{([A-Za-z]*)\}", s[i:])
            if m:
                if m.group(1) == "begin":
                    envs.append((m.group(2), depth))
                elif not envs or envs.pop() != (m.group(2), depth):
                    return "\\end{%s} does not match at %d" % (m.group(2), i)
                i += m.end()
                continue
            i += 2
            continue
        if c == "{":
            depth += 1
        elif c == "}":
            depth -= 1
            if depth < 0:
                return "unmatched } at %d" % i
        i += 1
    if depth:
        return "%d unclosed {" % depth
    if envs:
        return "unclosed \\begin{%s}" % envs[-1][0]
    return None


def PHASOR():
    return N("menclose", mi("u"), notation="phasorangle")


def c20(rng, strings, ints):
    return C.mixed(c20_sweep(rng, strings, ints), c20_random(rng, strings, ints), 3)


def c20_random(rng, strings, ints):
    clean = [t for t in G.text_pool(rng, strings) if not set(t) & set("{}\\")]
    keys = [k for k in sorted(set(R.MI_TABLE) | set(R.MO_TABLE) | set(R.MN_TABLE)) if not set(k) & set("{}\\") and G.xml_ok(k)]
    tags = C20_TAGS
    pool, names = C.pools("C20", [s for s in strings if not set(s) & set("{}\\")])
    for k in pool:
        pool[k] = [v for v in pool[k] if not set(v) & set("{}\\")]
    while True:
        t = rng.choice(tags + ["mi", "mo", "mn", "mtext", "mtext", "mtext"])
        n = C.rand_tree(rng, tags, rng.choice([0, 1, 2, 3]), pool, names, t, clean + keys)
        if n.size() > 150 or any(set(x.text) & set("{}\\") for x in n.walk() if not x.kids):
            continue
        yield n


def c20_sweep(rng, strings, ints):
    ns, ni = real.novel()
    for n in C.novel_cases(C20_TAGS + ["mi", "mo", "mn", "mtext"], [x for x in ns if not set(x) & set("{}\\")], ni):
        yield n
    clean = [t for t in G.text_pool(rng, strings) if not set(t) & set("{}\\")]
    keys = [k for k in sorted(set(R.MI_TABLE) | set(R.MO_TABLE) | set(R.MN_TABLE)) if not set(k) & set("{}\\") and G.xml_ok(k)]
    for k in keys + clean:
        for t in ("mi", "mo", "mn", "mtext"):
            for v in (None, "bold", "bold-italic", "sans-serif-bold-italic", "monospace"):
                yield Node(t, [], {"mathvariant": v} if v else {}, k)
    tags = C20_TAGS
    pool, names = C.pools("C20", [s for s in strings if not set(s) & set("{}\\")])
    for k in pool:
        pool[k] = [v for v in pool[k] if not set(v) & set("{}\\")]
    leaf = [mi("x"), mi("xy"), mrow(mi("a"), mi("b")), mrow(), mtext("a é b"), mo("≣"), mo("^"), mo("⏞"), mo("("), table(((1, 1), (1,))),
            PHASOR(), mrow(PHASOR(), PHASOR()), mrow(PHASOR(), mi("x")), mrow(mi("x"), PHASOR())]
    for t in tags:
        for n in range(0, 8):
            for k in range(4):
                yield Node(t, [leaf[(i * (k + 1) + k) % len(leaf)] for i in range(n)])
            for a in RELEVANT_ALL.get(t, []):
                for v in pool[a]:
                    yield Node(t, [leaf[(i + 1) % len(leaf)] for i in range(n)], {a: v})


RELEVANT_ALL = C.RELEVANT
C20_TAGS = [t for t in R.KNOWN if t not in ("mi", "mo", "mn", "mtext")] + ["mrow", "mpadded", "mstyle"]


def check_c20(n):
    if any(set(x.text) & set("{}\\") for x in n.walk() if not x.kids):
        return None
    if any(set(v) & set("{}\\") for x in n.walk() for k, v in x.attrs.items() if k in ("open", "close", "separators")):
        return None
    a = real.convert_element(n)
    if a[0] != "ok":
        return None
    b = balance(a[1])
    if b is None:
        return None
    d = G.document(n)
    a = real.convert(d)
    b2 = balance(a[1]) if a[0] == "ok" else None
    return C.witness(d, {"balance": "balanced groups"}, {"returns": a[1] if a[0] == "ok" else None, "problem": b2 or b})


# ------------------------------------------------------------------ C21

def history_documents(rng, strings, ints, n):
    pool, names = C.pools("C21", strings)
    docs = []
    ns, ni = real.novel()
    if ns or ni:
        every = [G.document(x) for x in C.novel_cases(HIST_TAGS, ns[:12], ni) if x.size() < 200]
        docs += every if len(every) <= 120 else rng.sample(every, 120)
    gens = [C.tree_cases(p, rng, strings, ints) for p in ("C02", "C04", "C08", "C10", "C11", "C15", "C07", "C12")]
    for g in gens:
        docs += [G.document(x) for x in itertools.islice(g, 0, 200, 9)]
    c19g = c19(rng, strings, ints)
    for _ in range(150):
        k = next(c19g)
        docs.append(k[2] or k[1])
    c17g = c17(rng, strings, ints)
    docs += list(itertools.islice(c17g, 0, 2000, 40))
    tags = R.KNOWN + ["mrow", "mstyle"]
    while len(docs) < n:
        t = C.rand_tree(rng, tags, rng.choice([1, 2, 3]), pool, names, rng.choice(tags))
        if t.size() < 80:
            docs.append(G.document(t))
    rng.shuffle(docs)
    return docs[:n]


G_TAGS = sorted(R.KNOWN) + ["mrow", "mpadded", "mstyle"]
HIST_TAGS = ["mi", "mo", "mn", "mtext", "mfenced", "mfrac", "menclose", "mtable", "maction", "mmultiscripts", "msup", "mover", "mrow", "foo"]


# documents at the edge of being well-formed
EDGES = [" <?xml version='1.0'?><math><mi>x</mi></math>", "\n<?xml version='1.0'?>\n<math/>", "<?xml version='1.0' encoding='utf-8'?><math><mi>x</mi></math>",
         "\ufeff<math><mi>x</mi></math>", " <math><mi>x</mi></math> ", "<math><mi>x</mi></math> y", "<!DOCTYPE math><math><mi>x</mi></math>",
         "<math><mi>x</mi></math><math/>", "<Math><mi>x</mi></Math>", "<mml:math><mml:mi>x</mml:mi></mml:math>", "<math><mi>x</mi>&nbsp;</math>",
         "<math><mi>x</mi></math>\x00", "<math\n><mi\r\n>x</mi\t></math>", "<math><mtext> x &amp; y </mtext></math>", "<m:math xmlns:m='u'><m:mi>x</m:mi></m:math>"]


def families(rng, ints, first=()):
    """Groups of documents that differ in one respect: what one of them leaves behind, another may pick up."""
    ns, ni = real.novel()
    ns = [x for x in ns if G.xml_ok(x)]

    def body(t, k=0, what=mi):
        m = R.EXACT.get(t) or (5 if t == "mmultiscripts" else 3)
        return [] if t in C.LEAVES else [what("abcdefghij"[(j + k) % 10]) for j in range(m)]
    D = G.document
    values = {a: [None] + [v for v in C.pools("C21", [])[0][a]][:24] for a in ("mathvariant", "notation", "actiontype", "open", "separators", "bevelled")}

    tags = [t for t in first] + [t for t in HIST_TAGS if t not in first]

    def attributes():
        for t in tags:
            leaf = t in C.LEAVES
            for a in C.RELEVANT.get(t, []):
                for extra in ([], ns[:8]):
                    vs = extra + [v for v in values.get(a, values["open"])]
                    if extra or not ns:
                        docs = [D(Node(t, body(t), {} if v is None else {a: v}, "a b" if leaf else "")) for v in vs]
                        yield docs
                        for x in docs[:len(extra)]:
                            for y in docs[:len(extra) + 12]:
                                yield [x, y]
            # values of one attribute which have much in common, in both orders
            for a in C.RELEVANT.get(t, []):
                for v in [v for v in values.get(a, values["open"]) if v][:20]:
                    near = [v[:-1] + "q", v + "q", v[:-1], v + " ", v.upper(), "q" + v[1:], v[::-1], v[:len(v) // 2], v[len(v) // 2:]]
                    docs = [D(Node(t, body(t), {a: x}, "a b" if leaf else "")) for x in [v] + near]
                    yield docs
                    for y in docs[1:]:
                        yield [y, docs[0]]
            # the same attribute value on different elements
            yield [D(Node(x, body(x), {"mathvariant": "bold", "open": "[", "notation": "box", "bevelled": "true", "separators": ";", "actiontype": "toggle"},
                          "a b" if x in C.LEAVES else "")) for x in [t] + HIST_TAGS]
            # same shape, other texts; same texts, other shape
            if not leaf:
                yield [D(Node(t, body(t, k, w))) for k in range(4) for w in (mi, mn, mtext, mo)]
                yield [D(Node(t, body(t)[:k])) for k in range(6)] + [D(Node(t, [table()] * k)) for k in range(4)]
                yield [D(Node(t, [N(x, *body(x)) if x not in C.LEAVES else Node(x, [], {}, "q")] + body(t)[1:])) for x in HIST_TAGS]

    def failures():
        # a conversion that fails inside an element of one kind, then one that must not
        bad = N("msup", mi("a"))
        for t in tags:
            if t in C.LEAVES:
                continue
            for x in [t] + [u for u in ("mtable", "mfenced", "mrow") if u != t]:
                fails = [D(N(t, *(body(t)[:k] + [y] + body(t)[k + 1:]))) for k in (0, 1) for y in (bad, N(x, bad), N(x, mi("b"), N("mfrac", bad)))]
                goes = [D(N(t, *body(t))), D(N(x, *body(x))), D(table(((1, 1), (1,)))), D(N("mfenced", table(((1,), (1,))))), D(N("mfenced", *body("mfenced")))]
                yield fails + goes
                for y in fails[:2]:
                    yield [y, goes[0]]
                    yield [y, goes[2]]

    def repetitions():
        # the same document again and again, and wide documents before narrow ones
        for t in [x for x in G_TAGS if x not in HIST_TAGS] + HIST_TAGS:
            d = D(Node(t, body(t), {"mathvariant": "bold"} if t in C.LEAVES else {}, "a b" if t in C.LEAVES else ""))
            e = D(Node("mrow", [Node(t, body(t), {}, "a b" if t in C.LEAVES else "")] * 5 + [mi("z")]))
            yield [d] * 60 + [e] * 60 + [d]
            if t not in R.EXACT and t not in C.LEAVES:
                wide = D(Node(t, [mi("abcdefghij"[j % 10]) for j in range(24)]))
                tall = D(Node(t, [N("mtr", *[N("mtd", mi("abcdefghij"[j % 10])) for j in range(12)]) for k in range(12)]))
                yield [d, wide, D(Node(t, [mi(x) for x in "pqrstuvwxyzab"])), tall, d, D(Node(t, body(t), {"open": "[", "separators": ";,"}))]
            kids = [mi("abcdefghij"[j % 10]) for j in range(24)]
            at = [{a: v} for a in C.RELEVANT.get(t, []) for v in [v for v in values.get(a, values["open"]) if v][:6]]
            yield [wide, d] + [D(Node(t, kids, x)) for x in at + [{"open": "[", "separators": ";,"}]] + [D(Node(t, kids[:9], x)) for x in at]

    def texts():
        # texts with a common part, all pairs of lengths around the constants
        lens = sorted({1, 2, 3, 8, 16, 20, 24, 32, 64} | {c + d for c in ni if c < 3000 for d in (-1, 0, 1) if c + d > 0})
        for t in C.LEAVES:
            for k in lens:
                p = ("abcdefghijklmnopqrstuvwxyz0123456789" * (k // 36 + 1))[:k]
                yield [D(Node(t, [], {}, x)) for x in (p, p + "b", p + "c", "b" + p, "c" + p, p[:-1] + "é", "é" + p[1:], p.upper(), p[::-1], "∑" + p)]
                for x in (p, p[:-1] + " ", "π" * k, " ".join(p)):
                    yield [D(Node(u, [], {"mathvariant": v} if v else {}, x)) for v in ("bold", None, "fraktur", "italic") for u in (t, "mtext", "mi")]
            syms = [x for x in sorted(R.MO_TABLE) if G.xml_ok(x)][::9]
            yield [D(Node(t, [], {}, x)) for x in syms]
            yield [D(Node(t, [], {}, x)) for x in ns[:12] + ["a", "é", "1"]]
            for x in ("=", "sin", "é", "á", "2", "α", "->"):
                yield [D(Node(u, [], {"mathvariant": v} if v else {}, x)) for u in (t,) + C.LEAVES for v in (None, "bold", "italic")]

    def malformed():
        # malformed documents around the same names
        for at in ("foo", "a", "nowrap") + tuple(x for x in ns if G.NAME.match(x))[:4]:
            for v in ("", "=1", "=x", '="y"', "='y'"):
                m = "<math><mi %s%s>x</mi></math>" % (at, v)
                w = "<math><mtext>%s=1 %s x</mtext><mi %s='3'>x</mi></math>" % (at, at, at)
                yield [m, w, m.replace(at, "zz"), w.replace(at, "zz"), "<math><mi %s%s>x</math>" % (at, v), m.replace(at, at.upper())]
        # many different malformed documents, one after the other
        for at in ("nowrap", "a=1"):
            yield ["<math>%s<mi %s>x</mi></math>" % ("<mi>a</mi>" * k, at) for k in range(60)] + ["<math>%s<mi %s>x</mi></math>" % ("y" * k, at) for k in range(80)]
        yield ["<math>%s<mi></math>" % ("y" * k) for k in range(120)] + ["<math><mi nowrap>x</mi></math>", "<math><mi a=1>x</mi></math>"] + EDGES
        for x in EDGES:
            yield ["<math><mi foo>x</mi></math>", x, "<math><mi>x</math>", x, "<math/>", x]
        yield ["", "<math>", "<math/>", "<math><mi>&foo;</mi></math>", "<math><mi>foo</mi></math>", "<math><msup><mi>a</mi></msup></math>",
               "<math><mi>a</mi></math>", "x", "<doc/>", "<math><mi>x</math>", "<math><mi>x</mi></math>"]

    def anything():
        while True:
            t = rng.choice(HIST_TAGS)
            pool, names = C.pools("C21", ns)
            yield [D(n) for n in (C.rand_tree(rng, HIST_TAGS, rng.choice([0, 1, 1, 2]), pool, names, t) for _ in range(8)) if n.size() < 80]

    parts = [attributes(), failures(), repetitions(), texts(), malformed(), anything()]
    while True:
        for p in list(parts):
            for fam in itertools.islice(p, 1 if p is not parts[0] else 3):
                yield fam


def forked(fn):
    """The result of fn in a forked child, so that it leaves no trace in this process."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("hang",)


def search_c21(seconds, rng, strings, ints, clock, rounds=None, first=()):
    """Every document in a pristine process, against the same document inside longer histories."""
    real.module("converter")
    stats = {"evaluations": 0, "histories": 0}
    t0 = clock()
    w = search_families(seconds / 2, rng, ints, clock, stats, first)
    if w:
        return w, stats
    # every kind of document very often, all in one process
    reps = [c + 1 for c in real.novel()[1] if 60 < c <= 3000][:4]
    singles = [G.document(Node(t, [mi("x") for _ in range(R.EXACT.get(t, 5 if t == "mmultiscripts" else 2))] if t not in C.LEAVES else [], {}, "a b" if t in C.LEAVES else ""))
               for t in G_TAGS + ["foo"]] + ["<math><mi foo>x</mi></math>", "<math><mi>x</math>", ""]
    for k in [150] + reps:
        def often():
            first = [real.convert(d) for d in singles]
            for d in singles:
                for _ in range(k):
                    real.convert(d)
                after = [real.convert(e) for e in singles]
                for e, x, y in zip(singles, first, after):
                    if x != y:
                        return d, e, x, y
            return None
        got = forked(often)
        stats["evaluations"] += (k + len(singles)) * len(singles)
        if got and got != ("hang",):
            d, e, x, y = got
            return C.witness(e, x, y, history="%d times %s" % (k, d), note="expected: the outcome before; actual: the outcome afterwards"), stats
    docs = history_documents(rng, strings, ints, 500)
    fresh = {d: forked(lambda d=d: real.convert(d)) for d in docs}
    stats["evaluations"] += len(docs)
    r = 0
    while clock() - t0 < seconds or r < 2:
        order = docs[:]
        rng.shuffle(order)
        if r % 3 == 1:
            order = [d for d in order for _ in range(2)]
        one = r % 2 == 0

        def run():
            out = []
            conv = real.module("converter").MathMLToLaTeX()
            for d in order:
                out.append(real.outcome(conv.convert, d) if one else real.convert(d))
            return out
        got = forked(run)
        stats["histories"] += 1
        stats["evaluations"] += len(order)
        if got == ("hang",):
            return C.witness("history of %d documents" % len(order), {"outcome": "returns"}, {"outcome": "the process died"}), stats
        for i, (d, g) in enumerate(zip(order, got)):
            if g != fresh[d]:
                hist = shrink_history(order[:i + 1], fresh[d], one)
                return C.witness(d, fresh[d], g, history=hist,
                                 note="expected: outcome in a fresh process; actual: outcome after the history"), stats
        r += 1
    # long histories of one repeated document
    for k in [c + 1 for c in ints if 5 < c <= 3000][:6]:
        d = docs[r % len(docs)]

        def rep():
            for _ in range(k):
                real.convert(d)
            return real.convert(d)
        stats["evaluations"] += k + 1
        if forked(rep) != fresh[d]:
            return C.witness(d, fresh[d], ("hang",), history="%d times the same document" % k), stats
    return None, stats


def search_families(seconds, rng, ints, clock, stats, first=()):
    """Every document of a group after the others of its group, in both orders, against a pristine process."""
    t0 = clock()
    stats["groups"] = 0
    for fam in families(rng, ints, first):
        if clock() - t0 > seconds:
            return None
        again = len(set(fam)) * 4 < len(fam)
        fam = list(dict.fromkeys(fam))[:200] if not again else fam
        first = {}

        def fresh(d):
            if d not in first:
                first[d] = forked(lambda: real.convert(d))
            return first[d]
        stats["groups"] += 1
        mixed = rng.sample(fam, len(fam)) + rng.sample(fam, len(fam))
        seqs = [fam, fam[::-1], mixed] if not again else [fam]
        got = [forked(lambda q=q: [real.convert(d) for d in q]) for q in seqs]
        stats["evaluations"] += 4 * len(fam)
        outs = {}
        for q, g in zip(seqs, got):
            if g == ("hang",):
                return C.witness("history of %d documents" % len(q), {"outcome": "returns"}, {"outcome": "the process died"})
            for d, o in zip(q, g):
                outs.setdefault(d, set()).add(repr(o))
        suspects = [d for d in fam if len(outs[d]) > 1]
        if not suspects and stats["groups"] % 5 == 0:
            suspects = rng.sample(fam, min(3, len(fam)))
        if len(fam) == 2:
            suspects = fam
        for d in suspects:
            for q, g in zip(seqs, got):
                for i, (e, o) in enumerate(zip(q, g)):
                    if e == d and o != fresh(d):
                        hist = shrink_history(q[:i + 1], fresh(d), False)
                        return C.witness(d, fresh(d), o, history=hist,
                                         note="expected: outcome in a fresh process; actual: outcome after the history")
    return None


def shrink_history(h, fresh, one):
    def differs(hist):
        def run():
            conv = real.module("converter").MathMLToLaTeX()
            a = None
            for d in hist:
                a = real.outcome(conv.convert, d) if one else real.convert(d)
            return a
        return forked(run) != fresh
    last = h[-1]
    for d in h[:-1]:
        if differs([d, last]):
            return [d, last]
    n = len(h)
    k = 1
    while k < n:
        if differs(h[-k - 1:]):
            return h[-k - 1:]
        k *= 2
    return h
