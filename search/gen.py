"""Documents and element trees for the bounded search."""
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from spec import render as R  # noqa: E402

NAME = re.compile(r"[A-Za-z_][A-Za-z0-9_.\-]*\Z")


class Node:
    __slots__ = ("name", "attrs", "kids", "text")

    def __init__(self, name, kids=(), attrs=None, text=""):
        self.name, self.kids, self.attrs, self.text = name, list(kids), dict(attrs or {}), text

    def size(self):
        return 1 + sum(k.size() for k in self.kids)

    def walk(self):
        for k in self.kids:
            yield from k.walk()
        yield self


def esc(s):
    out = []
    for c in s:
        if c == "&":
            out.append("&amp;")
        elif c == "<":
            out.append("&lt;")
        elif c == ">":
            out.append("&gt;")
        elif c == '"':
            out.append("&quot;")
        elif c in "\n\r\t":
            out.append("&#%d;" % ord(c))
        else:
            out.append(c)
    return "".join(out)


def xml(n):
    a = "".join(' %s="%s"' % (k, esc(v)) for k, v in n.attrs.items())
    if n.kids:
        return "<%s%s>%s</%s>" % (n.name, a, "".join(xml(k) for k in n.kids), n.name)
    return "<%s%s>%s</%s>" % (n.name, a, esc(n.text), n.name)


def document(n):
    x = xml(n) if n.name == "math" else "<math>" + xml(n) + "</math>"
    if any(":" in k.name for k in n.walk()):
        x = '<math xmlns:m="urn:m"' + x[len("<math"):]
    return x


def xml_char(c):
    o = ord(c)
    return o in (9, 10, 13) or 0x20 <= o <= 0xD7FF or 0xE000 <= o <= 0xFFFD or o >= 0x10000


def xml_ok(s):
    return all(map(xml_char, s))


# ------------------------------------------------------------------ oracle

class El:
    __slots__ = ("name", "value", "children", "attributes")

    def __init__(self, name, value, children, attributes):
        self.name, self.value, self.children, self.attributes = name, value, children, attributes


def el(n):
    kids = [el(k) for k in n.kids]
    return El(n.name, "" if kids else n.text.strip(), kids, {k: ("" if k == v else v) for k, v in n.attrs.items()})


def rendered_kids(e):
    k = e.children
    if e.name == "mphantom" or e.name in ("mi", "mo", "mn", "mtext"):
        return []
    if e.name == "maction" and e.attributes.get("actiontype", "") not in ("", "toggle"):
        return k[:1]
    if e.name == "mmultiscripts" and len(k) >= 3:
        ks = [k[0]]
        if k[1].name == "mprescripts":
            ks += k[2:4] if len(k) >= 4 else []
        else:
            ks += k[1:3]
            if len(k) >= 6 and k[3].name == "mprescripts":
                ks += k[4:6]
        return ks
    return k


def offences(e, out):
    n = len(e.children)
    if e.name in R.EXACT and n != R.EXACT[e.name]:
        out.add(R.arity_message(e.name, "exactly", R.EXACT[e.name], n))
    if e.name == "mmultiscripts" and n < 3:
        out.add(R.arity_message(e.name, "at least", 3, n))
    if e.name == "maction" and n < 1 and e.attributes.get("actiontype", "") not in ("", "toggle"):
        out.add(R.arity_message(e.name, "at least", 1, 0))
    for c in rendered_kids(e):
        offences(c, out)
    return out


def expected_el(e, inner=False):
    bad = offences(e, set())
    if bad:
        return ("arity", bad)
    return ("ok", R.render(e, inner))


def expected(n, inner=False):
    return expected_el(el(n), inner)


def agree(exp, act):
    if exp[0] == "ok":
        return act == exp
    return act[0] == "raise" and act[3] and act[2] in exp[1]


def same_kind(exp, act):
    """Only the arity part (C03)."""
    if exp[0] == "ok":
        return act[0] == "ok"
    return act[0] == "raise" and act[3] and act[2] in exp[1]


# ------------------------------------------------------------------ vocabulary

def mi(t="x", **a):
    return Node("mi", attrs=a, text=t)


def mo(t="+", **a):
    return Node("mo", attrs=a, text=t)


def mn(t="1", **a):
    return Node("mn", attrs=a, text=t)


def mtext(t="a b", **a):
    return Node("mtext", attrs=a, text=t)


def mrow(*k, **a):
    return Node("mrow", k, a)


def N(name, *k, **a):
    return Node(name, k, a)


def table(rows=((1,),), fill=None):
    return N("mtable", *[N("mtr", *[N("mtd", *( [fill] if fill is not None else [mi("t")])) for _ in r]) for r in rows])


ATTRS = ["open", "close", "separators", "bevelled", "notation", "actiontype", "mathvariant", "innerTable", "id", "class",
         "style", "display", "displaystyle", "scriptlevel", "linethickness", "accent", "accentunder", "stretchy", "fence",
         "form", "selection", "href", "dir", "mathsize", "mathcolor", "columnalign", "rowalign", "frame", "width",
         "height", "depth", "lspace", "rspace", "largeop", "movablelimits", "align", "numalign", "denomalign",
         "subscriptshift", "superscriptshift", "xmlns", "title", "alttext", "encoding", "mathbackground"]

VALUES = ["", "true", "false", "0", "1", "2", "3", "-1", "10", "none", "auto", "left", "right", "center", "top", "bottom", "thin", "thick",
          "medium", "solid", "dashed", "0px", "0pt", "2em", "100%", "block", "inline", "newline", "prefix", "infix", "postfix", "red",
          "#fff", "rtl", "ltr", "axis", "baseline", "big", "small", "normal", "goodbreak", "nobreak", "after", "before", "longdiv", "x"]
MORE_ATTRS = ["linebreak", "linebreakstyle", "indentalign", "rowspan", "columnspan", "rowlines", "columnlines", "framespacing",
              "equalrows", "equalcolumns", "side", "minlabelspacing", "rowspacing", "columnspacing", "alignmentscope", "groupalign",
              "symmetric", "maxsize", "minsize", "mathstyle", "scriptminsize", "scriptsizemultiplier", "infixlinebreakstyle",
              "decimalpoint", "voffset", "fontstyle", "fontweight", "fontfamily", "color", "background", "crossout", "shift",
              "position", "edge", "length", "charalign", "stackalign", "overflow", "src", "alt", "definitionURL", "name", "type",
              "lquote", "rquote", "xref", "cd", "base", "intent", "arg", "value", "text", "children", "tag", "data-x"]

AFFIXES = list("'\"\u2032.,;:_^-+*/\\{}()[]|&#%$~!?0a") + [chr(c) for c in (
    0xa0, 0xad, 0x2c6, 0x300, 0x301, 0x302, 0x303, 0x304, 0x307, 0x308, 0x30a, 0x338, 0x200b, 0x200c, 0x200d, 0x200e, 0x2009, 0x2060,
    0x2061, 0x2062, 0x2063, 0x2064, 0x20d2, 0x20e3, 0x2212, 0x3000, 0xfe00, 0xfe0e, 0xfe0f, 0xfeff, 0x1d400)]

OTHER_NAMES = ["mstyle", "semantics", "annotation", "mtd", "mglyph", "mspace", "none", "mprescripts", "mlabeledtr",
               "maligngroup", "malignmark", "mlongdiv", "mstack", "msrow", "mscarries", "ms", "void", "foo", "Mi", "MI",
               "mROW", "m", "math2", "mi2", "amsup", "msups", "mathml", "apply", "ci", "cn", "div", "span", "x-y", "m:mi", "MML:mi", "m:mphantom", "m:msup", "m:foo", "mtext2", "None", "str", "_"]

VARIANTS = ["bold", "italic", "bold-italic", "double-struck", "bold-fraktur", "script", "bold-script", "fraktur",
            "sans-serif", "bold-sans-serif", "sans-serif-italic", "sans-serif-bold-italic", "monospace", "normal",
            "initial", "tailed", "looped", "stretched", "", "Bold", "BOLD", " bold", "bold ", "italic-bold", "bol",
            "boldx", "mathvariant", "serif", "sans", "cal"]

NOTATIONS = ["longdiv", "actuarial", "radical", "box", "roundedbox", "circle", "left", "right", "top", "bottom",
             "updiagonalstrike", "downdiagonalstrike", "updiagonalarrow", "verticalstrike", "horizontalstrike",
             "madruwb", "madruwd", "phasorangle", "", "notation", "box circle", "Box", "lef", "lefttop", "foo", "left right",
             "longdiv box", "strike", "arrow", "rounded"]

DELIMS = ["", "(", ")", "[", "]", "{", "}", "|", "||", "|||", "⟨", "⟩", "<", ">", "open", "close", ".", " ", "((", "))",
          "/", "\\{", "‖"]

SEPS = ["", ",", ";", "|", ";,", ",;.", ";;,.", "abcdefgh", " ", ", ", "; ,", "separators", "⁣", "<", "&", "aab"]

ACTIONS = ["", "toggle", "statusline", "tooltip", "input", "actiontype", "Toggle", "toggles", " toggle", "highlight", "menu", "0"]


def kid_pool():
    """name -> constructor of a small child; every call makes fresh nodes."""
    return [
        lambda: mi("x"), lambda: mi("xy"), lambda: mrow(), lambda: mrow(mi("x"), mo("+"), mi("y")),
        lambda: mrow(mi("z")), lambda: mrow(mi("long")), lambda: mrow(mi(""), mi("")), lambda: mi(""),
        lambda: mo("\\hat"), lambda: mo("\\bar"), lambda: mo("\\underbrace"), lambda: mo("\\overbrace"),
        lambda: mo("^"), lambda: mo("¯"), lambda: mo("⏞"), lambda: mi("\\hatx"), lambda: mi("hat"), lambda: mi("\\tilde"),
        lambda: mrow(mo("\\hat")), lambda: mi("\\hat", mathvariant="bold"), lambda: mi("\\vec"), lambda: mi("\\widehat"),
        lambda: N("mprescripts"), lambda: N("none"), lambda: table(), lambda: mrow(table(((1, 1), (1,)))),
        lambda: mrow(mrow(mrow(mrow(table())))), lambda: mtext("a b"), lambda: mtext("é-ü"), lambda: mn("12"), lambda: mn(""),
        lambda: mn("²"), lambda: N("mfrac", mi("p"), mi("q")), lambda: N("mphantom", N("msup", mi("a"))),
        lambda: N("msup", mi("a"), mn("2")), lambda: N("mtr"), lambda: N("mtr", N("mtd", mi("r")), N("mtd")),
        lambda: N("mtd"), lambda: N("mfenced", mi("a"), mi("b")), lambda: mi("α"), lambda: N("mspace"),
        lambda: N("mstyle", mi("u"), mi("v")), lambda: N("math", mi("m"), mi("n")), lambda: N("mprescripts", mi("k")),
        lambda: N("msqrt", mi("a"), mi("b")), lambda: mi("long name"), lambda: mtext("a  b"), lambda: mo("≣"),
        lambda: N("menclose", mi("u"), notation="phasorangle"),
        lambda: mrow(N("menclose", mi("u"), notation="phasorangle"), N("menclose", mi("v"), notation="phasorangle")),
    ]


BAD_KIDS = [lambda: N("msup", mi("a")), lambda: N("mfrac"), lambda: N("mmultiscripts", mi("a"), mi("b")),
            lambda: N("maction", actiontype="tooltip"), lambda: mrow(N("munderover", mi("a"), mi("b")))]


def text_pool(rng, mined_strings=()):
    base = ["", "a", "ab", "a b", " ", "  ", "a  b", "1", "x1", "é", "αβ", "a\u00a0b", "\u00a0", "\t", "a\tb", "-", "a-b",
            "Speed: 3 m/s", "if x>0", "ñandú", "日本", "𝐀", "𝐀b", "a𝐀", "á", "áé", "ⁿ", "¾", "sin", "lim sup", "∑", "->", "=",
            "==", ":=", "&", "<", ">", "&lt;", "&#x3B1;", "&alpha;", "\\alpha", "%", "#", "$", "_", "^", "~", "'", '"', "K", "ſ",
            "\u2028", "\u200b", "\u2061", "\u2062", "\u2063", "&InvisibleTimes;", "x\u0301", "Ä́", "0", "00", "None", "False", "a\u3000b",
            "ﬁ", "٣", "x²", "²x", "②", "１", "Ａ", "ª", "a_b", "a1 b2", "...", "…", "a,b;c"]
    base += [s for s in mined_strings if xml_ok(s)]
    return base


def rand_text(rng, alphabet=None, maxlen=12):
    alphabet = alphabet or ["a", "b", "Z", "0", "9", " ", " ", "é", "-", "α", "𝐀", "²", "_", ".", "\u00a0", "ſ", "K", "\t", "\u3000", "日"]
    return "".join(rng.choice(alphabet) for _ in range(rng.randrange(maxlen)))
