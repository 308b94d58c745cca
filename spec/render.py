"""The specification of rendering: one pure function per construct.

Written from the property statements (properties.jsonl), not from the code.  These functions are used twice:
pyvc executes them symbolically to obtain the postconditions of the converter contracts, and the bounded
search executes them as the oracle.  They use only the interface of an element: name, value, children,
attributes.  `inner` is ghost state: "another table encloses this element".
"""
import json
import os

_T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "symbols.json"), encoding="utf-8"))
MI_TABLE = _T["mi"]
MO_TABLE = _T["mo"]
MN_TABLE = _T["mn"]

EXACT = {"msup": 2, "msub": 2, "mfrac": 2, "mroot": 2, "munder": 2, "mover": 2, "msubsup": 3, "munderover": 3}

KNOWN = ["math", "mi", "mo", "mn", "mtext", "msqrt", "mfenced", "mfrac", "mroot", "maction", "menclose", "merror",
         "mphantom", "msup", "msub", "msubsup", "mmultiscripts", "munderover", "munder", "mover", "mtable", "mtr"]

PLAIN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 "


class ArityError(Exception):
    """Stands for InvalidNumberOfChildrenError; its message is the first argument."""


def norm(s):
    return " ".join(s.split())


def arity_message(name, comparison, required, actual):
    return f"{name} tag must have {comparison} {required} children. It's actually {actual}"


# ---------------------------------------------------------------- dispatch

def render(e, inner):
    name = e.name
    kids = e.children
    if name in EXACT:
        if len(kids) != EXACT[name]:
            raise ArityError(arity_message(name, "exactly", EXACT[name], len(kids)))
    if name == "math":
        return norm(joined(kids, inner, " "))
    if name == "mi":
        return identifier(e.value, e.attributes.get("mathvariant"))
    if name == "mo":
        return operator(e.value)
    if name == "mn":
        return number(e.value)
    if name == "mtext":
        return text(e.value, e.attributes.get("mathvariant"))
    if name == "msqrt":
        return "\\sqrt{" + joined(kids, inner, " ") + "}"
    if name == "merror":
        return "\\color{red}{" + joined(kids, inner, " ") + "}"
    if name == "mphantom":
        return ""
    if name == "mfrac":
        return fraction(e, inner)
    if name == "mroot":
        return "\\sqrt[" + render(kids[1], inner) + "]{" + render(kids[0], inner) + "}"
    if name == "msup":
        return script_base(kids[0], inner) + "^{" + render(kids[1], inner) + "}"
    if name == "msub":
        return script_base(kids[0], inner) + "_{" + render(kids[1], inner) + "}"
    if name == "msubsup":
        return (script_base(kids[0], inner) + "_{" + render(kids[1], inner) + "}^{"
                + render(kids[2], inner) + "}")
    if name == "munder":
        return under_over("\\underset", kids, inner)
    if name == "mover":
        return under_over("\\overset", kids, inner)
    if name == "munderover":
        return render(kids[0], inner) + "_{" + render(kids[1], inner) + "}^{" + render(kids[2], inner) + "}"
    if name == "mmultiscripts":
        return multiscripts(kids, inner)
    if name == "mfenced":
        return fenced(e, inner)
    if name == "mtable":
        rows = joined(kids, True, " \\\\\n")
        if inner:
            return "\\begin{matrix}" + rows + "\\end{matrix}"
        return rows
    if name == "mtr":
        return joined(kids, inner, " & ")
    if name == "menclose":
        return enclosed(e, inner)
    if name == "maction":
        return action(e, inner)
    return joined(kids, inner, " ")


def joined(kids, inner, separator):
    return separator.join([render(c, inner) for c in kids])


# ---------------------------------------------------------------- constructs

def parenthesised_if_long(s):
    if len(s) > 1:
        return "\\left(" + s + "\\right)"
    return s


def script_base(base, inner):
    s = render(base, inner)
    if len(base.children) > 1:
        return parenthesised_if_long(s)
    return s


def fraction(e, inner):
    num = render(e.children[0], inner)
    den = render(e.children[1], inner)
    if e.attributes.get("bevelled", "") != "":
        return parenthesised_if_long(num) + "/" + parenthesised_if_long(den)
    return "\\frac{" + num + "}{" + den + "}"


def under_over(command, kids, inner):
    base = render(kids[0], inner)
    script = render(kids[1], inner)
    if script in ("\\hat", "\\bar", "\\underbrace", "\\overbrace"):
        return script + "{" + base + "}"
    return command + "{" + script + "}{" + base + "}"


def has_space(s):
    for c in s:
        if c.isspace():
            return True
    return False


def multiscripts(kids, inner):
    n = len(kids)
    if n < 3:
        raise ArityError(arity_message("mmultiscripts", "at least", 3, n))
    base = render(kids[0], inner)
    if has_space(base):
        base = "\\left(" + base + "\\right)"
    pre = ""
    post = ""
    if kids[1].name == "mprescripts":
        if n >= 4:
            pre = "\\_{" + render(kids[2], inner) + "}^{" + render(kids[3], inner) + "}"
    else:
        if n >= 6:
            if kids[3].name == "mprescripts":
                pre = "\\_{" + render(kids[4], inner) + "}^{" + render(kids[5], inner) + "}"
        post = "_{" + render(kids[1], inner) + "}^{" + render(kids[2], inner) + "}"
    return pre + base + post


def table_below(kids):
    for c in kids:
        if c.name == "mtable" or table_below(c.children):
            return True
    return False


def fenced(e, inner):
    opening = e.attributes.get("open", "")
    closing = e.attributes.get("close", "")
    items = [render(c, inner) for c in e.children]
    if table_below(e.children):
        return matrix(opening, closing, "".join(items))
    separators = e.attributes.get("separators", "")
    result = ""
    for i, item in enumerate(items):
        if i > 0:
            result = result + separator_at(separators, i - 1)
        result = result + item
    if opening == "":
        opening = "("
    if closing == "":
        closing = ")"
    return "\\left" + opening + result + "\\right" + closing


def separator_at(separators, i):
    if i < len(separators):
        return separators[i]
    if len(separators) > 0:
        return separators[len(separators) - 1]
    return ","


def environment(name, content):
    return "\\begin{" + name + "}\n" + content + "\n\\end{" + name + "}"


def matrix(opening, closing, content):
    if opening == "(" and closing == ")":
        return environment("pmatrix", content)
    if opening == "{" and closing == "}":
        return environment("Bmatrix", content)
    if opening == "|" and closing == "|":
        return environment("vmatrix", content)
    if opening == "||" and closing == "||":
        return environment("Vmatrix", content)
    if opening == closing or (opening == "[" and closing == "]"):
        return environment("bmatrix", content)
    return "\\left" + opening + environment("matrix", content) + "\\right" + closing


def enclosed(e, inner):
    x = joined(e.children, inner, " ")
    notation = e.attributes.get("notation", "longdiv")
    if notation == "actuarial":
        return "\\overline{\\left." + x + "\\right|}"
    if notation == "radical":
        return "\\sqrt{" + x + "}"
    if notation in ("box", "roundedbox", "circle"):
        return "\\boxed{" + x + "}"
    if notation == "left":
        return "\\left|" + x
    if notation == "right":
        return x + "\\right|"
    if notation == "top":
        return "\\overline{" + x + "}"
    if notation == "bottom":
        return "\\underline{" + x + "}"
    if notation == "updiagonalstrike":
        return "\\cancel{" + x + "}"
    if notation == "downdiagonalstrike":
        return "\\bcancel{" + x + "}"
    if notation == "updiagonalarrow":
        return "\\cancelto{}{" + x + "}"
    if notation in ("verticalstrike", "horizontalstrike"):
        return "\\hcancel{" + x + "}"
    if notation == "madruwb":
        return "\\underline{" + x + "\\right|}"
    if notation == "phasorangle":
        return "{\\angle \\underline{" + x + "}}"
    return "\\overline{\\left.\\right)" + x + "}"


def action(e, inner):
    kind = e.attributes.get("actiontype", "")
    if kind == "" or kind == "toggle":
        return joined(e.children, inner, " \\Longrightarrow ")
    if len(e.children) < 1:
        raise ArityError(arity_message("maction", "at least", 1, 0))
    return render(e.children[0], inner)


# ---------------------------------------------------------------- tokens

def identifier(value, mathvariant):
    t = norm(value)
    return in_font(MI_TABLE.get(t, t), mathvariant)


def in_font(s, v):
    if v == "bold":
        return "\\mathbf{" + s + "}"
    if v == "italic":
        return "\\mathit{" + s + "}"
    if v == "bold-italic":
        return "\\mathbf{\\mathit{" + s + "}}"
    if v == "double-struck":
        return "\\mathbb{" + s + "}"
    if v == "bold-fraktur":
        return "\\mathbf{\\mathfrak{" + s + "}}"
    if v == "script":
        return "\\mathcal{" + s + "}"
    if v == "bold-script":
        return "\\mathbf{\\mathcal{" + s + "}}"
    if v == "fraktur":
        return "\\mathfrak{" + s + "}"
    if v == "sans-serif":
        return "\\mathsf{" + s + "}"
    if v == "bold-sans-serif":
        return "\\mathbf{\\mathsf{" + s + "}}"
    if v == "sans-serif-italic":
        return "\\mathsf{\\mathit{" + s + "}}"
    if v == "sans-serif-bold-italic":
        return "\\mathbf{\\mathsf{\\mathit{" + s + "}}}"
    if v == "monospace":
        return "\\mathtt{" + s + "}"
    return s


def operator(value):
    t = norm(value)
    return MO_TABLE.get(t, t)


def number(value):
    t = norm(value)
    return MN_TABLE.get(t, t)


def text_command(s, v):
    if v == "bold":
        return "\\textbf{" + s + "}"
    if v == "italic":
        return "\\textit{" + s + "}"
    if v == "bold-italic":
        return "\\textbf{\\textit{" + s + "}}"
    if v == "double-struck":
        return "\\mathbb{" + s + "}"
    if v == "monospace":
        return "\\mathtt{" + s + "}"
    if v == "fraktur" or v == "bold-fraktur":
        return "\\mathfrak{" + s + "}"
    return "\\text{" + s + "}"


def text_piece(s, plain, v):
    if plain:
        return text_command(s, v)
    return lone_character(s)


def lone_character(s):
    if s.isspace():
        return "\\textrm{ }"
    return identifier(s, None)


def text(value, v):
    runs = []
    for c in value:
        plain = c in PLAIN
        if plain and runs and runs[-1][1]:
            runs[-1] = (runs[-1][0] + c, True)
        else:
            runs.append((c, plain))
    return "".join([text_piece(s, plain, v) for s, plain in runs])
