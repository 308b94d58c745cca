"""What Unicode's own data says a symbol token must render to (property C16).  Independent of the code's tables."""
import unicodedata

ACCENT = {"\u0301": "acute", "\u0300": "grave", "\u0302": "hat", "\u0303": "tilde", "\u0308": "ddot", "\u030a": "mathring",
          "\u0306": "breve", "\u030c": "check", "\u0307": "dot", "\u0304": "bar"}


def decomposition(c):
    d = unicodedata.decomposition(c)
    if not d:
        return None, []
    parts = d.split()
    tag = None
    if parts[0].startswith("<"):
        tag = parts.pop(0)[1:-1]
    return tag, [chr(int(p, 16)) for p in parts]


def ascii_letter(c):
    return "a" <= c <= "z" or "A" <= c <= "Z"


def expected():
    """char -> (class, set of accepted renderings)"""
    out = {}
    for o in range(0x80, 0x110000):
        if 0xD800 <= o < 0xE000:
            continue
        c = chr(o)
        tag, parts = decomposition(c)
        if tag == "super" and len(parts) == 1 and (parts[0] in "0123456789n"):
            out[c] = ("superscript", {"^{%s}" % parts[0]})
        elif tag == "sub" and len(parts) == 1 and (parts[0] in "0123456789n"):
            out[c] = ("subscript", {"_{%s}" % parts[0]})
        elif tag == "circle" and "".join(parts).isdigit():
            out[c] = ("circled", {"\\textcircled{%s}" % "".join(parts)})
        elif tag == "fraction" and "\u2044" in parts:
            i = parts.index("\u2044")
            p, q = "".join(parts[:i]), "".join(parts[i + 1:])
            if p.isdigit() and q.isdigit():
                out[c] = ("fraction", {"\\dfrac{%s}{%s}" % (p, q)})
        elif tag is None and len(parts) == 2 and ascii_letter(parts[0]) and parts[1] in ACCENT:
            out[c] = ("accented", {"\\%s{%s}" % (ACCENT[parts[1]], parts[0])})
        elif tag == "font" and len(parts) == 1 and 0x1D400 <= o <= 0x1D7FF:
            p = parts[0]
            if p.isascii() and p.isalnum():
                out[c] = ("alphanumeric", p)
            elif unicodedata.name(c).startswith("MATHEMATICAL BOLD CAPITAL ") and 0x0391 <= ord(p) <= 0x03A9:
                out[c] = ("bold greek capital", unicodedata.name(p).split()[-1])
    return out
