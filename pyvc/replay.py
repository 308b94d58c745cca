"""Documents built from a counter-model of the solver, to be run against the real code."""
import json
import re

from search import cases as C
from search import gen as G
from search import docs as D
from spec import render as R

_INV = None


def inverse():
    global _INV
    if _INV is None:
        _INV = {}
        for tag, t in (("mi", R.MI_TABLE), ("mo", R.MO_TABLE), ("mn", R.MN_TABLE)):
            for k, v in t.items():
                if G.xml_ok(k) and R.norm(k) == k:
                    _INV.setdefault(v, (tag, k))
    return _INV


def leaf(s):
    """A node whose rendering is s, or None."""
    if s == "":
        return G.N("mphantom")
    if R.norm(s) == s and s not in R.MI_TABLE and G.xml_ok(s):
        return G.mi(s)
    if R.norm(s) == s and s not in R.MO_TABLE and G.xml_ok(s):
        return G.mo(s)
    if s in inverse():
        tag, k = inverse()[s]
        return G.Node(tag, [], {}, k)
    if s.strip() == "":
        return G.mtext("\t") if False else None
    for v in (" x", "x ", "a b"):
        if s == R.text(v, None):
            return G.mtext(v)
    return None


def child(d, k):
    """Candidates for child k from what the model says about it."""
    out = []
    if d.get("OK") is False:
        out = [b() for b in G.BAD_KIDS]
        if d.get("name") and G.NAME.match(d["name"]) and d["name"] not in R.KNOWN:
            out.insert(0, G.N(d["name"], G.BAD_KIDS[0]()))
        return out
    s = d.get("R0", d.get("R1"))
    n = d.get("nkids")
    name = d.get("name")
    table = d.get("table")
    x = leaf(s) if isinstance(s, str) else G.mi("x%d" % (k % 10))
    at = {a: v for a, v in (d.get("attrs") or {}).items() if isinstance(v, str) and G.xml_ok(v) and G.NAME.match(a)}
    value = d.get("value") if isinstance(d.get("value"), str) and G.xml_ok(d["value"]) and d["value"].strip() == d["value"] else None
    if name is not None and value is not None and (n == 0 or n is None) and G.NAME.match(name):
        out.append(G.Node(name, [], at, value))
    if name in ("mi", "mo", "mn", "mtext") and isinstance(s, str) and G.xml_ok(s):
        out.append(G.Node(name, [], at, s))
    if name is not None and G.NAME.match(name) and name not in ("mi", "mo", "mn", "mtext"):
        m = min(n, 8) if isinstance(n, int) and n >= 0 else 1
        kids = [G.mi("c%d" % j) for j in range(m)]
        if m and x is not None:
            kids[0] = x
        if table:
            kids = kids + [G.table()]
        out.append(G.Node(name, kids, {"actiontype": "tooltip", **at} if name == "maction" else at))
    if at and x is not None:
        # an element with these attributes and this rendering
        out.append(G.Node(x.name, x.kids, {**x.attrs, **at}, x.text))
        out.append(G.Node("maction", [x], {"actiontype": "tooltip", **at}))
        out.append(G.Node("mrow", [x], at))
    if at or value:
        out.append(G.Node("mi", [], at, value or "x"))
        out.append(G.Node("mrow", [G.mi("p"), G.mi("q")][:n if isinstance(n, int) and 0 <= n <= 2 else 1], at))
    if x is None:
        x = G.mrow(G.mi("p"), G.mo("+"))
    if isinstance(n, int) and n == 0 and not table:
        out.append(x)
    m = min(n, 8) if isinstance(n, int) and n > 0 else 1
    extra = [G.mi("e") for _ in range(m - 1)]
    if table:
        extra = extra + [G.table()]
    out.append(G.N("maction", x, *extra, actiontype="tooltip"))
    out.append(x)
    if table:
        out.append(G.table())
    return out


PREIMAGES = [str, lambda v: " " + v, lambda v: v + " ", lambda v: "\u00a0" + v + " ", lambda v: v.upper(), lambda v: v.capitalize(),
             lambda v: v.replace("", " ").strip(), lambda v: v + v, lambda v: "x" + v, lambda v: v + "x", lambda v: v[:-1]]
UNARY = re.compile(r'[A-Za-z!]+\(attr\(r,"[^"]*"\)\)\Z')
KEY = re.compile(r"(\w+)\((.*)\)\Z", re.S)
KID = re.compile(r"kid\((r),(\d+)\)")


def nodes(tag, model, value=None):
    """Root nodes the model suggests."""
    kids, root, attrs, has = {}, {}, {}, {}
    unary = {k: v for k, v in (model or {}).items() if isinstance(v, str) and UNARY.match(k) and G.xml_ok(v)}
    for key, v in (model or {}).items():
        m = KEY.match(key)
        if not m:
            continue
        f, rest = m.groups()
        k = KID.match(rest)
        if k:
            d = kids.setdefault(int(k.group(2)), {})
            if f == "R":
                d["R1" if rest.endswith("True") else "R0"] = v
            elif f == "D" and v is True:
                d["table"] = True
            elif f in ("name", "nkids", "OK", "value"):
                d[f] = v
            elif f == "has" and v is True or f == "attr":
                try:
                    a = json.loads(rest[k.end() + 1:])
                except ValueError:
                    continue
                if f == "attr":
                    d.setdefault("attrs", {})[a] = v
                else:
                    d.setdefault("attrs", {}).setdefault(a, "v")
            continue
        if rest == "r":
            root[f] = v
        elif rest.startswith("r,"):
            try:
                a = json.loads(rest[2:])
            except ValueError:
                continue
            if f == "attr":
                attrs[a] = v
            elif f == "has":
                has[a] = v
    at = {a: attrs.get(a, "v") for a, h in has.items() if h and G.NAME.match(a or "-")}
    at = {a: v for a, v in at.items() if isinstance(v, str) and G.xml_ok(v)}
    n = root.get("nkids")
    if not isinstance(n, int) or n < 0:
        n = max(kids) + 1 if kids else (R.EXACT.get(tag) or (3 if tag == "mmultiscripts" else 2))
    n = min(n, 40)
    if tag == "other":
        tag = root.get("name") or "mrow"
        if not G.NAME.match(tag):
            tag = "mstyle"
    text = value if value is not None else root.get("value", "")
    if not isinstance(text, str):
        text = ""
    cand = [child(kids[i], i) if i in kids else [G.mi("x%d" % (i % 10)), G.mtext("a b")] for i in range(n)]
    for j in range(max([len(c) for c in cand] or [1])):
        yield G.Node(tag, [c[min(j, len(c) - 1)] for c in cand], at, text if not n else "")
    for f in PREIMAGES:
        if at:
            yield G.Node(tag, [c[0] for c in cand], {a: f(v) for a, v in at.items()}, text if not n else "")
    for v in list(unary.values())[:3]:                # values of STRIP(attr), NORM(attr), LOWER(attr), ...
        for a in at:
            for f in PREIMAGES:
                yield G.Node(tag, [c[0] for c in cand], {**at, a: f(v)}, text if not n else "")
    yield G.Node(tag, [C.KIDS[(3 * i + 1) % len(C.KIDS)]() for i in range(n)], at, text)
    if tag in ("mi", "mo", "mn", "mtext") and n:
        yield G.Node(tag, [], at, text)


def check(pid, node):
    if pid == "C03":
        return D.check_c03(node)
    if pid == "C20":
        return D.check_c20(node)
    if pid in C.FOCUS or pid == "C02":
        return C.check_tree(pid, node)
    return None


def witness(pid, tag, model, value=None):
    """(a failing input or None, whether the model could be turned into inputs on which code and specification agree)."""
    tried = 0
    for n in nodes(tag, model, value):
        for i in range(7):
            for c in C.contexts(n, i):
                tried += 1
                w = check(pid, c)
                if w is not None:
                    w["from"] = "counter-model of the verifier"
                    return w, False
    return None, tried > 0


# ------------------------------------------------------------------------------------ documents

NODE = re.compile(r"child\((.*),(\d+)\)\Z", re.S)
DECL = 'xmlns:p="http://www.w3.org/1999/xlink" xmlns:q="urn:q"'


def attr_text(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")


def reader_documents(model):
    """Documents with an element as the counter-model of the reader describes it."""
    at, kids = {}, {}
    for key, v in (model or {}).items():
        m = KEY.match(key)
        if not m or m.group(1) not in ("aname", "avalue", "ntype", "nvalue"):
            continue
        f, rest = m.groups()
        if f in ("aname", "avalue"):
            x, _, i = rest.rpartition(",")
            if i.isdigit():
                at.setdefault(x, {}).setdefault(int(i), {})[f] = v
        else:
            m = NODE.match(rest)
            if m and m.group(1).startswith("child("):
                kids.setdefault(m.group(1), {}).setdefault(int(m.group(2)), {})[f] = v
    attrs = []
    for x, d in at.items():
        for i, a in sorted(d.items()):
            n, v = a.get("aname", "open"), a.get("avalue", "v")
            if not isinstance(n, str) or not isinstance(v, str) or not G.xml_ok(v):
                continue
            same = n == v
            if not re.match(r"[A-Za-z_][\w.-]*(:[A-Za-z_][\w.-]*)?\Z", n):
                n = "p:open" if ":" in n else "open"
            if ":" in n and not n.startswith("xml"):
                n = "p:" + n.split(":")[1]
            attrs += [(n, n if same else v), (n, n), (n, n.split(":")[-1])]
            if ":" in n:
                attrs += [("xml:lang", "lang"), ("xml:lang", "xml:lang"), ("xml:lang", "x")]
    bodies = ["x"]
    for x, d in kids.items():
        out = []
        for i in sorted(d)[:12]:
            t, v = d[i].get("ntype", 3), d[i].get("nvalue", "t")
            v = v if isinstance(v, str) and G.xml_ok(v) else "t"
            out.append({1: "<mi>k</mi>", 3: G.esc(v), 4: "<![CDATA[%s]]>" % v.replace("]]>", ""), 7: "<?pi %s?>" % v.replace("?>", ""),
                        8: "<!--%s-->" % v.replace("-", "")}.get(t, "t"))
        bodies.append("".join(out))
        bodies.append("a" + "".join(out) + "b")
    for b in bodies:
        for t in ("mi", "mtext", "mfenced", "mrow"):
            for n, v in [(None, None)] + attrs[:12]:
                a = "" if n is None else ' %s="%s"' % (n, attr_text(v))
                yield "<math %s><%s%s>%s</%s></math>" % (DECL, t, a, b, t)


def text_documents(d):
    """Documents with the text d in different places."""
    d = d[:60]
    inner = "".join(c for c in d if G.xml_ok(c))
    raw = [inner] if not set(inner) & set("<>&") else []
    for t in [inner, inner + inner, "a" + inner + "b"] + [G.esc(inner)] + raw:
        yield "<math><mtext>%s</mtext></math>" % t
        yield "<math><mi>x</mi>%s<mi>y</mi></math>" % t
        yield "<math><mrow>%s</mrow></math>" % t
        yield '<math><mfenced open="%s"><mi>x</mi></mfenced></math>' % attr_text(inner)
        yield "<math%s><mi>x</mi></math>" % t
        yield "<math ><mi %s>x</mi></math>" % t
        yield "<math><mi>x</mi></math%s>" % t
        yield t


def rewriting_witness(pid, d):
    import itertools
    for doc in text_documents(d):
        try:
            w = D.check_c01(doc) if pid == "C01" else D.check_c17_document(doc) if pid == "C17" else None
        except (ValueError, UnicodeError):
            continue
        if w is not None:
            return w
        if pid != "C18":
            continue
        cases = [("text", doc, doc), ("mml", doc, D.prefixed(doc)), ("text", doc, D.prefixed(doc))]
        if not set(doc) & set("\r\n"):
            sp = [i for i, c in enumerate(doc) if c == " "]
            for br in ("\n", "\r", "\r\n"):
                cases += [("lb", doc, D.inject(doc, s, br)) for k in range(1, min(4, len(sp) + 1)) for s in itertools.combinations(sp[:8], k)]
                cases.append(("lb", doc, D.inject(doc, sp, br)))
        for c in cases:
            w = D.check_c18(c)
            if w is not None:
                return w
    return None


def document_witness(pid, unit, model):
    """A failing input for an obligation about documents, or None."""
    if unit[0] == "reader" and pid == "C17":
        for doc in reader_documents(model):
            w = D.check_c17(doc)
            if w is not None:
                w["from"] = "counter-model of the verifier"
                return w
    if unit[0] == "rewriting" and isinstance((model or {}).get("text"), str):
        return rewriting_witness(pid, model["text"])
    return None
