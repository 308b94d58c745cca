"""Known findings and replays."""
import json

from . import gen as G
from . import real


def present_findings(pid, known):
    """The listed findings that the current tree still shows."""
    out = []
    for k in known:
        if pid == "C16":
            n = G.Node(k["token"], [], {}, k["char"])
            if real.convert(G.document(n)) == ("ok", k["actual"]):
                out.append(k)
    return out


def replay(path):
    d = json.load(open(path, encoding="utf-8"))
    w = d.get("witness")
    if not w:
        print(json.dumps(d, indent=1, ensure_ascii=False))
        return 0
    for doc in w.get("history", []) if isinstance(w.get("history"), list) else []:
        print("convert(%r) -> %r" % (doc, real.convert(doc)))
    for key in ("input", "other"):
        if isinstance(w.get(key), str):
            print("convert(%r) -> %r" % (w[key], real.convert(w[key])))
    print("expected: %s\nrecorded: %s" % (json.dumps(w.get("expected"), ensure_ascii=False), json.dumps(w.get("actual"), ensure_ascii=False)))
    return 0
