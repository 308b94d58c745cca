"""run(pid, seconds, seed, known) -> (witness or None, stats)"""
import random
import re
import time

from . import cases as C
from . import docs as D
from . import gen as G
from . import real

DOC = {"C01": (D.c01, D.check_c01), "C03": (D.c03, D.check_c03), "C16": (D.c16, D.check_c16), "C17": (D.c17, D.check_c17),
       "C18": (D.c18, D.check_c18), "C19": (D.c19, D.check_c19), "C20": (D.c20, D.check_c20)}


def key(case):
    if isinstance(case, G.Node):
        return G.xml(case)
    return case


def open_tags(pid, names):
    """The elements that the open obligations are about, if they are few."""
    tags = [t for t in dict.fromkeys(m for n in names for m in re.findall(r"\[(\w+)", n)) if t in C.R.KNOWN]
    if any("[any other name" in n for n in names):
        tags += ["mrow", "foo"]
    if pid in C.FOCUS:
        tags = [t for t in tags if t in C.FOCUS[pid]]
    tags = [t for t in tags if t not in C.LEAVES]
    return tags if len(tags) <= 8 else []


def run(pid, seconds, seed, known=(), min_cases=0, names=()):
    rng = random.Random("%s-%s" % (pid, seed))
    strings, ints = real.mined()
    t0 = time.monotonic()
    if pid == "C21":
        tags = dict.fromkeys(m for n in names for m in re.findall(r"\[(\w+)", n) if m in C.R.KNOWN)
        return D.search_c21(seconds, rng, strings, ints, time.monotonic, first=list(tags) if len(tags) < 6 else ())
    gens = []
    if pid in DOC:
        gen, chk = DOC[pid]
        if pid == "C16":
            chk = lambda case: D.check_c16(case, known)  # noqa: E731
        gens.append((gen(rng, strings, ints), chk))
    if pid in C.FOCUS and pid != "C16" or pid == "C02":
        gens.append((C.tree_cases(pid, rng, strings, ints), lambda n: C.check_tree(pid, n)))
    if pid == "C17" and any(n.startswith("rewriting") for n in names):
        # what reaches the reader is not known to be the document: judge by the rendering
        gens.append((D.c17(rng, strings, ints), D.check_c17_document))
    tags = open_tags(pid, names)
    if tags and (pid == "C20" or pid in C.FOCUS and pid not in DOC):
        chk = D.check_c20 if pid == "C20" else lambda n: C.check_tree(pid, n)  # noqa: E731
        gens.append((C.focus_cases(pid, tags, rng, strings, pid == "C20"), chk))
    stats = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "exhausted": False}
    seen = set()
    i = 0
    live = list(gens)
    while live and (time.monotonic() - t0 < seconds or stats["evaluations"] < min_cases):
        for g in list(live):
            for _ in range(25):
                try:
                    case = next(g[0])
                except StopIteration:
                    live.remove(g)
                    break
                i += 1
                variants = C.contexts(case, i) if isinstance(case, G.Node) and pid != "C20" and i % 3 == 0 else [case]
                for c in variants:
                    stats["evaluations"] += 1
                    k = key(c)
                    h = hash(k)
                    if h not in seen:
                        seen.add(h)
                        stats["distinct_nontrivial"] += 1
                    if len(stats["samples"]) < 5 and i % 97 == 5:
                        stats["samples"].append(str(k)[:300])
                    w = g[1](c)
                    if w is not None:
                        stats["wall_s"] = round(time.monotonic() - t0, 2)
                        return w, stats
    stats["exhausted"] = not live
    stats["wall_s"] = round(time.monotonic() - t0, 2)
    return None, stats
