"""The specification of a document: property C01.  `elements` are the math elements in document order, as they reach
conversion."""
from .render import render


def document(elements):
    return "".join([render(e, False) for e in elements]).strip()
