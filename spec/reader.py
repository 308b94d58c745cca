"""The specification of reading: what reaches conversion for one XML element (property C17).

`read` is executed symbolically as the postcondition of the reader, with the DOM interface of xml.dom as its only
vocabulary.  Converted children are written down by `child`, which stands for read(child) by induction."""


def child(node):
    return read(node)


def read(node):
    """(name, text, children, attributes)"""
    kids = [c for c in node.childNodes if c.nodeType == 1]
    text = ""
    if not kids:
        text = "".join([c.nodeValue for c in node.childNodes if c.nodeType == 3 or c.nodeType == 4])
    attributes = {}
    for a in node.attributes.values():
        if a.value == a.name:
            attributes[a.name] = ""
        else:
            attributes[a.name] = a.value
    return (node.tagName, text.strip(), [child(c) for c in kids], attributes)


def read_all(nodes):
    return [read(n) for n in nodes if n.nodeType == 1]
