def _below(e):
    for c in e.children:
        if c.name == "mi" or _below(c):
            return True
    return False


def split_max(s):
    return s.split(None, 1)


def used_twice(xs):
    g = (x for x in xs)
    return "".join(g) + "".join(g)


def unused(xs):
    map(lambda x: x[5], xs)
    return 1
