"""Nested dictionaries: enumeration and the reference model of dotted names."""
import itertools

ABSENT = ("absent",)


def dicts(names, leaves, depth, lo=0, hi=2):
    """All nested dictionaries over names with up to hi entries and depth levels, as item tuples."""
    below = [("leaf", v) for v in leaves]
    if depth > 1:
        below = below + [("ns", d) for d in dicts(names, leaves, depth - 1, 0, hi)]
    out = []
    for n in range(lo, hi + 1):
        for ks in itertools.combinations(names, n):
            for vs in itertools.product(below, repeat=n):
                out.append(tuple(zip(ks, vs)))
    return out


def plain(items):
    """The dictionary an item tuple describes (fresh)."""
    return {k: (plain(v) if kind == "ns" else fresh(v)) for k, (kind, v) in items}


def fresh(v):
    if isinstance(v, list):
        return [fresh(x) for x in v]
    if isinstance(v, dict):
        return {k: fresh(x) for k, x in v.items()}
    return v


def same(a, b):
    """Equal nested dictionaries, whatever their order, with identical leaf types."""
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, float) and b != b:
        return isinstance(a, float) and a != a
    return type(a) is type(b) and a == b


def lookup(d, path):
    cur = d
    for part in path.split("."):
        if not isinstance(cur, dict) or part not in cur:
            return ABSENT
        cur = cur[part]
    return cur


def leaves_of(d, prefix=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from leaves_of(v, prefix + (k,))
        else:
            yield ".".join(prefix + (k,)), v


class Conflict(Exception):
    pass


def merge(a, b):
    out = dict(a)
    for k, v in b.items():
        if k in a:
            if isinstance(a[k], dict) != isinstance(v, dict):
                raise Conflict(k)
            out[k] = merge(a[k], v) if isinstance(v, dict) else v
        else:
            out[k] = v
    return out


def nested(params):
    """The nested dictionary of a Parameters, as plain dictionaries at every level."""
    from collections.abc import Mapping

    def conv(x):
        if isinstance(x, Mapping):
            return {k: conv(v) for k, v in x.items()}
        return x

    return conv(params.as_nested_dicts())


def listing(params):
    return sorted((k, repr(v)) for k, v in params.namespaced_items())


def listed(d, prefix=()):
    return sorted((k, repr(v)) for k, v in leaves_of(d, prefix))
