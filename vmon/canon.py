"""What a document says, in the sense of the round trip properties."""
from .model import norm, blank
from . import live


def sval(v):
    v = norm(v)
    return None if v is None else str(v)


def canon_children(t):
    """{name: [(value, children), ...]}: same-named children keep their order; empty ones say nothing"""
    d = {}
    for c in t.children:
        v, kids = sval(c.value), canon_children(c)
        if v is None and not kids:
            continue
        d.setdefault(c.record_term_lc, []).append((v, kids))
    return d


def value_heading(s):
    """The root section's headings are in a Header row, which also has a heading for the values"""
    if s.name.lower() != 'root' or not s.property_names:
        return []
    n = getattr(s, 'default_term_value_name', None)
    return ['(value: {})'.format(n.lower())] if n and n != '@value' else []


def canon(doc):
    """Sections (the root section first) with their headings and terms"""
    secs = sorted(list(doc), key=lambda s: s.name.lower() != 'root')
    return [(s.name.strip(), live.lheads(s) + value_heading(s), [(t.record_term_lc, sval(t.value), canon_children(t)) for t in live.own(s.terms)]) for s in secs]


def has_blank_children(doc):
    return any(norm(c.value) is None and not c.children for t in live.all_live(doc) for c in t.children)


def diff(a, b):
    """The first difference of two canonical forms"""
    for (n1, h1, t1), (n2, h2, t2) in zip(a, b):
        if n1 != n2:
            return 'section {!r} instead of {!r}'.format(n1, n2)
        if h1 != h2:
            return 'headings of section {!r}: {} instead of {}'.format(n1, h1, h2)
        for x, y in zip(t1, t2):
            if x != y:
                return 'in section {!r}: term {!r} instead of {!r}'.format(n1, x, y)
        if len(t1) != len(t2):
            return 'section {!r} has {} terms instead of {}; {!r}'.format(n1, len(t1), len(t2), (t1[len(t2):] or t2[len(t1):])[0])
    return 'sections {} instead of {}'.format([s[0] for s in a], [s[0] for s in b])
