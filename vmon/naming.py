"""Independent statement of how names are made"""
import unicodedata
from .model import norm

ORDER = ['origin', 'dataset', 'time', 'space', 'grain', 'variant']


def slug(v):
    """Dashes to underscores; accents and punctuation removed, dots and underscores kept; lower case; runs of blanks to one dash"""
    out, blank = [], False
    text = ''.join('_' if c == '-' else c for c in str(v))
    text = ''.join(c for c in unicodedata.normalize('NFKD', text) if ord(c) < 128).strip().lower()
    for c in text:
        if c.isspace():
            blank = True
            continue
        if not (c.isalnum() or c in '_.'):
            continue
        if blank:
            out.append('-')
            blank = False
        out.append(c)
    if blank:
        out.append('-')
    return ''.join(out)


def parts_ok(vals):
    return all(any(c.isalnum() for c in slug(v)) and slug(v).strip('-') == slug(v) and v != 0 for v in vals)


def join(vals):
    return '-'.join(slug(v) for v in vals)


def root_first(doc, name):
    """The first top-level term of that name in the root section; the workloads declare a Release to be a kind of Version"""
    names = (name, 'release') if name == 'version' else (name,)
    return next((t for t in doc.terms if t.record_term_lc in names and t.section is not None and t.section.name.lower() == 'root'), None)


def root_value(doc, name):
    t = root_first(doc, name)
    return norm(t.value) if t is not None else None


def prefix(doc):
    """The parts of the name before the version"""
    return [v for v in (root_value(doc, n) for n in ORDER) if v is not None]


def semver(doc):
    """-> None, or {part: value} with None for parts that are missing or blank"""
    v = root_first(doc, 'version')
    if v is None:
        return None
    d = {}
    for c in v.children:
        if c.record_term_lc in ('major', 'minor', 'patch', 'build') and c.record_term_lc not in d:
            d[c.record_term_lc] = norm(c.value)
    return d if any(k in d for k in ('major', 'minor', 'patch')) else None


def complete(sv):
    return all(sv.get(k) is not None for k in ('major', 'minor', 'patch'))


def render(sv):
    return '.'.join(str(sv[k]) for k in ('major', 'minor', 'patch')) + ('.' + str(sv['build']) if 'build' in sv else '')


def kinds(doc):
    """Does a declaration make other terms kinds of those that a save sets?"""
    return any((v.get('inheritsfrom') or '').lower().split('.')[-1] in ('identifier', 'name', 'version') + tuple(ORDER) for v in doc.decl_terms.values())


def whole(v):
    """The whole number that a version is, or None"""
    if isinstance(v, bool) or v is None:
        return None
    if isinstance(v, float):
        return int(v) if v == int(v) else None
    try:
        return int(v)
    except ValueError:
        return None
