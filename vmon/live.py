"""Observation of live documents through the public interface of metatab."""
import contextlib, csv, io, os, shutil, tempfile

from . import boot
from .model import norm, blank

import metatab
from metatab import MetatabDoc, TermParser, MetatabError
from metatab.rowgen import MetatabRowGenerator, TextRowGenerator
from metatab.terms import Term, SectionTerm
from metatab.resolver import WebResolver
from rowgenerators import parse_app_url


# -- making documents -----------------------------------------------------------------------------

def from_rows(rows, **kw):
    return MetatabDoc(MetatabRowGenerator(rows), **kw)


def from_text(text, **kw):
    return MetatabDoc(TextRowGenerator(text), **kw)


def from_path(path, **kw):
    return MetatabDoc(path, **kw)


def from_csv_text(text, **kw):
    return from_rows(list(csv.reader(io.StringIO(text, newline=''))), **kw)


class Recorder:
    """Stands between the parser and the document, and keeps the terms that pass"""
    def __init__(self, parser):
        self.parser, self.terms = parser, []

    def __iter__(self):
        for t in self.parser:
            self.terms.append(t)
            yield t

    def __getattr__(self, name):
        return getattr(self.parser, name)

    @property
    def ordinary(self):
        return [t for t in self.terms if not isinstance(t, SectionTerm)]


def recorded(ref, doc=None, **kw):
    """-> (document, ordinary terms in the order that the parser yielded them)"""
    doc = doc or MetatabDoc(**kw)
    r = Recorder(TermParser(ref, resolver=doc.resolver, doc=doc))
    doc.load_terms(r)
    return doc, r.ordinary


@contextlib.contextmanager
def workdir():
    d = tempfile.mkdtemp(prefix='case-', dir=boot.SCRATCH)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def csv_text(rows):
    s = io.StringIO(newline='')
    w = csv.writer(s)
    for r in rows:
        w.writerow(['' if c is None else c for c in r])
    return s.getvalue()


def write_csv(path, rows):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', newline='', encoding='utf8') as f:
        f.write(csv_text(rows))


# -- looking at documents -------------------------------------------------------------------------

def own(terms):
    """(The terms of declaration documents are not in sections of the document)"""
    return list(terms)


def listed(doc):
    """The list of all terms, which has the terms of the sections of declaration documents as well"""
    return [t for t in doc.terms if t.file_type != 'declare']


def tree(t):
    """(name, value, children) of a live term"""
    return (t.record_term_lc, norm(t.value), tuple(tree(c) for c in t.children))


def sections(doc):
    return [(s.name.lower(), [tree(t) for t in own(s.terms)]) for s in doc]


def heads(s):
    return [norm(h) or '' for h in s.property_names]


def lheads(s):
    return [h.lower() for h in heads(s)]


def walk(terms):
    for t in terms:
        yield t
        yield from walk(t.children)


def all_live(doc):
    for s in doc:
        yield from walk(own(s.terms))


def snap(t):
    """Everything that can be observed of a term and its descendants, with identities"""
    return (id(t), t.parent_term_lc, t.record_term_lc, t.value, t.term_value_name, t.child_property_type, t.row, t.col, t.file_name,
            id(t.section), id(t.parent) if t.parent is not None else None, tuple(map(repr, t.args)), tuple(snap(c) for c in t.children))


def snapshot(doc):
    """The full state of a document"""
    return dict(
        sections=[(k, id(s), s.value, tuple(s.args), tuple(getattr(s, 'header_args', None) or []), getattr(s, 'default_term_value_name', None), tuple(snap(t) for t in s.terms),
                   tuple(id(c) for c in s.children))
                  for k, s in doc.sections.items()],
        terms=[id(t) for t in doc.terms],
        decl_terms={k: repr(v) for k, v in doc.decl_terms.items()},
        decl_sections={k: repr(v) for k, v in doc.decl_sections.items()},
        supers=sorted(map(repr, doc.super_terms.items())),
    )


def plain(doc):
    """The content of a document, without identities: comparable between processes and copies"""
    def p(t):
        return (t.parent_term_lc, t.record_term_lc, repr(t.value), t.term_value_name, t.child_property_type, t.row, t.col, t.file_name,
                t.section.name if t.section is not None else None, tuple(p(c) for c in t.children))
    return dict(
        sections=[(k, s.value, tuple(map(str, s.property_names)), getattr(s, 'default_term_value_name', None), tuple(p(t) for t in s.terms)) for k, s in doc.sections.items()],
        terms=[(t.join_lc, repr(t.value)) for t in doc.terms],
        decl=sorted((k, repr(sorted((a, repr(b)) for a, b in v.items()))) for k, v in doc.decl_terms.items()),
        decl_sections=sorted((k, repr(sorted((a, repr(b)) for a, b in v.items()))) for k, v in doc.decl_sections.items()),
        supers=sorted(map(repr, doc.super_terms.items())),
    )


def check_links(doc, obs, sections_shared=True):
    """The structural invariant: one section per term, one parent per child, consistent links"""
    where = {}
    for s in doc:
        for t in own(s.terms):
            if id(t) in where:
                obs.fail('structure', 'term {} is listed twice: in section {} and section {}'.format(show(t), where[id(t)], s.name))
            where[id(t)] = s.name
            obs.true('structure', t.section is s, lambda: 'term {} is in section {} but names {} as its section'.format(
                show(t), s.name, t.section.name if t.section is not None else None))
            obs.true('structure', t.parent_term_lc == 'root', lambda: 'term {} in a section is not a top-level term'.format(show(t)))
            obs.true('structure', t.doc is doc, lambda: 'term {} has another document'.format(show(t)))
    ids = [id(t) for t in listed(doc)]
    obs.true('structure', len(ids) == len(set(ids)), 'a term is listed twice in the document')
    obs.true('structure', set(ids) == set(where), lambda: 'the document lists {} top-level terms, its sections {}: {}'.format(
        len(ids), len(where), [show(t) for t in listed(doc) if id(t) not in where][:3]
        + [show(t) for s in doc for t in own(s.terms) if id(t) not in set(ids)][:3]))
    seen = set(where)
    stack = [t for s in doc for t in own(s.terms)]
    n = 0
    while stack:
        t = stack.pop()
        for c in t.children:
            n += 1
            obs.true('structure', id(c) not in seen, lambda: 'child {} is listed twice'.format(show(c)))
            seen.add(id(c))
            obs.true('structure', c.parent is t, lambda: 'child {} of {} names {} as its parent'.format(
                show(c), show(t), show(c.parent) if c.parent is not None else None))
            obs.true('structure', c.section is t.section or not sections_shared, lambda: 'child {} of {} has another section'.format(show(c), show(t)))
            obs.true('structure', c.doc is doc, lambda: 'child {} of {} has another document'.format(show(c), show(t)))
            stack.append(c)
    return len(where), n


def show(t):
    return '{}.{}={!r}'.format(t.parent_term_lc, t.record_term_lc, t.value)
