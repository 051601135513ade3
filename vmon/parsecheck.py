"""Shared by the parse properties: run the real parser and the reference interpreter on the same files."""
import csv, io, os

from . import core, gen, live, model
from .live import MetatabRowGenerator, MetatabDoc, MetatabError


def csvify(rows):
    return list(csv.reader(io.StringIO(live.csv_text(rows), newline='')))


def materialise(files, d):
    """Write the files below d; -> {absolute path: rows as the CSV reader gives them}"""
    out = {}
    for name, rows in files.items():
        p = os.path.join(d, name)
        live.write_csv(p, rows)
        out[p] = csvify(rows)
    return out


def in_domain_decl(rows):
    """The headings of declaration documents are those of sections of their own"""
    for r in rows:
        name = str(r[0] or '').strip().lower() if r else ''
        if name in ('header', 'root.header'):
            raise core.Skip()
        if name in ('section', 'root.section'):
            return


class Parsed:
    """One input, run through the code and through the model"""
    doc = stream = error = model = refused = None


def run_case(case, obs, stock=None):
    """case: {'files': {...}} with main.csv, or {'rows': [...]}"""
    p = Parsed()
    if 'rows' in case:
        rows = case['rows']
        return _run(p, obs, lambda: MetatabRowGenerator(rows), rows, None, {}, stock)
    with live.workdir() as d:
        files = materialise(case['files'], d)
        main = os.path.join(d, 'main.csv')
        p.dir = d
        return _run(p, obs, lambda: main, files[main], main, files, stock)


def _run(p, obs, mk, rows, path, files, stock):
    p.model = model.Doc(files=files, stock=stock or {})
    try:
        p.model.load(rows, path)
    except model.Refused as e:
        p.refused = e
    except model.Unspecified:
        raise core.Skip()
    try:
        p.doc, p.stream = live.recorded(mk())
    except MetatabError as e:
        p.error = e
    if p.error is None:
        # The usual way to open a document gives the same document
        d2 = MetatabDoc(mk())
        obs.eq('same-document', live.sections(d2), live.sections(p.doc), 'content of MetatabDoc(ref) and of the recorded parse')
        p.doc2 = d2
    obs.ev('documents')
    if p.error is None:
        obs.ev('terms', len(p.stream))
    else:
        obs.ev('rejected')
    return p


def accepted(p, obs):
    """For the properties of accepted documents; -> False if this one is to be rejected (others check that)"""
    if p.refused is not None:
        obs.ev('model-refused')
        return False
    if p.error is not None:
        raise p.error
    return True


class ParseCheck(core.Check):
    rows_share = 0.7
    row_kw = {}
    file_kw = {}

    def gen(self, rng, i, tier):
        if rng.random() < self.rows_share:
            rows = gen.row_doc(rng, **dict(dict(numeric=rng.random() < 0.3, newlines='cr'), **self.row_kw))
            return {'rows': gen.numbers(rng, rows) if rng.random() < 0.15 else rows}
        return {'files': gen.file_docs(rng, **self.file_kw)}

    def fixed_cases(self, tier):
        return [{'rows': r} for r in gen.stress_docs()]

    def trivial(self, case):
        return sum(len(r) for r in (case.get('files') or {'': case.get('rows') or []}).values()) < 2
