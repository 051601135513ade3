"""Shared by the round trip properties."""
import os

from . import canon, core, edits, gen, live, parsecheck


def build(case, d, obs):
    """The document of a case: rows, perhaps with a declaration, then edits"""
    rows = list(case['rows'])
    if case.get('decl'):
        parsecheck.in_domain_decl(case['decl'])
        p = os.path.join(d, 'decl.csv')
        live.write_csv(p, case['decl'])
        rows = [['Declare', p]] + rows
        obs.ev('declared-documents')
    try:
        doc = live.from_rows(rows) if rows else live.MetatabDoc()
    except live.MetatabError:
        raise core.Skip()
    if case['ops']:
        edits.quietly(doc, case['ops'], skip=('remove_arg', 'sort_terms', 'clean', 'foreign') if case.get('decl') else ())
        obs.ev('edited-documents')
    if edits.same_named_nesting(doc):
        raise core.Skip()
    return doc


def gen_case(rng, tier, newlines):
    kw = dict(newlines=newlines, same_name_nesting=False, numeric=rng.random() < 0.2, blank_values=rng.choice([0, 0.08]), dup_heads=True,
              hostile=rng.choice([0.1, 0.3, 0.8]))
    decl = None
    tops, subs = None, None
    if rng.random() < 0.25:
        tops, subs = rng.sample(gen.TOP, 5), rng.sample(gen.SUB, 4)
        decl = gen.decl_doc(rng, tops=tops, subs=subs)
        tops, subs = tops + gen.ALIASES[:1] + gen.DERIVED[:1], subs + gen.ALIASES[:1]
    rows = gen.row_doc(rng, tops=tops, subs=subs, **kw) if rng.random() < 0.85 else []
    if decl is None and rng.random() < 0.05:
        rows = gen.numbers(rng, rows)
    v = gen.Vals(rng, spaced=False, newlines=newlines, hostile=0.5)
    ops = []
    if not rows or rng.random() < 0.4:
        ops = edits.gen_ops(rng, rng.choice([3, 10, 25]), v, recase=gen.recase)
    return {'rows': rows, 'ops': ops, 'decl': decl}


def same(obs, kind, got_doc, expected, what):
    obs.events['compare:' + kind] += 1
    got = canon.canon(got_doc)
    if got != expected:
        obs.fail(kind, what + ': ' + canon.diff(got, expected))


def same_text(obs, kind, got, exp, what):
    obs.events['compare:' + kind] += 1
    if got != exp:
        a, b = got.splitlines(True), exp.splitlines(True)
        obs.fail(kind, what + ': line ' + core.first_diff(a, b))


def observe(obs, doc, c):
    obs.ev('terms', sum(1 for _ in live.all_live(doc)))
    obs.ev('sections', len(c))
    n = sum(len(v) > 1 for t in live.all_live(doc) for v in canon.canon_children(t).values())
    obs.ev('repeated-children', n)
    obs.state(repr(c))


def include_probe(obs, ext):
    """A document with an Include row is rendered with the Include row and with the included terms"""
    with live.workdir() as d:
        live.write_csv(os.path.join(d, 'inc.csv'), [['Note', 'included']])
        live.write_csv(os.path.join(d, 'main.csv'), [['Title', 'a'], ['Include', 'inc.csv']])
        doc = live.from_path(os.path.join(d, 'main.csv'))
        c = canon.canon(doc)
        p = os.path.join(d, 'copy.csv')
        if ext == 'csv':
            with open(p, 'w', newline='', encoding='utf8') as f:
                f.write(doc.as_csv())
        else:
            live.write_csv(p, [r for r in live.TextRowGenerator(doc.as_lines())])
        again = live.from_path(p)
        obs.ev('include-probe')
        if canon.canon(again) != c:
            return 'a document with an Include row reads back with the included terms twice: ' + canon.diff(canon.canon(again), c)


def stress():
    out = []
    for r in gen.stress_docs():
        if not any('\n' in str(c) for row in r for c in row):
            out.append(r)
    return out
