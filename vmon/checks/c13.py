"""C13: reading never changes a document"""
import json, os
from .. import core, edits, gen, live, roundtrip, threads
from metatab.datapackage import convert_to_datapackage


def t_of(t):
    return None if t is None else (t.join_lc, repr(t.value), t.row, t.col)


def pick(seq, i):
    seq = list(seq)
    return seq[i % len(seq)] if seq else None


def some_term(doc, i):
    return pick(list(live.all_live(doc)), i)


def name_of(doc, i):
    t = some_term(doc, i)
    if t is None or i % 7 == 0:
        return pick(['Nosuch', '*.*', 'Root.*', '*.Name', 'Root.Title', 'Table.Column'], i)
    return [t.record_term, t.join, gen.upper(t.join), '*.' + t.record_term, t.parent_term + '.*'][i % 5]


VERSIONS = [None, False, '1', 'x y', '+1', '-', '+', '-2', '+10', 5, '1.2.3']


def on_term(f):
    def g(doc, i, j):
        t = some_term(doc, i)
        return f(t, j) if t is not None else None
    return g


def on_section(f):
    def g(doc, i, j):
        return f(pick(doc, i), j)
    return g


def prop_name(t, j):
    return pick([c.record_term for c in t.children] + ['nosuch', 'Url', t.term_value_name, 'value', 'Name'], j)


def missing_section(doc, i, j):
    out = [('no such section' in doc), doc.get_section('no such section', None) is None]
    try:
        doc['no such section']
    except KeyError:
        out.append('KeyError')
    return out


def iterate_partly(doc, i, j):
    """Readers that are left in the middle"""
    out = []
    for it in (iter(doc.rows), iter(doc.lines), iter(doc.all_terms), iter(doc)):
        n = 0
        for x in it:
            n += 1
            if n > i % 4:
                break
        if hasattr(it, "close"):
            it.close()
        out.append(n)
    return out


def interleaved(doc, i, j):
    """Readers that run at the same time"""
    a, b = [], []
    for x, y in zip(doc.rows, doc.rows):
        a.append(list(map(str, x)))
        b.append(list(map(str, y)))
        if len(a) % 3 == 0:
            doc.as_dict()
    return a == b, a


def dump(d):
    return json.dumps(d, default=str)


READS = {
    'as_csv': lambda d, i, j: d.as_csv(),
    'as_lines': lambda d, i, j: d.as_lines(),
    'as_dict': lambda d, i, j: dump(d.as_dict()),
    'as_dict_values': lambda d, i, j: dump(d.as_dict(False)),
    'rows': lambda d, i, j: [list(map(repr, r)) for r in d.rows],
    'lines': lambda d, i, j: [list(map(repr, r)) for r in d.lines],
    'all_terms': lambda d, i, j: [t_of(t) for t in d.all_terms],
    'iterate': lambda d, i, j: [(s.name, [t_of(t) for t in s]) for s in d],
    'partly': iterate_partly,
    'interleaved': interleaved,
    'find': lambda d, i, j: [t_of(t) for t in d.find(name_of(d, i))],
    'find_list': lambda d, i, j: [t_of(t) for t in d.find([name_of(d, i), name_of(d, j)])],
    'find_section': lambda d, i, j: [t_of(t) for t in d.find(name_of(d, i), section=[s.name for s in d][:j % 3])],
    'find_value': lambda d, i, j: [t_of(t) for t in d.find(name_of(d, i), value='one')],
    'find_prop': lambda d, i, j: [t_of(t) for t in d.find('*.*', url='x')],
    'find_first': lambda d, i, j: t_of(d.find_first(name_of(d, i))),
    'find_first_value': lambda d, i, j: d.find_first_value(name_of(d, i)),
    'get': lambda d, i, j: t_of(d.get(name_of(d, i))),
    'get_value': lambda d, i, j: d.get_value(name_of(d, i), 'dflt'),
    'section_item': lambda d, i, j: pick(d, i).name == d[gen.upper(pick(d, i).name)].name,
    'sections_item': lambda d, i, j: [s.name for s in d[[s.name for s in d]]],
    'missing': missing_section,
    'section_args': lambda d, i, j: list(d.section_args(pick(['Resources', 'Schema', 'nope'], i))),
    'refs': lambda d, i, j: [str(d.ref), str(d.path), str(d.doc_dir)],
    'version': lambda d, i, j: d.as_version(VERSIONS[i % len(VERSIONS)]),
    'datapackage': lambda d, i, j: dump(convert_to_datapackage(d)),
    's.as_lines': on_section(lambda s, j: s.as_lines()),
    's.as_dict': on_section(lambda s, j: dump(s.as_dict(bool(j % 2)))),
    's.rows': on_section(lambda s, j: [repr(r) for r in s.rows]),
    's.lines': on_section(lambda s, j: [repr(r) for r in s.lines]),
    's.find': on_section(lambda s, j: [t_of(t) for t in s.find(pick(['Title', 'Root.*', '*.*', 'Nosuch'], j))]),
    's.item': on_section(lambda s, j: t_of(s[pick(['Title', 'Nosuch', 'Root.Name'], j)])),
    's.names': on_section(lambda s, j: [list(map(str, s.property_names)), list(map(str, s.header_row)), s.name]),
    's.str': on_section(lambda s, j: [str(s), repr(s), s.name]),
    't.props': on_term(lambda t, j: [repr(t.props), repr(t.all_props), repr(t.arg_props), list(map(str, t.property_names))]),
    't.as_dict': on_term(lambda t, j: dump(t.as_dict(bool(j % 2)))),
    't.rows': on_term(lambda t, j: repr(list(t.rows))),
    't.descendents': on_term(lambda t, j: [t_of(c) for c in t.descendents]),
    't.str': on_term(lambda t, j: [str(t), repr(t), t.file_ref(), t.qualified_term, t.join, t.join_lc]),
    't.get': on_term(lambda t, j: [t_of(t.get(prop_name(t, j))), repr(t.get_value(prop_name(t, j), 'dflt')), prop_name(t, j) in t]),
    't.find': on_term(lambda t, j: [[t_of(c) for c in t.find(prop_name(t, j))], t_of(t.find_first(prop_name(t, j))), repr(t.find_first_value(prop_name(t, j)))]),
    't.attr': on_term(lambda t, j: [repr(getattr(t, 'url', 'absent')), repr(getattr(t, 'nosuch', 'absent')), repr(getattr(t, 'Title', 'absent')), t.is_terminal]),
    't.is': on_term(lambda t, j: [t.term_is(t.join), t.term_is('*.*'), t.term_is(['x.y', t.join_lc]), t.term_is('nosuch')]),
}


class CHECK(core.Check):
    id = 'C13'
    quick_cases, thorough_cases = 1600, 30000
    rule = ('a case is a document (parsed, declared, edited) and a sequence of read-only calls; the full state is compared before and after each call, and each answer '
            'with that of a fresh copy; distinct by content, non-trivial if it has a call')
    needs = tuple('read:' + k for k in READS) + ('compare:state', 'compare:answer', 'refused-reads', 'edited', 'files', 'threads', 'thread-switches', 'compare:thread-answer', 'compare:thread-state')
    assumptions = ('a copy is made by running the same rows and edits again',)

    def gen(self, rng, i, tier):
        x = rng.random()
        case = {'calls': [[rng.choice(sorted(READS)), rng.randint(0, 200), rng.randint(0, 200)] for _ in range(rng.randint(2, 14))]}
        if x < 0.4:
            case.update(rows=gen.package_rows(rng), ops=[], decl=None)
        else:
            case.update(roundtrip.gen_case(rng, tier, newlines=True))
            if rng.random() < 0.3:
                case['rows'] = gen.name_rows(rng) + case['rows']
        case['file'] = rng.random() < 0.3
        case['threads'] = rng.choice([2, 3, 4]) if rng.random() < 0.2 else 0
        if rng.random() < 0.3:
            case['calls'] = case['calls'] * 2
        if rng.random() < 0.3:
            case['calls'] = [c for c in case['calls'] for _ in (0, 1)]
        if rng.random() < 0.15:
            case['calls'] = [[k, rng.randint(0, 200), rng.randint(0, 200)] for k in rng.sample(sorted(READS), len(READS))]
        return case

    def trivial(self, case):
        return not case['calls']

    def make(self, case, d, obs):
        rows = list(case['rows'])
        if case.get('decl'):
            roundtrip.parsecheck.in_domain_decl(case['decl'])
            p = os.path.join(d, 'decl.csv')
            if not os.path.exists(p):
                live.write_csv(p, case['decl'])
            rows = [['Declare', p]] + rows
        try:
            if case.get('file'):
                p = os.path.join(d, 'main.csv')
                if not os.path.exists(p):
                    live.write_csv(p, rows)
                doc = live.from_path(p)
                obs.ev('files')
            else:
                doc = live.from_rows(rows) if rows else live.MetatabDoc()
        except live.MetatabError:
            raise core.Skip()
        if case['ops']:
            edits.quietly(doc, case['ops'], skip=('foreign',) if case.get('decl') else ())
            obs.ev('edited')
        return doc

    def execute(self, case, obs):
        with live.workdir() as d:
            doc = self.make(case, d, obs)
            alone = []
            for name, i, j in case['calls']:
                if name not in READS:
                    continue
                fresh = self.make(case, d, obs)
                before = live.snapshot(doc)
                a = self.call(name, doc, i, j, obs)
                after = live.snapshot(doc)
                obs.events['compare:state'] += 1
                if before != after:
                    k = next(k for k in before if before[k] != after[k])
                    b, a2 = before[k], after[k]
                    if isinstance(b, list):
                        text = core.first_diff(a2, b)
                    else:
                        text = 'got {}, expected {}'.format(core.short(a2), core.short(b))
                    obs.fail('state', '{} changed the {} of the document: {}'.format(name, k, text))
                b = self.call(name, fresh, i, j, obs)
                obs.events['compare:answer'] += 1
                if a != b:
                    obs.fail('answer', '{} answers differently than on a fresh copy: got {}, expected {}'.format(name, core.short(a), core.short(b)))
                alone.append((name, i, j, b))
                obs.ev('read:' + name)
                obs.state((name, core.digest(a)))

            alone = [a for a in alone if a[0] != 'version']          # Which writes the version, and then puts it back
            if case.get('threads') and alone:
                self.at_once(case, d, obs, alone)

    def at_once(self, case, d, obs, alone):
        """Several readers of one document"""
        doc = self.make(case, d, obs)
        n = case['threads']
        before = live.snapshot(doc)

        def body(k):
            at = k * len(alone) // n if len(alone) % 2 else 0          # Different calls at one time, or the same
            return lambda: [(c, self.call(c[0], doc, c[1], c[2], None)) for c in alone[at:] + alone[:at]]
        results, errors, switches = threads.together([body(k) for k in range(n)], len(alone) + alone[0][1], every=[3, 12, 12][alone[0][1] % 3])
        obs.ev('threads', n)
        obs.ev('thread-switches', switches)
        for e in errors:
            if e is not None:
                raise e
        for r in results:
            for (name, i, j, expected), got in r:
                obs.events['compare:thread-answer'] += 1
                if got != expected:
                    obs.fail('thread-answer', '{} answers differently while other threads read the document: got {}, expected {}'.format(name, core.short(got), core.short(expected)))
        obs.events['compare:thread-state'] += 1
        after = live.snapshot(doc)
        if before != after:
            k = next(k for k in before if before[k] != after[k])
            obs.fail('thread-state', 'reading in {} threads changed the {} of the document'.format(n, k))

    def call(self, name, doc, i, j, obs):
        try:
            return READS[name](doc, i, j)
        except live.MetatabError as e:
            if obs is not None:
                obs.ev('refused-reads')
            return ('refused', type(e).__name__)
