"""C22: terms know where they came from, and malformed input is reported"""
from urllib.parse import unquote
import os, re
from .. import core, gen, live, model, parsecheck
from metatab import TermParser, MetatabDoc, IncludeError, MetatabError
from metatab.exc import ParserError, DeclarationError

TYPES = {'parser': ParserError, 'include': IncludeError, 'declaration': DeclarationError}


def letters(s):
    """File names, however they are written"""
    return re.sub(r'[\W_]', '', str(s)).lower()


BAD = ['dots', 'dots-sub', 'dots-elided', 'parent', 'section', 'root', 'section-blank', 'include', 'include-blank', 'include-loop', 'declare', 'declare-blank']


def bad_row(rng, kind, name):
    return {
        'dots': lambda: [rng.choice(['A.B.C', 'Title.x.y', 'a..b', 'x.y.', 'Root.Title.Name']), 'v', 'c'],
        'dots-sub': lambda: [' Table . Column . x ', '', ''],
        'dots-elided': lambda: [rng.choice(['..x', '.a.b', '...']), 'v'],
        'parent': lambda: [rng.choice(['Nowhere', 'never seen', 'Zz_9']) + '.' + rng.choice(['Child', 'Name', 'Title']), rng.choice(['v', '', None]), 'c'],
        'section': lambda: [rng.choice(['Section', 'section', 'Root.Section'])],
        'root': lambda: [rng.choice(['Root', 'root', ' ROOT ', 'Root.Root']), rng.choice(['v', '', 'x y']), 'c'],
        'section-blank': lambda: ['Section', rng.choice(['', '  ', None]), 'H1', 'H2'],
        'include': lambda: [rng.choice(['Include', 'INCLUDE', 'Root.Include']), rng.choice(['absent.csv', 'no such dir/x.csv', '../gone.csv'])],
        'include-blank': lambda: ['Include', rng.choice(['', ' ', None])],
        'include-loop': lambda: ['Include', os.path.basename(name)],
        'declare': lambda: [rng.choice(['Declare', 'declare']), rng.choice(['absent-decl', 'absent-decl.csv', 'no such dir/d.csv'])],
        'declare-blank': lambda: ['Declare', rng.choice(['', '  '])],
    }[kind]()


BAD_DECL = [['DeclareTerm', ''], ['DeclareSection', ''], ['DeclareTerm', '  ', 'x'], ['DeclareTerm', 'a.b.c'], ['DeclareSection', ' ', 'A', 'B']]


class CHECK(core.Check):
    id = 'C22'
    quick_cases, thorough_cases = 6000, 80000
    rule = ('a case is a document in one or more files, with at most one malformed row at any place; distinct by content, non-trivial if it has two rows or more')
    needs = ('positions', 'included-positions', 'cell-positions', 'section-positions', 'refused:parser', 'refused:include', 'refused:declaration', 'errors-as-dict',
             'text-positions') + tuple('bad:' + k for k in BAD)
    assumptions = ('the reference interpreter in vmon/model.py', 'file names are compared by their letters and digits, in any spelling')

    def gen(self, rng, i, tier):
        kw = dict(hostile=0.1, n=rng.randint(1, 25))
        x = rng.random()
        if x < 0.25:
            case = {'rows': gen.row_doc(rng, numeric=rng.random() < 0.3, hostile=0.2)}
        elif x < 0.9:
            case = {'files': gen.file_docs(rng, decl=0.5, decl_bad=0.2, n_files=rng.choice([1, 2, 3, 4]), **kw)}
        else:
            files = gen.file_docs(rng, decl=0, n_files=1, newlines=False, **dict(kw, hostile=0))
            return {'text': [[str(c if c is not None else '') for c in r] for r in files['main.csv']]}
        if rng.random() < 0.5:
            kind = rng.choice(BAD)
            name = 'main.csv'
            if 'files' in case:
                name = rng.choice([f for f in sorted(case['files']) if not os.path.basename(f).startswith('decl')])
            rows = case['files'][name] if 'files' in case else case['rows']
            if kind == 'include-loop' and 'files' not in case:
                kind = 'include'
            rows.insert(rng.choice([0, len(rows), rng.randint(0, len(rows))]), bad_row(rng, kind, name))
            case['bad'] = kind
        elif 'files' in case and rng.random() < 0.3:
            for f in sorted(case['files']):
                if os.path.basename(f).startswith('decl'):
                    case['files'][f].insert(rng.randint(1, len(case['files'][f])), list(rng.choice(BAD_DECL)))
                    case['bad'] = 'decl'
                    break
        return case

    def trivial(self, case):
        return sum(len(r) for r in (case.get('files') or {'': case.get('rows') or case.get('text') or []}).values()) < 2

    def execute(self, case, obs):
        with live.workdir() as d:
            if 'text' in case:
                return self.text(case, obs, d)
            if 'files' in case:
                for f, rows in case['files'].items():
                    if os.path.basename(f).startswith('decl'):
                        parsecheck.in_domain_decl(rows)
                files = parsecheck.materialise(case['files'], d)
                main = os.path.join(d, 'main.csv')
                if main not in files:
                    raise core.Skip()
                rows, ref = files[main], lambda: main
            else:
                files, main, rows = {}, None, case['rows']
                ref = lambda: live.MetatabRowGenerator(rows)
            m = model.Doc(files=files)
            refused = error = None
            try:
                m.load(rows, main)
            except model.Refused as e:
                refused = e
            except model.Unspecified:
                raise core.Skip()
            doc = MetatabDoc()
            parser = TermParser(ref(), resolver=doc.resolver, doc=doc)
            rec = live.Recorder(parser)
            try:
                doc.load_terms(rec)
            except MetatabError as e:
                error = e
            obs.ev('documents')
            if refused is not None:
                self.refusal(case, obs, m, parser, refused, error, ref)
                return
            if error is not None:
                raise error
            obs.true('no-errors', not doc.errors, lambda: 'errors are reported for a well-formed document: {}'.format(doc.errors))
            self.positions(obs, m, doc, rec.ordinary, main)

    def refusal(self, case, obs, m, parser, refused, error, ref):
        kind = refused.kind
        obs.true('refused', error is not None, lambda: 'a malformed document ({} {}) was accepted'.format(kind, refused.names))
        obs.true('error-type', isinstance(error, TYPES[kind]), lambda: 'a malformed document ({} {}) raised {!r}'.format(kind, refused.names, error))
        obs.ev('refused:' + kind)
        if case.get('bad'):
            obs.ev('bad:' + case['bad'])
        if kind in ('include', 'declaration') and refused.names:
            obs.true('names-it', any(str(n).lower() in t for n in refused.names for t in (str(error).lower(), unquote(str(error)).lower())),
                     lambda: 'the error does not name {}: {}'.format(refused.names, error))
        at = getattr(m, 'at', None)
        if kind == 'include':
            t = getattr(error, 'term', None)
            obs.true('error-place', t is not None and t.row == at[1] and t.col == 1 and self.file_is(t, at[0]),
                     lambda: 'the error is for row {} of {}, but says {}'.format(at[1], at[0], t and t.file_ref()))
            obs.eq('errors-as-dict', [(e['row'], e['col'], e['term'].lower()) for e in parser.errors_as_dict()], [(at[1], 1, at[2])], 'place of the error in the error list')
            obs.true('errors-as-dict', all(str(error) == e['error'] and e['file'] == t.file_name for e in parser.errors_as_dict()), 'the error list has another error')
            obs.ev('errors-as-dict')
        # However it is opened
        try:
            MetatabDoc(ref())
        except TYPES[kind]:
            pass
        else:
            obs.fail('refused', 'MetatabDoc accepted a malformed document ({} {})'.format(kind, refused.names))

    def file_is(self, t, path):
        if path is None:
            return True
        return letters(t.file_name) == letters(os.path.basename(path))

    def positions(self, obs, m, doc, stream, main):
        exp = [(n.name, n.row, n.col) for n in m.stream]
        got = [(t.record_term_lc, t.row, t.col) for t in stream]
        obs.events['compare:positions'] += 1
        if got != exp:
            obs.fail('positions', 'name, row and column of the terms: ' + core.first_diff(got, exp))
        for t, n in zip(stream, m.stream):
            if n.file is not None:
                obs.true('file', self.file_is(t, n.file), lambda: 'term {} of row {} of {} reports the file {!r}'.format(n.name, n.row, os.path.basename(n.file), t.file_name))
            ref = t.file_ref()
            obs.true('file-ref', re.search(r'(?<!\d){}\D{}(?!\d)'.format(n.row, n.col), ref) and letters(t.file_name) in letters(ref),
                     lambda: 'the reference of a term of row {} column {} is {!r}'.format(n.row, n.col, ref))
            obs.ev('positions')
            if n.is_cell:
                obs.ev('cell-positions')
            if n.origin == 'include':
                obs.ev('included-positions')
        for k, s in m.sections.items():
            if k == 'root' or s.at is None:
                continue
            t = doc[k]
            obs.eq('section-position', (t.row, t.col), (s.at[1], 1), 'row and column of section {}'.format(k))
            obs.true('file', self.file_is(t, s.at[0]), lambda: 'section {} of {} reports the file {!r}'.format(k, s.at[0], t.file_name))
            obs.ev('section-positions')
        obs.state(tuple(got))

    def text(self, case, obs, d):
        """A Lines file: one row per line, as comments are left out"""
        rows = [r for r in case['text'] if r and r[0].strip() and not r[0].strip().startswith('#') and all(':' not in c and '|' not in c and '\\' not in c for c in r)]
        if any(len(r) == 1 or r[0].strip().lower().endswith('section') or '.' in r[0] for r in rows) or not rows:
            rows = [r for r in rows if len(r) > 1 and '.' not in r[0] and not r[0].strip().lower().endswith('section')]
        if not rows:
            raise core.Skip()
        p = os.path.join(d, 'text file.txt')
        with open(p, 'w', encoding='utf8') as f:
            f.write(''.join(r[0].strip() + ': ' + '|'.join(c.strip() for c in r[1:]) + '\n' for r in rows))
        m = model.Doc(files={})
        m.load(rows, p)
        doc, stream = live.recorded(live.parse_app_url(p, proto='metatab'))
        self.positions(obs, m, doc, stream, p)
        obs.ev('text-positions')
