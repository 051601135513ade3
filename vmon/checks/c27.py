"""C27: terms and sections are named and listed consistently"""
import os
from .. import core, edits, gen, live, roundtrip, parsecheck
from ..live import Term, SectionTerm
from metatab.exc import ParserError


def cases(s, k):
    return [s, gen.upper(s), s.lower(), gen.title(s), gen.swapcase(s)][k % 5]


class CHECK(core.Check):
    id = 'C27'
    quick_cases, thorough_cases = 5000, 60000
    rule = ('a case is a document (parsed, declared, edited) and a list of names to ask for; every term, section and listing is visited; distinct by content, non-trivial if it has a row '
            'or an edit')
    needs = ('compare:name', 'compare:is', 'compare:descendents', 'compare:all-terms', 'compare:sections', 'lookups', 'absent-lookups', 'is-true', 'is-false', 'lists', 'split', 'refused-names', 'deep',
             'edited-documents', 'declared-documents')
    assumptions = ('names do not have dots of their own',)

    def gen(self, rng, i, tier):
        case = roundtrip.gen_case(rng, tier, newlines=True)
        case['ask'] = [rng.randint(0, 10 ** 6) for _ in range(rng.randint(4, 25))]
        case['names'] = [gen.pad(rng, gen.recase(rng, rng.choice(gen.TOP + gen.SUB))) + rng.choice(['', '', ' . ', '.']) for _ in range(4)]
        if rng.random() < 0.3:
            w = rng.choice(['\u00a0', '\u3000', '\x0b', '\u2003'])
            case['names'] = [n.replace(' ', w) for n in case['names']] + [w + rng.choice(gen.TOP) + w + '.' + w + rng.choice(gen.SUB) + w]
        return case

    def trivial(self, case):
        return not case['rows'] and not case['ops']

    def execute(self, case, obs):
        with live.workdir() as d:
            rows = list(case['rows'])
            if case.get('decl'):
                parsecheck.in_domain_decl(case['decl'])
                p = os.path.join(d, 'decl.csv')
                live.write_csv(p, case['decl'])
                rows = [['Declare', p]] + rows
                obs.ev('declared-documents')
            try:
                doc = live.from_rows(rows) if rows else live.MetatabDoc()
            except live.MetatabError:
                raise core.Skip()
            if case['ops']:
                edits.quietly(doc, case['ops'])
                obs.ev('edited-documents')
        self.listings(doc, obs)
        for t in live.all_live(doc):
            self.named(t, obs)
        self.lookups(doc, case, obs)
        self.questions(doc, case, obs)
        self.splits(case, obs)

    # -- names --------------------------------------------------------------------------------

    def named(self, t, obs):
        parent = t.parent.record_term_lc if t.parent is not None and not isinstance(t.parent, SectionTerm) else 'root'
        own = t.record_term_lc
        obs.eq('name', own, own.lower(), 'the name of {}'.format(live.show(t)))
        obs.eq('name', (t.parent_term_lc, t.join_lc, t.join.lower(), t.qualified_term.lower(), t.record_term.lower(), t.parent_term.lower()),
               (parent, parent + '.' + own, parent + '.' + own, parent + '.' + own, own, parent), 'names of {}'.format(live.show(t)))
        obs.true('terminal', t.is_terminal == (not t.children), lambda: '{} is_terminal is wrong'.format(live.show(t)))
        want = list(live.walk(t.children))
        got = list(t.descendents)
        obs.events['compare:descendents'] += 1
        if [id(x) for x in want] != [id(x) for x in got]:
            obs.fail('descendents', 'descendents of {}: {}'.format(live.show(t), core.first_diff([live.show(x) for x in got], [live.show(x) for x in want])))
        if len(want) > len(t.children):
            obs.ev('deep')

    def questions(self, doc, case, obs):
        everything = list(live.all_live(doc))
        if not everything:
            return
        for n in case['ask']:
            t = everything[n % len(everything)]
            o = everything[(n // 7) % len(everything)]
            p, r = t.parent_term_lc, t.record_term_lc
            if '.' in p or '.' in r:
                continue
            q = [p + '.' + r, r, '*.' + r, p + '.*', '*.*', '*', 'nosuch.' + r, p + '.nosuch', o.join_lc, o.record_term_lc, p, r + '.' + p, p + '.' + r + 'x', 'x' + p + '.' + r, '*.nosuch',
                 'nosuch.*', r[:-1] or 'q', p + '.' + (r[:-1] or 'q'), 'root.' + r, 'root.*', '*.' + (r[1:] or 'q'), '*.' + (r[:-1] or 'q'), (p[1:] or 'q') + '.*', p[:-1] + '.*', p + '.' + (r[1:] or 'q'), r[1:] or 'q', (p[1:] or 'q') + '.' + r,
                 '*.x' + r, 'x' + p + '.*', p + 'x.*', '*' + r, p + '.*' + r, '*' + p + '.*'][n % 33]
            if q.count('.') > 1:
                continue
            q = cases(q, n // 33)
            expected = self.matches(p, r, q)
            obs.events['compare:is'] += 1
            got = t.term_is(q)
            if bool(got) != expected:
                obs.fail('is', '{} is {!r}: {}'.format(t.join_lc, q, got))
            obs.ev('is-true' if expected else 'is-false')
            obs.state((n % 33, expected))
            q2 = cases(o.join_lc, n // 3)
            if q2.count('.') > 1:
                continue
            for box in (list, tuple):
                for qs in ([q, q2], [q2, q], [q], [q2, 'nosuch', q]):
                    if bool(t.term_is(box(qs))) != any(self.matches(p, r, x) for x in qs):
                        obs.fail('is', '{} is one of {!r}: {}'.format(t.join_lc, qs, t.term_is(box(qs))))
            obs.true('is', not t.term_is([]), 'a term is one of no names')
            obs.ev('lists')

    def matches(self, p, r, q):
        a, b = (q if '.' in q else 'root.' + q).lower().split('.')
        return a in ('*', p) and b in ('*', r)

    def splits(self, case, obs):
        for n in case['names']:
            parts = n.split('.')
            if len(parts) > 2:
                try:
                    Term.normalize_term(n)
                except ParserError:
                    obs.ev('refused-names')
                    continue
                obs.fail('refused', 'the name {!r} is accepted'.format(n))
            for other in ('Leaf', ' Two Words ', 'b.c'):
                name = n + other if n.rstrip().endswith('.') else n
                ps = [x.strip() for x in name.split('.')]
                if len(ps) > 2:
                    try:
                        got = Term.split_term(name)
                    except ParserError:
                        obs.ev('refused-names')
                        continue
                    obs.fail('refused', 'the name {!r} is split to {}'.format(name, got))
                if len(ps) == 2 and not ps[0]:
                    continue
                want = ('Root', ps[0]) if len(ps) == 1 else tuple(ps)
                got = tuple(Term.split_term(name))
                obs.eq('split', (got[0].lower() if len(ps) == 1 else got[0], got[1]), (want[0].lower() if len(ps) == 1 else want[0], want[1]), 'parts of the name {!r}'.format(name))
                obs.eq('split-lower', tuple(Term.split_term_lower(name)), tuple(x.lower() for x in want), 'lower case parts of the name {!r}'.format(name))
                full = '.'.join(x.lower() for x in want)
                obs.eq('normalize', Term.normalize_term(name), full, 'qualified form of the name {!r}'.format(name))
                obs.eq('normalize', Term.normalize_term(full), full, 'qualified form of the name {!r}'.format(full))
                obs.ev('split')

    # -- listings -----------------------------------------------------------------------------

    def listings(self, doc, obs):
        secs = list(doc)
        obs.eq('sections', [id(s) for s in secs], [id(s) for s in doc.sections.values()], 'iterating the document')
        obs.eq('sections', [s.name.lower() for s in secs], list(doc.sections), 'names of the sections')
        obs.true('sections', len(set(doc.sections)) == len(secs) and all(isinstance(s, SectionTerm) for s in secs), 'the sections are not sections of different names')
        want = []
        for s in secs:
            ts = list(s)
            obs.eq('section-terms', [id(t) for t in ts], [id(t) for t in s.terms], 'iterating section {}'.format(s.name))
            if s.name.lower() != 'root':
                want.append(s)
            want += list(live.walk(s.terms))
        got = list(doc.all_terms)
        if any(s.name.lower() == 'root' and s.name != 'Root' for s in secs):
            got = [t for t in got if not (isinstance(t, SectionTerm) and t.name.lower() == 'root')]
        obs.events['compare:all-terms'] += 1
        if [id(t) for t in got] != [id(t) for t in want]:
            obs.fail('all-terms', 'all terms: {}'.format(core.first_diff([live.show(t) for t in got], [live.show(t) for t in want])))

    def lookups(self, doc, case, obs):
        for k, s in enumerate(list(doc)):
            n = cases(s.name, k + len(case['ask']))
            if n.lower() != s.name.lower():
                continue
            obs.ev('lookups')
            obs.true('lookup', doc[n] is s and doc.get_section(n) is s and doc.get_section(n, None) is s and n in doc, lambda: 'section {!r} is not found as {!r}'.format(s.name, n))
        names = [s.name for s in doc][:3]
        obs.true('lookup', [id(s) for s in doc[names]] == [id(doc[n]) for n in names], 'a list of sections is not looked up in order')
        for n in ('no such section', 'rooted', 'roo', 'Resource_s'):
            if n.lower() in [s.name.lower() for s in doc]:
                continue
            obs.ev('absent-lookups')
            obs.true('lookup', n not in doc and doc.get_section(n, None) is None and doc.get_section(n, 5) == 5, 'an absent section is found')
            for f in (doc.__getitem__, doc.get_section):
                try:
                    f(n)
                except KeyError:
                    continue
                obs.fail('lookup', 'looking up an absent section does not raise KeyError')
