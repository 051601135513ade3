"""C03: rows nest under the right parent"""
from ..parsecheck import ParseCheck, run_case
from .. import live, gen
from ..core import first_diff
from ..live import MetatabError
from metatab import ParserError


def shape(node):
    return (node.name, node.value, tuple(shape(c) for c in node.children))


class CHECK(ParseCheck):
    id = 'C03'
    quick_cases, thorough_cases = 9000, 120000
    rows_share = 0.75
    rule = ('a case is a generated document with top-level, qualified and leading-dot rows, with some unknown parents; distinct by content, '
            'non-trivial if it has two rows or more')
    needs = ('compare:nesting', 'nested', 'unknown-parent-rejected')
    assumptions = ('the reference interpreter in vmon/model.py',)

    def gen(self, rng, i, tier):
        if rng.random() < self.rows_share:
            rows = gen.row_doc(rng, hostile=0.1, headers=rng.random() < 0.5, bare_header=0.3)
            if rng.random() < 0.25:
                bad = rng.choice(['Nowhere.Child', 'nosuch.Title', 'Later1.x', 'Section.x', 'Header.y', '0.x', 'Root_.x', '@value.x', 'NOWHERE.Child'])
                rows.insert(rng.randint(0, len(rows)), [bad, 'v'] + (['c'] if rng.random() < 0.3 else []))
                if bad.startswith('Later1'):
                    rows.append(['Later1', 'too late'])
            return {'rows': rows}
        return {'files': gen.file_docs(rng, hostile=0.1, n=rng.randint(1, 20))}

    def execute(self, case, obs):
        p = run_case(case, obs)
        if p.refused is not None:
            if p.refused.kind != 'parser':
                obs.ev('refused-otherwise')
                return
            obs.true('unknown-parent', p.error is not None, lambda: 'a row with an unknown parent was accepted: {}'.format(p.refused.names))
            obs.true('unknown-parent', isinstance(p.error, ParserError), lambda: 'unknown parent raised {!r}, not a parse error'.format(p.error))
            obs.ev('unknown-parent-rejected')
            return
        if p.error is not None:
            raise p.error
        # All the trees of all sections, by content
        top = [t for s in p.doc for t in live.own(s.terms)]
        exp_top = [n for s in p.model.sections.values() for n in s.terms if n.origin != 'declare']
        got, exp = [live.tree(t) for t in top], [shape(n) for n in exp_top]
        obs.events['compare:nesting'] += 1
        if got != exp:
            obs.fail('nesting', 'nesting of the terms: ' + first_diff(got, exp))
        # Links agree with the listings, and names with the links
        n = 0
        for t in live.walk(top):
            for c in t.children:
                n += 1
                obs.true('links', c.parent is t, lambda: 'child {} of {} has another parent'.format(live.show(c), live.show(t)))
                obs.true('links', c.parent_term_lc == t.record_term_lc, lambda: 'child {} of {} has another parent name'.format(live.show(c), live.show(t)))
            obs.true('links', t.parent is not None or t.parent_term_lc == 'root', lambda: '{} has no parent'.format(live.show(t)))
        obs.ev('nested', n)
        obs.state(tuple((len(live.tree(t)[2]), t.record_term_lc) for t in top))
