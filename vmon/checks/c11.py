"""C11: the document stays structurally consistent under any history of edits"""
from .. import core, edits, gen, live
from ..live import SectionTerm


class CHECK(core.Check):
    id = 'C11'
    quick_cases, thorough_cases = 6000, 80000
    rule = ('a case is a starting document and a history of edits; after every edit the full structure is compared with a mirror; distinct by content, '
            'non-trivial if it has an edit')
    needs = ('op:move', 'op:readd', 'op:del_section', 'op:sort_terms', 'op:sort_sections', 'op:remove_child', 'op:load', 'op:foreign', 'assert:structure', 'searched')
    assumptions = ('the document that a term is taken from is not used any more, new_section is given unused names, and the root section is not deleted',
                   'the mirror in vmon/edits.py states what each edit does')

    def gen(self, rng, i, tier):
        v = gen.Vals(rng, spaced=False, hostile=0.1, newlines=False)
        rows = gen.row_doc(rng, n=rng.randint(1, 15), cross_section=False, hostile=0.1, spaced=False, newlines=False) if rng.random() < 0.6 else []
        k = rng.choice([3, 8, 15, 25, 40]) if tier == core.QUICK else rng.choice([8, 25, 60, 150])
        return {'rows': rows, 'ops': edits.gen_ops(rng, k, v, recase=gen.recase)}

    def fixed_cases(self, tier):
        import random
        rng = random.Random(5)
        v = gen.Vals(rng, spaced=False, hostile=0, newlines=False)
        out = []
        for k in range(4):
            rows = []
            for j in range(700):
                rows.append(['Section', 'Big{}'.format(j % 7), 'A', 'B'] if j % 150 == 149 else ['Table' if j % 3 else 'Alpha', 'v{}'.format(j), 'c'] if j % 5 else ['.Column', 'k{}'.format(j)])
            out.append({'rows': rows, 'ops': edits.gen_ops(rng, 30, v, recase=gen.recase)})
        return out

    def trivial(self, case):
        return not case['ops']

    def execute(self, case, obs):
        doc = live.from_rows(case['rows']) if case['rows'] else live.MetatabDoc()
        m = edits.Mirror(doc, obs)
        for k, op in enumerate(case['ops']):
            m.apply(op)
            m.compare()
            n, c = live.check_links(doc, obs)
            obs.state((n, c, tuple(len(s.terms) for s in doc)))
            if k % 4 == 0 or k == len(case['ops']) - 1:
                self.search(doc, m, obs)
        self.render(doc, m, obs)

    def search(self, doc, m, obs):
        exp = set(id(x.t) for x in m.everything())
        got = [id(t) for t in doc.find('*.*') if not isinstance(t, SectionTerm)]
        obs.true('search', len(got) == len(set(got)) and set(got) == exp, lambda: 'a search for everything finds {} terms ({} distinct), there are {}'.format(
            len(got), len(set(got)), len(exp)))
        got = [id(t) for t in doc.find('root.*')]
        obs.true('search', sorted(got) == sorted(id(x.t) for x in m.order), 'a search for root.* does not find the top-level terms')
        got = [id(t) for t in doc.all_terms if not isinstance(t, SectionTerm)]
        obs.true('search', len(got) == len(exp) and set(got) == exp, 'all_terms does not list the terms')
        obs.ev('searched')

    def render(self, doc, m, obs):
        """The rendering has the values that the document has, and no others"""
        got, exp = [], []
        for s in doc:
            rows = list(s.rows)
            for name, value in rows:
                got += [str(x) for x in (value if isinstance(value, (list, tuple)) else [value]) if x is not None and str(x).strip()]
        for x in m.everything():
            if x.value is not None:
                exp.append(str(x.value))
        got, exp = sorted(g.strip() for g in got), sorted(exp)
        obs.eq('rendered', got, exp, 'values in the rendering')
