"""C02: cells are named by the headings in force"""
from ..parsecheck import ParseCheck, run_case, accepted
from .. import live, gen
from ..core import first_diff


class CHECK(ParseCheck):
    id = 'C02'
    quick_cases, thorough_cases = 9000, 120000
    rows_share = 0.65
    rule = ('a case is a generated document with sections, Header rows, blank, long and repeated headings, and included files; distinct by content, '
            'non-trivial if it has two rows or more')
    needs = ('compare:cell-names', 'named-cells', 'numbered-cells', 'headings')
    assumptions = ('the reference interpreter in vmon/model.py',)

    def gen(self, rng, i, tier):
        if rng.random() < self.rows_share:
            return {'rows': gen.row_doc(rng, nheads=rng.choice([None, 3, 12, 25]), blank_heads=rng.choice([0, 0.15, 0.4]), hostile=0.1, bare_header=0.2,
                                        elided=rng.random() < 0.7)}
        return {'files': gen.file_docs(rng, hostile=0.1)}

    def execute(self, case, obs):
        p = run_case(case, obs)
        if not accepted(p, obs):
            return
        if len(p.stream) != len(p.model.stream):
            obs.ev('not-aligned')                      # Rows were lost: that is C01's matter
            got = exp = None
        else:
            pairs = list(zip(p.stream, p.model.stream))
            got = [(t.parent_term_lc, t.record_term_lc) for t, n in pairs if n.is_cell]
            exp = [(n.parent_name, n.name) for t, n in pairs if n.is_cell]
            obs.events['compare:cell-names'] += 1
            obs.ev('named-cells', sum(not n.isdigit() for _, n in exp))
            obs.ev('numbered-cells', sum(n.isdigit() for _, n in exp))
            if got != exp:
                obs.fail('cell-names', 'names of the cells: ' + first_diff(got, exp))
            got = [(n.row, t.term_value_name) for t, n in pairs]
            exp = [(n.row, n.vname) for t, n in pairs]
            obs.events['compare:value-names'] += 1
            if got != exp:
                obs.fail('value-names', 'value names (row, name): ' + first_diff(got, exp))
        for s in p.doc:
            m = p.model.sections.get(s.name.lower())
            if m is None:
                continue
            obs.eq('section-headings', live.heads(s), list(m.heads), 'headings of section {}'.format(s.name))
            obs.ev('headings', len(m.heads))
            obs.state((s.name.lower(), tuple(m.heads)))
