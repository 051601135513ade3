"""C01: parsing conserves rows"""
from ..parsecheck import ParseCheck, run_case, accepted
from .. import live
from ..core import first_diff


def bare(v):
    """The value as it is: the code under test trims it, not the oracle"""
    return None if v == '' else v


class CHECK(ParseCheck):
    id = 'C01'
    quick_cases, thorough_cases = 9000, 120000
    rule = ('a case is a generated document (rows, or files with includes and declarations); it counts as distinct and non-trivial if its '
            'content differs from all others and it has two rows or more')
    needs = ('compare:stream', 'cells', 'rows-seen')
    assumptions = ('the reference interpreter in vmon/model.py reads rows as the Metatab format documentation does',
                   'names consist of word characters, spaces and dashes')

    def execute(self, case, obs):
        p = run_case(case, obs)
        if not accepted(p, obs):
            return
        got = [('cell' if t.is_arg_child else t.record_term_lc, bare(t.value)) for t in p.stream]
        exp = [('cell' if n.is_cell else n.name, n.value) for n in p.model.stream]
        obs.ev('rows-seen', sum(not n.is_cell for n in p.model.stream))
        obs.ev('cells', sum(n.is_cell for n in p.model.stream))
        obs.events['compare:stream'] += 1
        if got != exp:
            obs.fail('stream', 'the terms that the parser yields are not those of the rows: ' + first_diff(got, exp))
        obs.state(tuple(g[0] for g in got))
        # Each of them is in the document once
        ids = [id(t) for t in live.all_live(p.doc)]
        obs.true('once', len(ids) == len(set(ids)), 'a term is listed twice in the document')
        obs.true('all-in-document', set(ids) == set(id(t) for t in p.stream),
                 lambda: 'the document holds {} terms, the parser yielded {}'.format(len(ids), len(p.stream)))
        # Cells are children of their own row, in column order
        cells, i = [], 0
        for n, t in zip(p.model.stream, p.stream):
            if not n.is_cell:
                exp_cells = [c.value for c in n.children if c.is_cell]
                got_cells = [bare(c.value) for c in t.children if c.is_arg_child]
                if n.children and n.children[0].is_cell:
                    obs.eq('cells', got_cells, exp_cells, "values of the cells of row {}".format(n.row))
        obs.eq('top-level', len(live.listed(p.doc)), len(p.model.terms), 'number of top-level terms')
