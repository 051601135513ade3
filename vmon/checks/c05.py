"""C05: CSV output reads back as the same document"""
import os
from .. import canon, core, gen, live, roundtrip as rt


class CHECK(core.Check):
    id = 'C05'
    quick_cases, thorough_cases = 6000, 80000
    rule = ('a case is a document (rows, perhaps under a declaration) and a history of edits to it; distinct by content, non-trivial if it has a row '
            'or an edit')
    needs = ('compare:csv', 'compare:rows', 'compare:csv-again', 'repeated-children', 'edited-documents', 'declared-documents', 'compare:csv-file')
    assumptions = ('no term is nested inside a term of the same name', 'values have no carriage returns and no blanks around them',
                   'the comparison ignores children that have neither a value nor children')

    def fixed_cases(self, tier):
        return [{'rows': r, 'ops': [], 'decl': None} for r in gen.stress_docs()]

    def gen(self, rng, i, tier):
        return rt.gen_case(rng, tier, newlines=rng.choice([True, 'cr']))

    def trivial(self, case):
        return not case['rows'] and not case['ops']

    def execute(self, case, obs):
        with live.workdir() as d:
            doc = rt.build(case, d, obs)
            c = canon.canon(doc)
            rt.observe(obs, doc, c)
            text = doc.as_csv()
            again = live.from_csv_text(text)
            rt.same(obs, 'csv', again, c, 'the document read back from its CSV')
            rt.same(obs, 'rows', live.from_rows([list(r) for r in doc.rows]), c, 'the document read back from its rows')
            if not canon.has_blank_children(doc):
                rt.same_text(obs, 'csv-again', again.as_csv(), text, 'CSV of the document read back')
            if len(text) % 5 == 0 and not any('\r' in str(t.value) for t in live.all_live(doc)):     # (reading a file makes these plain line ends)
                p = os.path.join(d, 'out.csv')
                with open(p, 'w', newline='', encoding='utf8') as f:
                    f.write(text)
                rt.same(obs, 'csv-file', live.from_path(p), c, 'the document read back from a CSV file')

    def known(self, obs):
        t = rt.include_probe(obs, 'csv')
        return [('include-duplicated', t)] if t else []
