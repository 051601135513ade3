"""C06: Lines output reads back as the same document"""
import os
from .. import canon, core, gen, live, roundtrip as rt


class CHECK(core.Check):
    id = 'C06'
    quick_cases, thorough_cases = 6000, 80000
    rule = ('a case is a document with single-line values (rows, perhaps under a declaration), a history of edits to it, and a chain of conversions; '
            'distinct by content, non-trivial if it has a row or an edit')
    needs = ('compare:lines', 'compare:lines-again', 'compare:chain', 'compare:sections', 'repeated-children', 'edited-documents', 'declared-documents', 'compare:lines-file')
    assumptions = ('no term is nested inside a term of the same name', 'values have no line breaks and no blanks around them',
                   'names and headings have no colons or pipes', 'the comparison ignores children that have neither a value nor children')

    def fixed_cases(self, tier):
        return [{'rows': r, 'ops': [], 'decl': None, 'chain': 'LCL'} for r in rt.stress()]

    def gen(self, rng, i, tier):
        c = rt.gen_case(rng, tier, newlines=False)
        c['chain'] = ''.join(rng.choice('CL') for _ in range(rng.choice([0, 1, 2, 4])))
        return c

    def trivial(self, case):
        return not case['rows'] and not case['ops']

    def execute(self, case, obs):
        with live.workdir() as d:
            doc = rt.build(case, d, obs)
            c = canon.canon(doc)
            rt.observe(obs, doc, c)
            text = doc.as_lines()
            again = live.from_text(text)
            rt.same(obs, 'lines', again, c, 'the document read back from its Lines')
            if not canon.has_blank_children(doc):
                rt.same_text(obs, 'lines-again', again.as_lines(), text, 'Lines of the document read back')
            secs = sorted(list(doc), key=lambda s: s.name.lower() != 'root')
            parts = [l for s in secs for l in s.as_lines().split('\n') if l.strip()]
            obs.eq('sections', parts, [l for l in text.split('\n') if l.strip()], 'the Lines of the sections, one after the other')
            x = doc
            for f in case['chain']:
                x = live.from_csv_text(x.as_csv()) if f == 'C' else live.from_text(x.as_lines())
                rt.same(obs, 'chain', x, c, 'the document after the conversions {}'.format(case['chain']))
            if len(text) % 5 == 0:
                p = os.path.join(d, 'out.txt')
                with open(p, 'w', encoding='utf8') as f:
                    f.write(text)
                rt.same(obs, 'lines-file', live.MetatabDoc(live.parse_app_url(p, proto='metatab')), c, 'the document read back from a text file')

    def known(self, obs):
        t = rt.include_probe(obs, 'txt')
        return [('include-duplicated', t)] if t else []
