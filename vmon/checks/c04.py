"""C04: every top-level term is in exactly one section, the one it was written in"""
from ..parsecheck import ParseCheck, run_case, accepted
from .. import live, gen, model
from ..core import first_diff
from ..model import norm


class CHECK(ParseCheck):
    id = 'C04'
    quick_cases, thorough_cases = 8000, 100000
    rule = ('a case is a sequence of loads into one document, or files with includes and declared sections; sections are repeated, re-cased, empty and '
            'interleaved; distinct by content, non-trivial if it has two rows or more')
    needs = ('compare:sections', 'reopened-sections', 'loads', 'declared-headings')
    assumptions = ('the reference interpreter in vmon/model.py',)

    def gen(self, rng, i, tier):
        x = rng.random()
        secs = dict(hostile=0.1)
        if x < 0.6:
            k = rng.choice([1, 1, 2, 3, 5])
            loads = [gen.row_doc(rng, n=rng.randint(1, 30), **secs) for _ in range(k)]
            return {'loads': [gen.numbers(rng, r) for r in loads] if rng.random() < 0.1 else loads}
        return {'files': gen.file_docs(rng, decl=0.7, n=rng.randint(1, 25), **secs)}

    def fixed_cases(self, tier):
        return [{'loads': [r]} for r in gen.stress_docs()] + [{'loads': gen.stress_docs()[:4]}]

    def trivial(self, case):
        return sum(len(r) for r in case.get('loads') or case.get('files').values()) < 2

    def execute(self, case, obs):
        if 'loads' in case:
            m, doc = model.Doc(), live.MetatabDoc()
            try:
                for rows in case['loads']:
                    m.load(rows)
            except (model.Refused, model.Unspecified):
                obs.ev('refused')
                return
            for k, rows in enumerate(case['loads']):
                if k == 0 and len(case['loads']) % 2:
                    doc = live.from_rows(rows)
                else:
                    doc.load_rows(live.MetatabRowGenerator(rows))
                obs.ev('loads')
        else:
            p = run_case(case, obs)
            if not accepted(p, obs):
                return
            m, doc = p.model, p.doc
        exp = [(k, [(n.name, n.value) for n in s.terms if n.origin != 'declare']) for k, s in m.sections.items()]
        got = [(s.name.lower(), [(t.record_term_lc, norm(t.value)) for t in live.own(s.terms)]) for s in doc]
        # A declaration document's own sections are not those of the document
        names = set(k for k, _ in exp)
        got = [g for g in got if g[0] in names or g[1]]
        obs.events['compare:sections'] += 1
        if got != exp:
            obs.fail('sections', 'sections and their terms: ' + first_diff(got, exp))
        obs.eq('terms', [(t.record_term_lc, norm(t.value)) for t in live.listed(doc)], [(n.name, n.value) for n in m.terms],
               'top-level terms of the document')
        live.check_links(doc, obs, sections_shared=False)
        for k, s in m.sections.items():
            live_s = doc[gen.upper(k)]
            obs.true('by-name', live_s is doc.sections[k] and k in doc and gen.upper(k) in doc, 'section {} is not found by name in any case'.format(k))
            obs.eq('headings', live.heads(live_s), list(s.heads), 'headings of section {}'.format(k))
            if s.heads and m.decl_sections.get(k, {}).get('args') == s.heads:
                obs.ev('declared-headings')
        rows = [r for l in (case.get('loads') or case['files'].values()) for r in l if len(r) > 1 and str(r[0] or '').strip().lower() == 'section']
        seen = [str(r[1]).strip().lower() for r in rows]
        obs.ev('reopened-sections', len(seen) - len(set(seen)))
        obs.state(tuple((k, len(v)) for k, v in got))
