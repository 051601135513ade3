"""C15: version arithmetic and semantic versions"""
import os, re
from .. import core, gen, live, naming
from ..model import norm
from ..live import MetatabError

ASK = [None, False, '1', '7', '2.0', 'beta', 'x y', 'a-b', '+', '-', '+1', '-1', '+2', '-3', '+10', '-100', '+0', '+100', '+123', '-12', '-0', '+2000', '+09', 5, 12, '1.2.3']

DECL = [['Section', 'DeclaredSections'], ['DeclareSection', 'Root'], ['Section', 'DeclaredTerms', 'Section', 'InheritsFrom'], ['DeclareTerm', 'Version', 'Root'], ['DeclareTerm', 'Version.Patch', 'Root'],
        ['DeclareTerm', 'Release', 'Root', 'Version']]


class CHECK(core.Check):
    id = 'C15'
    quick_cases, thorough_cases = 15000, 150000
    rule = ('a case is a document with a version in one of its forms and a sequence of requests for its name under other versions, and edits of the version; distinct by '
            'content, non-trivial if it has a request')
    needs = ('compare:name', 'math', 'explicit', 'none', 'semver-math', 'refused-missing', 'refused-not-whole', 'no-version-term', 'compare:unchanged', 'rendered', 'rendered-build',
             'rendered-plain', 'incomplete-semver', 'numeric-version', 'kind-of-version')
    assumptions = ('the document has at most one Version in its root section, and numeric versions are not zero',)

    def gen(self, rng, i, tier):
        rows = gen.name_rows(rng, name=0.5, identifier=0.5, version=0.9)
        if rng.random() < 0.15:
            for r in rows:
                if r[0] == 'Version':
                    r[1] = rng.choice([1, 7, 3.0, 2.5, -2, 10 ** 18 + 1, '12', 100])
                elif r[0].startswith(('Version.', '.')) and rng.random() < 0.5:
                    r[1] = rng.choice([0, 0, 1, 7, 12])
        if rng.random() < 0.3:
            rows = [['Title', 't'], ['Section', 'Other', 'H']] + [['Version', '77'], ['.Patch', '66']][:rng.randint(0, 2)] + [['Section', 'Root']] + rows
        ops = []
        for _ in range(rng.randint(1, 10)):
            x = rng.random()
            if x < 0.75:
                ops.append(['ask', rng.choice(ASK)])
            elif x < 0.85:
                ops.append(['render'])
            elif x < 0.95:
                ops.append(['set', rng.choice(['major', 'minor', 'patch', 'build', 'value', 'value']), rng.choice(['1', '2', '9', '10', 'x', 4])])
            else:
                ops.append(['update_name'])
        return {'rows': rows, 'ops': ops, 'kind': rng.random() < 0.1}

    def trivial(self, case):
        return not case['ops']

    def execute(self, case, obs):
        if case.get('kind'):
            # The version is a term that is declared to be a kind of version
            obs.ev('kind-of-version')
            with live.workdir() as d:
                live.write_csv(os.path.join(d, 'decl.csv'), DECL)
                doc = live.from_rows([[re.sub('(?i)version', 'Release', r[0])] + r[1:] for r in case['rows']], decl=os.path.join(d, 'decl.csv'))
        else:
            doc = live.from_rows(case['rows'])
        if sum(t.record_term_lc in ('version', 'release') and t.section.name.lower() == 'root' for t in doc.terms) > 1:
            raise core.Skip()
        for op in case['ops']:
            if op[0] == 'ask':
                self.ask(doc, op[1], obs)
            elif op[0] == 'render':
                self.render(doc, obs)
            elif op[0] == 'set':
                v = naming.root_first(doc, 'version')
                if v is not None:
                    if op[1] == 'value':
                        v.value = op[2]
                    else:
                        v.get_or_new_child('Version.' + op[1].title(), op[2])
            elif op[0] == 'update_name':
                doc.update_name()

    def ask(self, doc, ver, obs):
        pre = naming.prefix(doc)
        if not naming.parts_ok(pre):
            raise core.Skip()
        sv, term = naming.semver(doc), naming.root_first(doc, 'version')
        if sv is not None and any(v is None for v in sv.values()) and 'build' in sv and sv['build'] is None:
            raise core.Skip()
        cur = norm(term.value) if term is not None else None
        refuse = exp = None
        unknown = False
        if ver is None:
            exp = naming.join(pre)
            obs.ev('none')
        else:
            base = sv.get('patch') if sv is not None else cur
            if ver is False:
                new = base
            elif isinstance(ver, str) and ver[0] in '+-':
                n = naming.whole(base)
                if n is None:
                    refuse = True
                    new = None
                    obs.ev('refused-missing' if base is None else 'refused-not-whole')
                else:
                    new = str(n + (1 if ver[0] == '+' else -1) * int(ver[1:] or 1))
                    obs.ev('math')
                    if sv is not None:
                        obs.ev('semver-math')
                if isinstance(base, (int, float)):
                    obs.ev('numeric-version')
            else:
                new = ver
                obs.ev('explicit')
            if sv is not None:
                unknown = not naming.complete(dict(sv, patch=new if new is not None else sv.get('patch')))
                if sv.get('patch') is None and ver is not None and not (isinstance(ver, str) and ver[0] not in '+-' or isinstance(ver, int) and ver is not False):
                    unknown = True
                if not unknown:
                    v = naming.render(dict(sv, patch=new))
                    exp = naming.join(pre + [v])
            else:
                if new is not None and not naming.parts_ok([new]):
                    raise core.Skip()
                exp = naming.join(pre + ([new] if new is not None else []))
        if term is None:
            obs.ev('no-version-term')
        before = live.snapshot(doc)
        try:
            got = doc.as_version(ver)
        except MetatabError as e:
            got = e
        obs.eq('unchanged', live.snapshot(doc), before, 'the document after asking for its name as version {!r}'.format(ver))
        what = 'name as version {!r} of a document with version {!r} {!r}'.format(ver, cur, sv)
        if unknown:
            obs.ev('incomplete-semver')         # The defaults of missing parts are not specified
            if isinstance(got, str):
                obs.true('incomplete', got.startswith(naming.join(pre)), lambda: '{} is {!r}'.format(what, got))
            return
        if refuse:
            obs.true('refused', isinstance(got, MetatabError), lambda: '{} is {!r}, but should be refused'.format(what, got))
            return
        if isinstance(got, MetatabError):
            obs.fail('refused', '{} was refused: {}'.format(what, got))
        obs.eq('name', got, exp, what)
        obs.state((ver, cur, repr(sv)))

    def render(self, doc, obs):
        sv, term = naming.semver(doc), naming.root_first(doc, 'version')
        if sv is not None and 'build' in sv and sv['build'] is None:
            raise core.Skip()
        old = term.value if term is not None else None
        got = doc.update_version()
        term2 = naming.root_first(doc, 'version')
        obs.true('rendered', term2 is term, 'updating the version replaced its term')
        if term is None:
            obs.true('rendered', got is None, 'a document without a version has the version {!r}'.format(got))
            return
        obs.true('rendered', term.value == got or norm(term.value) == norm(got), 'update_version returns {!r}, but sets {!r}'.format(got, term.value))
        if sv is None:
            obs.eq('plain', got, old, 'version without parts')
            obs.ev('rendered-plain')
            return
        if naming.complete(sv):
            obs.eq('semver', got, naming.render(sv), 'version with the parts {!r}'.format(sv))
        else:
            pat = r'\.'.join(re.escape(str(sv[k])) if sv.get(k) is not None else r'[0-9]+' for k in ('major', 'minor', 'patch'))
            if 'build' in sv:
                pat += r'\.' + re.escape(str(sv['build']))
            obs.true('semver', re.fullmatch(pat, str(got)), 'version with the parts {!r} renders as {!r}'.format(sv, got))
        sv2 = naming.semver(doc)
        for k, v in sv.items():
            if v is not None:
                obs.eq('parts-kept', sv2.get(k), v, 'the {} part after rendering'.format(k))
        obs.ev('rendered')
        if 'build' in sv:
            obs.ev('rendered-build')
