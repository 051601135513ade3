"""C10: searches return exactly the matching terms, in document order"""
import json, os, random, subprocess, sys
from .. import boot, core, edits, gen, hashrun, live, parsecheck
from ..live import SectionTerm
from ..model import qualify

PATTERNS = ['name', 'qualified', 'child', '*.name', 'p.*', 'root.*', '*.*', 'missing', 'list', 'derived', 'super', 'unq-child', '*']
SINGLE = [p for p in PATTERNS if p != 'list']


def near(v, k):
    """A value that is like v, but is not v"""
    if v is None:
        return ''
    s = str(v)
    out = [gen.swapcase(s), s + ' ', ' ' + s, s[:-1], s + 'x', s[1:], '*', s[:1] + '*', [s], s.lower(), gen.upper(s)]
    try:
        out += [int(v) if not isinstance(v, int) else s] * 3
    except (ValueError, OverflowError):
        pass
    return out[k % len(out)]


class CHECK(core.Check):
    id = 'C10'
    quick_cases, thorough_cases = 3500, 50000
    rule = ('a case is a document (parsed, declared, edited) and a list of queries; every answer is compared with an exhaustive scan; distinct by content, '
            'non-trivial if it has a query')
    needs = ('compare:order', 'hits', 'misses', 'value-filter', 'section-filter', 'section-list', 'property-filter', 'derived-expanded', 'lists', 'term-find',
             'section-find', 'first', 'forms', 'fresh-processes', 'after-edits')
    assumptions = ('the scan lists the terms through doc.terms, doc.sections and Term.children',)

    def gen(self, rng, i, tier):
        decl = rng.random() < 0.4
        if decl:
            files = gen.file_docs(rng, n_files=1, decl=1.0, hostile=0.2, n=rng.randint(3, 40), newlines=False)
        else:
            files = {'main.csv': gen.row_doc(rng, hostile=0.2, newlines=False, n=rng.choice([None, rng.randint(3, 40)]))}
        few = rng.choice([['one', 'two', 'One'], ['1', '7', '01', '7.0']])
        if rng.random() < 0.5:          # Few values, so that several terms have the same
            for rows in files.values():
                for r in rows:
                    if rows is files['main.csv'] and len(r) > 1 and str(r[0] or '').strip().lower() not in ('section', 'header', 'declare', 'include') \
                            and not str(r[0] or '').lower().startswith('root.'):
                        r[1:] = [c if rng.random() < 0.5 else rng.choice(few) for c in r[1:]]
        v = gen.Vals(rng, spaced=False, hostile=0.1, newlines=False)
        ops = edits.gen_ops(rng, rng.randint(1, 20), v, recase=gen.recase) if rng.random() < 0.5 else []
        return {'files': files, 'ops': ops, 'queries': [self.query(rng) for _ in range(rng.randint(3, 12))]}

    def query(self, rng):
        R = lambda: rng.randint(0, 1000)
        return [rng.choice(PATTERNS), R(), R(), rng.randint(0, 3), rng.choice([None, None, None, None, 'existing', 'existing', 'missing', 'none', 'near']), R(),
                rng.choice([None, None, 'one', 'list', 'missing', 'own', 'own']), R(), rng.choice([None, None, None, None, 'prop', 'prop', 'two', 'missing', 'near']), R(),
                rng.choice(['doc', 'doc', 'doc', 'section', 'term'])]

    def fixed_cases(self, tier):
        out = []
        for k in range(2 if tier == core.QUICK else 8):
            rng = random.Random(k)
            sets = []
            for _ in range(25):
                files = gen.file_docs(rng, n_files=1, decl=1.0, hostile=0.1, n=30, newlines=False)
                names = gen.DERIVED + gen.ALIASES + gen.TOP
                qs = [[n, None] for n in gen.TOP] + [[rng.sample(names, 4), rng.choice([None, gen.SECTIONS])] for _ in range(6)] + [['*.*', None], ['root.*', None]]
                sets.append([files, qs])
            out.append({'hash': sets})
        # A super term with many derived terms
        rows = [['Declare', 'd.csv']] + [['K{}'.format(i % 40), 'v{}'.format(i)] for i in range(120)] + [['Super', 's'], ['Alpha', 'a']]
        d = [['Section', 'DeclaredSections'], ['DeclareSection', 'S'], ['Section', 'DeclaredTerms', 'Section', 'InheritsFrom'], ['DeclareTerm', 'Super', 'S']] \
            + [['DeclareTerm', 'K{}'.format(i), 'S', 'Root.Super'] for i in range(40)]
        out.append({'hash': [[{'main.csv': rows, 'd.csv': d}, [['Super', None], ['root.super', None], [['Super', 'K3', 'Alpha'], None], [['K3', 'K3'], None]]]]})
        return out

    def trivial(self, case):
        return not (case.get('hash') or case.get('queries'))

    def execute(self, case, obs):
        if 'hash' in case:
            return self.hashes(case, obs)
        with live.workdir() as d:
            for f, rows in case['files'].items():
                if f != 'main.csv':
                    parsecheck.in_domain_decl(rows)
            parsecheck.materialise(case['files'], d)
            try:
                doc = live.MetatabDoc(os.path.join(d, 'main.csv'))
            except live.MetatabError:
                obs.ev('refused')
                return
            mirror = None
            if case['ops']:
                mirror = edits.quietly(doc, [])
            k = 0
            for n, q in enumerate(case['queries']):
                if mirror is not None:
                    upto = len(case['ops']) * n // max(1, len(case['queries']) - 1)
                    while k < min(upto, len(case['ops'])):
                        try:
                            mirror.apply(case['ops'][k])
                        except Exception:
                            raise core.Skip()           # Decided by C11
                        k += 1
                        obs.ev('after-edits')
                self.ask(doc, q, obs)

    # -- the scan -----------------------------------------------------------------------------

    def scan(self, doc, name, value, secs, props):
        """-> the matching terms, by the definition"""
        p, r = qualify(name).split('.')
        if p == 'root':
            space = list(doc.terms)
        else:
            space = [t for s in doc for t in live.walk(s.terms)]
        out = []
        for t in space:
            if isinstance(t, SectionTerm):
                continue
            if not (p in ('*', t.parent_term_lc) and r in ('*', t.record_term_lc)):
                continue
            if value is not False and not t.value == value:
                continue
            if secs is not None and (t.section is None or t.section.name.lower() not in [s.lower() for s in secs]):
                continue
            if any(not self.prop(t, k) == v for k, v in props.items()):
                continue
            out.append(t)
        return out

    @staticmethod
    def prop(t, k):
        if k.lower() == t.term_value_name.lower():
            return t.value
        return next((c.value for c in t.children if c.record_term_lc == k.lower()), None)

    def derived(self, doc, name):
        q = qualify(name)
        return sorted(k for k, v in doc.decl_terms.items() if v.get('inheritsfrom') and qualify(v['inheritsfrom']) == q and k != q)

    # -- queries ------------------------------------------------------------------------------

    def names(self, doc, kind, i, j, everything):
        def pick(seq, k):
            return seq[k % len(seq)] if seq else None
        t = pick(everything, i)
        top = pick([x for x in everything if x.parent_term_lc == 'root'], i)
        kid = pick([x for x in everything if x.parent_term_lc != 'root'], i)
        simple = lambda x: x is not None and x.record_term_lc and '.' not in x.record_term_lc + x.parent_term_lc and '*' not in x.join_lc
        if kind == 'name' and simple(top):
            return top.record_term
        if kind == 'qualified' and simple(top):
            return 'Root.' + top.record_term
        if kind == 'child' and simple(kid):
            return kid.join
        if kind == 'unq-child' and simple(kid):
            return kid.record_term
        if kind == '*.name' and simple(t):
            return '*.' + t.record_term
        if kind == 'p.*' and simple(t):
            return t.parent_term + '.*'
        if kind == 'missing':
            return ['Nosuch', 'Root.Nosuch', 'Nosuch.*', 'x.y', '*.nosuch', 'ro', 'root.', 'oot.title'][j % 7]
        if kind in ('super', 'derived'):
            sup = sorted(set(v['inheritsfrom'] for v in doc.decl_terms.values() if v.get('inheritsfrom')))
            if kind == 'derived':
                sup = sorted(k for k, v in doc.decl_terms.items() if v.get('inheritsfrom'))
            s = pick(sup, i)
            if s:
                s = qualify(s)
                return s[5:] if s.startswith('root.') and j % 2 else s
        if kind == 'list':
            return [x for x in (self.names(doc, SINGLE[(j + 3 * k) % len(SINGLE)], i + 7 * k, j + k, everything) for k in range(1 + j % 4)) if isinstance(x, str)] or None
        if kind in ('root.*', '*.*', '*'):
            return {'*': 'Root.*'}.get(kind, kind)
        return None

    def ask(self, doc, q, obs):
        kind, i, j, case, vk, vi, sk, si, pk, pi, route = q
        everything = [t for s in doc for t in live.walk(s.terms)]
        name = self.names(doc, kind, i, j, everything)
        if name is None or not everything:
            return
        cased = lambda s: [s, s.lower(), gen.upper(s), gen.title(s)][case % 4]
        name = [cased(x) for x in name] if isinstance(name, list) else cased(name)
        if isinstance(name, list) and j % 3 == 0:
            name = tuple(name)
        names = [name] if isinstance(name, str) else list(name)
        hit = [t for t in everything if any(t.record_term_lc == qualify(n).split('.')[1] for n in names)] or everything
        value = False
        if vk == 'existing':
            value = hit[vi % len(hit)].value
            if isinstance(value, bool):
                value = False
        elif vk == 'missing':
            value = ['no such value', '', 'ONE', 'v', '0'][vi % 5]
        elif vk == 'none':
            value = None
        elif vk == 'near':                      # Nearly the value of a term that matches otherwise
            value = near(hit[vi % len(hit)].value, vi // 7)
        if value is not False:
            obs.ev('value-filter')
        secs = arg = None
        all_secs = [s.name for s in doc]
        if sk == 'one':
            secs = [cased(all_secs[si % len(all_secs)])]
            arg = secs[0]
        elif sk == 'own':
            s = hit[si % len(hit)].section
            secs = [cased(s.name)] if s is not None else None
            arg = secs[0] if secs else None
        elif sk == 'missing':
            secs, arg = ['no section'], 'no section'
        elif sk == 'list':
            secs = [cased(all_secs[(si + 3 * k) % len(all_secs)]) for k in range(si % 4)] + (['nope'] if si % 2 else [])
            arg = secs if si % 3 else tuple(secs)
            obs.ev('section-list')
        if secs is not None:
            obs.ev('section-filter')
        props = {}
        if pk in ('prop', 'two'):
            owners = [t for t in hit if t.children]
            if owners:
                t = owners[pi % len(owners)]
                for c in t.children[:2 if pk == 'two' else 1]:
                    if c.value is not None and c.record_term_lc not in ('term', 'value', 'section', 'self'):
                        key = c.record_term_lc if pi % 2 else gen.upper(c.record_term_lc)
                        if not any(key.lower() == k.lower() for k in props):
                            props[key] = next(x.value for x in t.children if x.record_term_lc == c.record_term_lc)
        elif pk == 'missing':
            props = [{'prop': 'no such value'}, {'nosuchprop': 'x'}, {'nosuchprop': ''}, {'nosuchprop': None}, {'nosuchprop': 0}][pi % 5]
        elif pk == 'near':
            t = next((t for t in hit if any(c.value is not None for c in t.children)), None)
            if t is not None:
                c = next(c for c in t.children if c.value is not None)
                if c.record_term_lc not in ('term', 'value', 'section', 'self'):
                    props = {c.record_term_lc: near(c.value, pi)}
        if any(v is None for v in props.values()):
            obs.ev('without-property')
        if props:
            obs.ev('property-filter')

        if route == 'term':
            return self.ask_term(everything[i % len(everything)], j, case, value, obs)
        sec = None
        if route == 'section':
            sec = list(doc)[si % len(all_secs)]
            secs, props = [sec.name], {}
            obs.ev('section-find')

        # What the definition gives, name by name
        expanded = []
        for n in names:
            d = self.derived(doc, n) if '*' not in n else []
            expanded.append((n, d))
            if d:
                obs.ev('derived-expanded')
        per_name = [self.scan(doc, n, value, secs, props) for n, d in expanded]
        exp = {}
        for (n, d), ts in zip(expanded, per_name):
            for x in [ts] + [self.scan(doc, k, value, secs, props) for k in d]:
                for t in x:
                    exp[id(t)] = t

        text = 'find({!r}, value={!r}, section={!r}, {!r}){}'.format(name, value, arg if sec is None else sec.name, props, ' of a section' if sec is not None else '')
        got = sec.find(name, value=value) if sec is not None else doc.find(name, value=value, section=arg, **props)
        got = list(got)
        got_t = [t for t in got if not isinstance(t, SectionTerm)]
        ids = [id(t) for t in got_t]
        obs.events['compare:order'] += 1
        if len(ids) != len(set(ids)):
            obs.fail('duplicates', '{} returns a term twice: {}'.format(text, [live.show(t) for t in got_t][:6]))
        extra = [t for t in got_t if id(t) not in exp]
        if extra:
            obs.fail('extra', '{} returns {}, which does not match'.format(text, live.show(extra[0])))
        missing = [t for k, t in exp.items() if k not in set(ids)]
        if missing:
            obs.fail('missing', '{} does not return {}'.format(text, live.show(missing[0])))
        for (n, d), ts in zip(expanded, per_name):
            order = [k for k in ids if k in set(id(t) for t in ts)]
            if len(expanded) == 1 and order != [id(t) for t in ts]:
                obs.fail('order', '{} is not in document order for {}: {}'.format(text, n, [live.show(t) for t in got_t][:6]))
        if len(expanded) > 1:
            obs.ev('lists')
        obs.ev('hits' if got_t else 'misses')
        obs.state((kind, vk, sk, pk, len(got_t), route))

        # The arguments that say nothing can be left out, and the others given by position
        def same(what, other):
            obs.ev('forms')
            obs.true('forms', [id(t) for t in other] == [id(t) for t in got], lambda: '{}: {} gives {} instead of {}'.format(
                text, what, [live.show(t) for t in other][:4], [live.show(t) for t in got][:4]))
        if sec is not None:
            same('the value by position', sec.find(name, value))
            if value is False:
                same('without a value', sec.find(name))
        else:
            same('by position', doc.find(name, value, arg, **props))
            if value is False:
                same('without a value', doc.find(name, section=arg, **props))
            if arg is None:
                same('without a section', doc.find(name, value=value, **props))
            if value is False and arg is None:
                same('with the name only', doc.find(name, **props))

        # First match
        if any(isinstance(t, SectionTerm) for t in got):
            return
        obs.ev('first')
        first = got[0] if got else None
        if sec is not None:
            obs.true('first', sec.find_first(name, value=value) is first, text + ': find_first of the section is not the first')
            obs.eq('first-value', sec.find_first_value(name, value=value), first.value if first is not None else None, text + ': find_first_value of the section')
            obs.true('first', sec.get_term(name, value=value) is first, text + ': get_term is not the first')
            if value is False:
                obs.true('first', sec[name] is first, text + ': item of the section is not the first')
                obs.true('first', sec.find_first(name) is first, text + ': find_first of the section by name is not the first')
                obs.true('first', sec.get_term(name) is first, text + ': get_term by name is not the first')
                obs.eq('first-value', sec.find_first_value(name), first.value if first is not None else None, text + ': find_first_value of the section by name')
            return
        obs.true('first', doc.find_first(name, value=value, section=arg, **props) is first, text + ': find_first is not the first')
        obs.eq('first-value', doc.find_first_value(name, value=value, section=arg, **props), first.value if first is not None else None, text + ': find_first_value')
        if value is False:
            obs.true('first', doc.find_first(name, section=arg, **props) is first, text + ': find_first without a value is not the first')
            obs.eq('first-value', doc.find_first_value(name, section=arg, **props), first.value if first is not None else None, text + ': find_first_value without a value')
        if arg is None:
            obs.true('first', doc.find_first(name, value=value, **props) is first, text + ': find_first without a section is not the first')
            obs.eq('first-value', doc.find_first_value(name, value=value, **props), first.value if first is not None else None, text + ': find_first_value without a section')
        if value is False and not props:
            obs.eq('get-value', doc.get_value(name, 'dflt', section=arg), first.value if first is not None else 'dflt', text + ': get_value')
            if arg is None:
                obs.eq('get-value', doc.get_value(name, 'dflt'), first.value if first is not None else 'dflt', text + ': get_value without a section')
                obs.eq('get-value', doc.get_value(name), first.value if first is not None else None, text + ': get_value without a default')
                dflt = object()
                obs.true('get', doc.get(name, dflt) is (first if first is not None else dflt), text + ': get')
                obs.true('get', doc.get(name) is first, text + ': get without a default')

    def ask_term(self, t, j, case, value, obs):
        obs.ev('term-find')
        kids = t.children
        pool = [c.record_term_lc for c in kids if '.' not in c.record_term_lc] or ['nosuch']
        n = pool[j % len(pool)] if j % 5 else 'nosuch'
        n = [n, gen.upper(n), gen.title(n), n][case % 4]
        if value is not False and kids and j % 2:
            value = kids[j % len(kids)].value
        exp = [c for c in kids if c.record_term_lc == n.lower() and (value is False or c.value == value)]
        for q in (n, t.record_term + '.' + n) if '.' not in t.record_term else (n,):
            got = list(t.find(q, value=value))
            obs.true('term-find', [id(c) for c in got] == [id(c) for c in exp], lambda: 'find({!r}, {!r}) of term {} gives {} instead of {}'.format(
                q, value, live.show(t), [live.show(c) for c in got], [live.show(c) for c in exp]))
            first = exp[0] if exp else None
            obs.true('term-find', t.find_first(q, value=value) is first, lambda: 'find_first({!r}, {!r}) of term {} is not the first'.format(q, value, live.show(t)))
            if value is False:
                obs.true('term-find', [id(c) for c in t.find(q)] == [id(c) for c in exp], lambda: 'find({!r}) of term {}, without a value'.format(q, live.show(t)))
                obs.true('term-find', t.find_first(q) is first, lambda: 'find_first({!r}) of term {} is not the first'.format(q, live.show(t)))
                obs.eq('term-first-value', t.find_first_value(q), first.value if first is not None else None, 'find_first_value({!r}) of a term'.format(q))
        obs.state(('term', len(exp), len(kids)))

    # -- fresh processes ----------------------------------------------------------------------

    def hashes(self, case, obs):
        sets = []
        for files, qs in case['hash']:
            try:
                hashrun.answers(files, [])
            except live.MetatabError:
                continue
            sets.append([files, qs])
        here = [hashrun.answers(*s) for s in sets]
        for seed in ('0', '1', '12345'):
            env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONPATH=boot.VERIF)
            r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'vmon.hashrun'], input=json.dumps(sets), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               universal_newlines=True, env=env, cwd=boot.SCRATCH, timeout=300)
            if r.returncode:
                if boot.REPO in r.stderr and 'MemoryError' not in r.stderr:
                    obs.fail('stable', 'another run of the same searches fails: ' + r.stderr[-600:])
                raise core.HarnessError('fresh process failed: ' + r.stderr[-1500:])
            for s, a, b in zip(sets, here, json.loads(r.stdout)):
                obs.ev('fresh-processes')
                if a != b:
                    obs.fail('stable', 'another run of the same process gives other answers: ' + core.first_diff(b, a))
