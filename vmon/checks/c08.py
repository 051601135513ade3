"""C08: declarations govern how terms are interpreted"""
import os, random
from .. import core, gen, live, model, parsecheck
from ..model import norm, qualify
from metatab import DeclarationError
import metatabdecl

KEYS = ('termvaluename', 'childpropertytype', 'section', 'synonym', 'inheritsfrom', 'options')
STOCK_DIR = os.path.dirname(metatabdecl.__file__)


class Resolver(live.WebResolver):
    def __init__(self, where):
        self.where = where

    def find_decl_doc(self, name):
        return self.where[name] if name in self.where else super().find_decl_doc(name)


class CHECK(core.Check):
    id = 'C08'
    quick_cases, thorough_cases = 5000, 60000
    rule = ('a case is a set of declaration documents, a route by which they are loaded, and a document that uses them; distinct by content, '
            'non-trivial if it has a declaration')
    needs = ('compare:attributes', 'synonyms-used', 'inherited', 'declared-terms-seen', 'undeclared-terms-seen', 'declared-headings', 'declaration-errors',
             'route:row', 'route:arg', 'route:arglist', 'route:preload', 'route:call', 'route:resolver', 'route:both', 'kinds-found', 'created', 'stock')
    assumptions = ('the reference interpreter in vmon/model.py', 'declaration documents are tables and have their terms in sections of their own')

    def gen(self, rng, i, tier):
        if rng.random() < 0.02:
            return {'route': rng.choice(['row', 'arg', 'preload']), 'decls': {}, 'stock': rng.choice(['metatab-latest', 'metatab-latest.csv']), 'rows': self.stock_rows(rng)}
        tops, subs = rng.sample(gen.TOP, rng.randint(2, 5)), rng.sample(gen.SUB, rng.randint(2, 4))
        secs = rng.sample(gen.SECTIONS, 4)
        decls = {'d0.csv': gen.decl_doc(rng, tops=tops, subs=subs, secs=secs, bad=0.1, dup_heads=True)}
        x = rng.random()
        if x < 0.35:
            decls['d1.csv'] = gen.decl_doc(rng, tops=tops, subs=subs, secs=secs, dup_heads=True)
            if x < 0.2:
                decls['d0.csv'].insert(rng.choice([0, 1, len(decls['d0.csv'])]), ['Declare', rng.choice(['d1.csv', 'd1'])])
        rows = gen.row_doc(rng, tops=tops + gen.ALIASES + gen.DERIVED, subs=subs + gen.ALIASES[:2], hostile=0.1, n=rng.randint(1, 40), decorate=True)
        for _ in range(rng.choice([0, 1, 2])):      # Sections that take declared headings
            rows.insert(rng.randint(0, len(rows)), ['Section', gen.recase(rng, rng.choice(secs))])
        return {'route': rng.choice(['row', 'row', 'row-late', 'row-abs', 'arg', 'arglist', 'preload', 'call', 'resolver', 'both']), 'decls': decls, 'rows': rows, 'pos': rng.randint(0, 1000)}

    def stock_rows(self, rng):
        rows = [['Title', 'a title'], ['Name', 'x'], ['Version', '1']]
        for _ in range(rng.randint(3, 12)):
            rows.append(rng.choice([
                ['Section', 'Resources'], ['Section', 'Contacts', 'Email', 'Org'], ['Section', 'Schema'], ['Section', 'References', 'Name'],
                ['Datafile', 'http://x.y/z.csv', 'nm', 't'], ['Root.Reference', 'http://r', 'n'], ['Creator', 'Bob', 'b@c'], ['Wrangler', 'Al'],
                ['Table', 'tab'], ['Table', 'tab', 'a'], ['Description', 'd1'], ['Description', 'd2'], ['Note', 'n'], ['Origin', 'o.org'], ['Time', '2000'],
                ['Identifier', 'abc'], ['Homepage', 'http://h'], ['Undeclared', 'u'], ['.Url', 'u'], ['.Description', 'dd']]))
            if rows[-1][0] == 'Table':
                rows.append(['Table.Column', 'c1', '', 'int'])
                rows.append(['Column.Datatype', 'text'])
        return rows

    def trivial(self, case):
        return not any(len(d) > 1 for d in case['decls'].values()) and not case.get('stock')

    def execute(self, case, obs):
        for d in case['decls'].values():
            parsecheck.in_domain_decl(d)
        with live.workdir() as d:
            files = parsecheck.materialise(case['decls'], d)
            main = os.path.join(d, 'main.csv')
            stock = {}
            if case.get('stock'):
                for n in os.listdir(STOCK_DIR):
                    if n.endswith('.csv'):
                        p = os.path.join(STOCK_DIR, n)
                        with open(p, encoding='utf8') as f:
                            import csv
                            files[p] = list(csv.reader(f))
                        stock[n] = stock[n[:-4]] = p
                names = [case['stock']]
                obs.ev('stock')
            else:
                nested = any(r and r[0] == 'Declare' for r in case['decls'].get('d0.csv', []))
                names = ['d0.csv'] if nested or len(case['decls']) == 1 else ['d0.csv', 'd1.csv']
            route, rows = case['route'], [list(r) for r in case['rows']]
            paths = [n if case.get('stock') else os.path.join(d, n) for n in names]
            resolver = None
            if route == 'resolver':              # The application says where the named declarations are
                where = {'by name ' + n: os.path.join(d, n) for n in names}
                stock.update(where)
                rows[0:0] = [['Declare', n] for n in where]
                resolver = Resolver(where)
            late = []
            if route == 'both':                  # The last one is declared by a row, the others are passed in
                paths, late = (paths[:-1], names[-1:]) if len(paths) > 1 else (paths, names)
                k = 0 if case['pos'] % 2 else case['pos'] % (len(rows) + 1)
                rows[k:k] = [['Declare', n] for n in late]
            if route in ('row', 'row-late', 'row-abs'):
                k = 0 if route != 'row-late' else case['pos'] % (len(rows) + 1)
                use = paths if route == 'row-abs' else names
                rows[k:k] = [['Declare', n] for n in use]
            live.write_csv(main, rows)
            files[main] = parsecheck.csvify(rows)
            m = model.Doc(files=files, stock=stock)
            refused = None
            try:
                if not route.startswith('r'):
                    m.load([['Declare', p] for p in paths])
                m.load(files[main], main)
            except model.Refused as e:
                refused = e
            except model.Unspecified:
                raise core.Skip()
            obs.ev('route:' + route.split('-')[0])

            def mk():
                if route == 'resolver':
                    return live.MetatabDoc(main, resolver=resolver)
                if route.startswith('row'):
                    return live.MetatabDoc(main)
                if route == 'arg' and len(paths) == 1:
                    return live.MetatabDoc(main, decl=paths[0])
                if route in ('arg', 'arglist', 'both'):
                    return live.MetatabDoc(main, decl=list(paths))
                doc = live.MetatabDoc(decl=list(paths)) if route == 'preload' else live.MetatabDoc()
                if route == 'call':
                    doc.load_declarations(list(paths))
                doc.load_rows(live.MetatabRowGenerator(files[main]))
                return doc

            if refused is not None:
                if refused.kind == 'parser' or refused.kind == 'include':
                    obs.ev('refused-otherwise')
                    return
                try:
                    mk()
                except DeclarationError:
                    obs.ev('declaration-errors')
                except live.MetatabError as e:
                    obs.fail('declaration-error', 'a bad declaration raised {!r}, not a declaration error'.format(e))
                else:
                    obs.fail('declaration-error', 'a bad declaration was accepted')
                return
            doc = mk()
            self.compare(doc, m, obs)
            self.create(doc, m, obs, random.Random(case.get('pos', 1)))

    def compare(self, doc, m, obs):
        for k, s in m.sections.items():
            obs.true('section', k in doc, 'no section {}'.format(k))
            ls = doc[k]
            obs.eq('headings', live.lheads(ls), [h.lower() for h in s.heads], 'headings of section {}'.format(k))
            if s.heads and s.heads == m.decl_sections.get(k, {}).get('args'):
                obs.ev('declared-headings')
            self.pair(live.own(ls.terms), [n for n in s.terms if n.origin != 'declare'], obs)
        # Declared terms
        got = {k: {a: v.get(a) or None for a in KEYS} for k, v in doc.decl_terms.items()}
        exp = {k: {a: v.get(a) or None for a in KEYS} for k, v in m.decl_terms.items()}
        obs.eq('declared-names', sorted(got), sorted(exp), 'names of the declared terms')
        for k in exp:
            obs.eq('declared-term', got[k], exp[k], 'declaration of {}'.format(k))
            if k not in model.BUILTIN:
                obs.state((k, tuple(exp[k].items())))
        for k, v in doc.decl_sections.items():
            obs.true('declared-once', len(set(v['terms'])) == len(v['terms']), lambda: 'section {} lists a declared term twice: {}'.format(k, v['terms']))
        gs = {k: ([norm(a) for a in v['args']], sorted(set(t.lower() for t in v['terms']))) for k, v in doc.decl_sections.items()}
        es = {k: (list(v['args']), sorted(set(t.lower() for t in v['terms']))) for k, v in m.decl_sections.items()}
        obs.eq('declared-sections', sorted(gs), sorted(es), 'names of the declared sections')
        for k in es:
            obs.eq('declared-section', gs[k], es[k], 'declaration of section {}'.format(k))
        # Kinds
        for sup in sorted(set(qualify(v['inheritsfrom']) for v in m.decl_terms.values() if v.get('inheritsfrom'))):
            kinds = m.kinds_of(sup)
            names = set(kinds) | {sup}
            exp = [t for t in live.all_live(doc) if t.join_lc in names]
            for q in (sup, gen.upper(sup)) + ((sup[5:],) if sup.startswith('root.') else ()):
                got = [t for t in doc.find(q) if t.file_type != 'declare']
                obs.true('kinds', sorted(map(id, got)) == sorted(map(id, exp)), lambda: 'finding {} gives {} instead of {}'.format(
                    q, [live.show(t) for t in got], [live.show(t) for t in exp]))
            obs.ev('kinds-found', len(exp))

    def pair(self, ts, ns, obs):
        obs.events['compare:attributes'] += 1
        got, exp = [t.record_term_lc for t in ts], [n.name for n in ns]
        if got != exp:
            obs.fail('names', 'names of the terms: ' + core.first_diff(got, exp))
        for t, n in zip(ts, ns):
            who = live.show(t)
            obs.eq('parent-name', t.parent_term_lc, n.parent_name, 'parent name of {}'.format(who))
            obs.eq('type', t.child_property_type, n.ptype, 'property type of {}'.format(who))
            obs.eq('value-name', t.term_value_name, n.vname, 'value name of {}'.format(who))
            obs.eq('valid', bool(t.valid), n.valid, 'validity of {}'.format(who))
            obs.eq('options', [o.strip() for o in t.options], [o.strip() for o in n.options], 'options of {}'.format(who))
            obs.ev('declared-terms-seen' if n.valid else 'undeclared-terms-seen')
            self.pair(t.children, n.children, obs)

    def create(self, doc, m, obs, rng):
        """Terms that are created later are governed as well"""
        s = doc.get_or_new_section('A fresh section')
        if s.terms or s.property_names:
            return
        decl = sorted(k for k in m.decl_terms if k not in model.BUILTIN)
        for k in rng.sample(decl, min(4, len(decl))):
            p, r = k.split('.')
            d = m.decl_terms[k]
            if d.get('synonym') or r in ('section', 'declare', 'include', 'header', 'root') or p in ('section', 'declare', 'include'):
                continue
            if p == 'root':
                t = s.new_term(rng.choice([r, k, gen.upper(k)]), 'v')
            else:
                x = s.new_term(p, 'v')
                y = rng.random()
                if y < 0.4:
                    t = x.new_child(r, 'v')
                elif y < 0.7 or r in (x.term_value_name.lower(), 'value'):
                    t = x.get_or_new_child(r, 'v')
                else:
                    x[r] = 'v'
                    t = x.find_first(r)
            obs.eq('created-type', t.child_property_type, d.get('childpropertytype', 'any'), 'property type of the new term {}'.format(k))
            obs.eq('created-value-name', t.term_value_name, d.get('termvaluename', '@value'), 'value name of the new term {}'.format(k))
            obs.ev('created')
        for n in sorted(m.decl_sections):
            if n not in doc and n not in ('root',):
                sec = doc.new_section(n) if rng.random() < 0.5 else doc.get_or_new_section(gen.upper(n))
                obs.eq('created-headings', live.heads(sec), [a for a in m.decl_sections[n]['args']], 'headings of the new section {}'.format(n))
        for v in m.decl_terms.values():
            if v.get('synonym'):
                obs.ev('synonyms-used')
            if v.get('inheritsfrom'):
                obs.ev('inherited')
