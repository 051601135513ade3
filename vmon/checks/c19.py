"""C19: registered term classes are used for exactly the terms they name"""
import os
from .. import core, gen, live, termclasses
from ..live import MetatabDoc, Term, TermParser

TOPS = ['Alpha', 'Beta', 'Gamma', 'Table', 'Two Words', 'Subroot']
KIDS = ['Column', 'Prop', 'Name', 'Leaf', 'Alpha']
KINDS = {'Special': 'Alpha', 'Kind2': 'Beta', 'Deeper': 'Special'}
CHILD_KINDS = {'Geo': 'Column', 'Note2': 'Prop'}


def decl_rows(kinds, child_kinds, tops):
    rows = [['Section', 'DeclaredSections'], ['DeclareSection', 'Things']]
    rows += [['Section', 'DeclaredTerms', 'Section', 'InheritsFrom', 'ChildPropertyType']]
    for t in tops:
        rows.append(['DeclareTerm', t, 'Things'])
        for k in set(child_kinds.values()):
            rows.append(['DeclareTerm', t + '.' + k, 'Things', '', 'sequence'])
    for k, s in kinds.items():
        rows.append(['DeclareTerm', k, 'Things', s])
    for k, s in child_kinds.items():
        for t in tops:
            rows.append(['DeclareTerm', t + '.' + k, 'Things', t + '.' + s])
    return rows


class CHECK(core.Check):
    id = 'C19'
    quick_cases, thorough_cases = 9000, 120000
    rule = ('a case is a history of registrations and unregistrations (as classes and dotted names), of documents that are parsed and of terms that are created, with declared kinds of terms; '
            'distinct by content, non-trivial if something is registered')
    needs = ('compare:parsed', 'compare:new-term', 'compare:new-child', 'registered', 'unregistered', 'unregistered-unknown', 'by-name', 'by-class', 'type:direct', 'type:inherited', 'type:base',
             'type:direct-over-inherited', 'type:two-levels', 'with-declaration', 're-registered', 'new-documents')
    assumptions = ('a term in a parsed document is judged if its row is written with that name, not with a leading dot, a synonym, or as a cell',)

    def gen(self, rng, i, tier):
        kinds = {k: v for k, v in KINDS.items() if rng.random() < 0.7}
        if 'Special' not in kinds:
            kinds.pop('Deeper', None)
        ckinds = {k: v for k, v in CHILD_KINDS.items() if rng.random() < 0.6}
        names = ['Root.' + t for t in TOPS + list(KINDS)] + [t + '.' + k for t in TOPS[:3] for k in KIDS + list(CHILD_KINDS)]
        hot = rng.sample(names, 5) + ['Root.Alpha', 'Root.Special', 'Alpha.Column', 'Alpha.Geo', 'Root.Beta']
        ops, docs = [], 0
        for _ in range(rng.randint(2, 14)):
            x = rng.random()
            if x < 0.4:
                ops.append(['register', gen.recase(rng, rng.choice(hot)), rng.randint(0, 4), rng.choice(['class', 'name']), rng.choice(['doc', 'parser'])])
            elif x < 0.55:
                ops.append(['unregister', gen.recase(rng, rng.choice(hot + ['Root.Never', 'x.y']))])
            elif x < 0.75 or not docs:
                rows, seen = [], []
                for _ in range(rng.randint(1, 10)):
                    y = rng.random()
                    if y < 0.12:
                        rows.append(['Section', rng.choice(['Things', 'Other']), 'H1', 'H2'])
                    elif y < 0.5 or not seen:
                        t = rng.choice(TOPS + list(kinds))
                        rows.append([gen.recase(rng, rng.choice(['', 'Root.']) + t), 'v', 'c1', 'c2'][:rng.randint(2, 4)])
                        seen.append(t)
                    elif y < 0.9:
                        rows.append([gen.recase(rng, rng.choice(seen) + '.' + rng.choice(KIDS + list(ckinds))), 'k'])
                    else:
                        rows.append(['.' + rng.choice(KIDS), 'e'])
                ops.append(['parse', rows, rng.random() < 0.7, rng.choice(['arg', 'row', 'empty', 'load', 'later'])])
                docs += 1
            elif x < 0.88:
                ops.append(['new_term', rng.randint(0, 9), gen.recase(rng, rng.choice(['', 'Root.']) + rng.choice(TOPS + list(KINDS))), rng.choice(['new', 'get_or_new', 'set_terms', 'item']),
                            rng.sample(KIDS, rng.randint(0, 2))])
            else:
                ops.append(['new_child', rng.randint(0, 9), rng.randint(0, 99), gen.recase(rng, rng.choice(KIDS + list(CHILD_KINDS))), rng.choice(['new', 'get_or_new', 'item'])])
        return {'kinds': kinds, 'ckinds': ckinds, 'ops': ops}

    def trivial(self, case):
        return not any(o[0] == 'register' for o in case['ops'])

    def execute(self, case, obs):
        saved = dict(TermParser.term_classes)
        try:
            with live.workdir() as d:
                self.decl = os.path.join(d, 'decl.csv')
                live.write_csv(self.decl, decl_rows(case['kinds'], case['ckinds'], TOPS[:3]))
                self.reg, self.docs = {}, []
                sup = {('root.' + k).lower(): ('root.' + v).lower() for k, v in case['kinds'].items()}
                sup.update({(t + '.' + k).lower(): (t + '.' + v).lower() for t in TOPS[:3] for k, v in case['ckinds'].items()})
                self.sup = sup
                for op in case['ops']:
                    getattr(self, 'op_' + op[0])(obs, *op[1:])
        finally:
            TermParser.term_classes.clear()
            TermParser.term_classes.update(saved)

    def expected(self, q, declared, obs):
        q = q.lower()
        s = self.sup.get(q) if declared else None
        if q in self.reg:
            obs.ev('type:direct')
            if s in self.reg and self.reg[s] is not self.reg[q]:
                obs.ev('type:direct-over-inherited')
            return self.reg[q]
        if s in self.reg:
            obs.ev('type:inherited')
            return self.reg[s]
        if s is not None and self.sup.get(s) in self.reg:
            obs.ev('type:two-levels')
        obs.ev('type:base')
        return Term

    def cmp(self, obs, kind, t, q, declared):
        exp = self.expected(q, declared, obs)
        obs.eq(kind, type(t).__name__, exp.__name__, 'the class of the {} {!r}'.format(kind, q))

    def op_register(self, obs, name, k, how, via):
        c = termclasses.ALL[k % len(termclasses.ALL)]
        if name.lower() in self.reg:
            obs.ev('re-registered')
        (MetatabDoc if via == 'doc' else TermParser).register_term_class(name, c if how == 'class' else 'vmon.termclasses.' + c.__name__)
        self.reg[name.lower()] = c
        obs.ev('registered')
        obs.ev('by-class' if how == 'class' else 'by-name')
        obs.state(tuple(sorted((k, v.__name__) for k, v in self.reg.items())))

    def op_unregister(self, obs, name):
        obs.ev('unregistered' if name.lower() in self.reg else 'unregistered-unknown')
        TermParser.unregister_term_class(name)
        self.reg.pop(name.lower(), None)

    def op_parse(self, obs, rows, declared, how):
        by = {}
        if how in ('empty', 'load', 'later'):
            # A new document, with the declarations passed in, or in rows that are loaded
            off, doc = 0, MetatabDoc(**({'decl': self.decl} if declared and how != 'later' else {}))
            if declared and how == 'later':
                off, rows = 1, [['Declare', self.decl]] + rows
                doc.load_rows(live.MetatabRowGenerator(rows))
                rows = rows[1:]
            elif how == 'load':
                doc.load_rows(live.MetatabRowGenerator(rows))
            else:
                rows = []
                obs.ev('new-documents')
        elif declared and how == 'row':
            off, doc = 1, live.from_rows([['Declare', self.decl]] + rows)
        else:
            off, doc = 0, live.from_rows(rows, **({'decl': self.decl} if declared else {}))
        if declared:
            obs.ev('with-declaration')
        for t in live.all_live(doc):
            if t.col == 1:
                by[t.row] = t
        for i, r in enumerate(rows, 1 + off):
            n = r[0].strip()
            if n.lower() == 'section' or n.startswith('.'):
                continue
            q = n if '.' in n else 'root.' + n
            self.cmp(obs, 'parsed', by[i], q, declared)
            for c in by[i].children:
                if c.col is not None and c.col > 1 and self.expected(c.join_lc, declared, obs) is Term:
                    self.cmp(obs, 'cell', c, c.join_lc, declared)
        self.docs.append((doc, declared))

    def op_new_term(self, obs, i, name, how, props):
        if not self.docs:
            return
        doc, declared = self.docs[i % len(self.docs)]
        s = list(doc)[i % len(list(doc))]
        had = [id(t) for t in doc.terms]
        if how == 'new':
            s.new_term(name, 'x', **{p.lower(): 'pv' for p in props})
        elif how == 'get_or_new':
            s.get_or_new_term(name, 'unique value %d' % len(had), **{p.lower(): 'pv' for p in props})
        elif how == 'item':
            s[name] = 'value %d' % len(had)
        else:
            s.set_terms(**{name.split('.')[-1]: 'sv'})
        for t in doc.terms:
            if id(t) not in had:
                rec = name.split('.')[-1]
                self.cmp(obs, 'new-term', t, 'root.' + rec, declared)
                for c in t.children:
                    self.cmp(obs, 'new-child', c, rec + '.' + c.record_term_lc, declared)

    def op_new_child(self, obs, i, j, name, how):
        if not self.docs:
            return
        doc, declared = self.docs[i % len(self.docs)]
        ts = [t for t in live.all_live(doc) if t.parent_term_lc == 'root' and t.record_term_lc not in ('declare', 'include')]
        if not ts:
            return
        t = ts[j % len(ts)]
        had = [id(c) for c in t.children]
        full = t.record_term + '.' + name if j % 3 == 0 else name
        if how == 'new':
            t.new_child(full, 'x')
        elif how == 'get_or_new':
            t.get_or_new_child(full, 'x') if j % 2 else t.get_or_new_child(full)
        else:
            t[name] = 'x'
        for c in t.children:
            if id(c) not in had:
                self.cmp(obs, 'new-child', c, t.record_term_lc + '.' + name, declared)
