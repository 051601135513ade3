"""C24: editing headings and cleaning up the schema never change the data"""
from .. import canon, core, edits, gen, live
from ..model import norm

NAMES = ['Title', 'Datatype', 'Description', 'Width', 'Name', 'Note', 'Altname', 'Two Words', 'x_extra', 'Value', 'Url', 'µg/l', 'Größe', 'ßx']


def without_headings(doc, sec):
    s = live.snapshot(doc)
    for k, x in enumerate(s['sections']):
        if x[0] == sec:
            s['sections'][k] = x[:3] + x[4:]
    return s


class CHECK(core.Check):
    id = 'C24'
    quick_cases, thorough_cases = 8000, 100000
    rule = ('a case is a document with a schema, and a history of edits of headings, properties and clean-ups; the full state is compared after each; distinct by content, '
            'non-trivial if it has an edit')
    needs = ('compare:state', 'compare:headings', 'added', 'added-again', 'prepended', 'removed', 'removed-absent', 'cleaned', 'cleaned-removed', 'cleaned-added', 'cleaned-properties', 'kept-zero',
             'no-schema', 'compare:second', 'compare:reread', 'header-rows', 'other-sections')
    assumptions = ('what the headings become is judged for sections whose headings are not given by a Header row',)

    def gen(self, rng, i, tier):
        rows = gen.package_rows(rng)
        if rng.random() < 0.1:
            rows = [r for r in rows if str(r[1]).lower() != 'schema' and not r[0].lower().startswith(('table', '.col', 'column'))]
        if rng.random() < 0.1:
            k = [j for j, r in enumerate(rows) if r[0] == 'Section' and r[1].lower() == 'schema']
            if k:
                rows.insert(k[0] + 1, ['Header', rng.choice(['', 'Name'])] + rng.sample(NAMES, 3))
        if rng.random() < 0.15:                          # Tables of the same name, or without one
            name = rng.choice(['t', '', 't0'])
            for r in rows:
                if r[0] == 'Table' and rng.random() < 0.8:
                    r[1] = name
        if rng.random() < 0.2:
            rows += [['Section', 'Other'] + rng.sample(NAMES, 2), ['Table', 't', 'a', 'b'], ['Table.Column', 'c', '', 'z'], ['Thing', 'x', 'y']]
        if rng.random() < 0.15:                          # The same heading twice
            for r in rows:
                if r[0] == 'Section' and len(r) > 2 and rng.random() < 0.5:
                    r.append(gen.recase(rng, rng.choice(r[2:])))
        v = gen.Vals(rng, newlines=False, spaced=False, long=False, hostile=0.2)
        ops = []
        for _ in range(rng.choice([1, 3, 6, 12, 20])):
            x = rng.random()
            if x < 0.2:
                ops.append(['add', rng.randint(0, 9), gen.recase(rng, rng.choice(NAMES)), rng.random() < 0.4])
            elif x < 0.4:
                ops.append(['remove', rng.randint(0, 9), gen.recase(rng, rng.choice(NAMES))])
            elif x < 0.65:
                ops.append(['clean'])
            elif x < 0.9:
                ops.append(['prop', rng.randint(0, 99), rng.choice(NAMES), rng.choice([v(), v(), '', ' ', None, 0, 7, 2.5, '0'])])
            elif x < 0.95:
                ops.append(['child', rng.randint(0, 99), rng.choice(NAMES), rng.choice([v(), '', None])])
            else:
                ops.append(['grandchild', rng.randint(0, 99), rng.choice(['Unit', 'Name'])])
        ops.append(['clean'])
        return {'rows': rows, 'ops': ops}

    def trivial(self, case):
        return not case['ops']

    def execute(self, case, obs):
        doc = live.from_rows(case['rows'])
        for op in case['ops']:
            getattr(self, 'op_' + op[0])(doc, obs, *op[1:])
        if not edits.same_named_nesting(doc):
            c = canon.canon(doc)
            again = live.from_csv_text(doc.as_csv())
            obs.events['compare:reread'] += 1
            if canon.canon(again) != c:
                obs.fail('reread', 'the document reads back differently after edits of the headings: ' + canon.diff(canon.canon(again), c))

    # -- edits of properties: the workload --
    def columns(self, doc):
        s = doc.get_section('Schema', None)
        return [c for t in (s.terms if s is not None else []) if t.record_term_lc == 'table' for c in t.children if c.record_term_lc == 'column']

    def op_prop(self, doc, obs, i, name, value):
        cs = self.columns(doc)
        if cs:
            c = cs[i % len(cs)]
            k = next((x for x in c.children if x.record_term_lc == name.lower()), None)
            if k is not None:
                k.value = value
            else:
                c.new_child(name, 'x').value = value

    def op_child(self, doc, obs, i, name, value):
        cs = self.columns(doc)
        if cs:
            cs[i % len(cs)].new_child(name, value)

    def op_grandchild(self, doc, obs, i, name):
        cs = [k for c in self.columns(doc) for k in c.children]
        if cs:
            cs[i % len(cs)].new_child(name, 'gc')

    # -- the edits that are judged --
    def sec(self, doc, i):
        s = list(doc)
        return s[i % len(s)]

    def compare(self, doc, obs, sec, before, what):
        obs.events['compare:state'] += 1
        after = without_headings(doc, sec)
        for k in before:
            if before[k] != after[k]:
                obs.fail('state', '{} changed the {} of the document: {}'.format(what, k, core.first_diff(after[k], before[k]) if isinstance(before[k], list) else ''))
        obs.ev('other-sections', len(before['sections']) > 1)

    def heads(self, obs, s, expected, what):
        if s.header_args:
            obs.ev('header-rows')
            return
        obs.eq('headings', live.lheads(s), expected, 'headings of section {} after {}'.format(s.name, what))
        obs.state(tuple(expected))

    def op_add(self, doc, obs, i, name, prepend):
        s = self.sec(doc, i)
        old = [a.strip().lower() for a in s.args if a.strip()]
        before = without_headings(doc, s.name.lower())
        s.add_arg(name, prepend) if prepend else s.add_arg(name)
        what = 'adding the heading {}'.format(name)
        self.compare(doc, obs, s.name.lower(), before, what)
        n = name.lower()
        obs.ev('added-again' if n in old else 'prepended' if prepend else 'added')
        self.heads(obs, s, old if n in old else [n] + old if prepend else old + [n], what)

    def op_remove(self, doc, obs, i, name):
        s = self.sec(doc, i)
        old = [a.strip().lower() for a in s.args if a.strip()]
        before = without_headings(doc, s.name.lower())
        s.remove_arg(name)
        what = 'removing the heading {}'.format(name)
        self.compare(doc, obs, s.name.lower(), before, what)
        obs.ev('removed' if name.lower() in old else 'removed-absent')
        self.heads(obs, s, [a for a in old if a != name.lower()], what)

    def op_clean(self, doc, obs):
        s = doc.get_section('Schema', None)
        before = without_headings(doc, 'schema')
        if s is None:
            doc.clean_unused_schema_terms()
            obs.ev('no-schema')
            self.compare(doc, obs, 'schema', before, 'cleaning up the schema of a document without one')
            return
        old = [a.strip().lower() for a in s.args if a.strip()]
        used, drop = [], {}
        for c in self.columns(doc):
            for k in c.children:
                if norm(k.value) is not None:
                    if k.record_term_lc not in used:
                        used.append(k.record_term_lc)
                    if k.value == 0:
                        obs.ev('kept-zero')
                elif not k.children:
                    drop.setdefault(id(c), []).append(id(k))
        doc.clean_unused_schema_terms()
        obs.ev('cleaned')
        after = without_headings(doc, 'schema')

        def pruned(x):
            """The snapshot of a term without the empty properties of columns"""
            d = drop.get(x[0], ())
            return x[:-1] + (tuple(pruned(k) for k in x[-1] if k[0] not in d),)
        for k, x in enumerate(before['sections']):
            if x[0] == 'schema':
                before['sections'][k] = x[:5] + (tuple(pruned(t) for t in x[5]),) + x[6:]
        obs.events['compare:state'] += 1
        for k in before:
            if before[k] != after[k]:
                obs.fail('state', 'cleaning up the schema changed the {} of the document: {}'.format(
                    k, core.first_diff(after[k], before[k]) if isinstance(before[k], list) else ''))
        exp = [a for a in old if a in used] + [u for u in used if u not in old]
        obs.ev('cleaned-removed', any(a not in used for a in old))
        obs.ev('cleaned-added', any(u not in old for u in used))
        obs.ev('cleaned-properties', bool(drop))
        self.heads(obs, s, exp, 'cleaning up the schema')
        again = live.snapshot(doc)
        doc.clean_unused_schema_terms()
        obs.eq('second', live.snapshot(doc), again, 'the document after a second clean-up')
