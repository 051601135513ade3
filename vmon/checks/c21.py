"""C21: data package conversion covers exactly the described data files"""
import json
from .. import core, edits, gen, live
from ..model import norm
from .c07 import diff, group, of_live
from metatab.datapackage import convert_to_datapackage
from metatab.exc import ConversionError

TYPES = {'str': 'string', 'text': 'string', 'unicode': 'string', 'int': 'integer', 'float': 'number'}


def prop(t, name):
    """A property, or the value of a term whose value has that name"""
    if t.term_value_name.lower() == name:
        return norm(t.value)
    return next((norm(c.value) for c in t.children if c.record_term_lc == name), None)


def section(doc, name):
    return next((s for s in doc if s.name.lower() == name), None)


class CHECK(core.Check):
    id = 'C21'
    quick_cases, thorough_cases = 12000, 150000
    rule = 'a case is a document with tables and data files, perhaps under the standard declaration, converted after parsing and after edits; distinct by content, non-trivial if it has a data file'
    needs = ('compare:resources', 'compare:fields', 'compare:root', 'by-name', 'by-table', 'left-out', 'refused:no-name', 'refused:no-schema', 'name-from-identifier', 'converted', 'declared',
             'after-edit', 'typed:translated', 'typed:kept', 'typed:none', 'path:url', 'path:value', 'no-resources', 'identity-section', 'columns')
    assumptions = ('table names are unique; data files are in the Resources section and tables in the Schema section',)

    def gen(self, rng, i, tier):
        root = gen.name_rows(rng, name=rng.choice([0, 0.5, 1]), identifier=rng.choice([0, 0.5, 1]), version=0.3)
        rows = gen.package_rows(rng, root=root, schema=rng.random() < 0.95, resources=rng.random() < 0.95)
        if rng.random() < 0.08:
            rows += [['Section', 'Identity']] + [['Name', 'from-identity']] * rng.randint(0, 1) + [['Group', 'g']]
        if rng.random() < 0.3:
            for r in rows:
                if r[0] in ('Table.Column', '.Column', 'Table.column') and rng.random() < 0.3:
                    r[1] = rng.choice(['Näme', 'two words', 'a.b', 'x,y', 'UPPER', '3'])
        decl = rng.random() < 0.25
        ops = []
        for _ in range(rng.choice([0, 0, 1, 3])):
            ops.append(rng.choice([['file', rng.randint(0, 9), rng.randint(0, 4)], ['column', rng.randint(0, 9), rng.choice(gen.TYPES)], ['drop', rng.randint(0, 9)], ['type', rng.randint(0, 20), rng.choice(gen.TYPES)],
                                   ['name', rng.choice(['', 'new-name'])], ['reorder'], ['table', 'extra{}'.format(rng.randint(0, 3))]]))
        return {'rows': rows, 'decl': decl, 'ops': ops}

    def trivial(self, case):
        return not any(str(r[0]).lower().endswith('datafile') for r in case['rows'] if r)

    def execute(self, case, obs):
        rows = list(case['rows'])
        if case['decl']:
            rows = [['Declare', 'metatab-latest']] + rows
            obs.ev('declared')
        try:
            doc = live.from_rows(rows) if rows else live.MetatabDoc()
        except live.MetatabError:
            raise core.Skip()
        self.convert(doc, obs)
        for op in case['ops']:
            try:
                self.edit(doc, op)
            except core.CpuLimit:
                raise
            except Exception:
                raise core.Skip()
            obs.ev('after-edit')
            self.convert(doc, obs)

    def edit(self, doc, op):
        files = [t for t in doc.terms if t.record_term_lc == 'datafile']
        tables = [t for t in doc.terms if t.record_term_lc == 'table']
        if op[0] == 'file':
            doc.get_or_new_section('Resources', ['Name', 'Url']).new_term('Datafile', 'new{}.csv'.format(op[1]), name='t{}'.format(op[2]))
        elif op[0] == 'column' and tables:
            tables[op[1] % len(tables)].new_child('Column', 'added', datatype=op[2])
        elif op[0] == 'drop' and files:
            doc.remove_term(files[op[1] % len(files)])
        elif op[0] == 'type' and tables:
            cs = [c for t in tables for c in t.children if c.record_term_lc == 'column']
            if cs:
                cs[op[1] % len(cs)].get_or_new_child('datatype', op[2])
        elif op[0] == 'name':
            doc['Root'].get_or_new_term('Name').value = op[1]
        elif op[0] == 'reorder':
            for s in doc:
                s.sort_by_term()
        elif op[0] == 'table':
            if not any(norm(t.value) == op[1] for t in tables):
                doc.get_or_new_section('Schema').new_term('Table', op[1]).new_child('Column', 'c')

    def convert(self, doc, obs):
        schema, resources, ident = section(doc, 'schema'), section(doc, 'resources'), section(doc, 'identity')
        root = group([of_live(t, doc) for t in live.own(section(doc, 'root').terms)], True)
        if ident is not None:
            root.update(group([of_live(t, doc) for t in live.own(ident.terms)], True))
            root.setdefault(ident.term_value_name.lower(), ident.name)
            obs.ev('identity-section')
        tables = [(norm(t.value), t) for t in live.own(schema.terms) if t.record_term_lc == 'table'] if schema is not None else []
        if len(dict(tables)) != len(tables):
            raise core.Skip()
        tables = dict(tables)
        named, by_id = root.get('name'), root.get('identifier')
        if isinstance(named, (list, dict)) or isinstance(by_id, (list, dict)):
            raise core.Skip()
        try:
            dp = convert_to_datapackage(doc)
        except ConversionError:
            obs.true('refused', not (named or by_id) or schema is None, 'a document with a name and a schema is refused')
            obs.ev('refused:no-name' if not (named or by_id) else 'refused:no-schema')
            return
        obs.true('refused', bool(named or by_id), 'a document with neither a name nor an identifier is converted')
        obs.true('refused', schema is not None, 'a document without a schema is converted')
        if not named:
            obs.ev('name-from-identifier')
        obs.eq('name', dp.get('name'), named or by_id, 'the name of the package')
        json.dumps(dp)

        # Resources
        files = [t for t in live.own(resources.terms) if t.record_term_lc == 'datafile'] if resources is not None else []
        if resources is None:
            obs.ev('no-resources')
        exp = []
        for f in files:
            name, table = prop(f, 'name'), prop(f, 'table')
            if name in tables:
                obs.ev('by-name')
                exp.append((f, name, tables[name]))
            elif table in tables:
                obs.ev('by-table')
                exp.append((f, name, tables[table]))
            else:
                obs.ev('left-out')
        got = dp['resources']
        obs.eq('resources', [norm(r['name']) for r in got], [n for _, n, _ in exp], 'the names of the resources')
        for r, (f, name, table) in zip(got, exp):
            url = prop(f, 'url')
            obs.ev('path:url' if url is not None and f.term_value_name.lower() != 'url' else 'path:value')
            obs.eq('path', norm(r['path']), url if url is not None else norm(f.value), 'the path of resource {!r}'.format(name))
            cols = [c for c in table.children if c.record_term_lc == 'column']
            fields = r['schema']['fields']
            obs.eq('fields', len(fields), len(cols), 'number of fields of resource {!r}'.format(name))
            for fd, c in zip(fields, cols):
                obs.ev('columns')
                dt = prop(c, 'datatype')
                obs.ev('typed:none' if dt is None else 'typed:translated' if dt in TYPES else 'typed:kept')
                e = {'name': prop(c, 'name') or norm(c.value), 'type': TYPES.get(dt, dt), 'title': prop(c, 'title'), 'description': prop(c, 'description')}
                obs.true('field-keys', not any(k in fd and e[k] is None for k in ('title', 'description')),
                         lambda: 'field {!r} of resource {!r} has a title or description that the column does not have: {}'.format(norm(c.value), name, fd))
                obs.eq('fields', {k: norm(fd.get(k)) for k in e}, e, 'field {!r} of resource {!r}'.format(norm(c.value), name))
        # Root terms
        want = {k: v for k, v in root.items() if k not in ('name', 'resources')}
        have = {k: v for k, v in dp.items() if k not in ('name', 'resources', '@value')}
        if '@value' in want:
            want.pop('@value')
        obs.events['compare:root'] += 1
        r = diff(have, want)
        if r:
            obs.fail('root', 'the root terms of the package at ' + r)
        obs.ev('converted')
        obs.state(core.digest(repr(dp)))
