"""C14: the dataset name is a deterministic, idempotent function of its parts"""
from .. import core, gen, live, naming
from ..model import norm

IDS = set()


class CHECK(core.Check):
    id = 'C14'
    quick_cases, thorough_cases = 12000, 120000
    rule = ('a case is a document with any of the parts of a name, and a history of updates and edits of the parts; distinct by content, '
            'non-trivial if it has an update')
    needs = ('compare:name', 'from-parts', 'kept', 'from-identifier', 'created-name', 'no-name-term', 'identifier-created', 'identifier-kept', 'compare:second', 'compare:others',
             'reported-change', 'reported-none', 'semver', 'decoys', 'decoy-names', 'forced', 'near-names')
    assumptions = ('Name, Dataset, Version and Identifier are written at most once in the root section, and each part has a letter or digit',)

    def gen(self, rng, i, tier):
        rows = gen.name_rows(rng, dataset=0.75, name=0.85)
        for _ in range(rng.randint(0, 4)):
            rows.insert(rng.randint(0, len(rows)), rng.choice([['Title', 'x'], ['Description', 'd'], ['Names', 'n'], ['DatasetName', 'dn'], ['Geo', 'g']]))
        decoy = [['Section', 'Other', 'Name', 'Version']] + [[rng.choice(['Origin', 'Time', 'Space', 'Grain', 'Variant', 'Thing', 'Name', 'Identifier', 'Version', 'Dataset']), 'decoy', 'nm', '9'] for _ in range(rng.randint(1, 3))]
        x = rng.random()
        if x < 0.25:
            rows = decoy + [['Section', 'Root']] + rows
        elif x < 0.5:
            rows = rows + decoy
        rows2 = []
        for r in rows:                      # Rows after a Version row must not become its children
            rows2.append(r)
        if rng.random() < 0.1:
            rows2.append(['Header', '', 'A'])
        ops = []
        for _ in range(rng.randint(1, 8)):
            x = rng.random()
            if x < 0.6:
                ops.append(['update', {k: True for k in ('force', 'create_term') if rng.random() < 0.25}, rng.random() < 0.75])
            elif x < 0.8:
                ops.append(['part', rng.choice(gen.PARTS + ['Version']), rng.choice(gen.PART_VALUES).strip() if rng.random() < 0.8 else None])
            elif x < 0.85:
                ops.append(['cleanse'])
            elif x < 0.9:
                ops.append(['ensure'])
            elif x < 0.95:
                ops.append(['name', rng.choice(['', None, 'other', 'X'])])
                if rng.random() < 0.6:
                    ops[-1] = ['nearname', rng.randint(0, 20)]
                    ops.append(['update', {}, True])
            else:
                ops.append(['drop', rng.choice(['Identifier', 'Name', 'Dataset'])])
        return {'rows': rows2, 'ops': ops}

    def trivial(self, case):
        return not case['ops']

    def execute(self, case, obs):
        doc = live.from_rows(case['rows'])
        for n in ('name', 'dataset', 'version', 'identifier'):
            if len([t for t in doc['Root'].terms if t.record_term_lc == n]) > 1:
                raise core.Skip()
        if any(t.section.name != 'Root' and t.record_term_lc in naming.ORDER for t in doc.terms):
            obs.ev('decoys')
        if any(t.section.name != 'Root' and t.record_term_lc in ('name', 'identifier') for t in doc.terms):
            obs.ev('decoy-names')
        for op in case['ops']:
            getattr(self, 'op_' + op[0])(doc, obs, *op[1:])

    def op_part(self, doc, obs, name, value):
        t = naming.root_first(doc, name.lower())
        if t is not None:
            t.value = value
        elif value is not None and name != 'Version':
            doc['Root'].new_term('Root.' + name, value)

    def op_name(self, doc, obs, value):
        t = naming.root_first(doc, 'name')
        if t is not None:
            t.value = value

    def op_nearname(self, doc, obs, k):
        """A name that is nearly what it should be"""
        t = naming.root_first(doc, 'name')
        if t is not None:
            kind, n = self.expected(doc, t)
            if kind == 'from-parts':
                near = [n + '-', '-' + n, n.upper(), n.title(), n.replace('-', '_'), n.replace('_', '-'), n.replace('.', ''), n[:-1], n + '1', n.rpartition('-')[0], n + ' ', n.replace('-', ' '), n[1:]]
                t.value = near[k % len(near)].strip() or None
                obs.ev('near-names')

    def op_drop(self, doc, obs, name):
        t = naming.root_first(doc, name.lower())
        if t is not None:
            doc.remove_term(t)

    def op_ensure(self, doc, obs):
        before = self.others(doc)
        old = naming.root_value(doc, 'identifier')
        doc.ensure_identifier()
        self.identifier(doc, old, obs)
        obs.eq('others', self.others(doc), before, 'other terms after ensuring the identifier')

    def op_cleanse(self, doc, obs):
        self.update(doc, obs, lambda: doc.cleanse(), {}, None)

    def op_update(self, doc, obs, kw, report):
        self.update(doc, obs, lambda: doc.update_name(report_unchanged=report, **kw), kw, report)

    # -- the oracle ---------------------------------------------------------------------------

    def others(self, doc):
        """Everything but the name, the identifier and the version"""
        out = []
        for s in doc:
            for t in s.terms:
                if s.name == 'Root' and t.record_term_lc in ('name', 'identifier'):
                    continue
                x = live.snap(t)
                if s.name == 'Root' and t.record_term_lc == 'version':
                    x = ('version', x[0], x[1], x[2], x[4:-1])
                out.append((s.name, x))
        return out

    def identifier(self, doc, old, obs):
        new = naming.root_value(doc, 'identifier')
        if old is not None:
            obs.eq('identifier', new, old, 'the identifier after an update')
            obs.ev('identifier-kept')
        else:
            obs.true('identifier', new is not None, 'an update made no identifier')
            obs.true('identifier-unique', new not in IDS, 'two documents got the same new identifier')
            IDS.add(new)
            obs.ev('identifier-created')
        obs.eq('one-identifier', sum(t.record_term_lc == 'identifier' for t in doc['Root'].terms), 1, 'number of identifiers')

    def expected(self, doc, term):
        """-> (kind, name)"""
        old = norm(term.value)
        if naming.root_value(doc, 'dataset') is not None:
            sv = naming.semver(doc)
            pre = naming.prefix(doc)
            v = naming.root_value(doc, 'version')
            if sv is not None:
                if 'build' in sv and sv['build'] is None:
                    raise core.Skip()
                if not naming.complete(sv):
                    return 'unknown', pre
                v = naming.render(sv)
            vals = pre + ([v] if v is not None else [])
            if not naming.parts_ok(vals):
                raise core.Skip()
            return 'from-parts', naming.join(vals)
        if old is None:
            return 'from-identifier', None
        return 'kept', old

    def update(self, doc, obs, call, kw, report):
        before = self.others(doc)
        term = naming.root_first(doc, 'name')
        old_id = naming.root_value(doc, 'identifier')
        old_name = norm(term.value) if term is not None else None
        old_version = naming.root_value(doc, 'version')
        if naming.semver(doc) is not None:
            obs.ev('semver')
        exp = self.expected(doc, term) if term is not None else None
        updates = call()
        self.identifier(doc, old_id, obs)
        obs.eq('others', self.others(doc), before, 'other terms after an update of the name')
        if naming.semver(doc) is None:
            obs.eq('version', naming.root_value(doc, 'version'), old_version, 'the version after an update of the name')
        new_term = naming.root_first(doc, 'name')
        if term is None:
            if not kw.get('create_term'):
                obs.true('no-name', new_term is None, 'an update created a name')
                obs.ev('no-name-term')
                if updates is not None:
                    obs.true('report', not any('Changed' in u or 'Setting' in u for u in updates), 'a change is reported without a name: {}'.format(updates))
                return
            obs.true('created-name', new_term is not None, 'an update with create_term made no name')
            obs.ev('created-name')
            term = new_term
            name = norm(term.value)
            term.value = ''
            exp = self.expected(doc, term)
            term.value = name
        obs.true('same-term', new_term is term, 'the name is another term after an update')
        new = norm(term.value)
        kind, name = exp
        if kind == 'from-identifier':
            name = naming.root_value(doc, 'identifier')
        if kind == 'unknown':
            obs.true('name', str(new).startswith(naming.join(name)), lambda: 'the name is {!r}, with the parts {!r}'.format(new, name))
        else:
            obs.eq('name', new, name, 'the name ({}) after an update'.format(kind))
            obs.ev(kind)
        obs.eq('one-name', sum(t.record_term_lc == 'name' for t in doc['Root'].terms), 1, 'number of names')
        changed = new != old_name
        if updates is not None and not kw.get('force'):
            says = any('Changed' in u or 'Setting' in u for u in updates)
            obs.eq('report', says, changed, 'report of a change of the name from {!r} to {!r}: {}'.format(old_name, new, updates))
            obs.ev('reported-change' if says else 'reported-none')
            if changed:
                obs.true('report', not any('did not change' in u for u in updates), lambda: 'the name changed, but the report is {}'.format(updates))
        if report is False and kind in ('from-parts', 'kept'):
            obs.true('report', not any('did not change' in u for u in updates), lambda: 'an unchanged name is reported, though that was not asked for: {}'.format(updates))
        if kw.get('force'):
            obs.ev('forced')
        obs.state((kind, changed, tuple(sorted(kw)), repr(name)))
        # Again
        all_before = live.snapshot(doc)
        again = doc.update_name()
        obs.eq('second', live.snapshot(doc), all_before, 'the document after a second update')
        obs.true('second', not any('Changed' in u or 'Setting' in u for u in again), lambda: 'the second update reports a change: {}'.format(again))
