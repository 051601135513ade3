"""C12: property access is coherent"""
import keyword
from .. import core, gen, live, parsecheck
from ..live import Term
import os

NAMES = ['Email', 'Url', 'Name', 'Description', 'Schema', 'Width', 'Prop', 'Leaf', 'Two Words', 'Y_z', 'H1', 'Section', 'Term', 'Rows', 'Key', 'Title', 'Datatype',
         'x', 'Value', 'Get', 'Doc', '0', '3', 'Café', 'Row', 'Column', 'Parent', 'Children', 'Args']
COMMON = ('url', 'name', 'description', 'schema')
ATTRS = set(dir(Term)) | {'parent', '_term', '_orig_term', 'value', 'args', '_section', 'doc', '_doc', 'file_name', 'file_type', 'row', 'col', 'term_value_name',
                          'child_property_type', 'valid', 'options', 'children', 'parent_term', 'record_term', '_Term__initialised'}


class CHECK(core.Check):
    id = 'C12'
    quick_cases, thorough_cases = 6000, 80000
    rule = ('a case is a document and a history of property writes and removals; after each one the term is read by every route, and all other terms are compared; '
            'distinct by content, non-trivial if it has a write')
    needs = ('op:item', 'op:attr', 'op:none', 'op:own', 'op:own-attr', 'read:absent', 'read:common-absent', 'read:present', 'read:attr', 'compare:others', 'rendered', 'as-dict',
             'duplicates-seen', 'op:attr-none', 'updated', 'created', 'op:free-attr', 'read:number', 'padded')
    assumptions = ('attributes are set only for names among the headings of the term\'s section that are identifiers and no attributes of the Term class',
                   'values are not blank')

    def gen(self, rng, i, tier):
        heads = rng.sample(NAMES, rng.randint(2, 8))
        rows = gen.row_doc(rng, n=rng.randint(1, 14), newlines=False, hostile=0.2, spaced=False, numeric=rng.random() < 0.2)
        for r in rows:
            if len(r) > 1 and str(r[0] or '').strip().lower() in ('section', 'header') and rng.random() < 0.8:
                r[2:] = [gen.recase(rng, h) for h in rng.sample(heads, rng.randint(1, len(heads)))]
        if rng.random() < 0.4:
            rows.insert(0, ['Header', rng.choice(['', 'Vname', 'Title', 'name', 'value'])] + rng.sample(heads, rng.randint(1, len(heads))))
        v = gen.Vals(rng, newlines=True, spaced=False, hostile=0.3)
        ops = []
        for _ in range(rng.randint(2, 20)):
            k = rng.choice(['item', 'item', 'item', 'attr', 'attr', 'none', 'attr-none', 'own', 'own-attr', 'value', 'child', 'read', 'free-attr'])
            val = v() if rng.random() < 0.9 else rng.choice([0, 7, 2.5, -1])
            if k != 'child' and rng.random() < 0.1:
                val = rng.choice([' {}', '{} ', '\t{}\n', '  {} ']).format(val)
            ops.append([k, rng.randint(0, 3) if rng.random() < 0.6 else rng.randint(0, 200), gen.recase(rng, rng.choice(heads + NAMES[:4])), val, rng.randint(0, 100)])
        decl = gen.decl_doc(rng, tops=rng.sample(gen.TOP, 4)) if rng.random() < 0.2 else None
        return {'rows': rows, 'ops': ops, 'decl': decl}

    def trivial(self, case):
        return not case['ops']

    def execute(self, case, obs):
        with live.workdir() as d:
            rows = list(case['rows'])
            if case.get('decl'):
                parsecheck.in_domain_decl(case['decl'])
                p = os.path.join(d, 'decl.csv')
                live.write_csv(p, case['decl'])
                rows = [['Declare', p]] + rows
            try:
                doc = live.from_rows(rows)
            except live.MetatabError:
                obs.ev('refused')
                return
            for op in case['ops']:
                terms = list(live.all_live(doc))
                if not terms:
                    return
                self.step(doc, terms, op, obs)

    # -- one operation ------------------------------------------------------------------------

    def step(self, doc, terms, op, obs):
        kind, i, name, value, salt = op
        t = terms[i % len(terms)]
        if t.record_term_lc in ('declare', 'include'):
            return
        vname = t.term_value_name
        kids = [(c, c.record_term_lc, c.value) for c in t.children]
        own = t.value
        others = [live.snap(x)[:-1] for x in terms if x is not t and x not in t.children] + [tuple(live.snap(g) for g in c.children) for c in t.children]
        heads = [str(h).lower() for h in t.section.property_names] if t.section is not None else []
        lname = name.lower()
        settable = lname in heads and name.isidentifier() and not keyword.iskeyword(name) and name not in ATTRS and lname not in ('value', vname.lower())
        first = next((k for k in kids if k[1] == lname), None)
        exp_kids, exp_own = [(c, n, v) for c, n, v in kids], own
        who = '{} of {}'.format(name, live.show(t))

        def set_prop(v):
            if first is not None:
                k = exp_kids.index(first)
                if v is None:
                    del exp_kids[k]
                    obs.ev('removed')
                else:
                    exp_kids[k] = (first[0], lname, v)
                    obs.ev('updated')
            elif v is not None:
                exp_kids.append((None, lname, v))
                obs.ev('created')

        if isinstance(value, str) and value != value.strip():
            obs.ev('padded')
        if kind in ('item', 'none'):
            if lname in (vname.lower(), 'value'):
                kind = 'own'
            else:
                v = value if kind == 'item' else None
                t[name] = v
                set_prop(v)
        if kind in ('attr', 'attr-none'):
            if not settable:
                return
            v = value if kind == 'attr' else None
            setattr(t, name, v)
            set_prop(v)
        elif kind == 'own':
            n = [vname, gen.upper(vname), 'value', 'Value'][salt % 4]
            t[n] = value
            exp_own = value
        elif kind == 'own-attr':
            n = [vname, gen.title(vname), gen.upper(vname)][salt % 3]
            if not n.isidentifier() or n in ATTRS or keyword.iskeyword(n):
                return
            setattr(t, n, value)
            exp_own = value
            obs.eq('own-attr', getattr(t, n), value, 'attribute {} of {}'.format(n, live.show(t)))
        elif kind == 'free-attr':
            n = ['free_attr', 'Zz', 'q_' + lname][salt % 3]
            if n.lower() in heads or not n.isidentifier() or n in ATTRS or n.lower() == vname.lower() or any(k[1] == n.lower() for k in kids) \
                    or any(c.record_term_lc == n.lower() for c in t.children):
                return
            setattr(t, n, value)              # No heading, so it is no property
            obs.eq('free-attr', getattr(t, n), value, 'attribute {} of {}'.format(n, live.show(t)))
            obs.true('free-attr', t.find_first(n) is None and n not in t, lambda: 'attribute {} of {} became a property'.format(n, live.show(t)))
            del t.__dict__[n]
        elif kind == 'value':
            t.value = value
            exp_own = value
        elif kind == 'child':
            if lname in (vname.lower(), 'value'):
                return
            c = t.get_or_new_child(name, value)
            if first is not None:
                obs.true('same-child', c is first[0], lambda: 'getting the existing child {} gave another'.format(who))
            set_prop(value)
        obs.ev('op:' + kind)

        # What changed, and nothing else
        obs.eq('value', t.value, exp_own, 'own value after {} {}'.format(kind, who))
        got = [(c.record_term_lc, c.value) for c in t.children]
        obs.eq('children', got, [(n, v) for _, n, v in exp_kids], 'properties after {} {}'.format(kind, who))
        for c, (e, _, _) in zip(t.children, exp_kids):
            obs.true('identity', e is None or c is e, lambda: 'a property of {} was replaced by another term'.format(live.show(t)))
        terms2 = list(live.all_live(doc))
        keep = [c for c in [k[0] for k in kids] if any(c is x for x in t.children)]
        now = [live.snap(x)[:-1] for x in terms2 if x is not t and x not in t.children] + [tuple(live.snap(g) for g in c.children) for c in t.children]
        if len(keep) == len(kids) == len(t.children):
            obs.eq('others', now, others, 'other terms after {} {}'.format(kind, who))
        else:
            a, b = set(map(repr, others)), set(map(repr, now))
            obs.events['compare:others'] += 1
            if kind not in ('none', 'attr-none') and not a <= b:
                obs.fail('others', 'another term changed after {} {}: {}'.format(kind, who, sorted(a - b)[:1]))
        for n in {lname, vname.lower(), 'email', 'url', 'nosuch'} | set(COMMON):
            self.read(doc, t, n, obs, salt)
        self.render(doc, t, lname, obs)
        obs.state((kind, len(kids), first is not None, lname in heads))

    # -- reading by every route ---------------------------------------------------------------

    def read(self, doc, t, lname, obs, salt):
        vname = t.term_value_name.lower()
        for n in ('value', 'Value', 'VALUE'):
            obs.true('membership', n in t, lambda: '{} is not reported as a property of {}'.format(n, live.show(t)))
        kid_names = [c.record_term_lc for c in t.children]
        heads = [str(h).lower() for h in t.section.property_names]
        for n in [h for h in heads if h] + [vname]:
            obs.true('all-props-keys', n in t.all_props, lambda: 'the heading {} of {} is not in all_props'.format(n, live.show(t)))
        if vname not in kid_names:
            obs.eq('all-props-value', t.all_props[vname], t.value, 'the value name {} in all_props of {}'.format(vname, live.show(t)))
        for c in t.children:
            if c.record_term_lc.isdigit() and kid_names.index(c.record_term_lc) == t.children.index(c) and c.record_term_lc != vname:
                obs.true('number', t[int(c.record_term_lc)] is c or str(int(c.record_term_lc)) != c.record_term_lc,
                         lambda: 'item {} of {} by number'.format(c.record_term_lc, live.show(t)))
                obs.ev('read:number')
        if lname == vname or lname == 'value':
            if lname == vname:
                for n in (t.term_value_name, gen.upper(t.term_value_name), gen.title(t.term_value_name)):
                    obs.true('own-item', t[n] is t, lambda: 'item {} of {} is not the term itself'.format(n, live.show(t)))
                    obs.eq('own-get', t.get_value(n), t.value, 'get_value({})'.format(n))
            return
        same = [c for c in t.children if c.record_term_lc == lname]
        variants = [lname, gen.upper(lname), gen.title(lname)]
        who = '{} of {}'.format(lname, live.show(t))
        if same:
            v = same[0].value
            for n in variants:
                if n.lower() != lname:
                    continue
                obs.true('item', t[n] is same[0], lambda: 'item ' + who)
                obs.eq('get-value', t.get_value(n, 'dflt'), v, 'get_value of ' + who)
                obs.true('get', t.get(n, 'dflt') is same[0], lambda: 'get of ' + who)
                obs.true('find-first', t.find_first(n) is same[0], lambda: 'find_first of ' + who)
                obs.eq('find-first-value', t.find_first_value(n), v, 'find_first_value of ' + who)
                obs.eq('find-value', t.find_value(n), v, 'find_value of ' + who)
                obs.true('membership', n in t, lambda: '{} is not reported as a property'.format(who))
                if n.isidentifier() and n not in ATTRS:
                    obs.eq('attr', getattr(t, n), v, 'attribute ' + who)
                    obs.ev('read:attr')
            if len(same) == 1:
                obs.eq('props', t.props.get(lname, 'absent'), v, 'props of ' + who)
                obs.eq('all-props', t.all_props.get(lname, 'absent'), v, 'all_props of ' + who)
            else:
                obs.ev('duplicates-seen')
            obs.ev('read:present')
        else:
            for n in variants:
                if n.lower() != lname:
                    continue
                d = object()
                obs.true('absent', t.get(n, d) is d and t.get(n) is None, lambda: 'get of the absent {} is not the default'.format(who))
                obs.true('absent', t.get_value(n, d) is d and t.get_value(n) is None, lambda: 'get_value of the absent {} is not the default'.format(who))
                obs.true('absent', t.find_first(n) is None and t.find_first_value(n) is None and list(t.find(n)) == [], lambda: 'the absent {} is found'.format(who))
                obs.eq('membership', n in t, lname in COMMON, 'membership of the absent ' + who)
                try:
                    t[n]
                except KeyError:
                    pass
                else:
                    obs.fail('absent', 'the item {} is absent, and there is no KeyError'.format(who))
                if n.isidentifier() and n not in ATTRS:
                    if lname in COMMON:
                        obs.true('common', getattr(t, n) is None, lambda: 'the absent common property {} is not None'.format(who))
                        obs.ev('read:common-absent')
                    else:
                        obs.true('absent', not hasattr(t, n), lambda: 'the absent {} is an attribute'.format(who))
            obs.true('absent', lname not in t.props, lambda: 'the absent {} is in props'.format(who))
            obs.true('absent', not str(t.all_props.get(lname) or '').strip(), lambda: 'the absent {} has the value {!r} in all_props'.format(who, t.all_props.get(lname)))
            obs.ev('read:absent')
        obs.eq('props', sorted(t.props), sorted(set(c.record_term_lc for c in t.children)), 'keys of props')

    def render(self, doc, t, lname, obs):
        same = [c for c in t.children if c.record_term_lc == lname]
        if len(same) != 1 or same[0].value is None or same[0].children:
            return
        v = same[0].value
        cells = [c for r in doc.rows for c in r]
        obs.true('rendered', v in cells, lambda: 'the value {!r} of {} is not among the rows'.format(v, lname))
        obs.ev('rendered')
        if same[0].child_property_type in ('any', 'scalar') and lname not in (t.term_value_name.lower(), '@value'):
            obs.eq('as-dict', t.as_dict()[lname], v, 'as_dict of {}'.format(live.show(t)))
            obs.ev('as-dict')
