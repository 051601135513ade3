"""Random edit histories, a mirror that says what each edit means, and the comparison of the two.

An operation is a list of JSON values; terms and sections are named by index (modulo the number there are), so any
sub-sequence of a history is also a history."""
from . import core, gen, live
from .model import norm

NAMES = ['Alpha', 'Beta', 'Gamma', 'Title', 'Note', 'Datafile', 'Two Words', 'Subroot', 'X']
KIDS = ['Prop', 'Leaf', 'Url', 'Deep', 'Column', 'Y_z', 'Key', 'Datatype', 'H1', 'H2', 'Email']
SECS = ['Resources', 'Schema', 'My Section', 'Contacts', 'Notes', 'S-1']


def new_value(rng, v):
    x = rng.random()
    return None if x < 0.06 else rng.choice([0, 7, 2.5]) if x < 0.1 else v()


def gen_ops(rng, n, v, weights=None, recase=lambda r, s: s):
    from .gen import headings
    ops = []
    kinds = ['new_section'] * 2 + ['get_or_new_section'] * 2 + ['del_section'] + ['new_term'] * 6 + ['get_or_new_term'] * 3 + ['set_terms'] * 1 \
        + ['sec_set'] * 1 + ['sec_del'] + ['clean'] + ['remove_term'] * 3 + ['move'] * 4 + ['readd'] * 2 + ['new_child'] * 6 + ['get_or_new_child'] * 3 \
        + ['remove_child'] * 3 + ['set_child'] * 3 + ['del_child'] * 2 + ['set_value'] * 2 + ['sort_terms'] * 2 + ['sort_sections'] * 2 \
        + ['add_arg'] + ['remove_arg'] + ['load'] * 1 + ['add_section'] * 2 + ['new_children'] + ['doc_add', 'remove_again', 'set_terms_gone', 'readd_child', 'add_nested'] * 1 + ['foreign'] * 2
    R = rng.randint

    def i():
        return R(0, 1000)

    def props():
        return {k: v() for k in rng.sample(['prop', 'leaf', 'key', 'h1', 'h2'], rng.choice([0, 0, 1, 2]))}
    for _ in range(n):
        k = rng.choice(kinds)
        if weights and k not in weights:
            continue
        if k in ('doc_add', 'remove_again', 'set_terms_gone', 'readd_child', 'add_nested'):
            ops.append([k, i(), i()])
        elif k == 'new_children':
            ops.append([k, i(), props()])
        elif k in ('new_section', 'get_or_new_section', 'add_section'):
            ops.append([k, recase(rng, rng.choice(SECS)), headings(rng, hi=4, blanks=0.05, pool=['H1', 'H2', 'Url', 'Email', 'Prop', 'Leaf'])])
        elif k in ('del_section', 'clean'):
            ops.append([k, i()])
        elif k in ('new_term', 'get_or_new_term'):
            val = new_value(rng, v)
            if k == 'get_or_new_term' and rng.random() < 0.5:
                val = False
            ops.append([k, i(), recase(rng, rng.choice(['', 'Root.']) + rng.choice(NAMES)), val, props()])
            if k == 'new_term' and rng.random() < 0.15:
                ops.append(list(ops[-1]))                # Its twin
        elif k == 'set_terms':
            ops.append([k, i(), {rng.choice(['Alpha', 'Beta', 'Gamma']): rng.choice([v(), 'ab', [v(), props()]]) for _ in range(R(1, 2))}])
        elif k == 'sec_set':
            ops.append([k, i(), recase(rng, rng.choice(NAMES)), v()])
        elif k == 'sec_del':
            ops.append([k, i(), recase(rng, rng.choice(NAMES))])
        elif k == 'remove_term':
            ops.append([k, i(), R(0, 1)])
        elif k == 'move':
            ops.append([k, i(), i(), R(0, 1)])
        elif k == 'readd':
            ops.append([k, i(), i()])
        elif k == 'new_child':
            ops.append([k, i(), rng.choice(KIDS), new_value(rng, v), props(), R(0, 1)])
            if rng.random() < 0.15:
                ops.append(list(ops[-1]))
        elif k == 'get_or_new_child':
            ops.append([k, i(), recase(rng, rng.choice(KIDS)), rng.choice([False, v(), v()]), R(0, 1), props() if rng.random() < 0.4 else {}])
        elif k == 'remove_child':
            ops.append([k, i(), R(0, 1)])
        elif k == 'set_child':
            ops.append([k, i(), recase(rng, rng.choice(KIDS)), v()])
        elif k == 'del_child':
            ops.append([k, i(), rng.choice(KIDS)])
        elif k == 'set_value':
            ops.append([k, i(), new_value(rng, v)])
        elif k == 'sort_terms':
            ops.append([k, i(), rng.choice([None, None, ['root.title', 'root.alpha'], ['Root.X'], []])])
        elif k == 'sort_sections':
            order = [recase(rng, s) for s in rng.sample(SECS + ['Root', 'Nothere'], R(0, 5))]
            if order and rng.random() < 0.15:                                            # Named twice: the first counts
                order.append(recase(rng, rng.choice(order)))
            ops.append([k, order])
        elif k in ('add_arg', 'remove_arg'):
            ops.append([k, i(), rng.choice(['h1', 'H2', 'url', 'Newcol']), R(0, 1)])
        elif k == 'foreign':
            rows = [[rng.choice(NAMES), v()]]
            for _ in range(R(0, 7)):
                y = rng.random()
                rows.append(['Section', rng.choice(SECS)] + rng.sample(['H1', 'Url'], R(0, 2)) if y < 0.3 else ['.' + rng.choice(KIDS), v()] if y < 0.6
                            else [rng.choice(NAMES), v(), v()][:R(2, 3)])
            ops.append([k, rows, i(), i(), R(0, 2)])
        elif k == 'load':
            rows = []
            for _ in range(R(1, 5)):
                y = rng.random()
                rows.append(['Section', rng.choice(SECS)] if y < 0.3 else [rng.choice(NAMES), v(), v()][:R(2, 3)])
            ops.append([k, rows])
    return ops


class M:
    """A mirror term"""
    def __init__(self, live_term, name, value, parent=None):
        self.t, self.name, self.value, self.parent, self.kids = live_term, name, value, parent, []

    @staticmethod
    def of(t, parent=None):
        m = M(t, t.record_term_lc, norm(t.value), parent)
        m.kids = [M.of(c, m) for c in t.children]
        return m


class MS:
    """A mirror section"""
    def __init__(self, s, name, args):
        self.s, self.name, self.args, self.terms = s, name, args, []
        self.header = [str(a).lower() for a in s.header_args or []] if s is not None else []        # No edit changes those of a Header row

    @property
    def frozen(self):
        return bool(self.s.header_args)


def strip_args(a):
    return [x.strip() for x in a if x.strip()]


class Mirror:
    """Applies operations to a live document, and to a model of it"""

    def __init__(self, doc, obs):
        self.doc, self.obs = doc, obs
        self.secs = []
        self.order = []                 # The document's list of top-level terms
        self.gone = []                  # Removed top-level terms
        self.gone_kids = []             # Removed children, with the name of their parent
        by_id = {}
        for s in doc:
            ms = MS(s, s.name, [a for a in s.args])
            for t in live.own(s.terms):
                m = M.of(t)
                by_id[id(t)] = m
                ms.terms.append(m)
            self.secs.append(ms)
        self.order = [by_id[id(t)] for t in live.listed(doc)]

    # -- lookups --
    def sec(self, i):
        return self.secs[i % len(self.secs)]

    def find_sec(self, name):
        return next((s for s in self.secs if s.name.lower() == name.lower()), None)

    def top(self, i):
        o = [m for m in self.order if m.name not in ('declare', 'include')]
        return o[i % len(o)] if o else None

    def everything(self):
        out = []

        def w(m):
            out.append(m)
            for k in m.kids:
                w(k)
        for s in self.secs:
            for m in s.terms:
                w(m)
        return out

    def any(self, i):
        e = [m for m in self.everything() if m.name not in ('declare', 'include')]
        return e[i % len(e)] if e else None

    def sec_of(self, m):
        return next(s for s in self.secs if m in s.terms)

    @staticmethod
    def tname(name):
        return name.split('.')[-1].strip().lower()

    def first_top(self, sec, name, value):
        return next((m for m in self.order if m in sec.terms and m.name == name and (value is False or m.value == value)), None)

    # -- operations --
    def apply(self, op):
        self.obs.ev('op:' + op[0])
        getattr(self, 'op_' + op[0])(*op[1:])

    def op_new_section(self, name, heads):
        if self.find_sec(name):
            return
        s = self.doc.new_section(name, list(heads) or None)
        self.secs.append(MS(s, name, list(heads)))

    def op_get_or_new_section(self, name, heads):
        old = self.find_sec(name)
        s = self.doc.get_or_new_section(name, list(heads) or None)
        if old:
            self.obs.true('identity', s is old.s, 'getting the existing section {} gave another object'.format(name))
        else:
            self.secs.append(MS(s, name, list(heads)))

    def op_add_section(self, name, heads):
        old = self.find_sec(name)
        new = live.SectionTerm(None, name, term_args=list(heads) or False, doc=self.doc)
        s = self.doc.add_section(new)
        if old:
            self.obs.true('identity', s is old.s, 'adding a section of the existing name {} replaced the section'.format(name))
        else:
            self.obs.true('identity', s is new, 'adding the section {} gave another object'.format(name))
            self.secs.append(MS(s, name, list(heads)))

    def op_del_section(self, i):
        ms = self.sec(i)
        if ms.name.lower() == 'root':
            return
        del self.doc[gen.upper(ms.name) if i % 2 else ms.name]
        for m in ms.terms:
            self.order.remove(m)
            self.gone.append(m)
        self.secs.remove(ms)

    def op_clean(self, i):
        ms = self.sec(i)
        ms.s.clean()
        for m in ms.terms:
            self.order.remove(m)
            self.gone.append(m)
        ms.terms = []

    def _created(self, ms, t, name, value, props):
        m = M(t, self.tname(name), norm(value))
        for k, v in props.items():
            m.kids.append(M(None, k.lower(), norm(str(v)), m))
        self._bind_kids(m)
        ms.terms.append(m)
        self.order.append(m)

    def _bind_kids(self, m):
        """Take the identities of the children that an operation created"""
        if len(m.t.children) == len(m.kids):
            for k, c in zip(m.kids, m.t.children):
                if k.t is None:
                    k.t = c

    def op_new_term(self, i, name, value, props):
        ms = self.sec(i)
        t = ms.s.new_term(name, value, **props)
        self._created(ms, t, name, value, props)

    def op_get_or_new_term(self, i, name, value, props):
        if self.doc.derived_terms.get('root.' + self.tname(name)):
            return                      # Any kind of it may be what is found
        ms = self.sec(i)
        m = self.first_top(ms, self.tname(name), norm(value) if value is not False else False)
        if value is None:
            m = next((x for x in self.order if x in ms.terms and x.name == self.tname(name) and x.t.value is None), None)
        t = ms.s.get_or_new_term(name, **props) if value is False and i % 3 else ms.s.get_or_new_term(name, value, **props)
        if m is None:
            self._created(ms, t, name, None if value is False else value, props)
        else:
            self.obs.true('identity', t is m.t, 'getting the existing term {} gave another object'.format(name))
            for k, v in props.items():
                self._set_child(m, k, v)
            self._bind_kids(m)

    def op_set_terms(self, i, terms):
        ms = self.sec(i)
        n = len(ms.s.terms)
        ms.s.set_terms(**{k: tuple(v) if isinstance(v, list) else v for k, v in terms.items()})
        self.obs.eq('set-terms', len(ms.s.terms) - n, len(terms), 'terms added by set_terms()')
        for (k, v), t in zip(terms.items(), ms.s.terms[n:]):
            value, props = v if isinstance(v, list) else (v, {})
            self._created(ms, t, k, value, props)

    def op_sec_set(self, i, name, value):
        if self.doc.derived_terms.get('root.' + self.tname(name)):
            return
        ms = self.sec(i)
        m = self.first_top(ms, self.tname(name), norm(value))
        n = len(ms.s.terms)
        ms.s[name] = value
        if m is None:
            self.obs.eq('section-set', len(ms.s.terms), n + 1, 'terms in the section after setting a new one')
            self._created(ms, ms.s.terms[-1], name, value, {})

    def op_sec_del(self, i, name):
        ms = self.sec(i)
        del ms.s[name]
        for m in [m for m in ms.terms if m.name == self.tname(name)]:
            self._drop(m)

    def _drop(self, m):
        self.sec_of(m).terms.remove(m)
        self.order.remove(m)
        self.gone.append(m)

    def op_remove_term(self, i, how):
        m = self.top(i)
        if m is None:
            return
        if how:
            self.doc.remove_term(m.t)
        else:
            self.sec_of(m).s.remove_term(m.t)
        self._drop(m)

    def op_move(self, i, j, how):
        m, ms = self.top(i), self.sec(j)
        if m is None:
            return
        old = self.sec_of(m)
        (ms.s.move_term if how else ms.s.add_term)(m.t)
        if old is not ms:
            old.terms.remove(m)
            ms.terms.append(m)

    def op_readd(self, i, j):
        if not self.gone:
            return
        m, ms = self.gone.pop(i % len(self.gone)), self.sec(j)
        ms.s.add_term(m.t)
        ms.terms.append(m)
        self.order.append(m)

    def op_doc_add(self, i, _):
        """Back by way of the document, to the section that the term was in"""
        ok = [m for m in self.gone if any(s.s is m.t.section for s in self.secs)]
        if not ok:
            return
        m = ok[i % len(ok)]
        self.gone.remove(m)
        self.doc.add_term(m.t)
        next(s for s in self.secs if s.s is m.t.section).terms.append(m)
        self.order.append(m)

    def op_remove_again(self, i, how):
        """Removing what was removed does nothing"""
        if self.gone:
            self.doc.remove_term(self.gone[i % len(self.gone)].t)

    def op_set_terms_gone(self, i, j):
        if not self.gone:
            return
        m, ms = self.gone.pop(i % len(self.gone)), self.sec(j)
        ms.s.set_terms(m.t)
        ms.terms.append(m)
        self.order.append(m)

    def op_readd_child(self, i, j):
        if not self.gone_kids:
            return
        k, parent, sec = self.gone_kids[i % len(self.gone_kids)]
        ps = [m for m in self.everything() if m.name == parent and m.t.section is sec]
        if not ps:
            return
        del self.gone_kids[i % len(self.gone_kids)]
        m = ps[j % len(ps)]
        m.t.add_child(k.t)
        k.parent = m
        m.kids.append(k)

    def op_add_nested(self, i, j):
        ks = [m for m in self.everything() if m.parent is not None]
        if not ks:
            return
        m, ms = ks[i % len(ks)], self.sec(j)
        if m.t.parent_term_lc == 'root':
            return
        try:
            (ms.s.add_term if i % 2 else ms.s.move_term)(m.t)
        except live.MetatabError:
            self.obs.ev('nested-refused')
        else:
            self.obs.fail('nested', 'a section accepted {}, which is a child of another term'.format(live.show(m.t)))

    def op_new_children(self, i, props):
        m = self.any(i)
        if m is None:
            return
        self.obs.true('identity', m.t.new_children(**props) is m.t, 'new_children() does not return the term')
        for a, b in props.items():
            m.kids.append(M(None, a.lower(), norm(str(b)), m))
        self._bind_kids(m)

    def op_new_child(self, i, name, value, props, how):
        m = self.any(i)
        if m is None:
            return
        c = m.t.new_child(name if how else m.name + '.' + name, value, **props)
        k = M(c, name.lower(), norm(str(value)) if value is not None else None, m)
        for a, b in props.items():
            k.kids.append(M(None, a.lower(), norm(str(b)), k))
        self._bind_kids(k)
        m.kids.append(k)

    def _set_child(self, m, name, value, live_child=None):
        k = next((k for k in m.kids if k.name == name.lower()), None)
        if k is None:
            m.kids.append(M(live_child, name.lower(), norm(value) if value is not False else None, m))
        elif value is not False:
            k.value = norm(value)
        return k

    def op_get_or_new_child(self, i, name, value, how, props={}):
        m = self.any(i)
        if m is None:
            return
        name_ = name if how else m.name + '.' + name
        c = m.t.get_or_new_child(name_, **props) if value is False and i % 2 else m.t.get_or_new_child(name_, value, **props)
        k = self._set_child(m, name, value, c)
        if k is not None:
            self.obs.true('identity', c is k.t, 'getting the existing child {} gave another object'.format(name))
        else:
            k = m.kids[-1]
        for a, b in props.items():
            self._set_child(k, a, b)
        self._bind_kids(k)

    def op_foreign(self, rows, i, j, how):
        """Take a term over from another document, which is then not used any more"""
        other = live.from_rows(rows)
        ts = [t for t in other.terms]
        if not ts:
            raise core.Skip()
        t = ts[i % len(ts)]
        theirs, n = t.section, len(t.section.terms)
        if how == 2:
            ms = self.find_sec(theirs.name)
            if ms is None:
                ms = MS(None, theirs.name, list(theirs.property_names))
                self.secs.append(ms)
            self.doc.add_term(t)
            if ms.s is None:
                ms.s = self.doc[theirs.name]
        else:
            ms = self.sec(j)
            ms.s.set_terms(t) if how else ms.s.add_term(t)
        self.obs.true('foreign', theirs.doc is other and other[theirs.name] is theirs and len(theirs.terms) == n and ms.s is not theirs,
                      lambda: 'taking over {} changed the section {} that it was in'.format(live.show(t), theirs.name))
        m = M.of(t)
        ms.terms.append(m)
        self.order.append(m)

    def op_set_child(self, i, name, value):
        m = self.any(i)
        if m is None or name.lower() in (m.t.term_value_name.lower(), 'value'):
            return
        m.t[name] = value
        self._set_child(m, name, value)
        self._bind_kids(m)

    def op_del_child(self, i, name):
        m = self.any(i)
        if m is None or name.lower() in (m.t.term_value_name.lower(), 'value'):
            return
        m.t[name] = None
        k = next((k for k in m.kids if k.name == name.lower()), None)
        if k:
            m.kids.remove(k)

    def op_remove_child(self, i, how):
        e = [m for m in self.everything() if m.parent is not None]
        if not e:
            return
        k = e[i % len(e)]
        if how:
            k.parent.t.remove_child(k.t)
        else:
            self.doc.remove_term(k.t)
        k.parent.kids.remove(k)
        self.gone_kids.append((k, k.parent.name, k.t.section))

    def op_set_value(self, i, value):
        m = self.any(i)
        if m is None:
            return
        m.t.value = value
        m.value = norm(value)

    def op_sort_terms(self, i, order):
        ms = self.sec(i)
        ms.s.sort_by_term(order)
        if order is None:
            ms.terms = sorted(ms.terms, key=lambda m: 'root.' + m.name)
        else:
            first = [o.lower() for o in order]
            a = [m for o in first for m in ms.terms if 'root.' + m.name == o]
            ms.terms = a + sorted([m for m in ms.terms if m not in a], key=lambda m: 'root.' + m.name)

    def op_sort_sections(self, order):
        self.doc.sort_sections(order)
        lc = list(dict.fromkeys(o.lower() for o in order))
        a = [s for o in lc for s in self.secs if s.name.lower() == o]
        self.secs = a + [s for s in self.secs if s not in a]

    def op_add_arg(self, i, arg, prepend):
        ms = self.sec(i)
        ms.s.add_arg(arg, bool(prepend))
        ms.args = strip_args(ms.args)
        if arg.lower() not in [a.lower() for a in ms.args]:
            ms.args = [arg] + ms.args if prepend else ms.args + [arg]

    def op_remove_arg(self, i, arg, _):
        ms = self.sec(i)
        ms.s.remove_arg(arg)
        ms.args = [a for a in strip_args(ms.args) if a.lower() != arg.lower()]

    def op_load(self, rows):
        if any(len(r) < 2 or not norm(r[1]) and r[0] == 'Section' for r in rows):
            raise core.Skip()
        self.doc.load_rows(live.MetatabRowGenerator(rows))
        sec, heads = self.find_sec('root'), []
        for r in rows:
            if r[0] == 'Section':
                sec = self.find_sec(r[1])
                if sec is None:
                    sec = MS(self.doc[r[1]], r[1], list(self.doc.decl_sections.get(r[1].lower(), {}).get('args', [])))
                    self.secs.append(sec)
                heads = list(sec.s.property_names) if sec.frozen else sec.args
            else:
                n = len(sec.terms)
                ts = live.own(sec.s.terms)
                m = M(ts[n] if len(ts) > n else None, r[0].lower(), norm(r[1]))
                if len(r) > 2 and norm(r[2]) is not None:
                    name = heads[0].lower() if heads and heads[0] else '0'
                    m.kids.append(M(None, name, norm(r[2]), m))
                    if m.t is not None:
                        self._bind_kids(m)
                sec.terms.append(m)
                self.order.append(m)

    # -- comparison --
    def compare(self):
        obs, doc = self.obs, self.doc
        obs.eq('section-order', [s.name for s in doc], [ms.name for ms in self.secs], 'names of the sections')
        for s, ms in zip(doc, self.secs):
            obs.true('identity', s is ms.s, 'section {} was replaced by another object'.format(ms.name))
            obs.true('identity', doc[gen.upper(ms.name)] is ms.s, 'section {} is not found by name'.format(ms.name))
            obs.eq('section-headings', [a.lower() for a in s.args], [a.lower() for a in ms.args], 'headings of section {}'.format(ms.name))
            obs.eq('section-headings', [str(a).lower() for a in s.property_names], ms.header or [a.lower() for a in ms.args], 'headings in force of section {}'.format(ms.name))
            obs.eq('section-terms', [id(t) for t in s.terms], [id(m.t) for m in ms.terms],
                   'terms of section {} ({} instead of {})'.format(ms.name, [live.show(t) for t in s.terms], [(m.name, m.value) for m in ms.terms]))
            for t, m in zip(s.terms, ms.terms):
                self._cmp(t, m)
        obs.eq('document-terms', [id(t) for t in doc.terms], [id(m.t) for m in self.order],
               'top-level terms of the document ({} instead of {})'.format([live.show(t) for t in doc.terms], [(m.name, m.value) for m in self.order]))

    def _cmp(self, t, m):
        obs = self.obs
        obs.eq('name', t.record_term_lc, m.name, 'name of a term')
        obs.eq('value', norm(t.value), m.value, 'value of {}'.format(m.name))
        obs.eq('children', [(c.record_term_lc, norm(c.value)) for c in t.children], [(k.name, k.value) for k in m.kids], 'children of {}'.format(live.show(t)))
        for c, k in zip(t.children, m.kids):
            if k.t is None:
                k.t = c
            obs.true('identity', c is k.t, 'child {} of {} was replaced'.format(live.show(c), live.show(t)))
            self._cmp(c, k)


def same_named_nesting(doc):
    """Is any term nested inside a term of the same name?"""
    def w(t, names):
        n = t.record_term_lc
        return n in names or any(w(c, names | {n}) for c in t.children)
    return any(w(t, frozenset()) for s in doc for t in s.terms)


def quietly(doc, ops, skip=()):
    """Apply edits as a workload. Whether they do what they say is decided by C11, not here"""
    from . import core
    try:
        m = Mirror(doc, core.NullObs())
        for op in ops:
            if op[0] not in skip:
                m.apply(op)
    except core.CpuLimit:
        raise
    except Exception:
        raise core.Skip()
    return m
