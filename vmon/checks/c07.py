"""C07: dictionary conversion reflects the term tree and declared property types"""
import os
from .. import core, edits, gen, live, model, parsecheck
from ..model import norm, blank

WILD = object()


class N:
    """A term as the conversion sees it"""
    def __init__(self, name, value, ptype, vname, kids):
        self.name, self.value, self.ptype, self.vname, self.kids = name, value, ptype, vname, kids


def of_model(n):
    return N(n.name, n.value, n.ptype, n.vname, [of_model(c) for c in n.children])


def of_live(t, doc):
    d = doc.decl_terms.get(t.join_lc, {})
    return N(t.record_term_lc, norm(t.value), d.get('childpropertytype', 'any'), d.get('termvaluename', t.term_value_name),
             [of_live(c, doc) for c in t.children])


def conv(n, repl):
    if not n.kids:
        return n.value
    d = group(n.kids, repl)
    if n.value is not None:
        d[n.vname.lower() if repl else '@value'] = n.value
    return d


def group(kids, repl):
    by = {}
    for k in kids:
        by.setdefault(k.name, []).append(k)
    d = {}
    for name, ks in by.items():
        types = set(k.ptype for k in ks)
        vals = [conv(k, repl) for k in ks]
        if len(types) > 1:
            d[name] = WILD
            continue
        t = types.pop()
        plain = [not k.kids for k in ks]
        if t == 'scalar':
            d[name] = vals[-1]
        elif t == 'sequence':
            d[name] = vals
        elif t in ('sconcat', 'bconcat') and all(plain):
            d[name] = (' ' if t == 'sconcat' else '').join(str(v) if v is not None else '' for v in vals)
        elif t in ('sconcat', 'bconcat') and any(plain):
            d[name] = WILD
        else:
            d[name] = vals[0] if len(vals) == 1 else vals
    return d


def diff(got, exp, path=''):
    if exp is WILD:
        return None
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            return '{}: {!r} instead of a dictionary'.format(path, core.short(got, 200))
        for k in exp:
            if k not in got:
                return '{}: no key {!r}'.format(path, k)
        for k in got:
            if k not in exp:
                return '{}: unexpected key {!r}'.format(path, k)
        for k in exp:
            r = diff(got[k], exp[k], path + '/' + k)
            if r:
                return r
        return None
    if isinstance(exp, list):
        if not isinstance(got, list) or len(got) != len(exp):
            return '{}: {} instead of {}'.format(path, core.short(got, 200), core.short(exp, 200))
        for i, (a, b) in enumerate(zip(got, exp)):
            r = diff(a, b, '{}[{}]'.format(path, i))
            if r:
                return r
        return None
    if isinstance(got, (dict, list)) or norm(got) != norm(exp):
        return '{}: {} instead of {}'.format(path, core.short(repr(got), 200), core.short(repr(exp), 200))


class CHECK(core.Check):
    id = 'C07'
    quick_cases, thorough_cases = 6000, 80000
    rule = ('a case is a document under a declaration that assigns property types and value names (rows, perhaps edited); distinct by content, '
            'non-trivial if it has a row')
    needs = ('compare:document', 'compare:section', 'compare:term', 'type:scalar', 'type:sequence', 'type:sconcat', 'type:bconcat', 'type:any', 'edited-documents')
    assumptions = ('the reference interpreter in vmon/model.py gives property types and value names',
                   'same-named children of one term have one property type; concatenation is compared where all or none of the repeated children are plain')

    def fixed_cases(self, tier):
        return [{'rows': r, 'ops': [], 'decl': None} for r in gen.stress_docs()]

    def gen(self, rng, i, tier):
        tops, subs = rng.sample(gen.TOP, rng.randint(1, 4)), rng.sample(gen.SUB, rng.randint(1, 4))
        decl = gen.decl_doc(rng, tops=tops, subs=subs) if rng.random() < 0.8 else None
        rows = gen.row_doc(rng, tops=tops + gen.ALIASES[:1] + gen.DERIVED[:1], subs=subs + gen.ALIASES[:1], blank_values=rng.choice([0, 0.1, 0.3]),
                           hostile=0.2, n=rng.randint(1, 40), numeric=rng.random() < 0.3)
        v = gen.Vals(rng, spaced=rng.random() < 0.5, hostile=0.3)
        ops = edits.gen_ops(rng, rng.choice([3, 10]), v, recase=gen.recase) if rng.random() < 0.2 else []
        return {'rows': rows, 'decl': decl, 'ops': ops, 'at': rng.randint(0, len(rows)) if rng.random() < 0.15 else 0}

    def trivial(self, case):
        return not case['rows']

    def execute(self, case, obs):
        with live.workdir() as d:
            rows, files = list(case['rows']), {}
            if case['decl']:
                parsecheck.in_domain_decl(case['decl'])
                p = os.path.join(d, 'decl.csv')
                live.write_csv(p, case['decl'])
                files[p] = parsecheck.csvify(case['decl'])
                at = min(case.get('at', 0), len(rows)) if not case['ops'] else 0
                rows = rows[:at] + [['Declare', p]] + rows[at:]
            m = model.Doc(files=files)
            try:
                m.load(rows)
            except (model.Refused, model.Unspecified):
                raise core.Skip()
            doc = live.from_rows(rows) if rows else live.MetatabDoc()
        if case['ops']:
            edits.quietly(doc, case['ops'], skip=('foreign',) if case.get('decl') else ())
            obs.ev('edited-documents')
            secs = [(s, [of_live(t, doc) for t in live.own(s.terms)]) for s in doc]
        else:
            secs = [(doc[k], [of_model(n) for n in s.terms if n.origin != 'declare']) for k, s in m.sections.items()]

        for repl in (True, False):
            everything = [n for _, ns in secs for n in ns]
            whole = doc.as_dict(repl)
            self.cmp(obs, 'document', whole if repl else self.without_value(whole), group(everything, repl), 'the document as a dictionary')
            for s, ns in secs:
                if s.name.lower() == 'root':
                    whole = s.as_dict(repl)
                    self.cmp(obs, 'section', whole if repl else self.without_value(whole), group(ns, repl), 'the root section as a dictionary')
                elif ns:
                    exp = group(ns, repl)
                    exp[s.term_value_name.lower() if repl else '@value'] = s.name
                    self.cmp(obs, 'section', s.as_dict(repl), exp, 'section {} as a dictionary'.format(s.name))
                for t, n in zip(live.own(s.terms), ns):
                    self.cmp(obs, 'term', t.as_dict(repl), conv(n, repl), 'term {} as a dictionary'.format(live.show(t)))
                    obs.ev('terms')
        # The value names are replaced unless the caller asks otherwise
        obs.eq('default', repr(doc.as_dict()), repr(doc.as_dict(True)), 'the document as a dictionary, without the argument')
        for s, ns in secs:
            if ns:
                obs.eq('default', repr(s.as_dict()), repr(s.as_dict(True)), 'section {} as a dictionary, without the argument'.format(s.name))
            for t in live.own(s.terms)[:20]:
                obs.eq('default', repr(t.as_dict()), repr(t.as_dict(True)), 'term {} as a dictionary, without the argument'.format(live.show(t)))
        self.count(obs, [n for _, ns in secs for n in ns])

    @staticmethod
    def without_value(d):
        return {k: v for k, v in d.items() if k != '@value'}

    def cmp(self, obs, kind, got, exp, what):
        obs.events['compare:' + kind] += 1
        r = diff(got, exp)
        if r:
            obs.fail(kind, what + ' at ' + r)

    def count(self, obs, ns):
        by = {}
        for n in ns:
            by.setdefault(n.name, []).append(n)
            self.count(obs, n.kids)
        for name, g in by.items():
            obs.ev('type:' + g[0].ptype)
            obs.state((g[0].ptype, min(len(g), 4), tuple(bool(x.kids) for x in g[:4]), tuple(x.value is None for x in g[:4])))
