"""C26: what a process holds does not grow with the number of documents it has handled"""
import gc, os, sys, threading
from .. import core, edits, gen, live, parsecheck
from ..live import MetatabDoc, Term
from metatab.datapackage import convert_to_datapackage

USES = ['csv', 'lines', 'dict', 'find', 'edit', 'save', 'props', 'version', 'name', 'package', 'again', 'clean', 'sort', 'remove', 'strings', 'url', 'rows', 'move', 'reload', 'keep-term']
N = 40
WARM = []


def fds():
    return len(os.listdir('/proc/self/fd'))


class CHECK(core.Check):
    id = 'C26'
    quick_cases, thorough_cases = 64, 1600
    cpu_seconds = 600
    rule = ('a case is a mix of documents and uses of them, repeated with other texts, names and paths; what the process holds is counted after each round; distinct by content')
    needs = ('rounds', 'documents', 'rejected', 'compare:documents', 'compare:objects', 'compare:files', 'released') + tuple('use:' + u for u in USES)
    assumptions = ('a cache of a fixed number of entries may keep that many documents: before each count the caches are filled with small documents',)

    def gen(self, rng, i, tier):
        docs = []
        for _ in range(rng.randint(2, 5)):
            x = rng.random()
            if x < 0.5:
                files = {'main.csv': gen.row_doc(rng, n=rng.randint(1, 15))}
                if rng.random() < 0.25:
                    files['main.csv'].insert(rng.randint(0, len(files['main.csv'])), rng.choice([['A.B.C', 'x'], ['Nowhere.Child', 'y'], ['Section'], ['Include', 'gone.csv'], ['Declare', 'gone']]))
                how = rng.choice(['rows', 'rows', 'path', 'lines'])
            elif x < 0.75:
                files, how = {'main.csv': gen.package_rows(rng)}, 'rows'
            else:
                files, how = gen.file_docs(rng), 'path'
            docs.append({'files': files, 'how': how, 'uses': rng.sample(USES, rng.randint(1, 6))})
        return {'docs': docs, 'ops': edits.gen_ops(rng, rng.randint(1, 8), gen.Vals(rng))}

    def trivial(self, case):
        return not case['docs']

    # -- one document -----------------------------------------------------------------------

    def use(self, x, case, d, tag, obs):
        """Make a document and use it; everything is different for each tag"""
        rows = x['files'].get('main.csv') or [['Title', 't']]
        rows = [['Title', tag], ['Origin', 'o' + tag]] + rows
        obs.ev('documents')
        try:
            if x['how'] == 'rows':
                doc = live.from_rows(rows)
            elif x['how'] == 'lines':
                doc = live.from_text('Title: %s\nTable: t%s\n.Column: c|d\nSection: S%s|H\nA: b\n' % (tag, tag, tag))
            else:
                dd = os.path.join(d, 'd' + tag)
                parsecheck.materialise(dict(x['files'], **{'main.csv': rows}), dd)
                doc = MetatabDoc(os.path.join(dd, 'main.csv'))
        except live.MetatabError:
            obs.ev('rejected')
            return
        for u in x['uses']:
            obs.ev('use:' + u)
            try:
                if u == 'csv':
                    doc.as_csv()
                elif u == 'lines':
                    doc.as_lines()
                elif u == 'dict':
                    doc.as_dict()
                elif u == 'find':
                    doc.find('*.*'), doc.find(['Title', 'Root.' + tag], section=['Root', 's' + tag]), doc.find_first('Q' + tag), doc.find('Title', value=tag)
                    doc.get_section('S' + tag, None), ('s' + tag) in doc
                elif u == 'edit':
                    doc.get_or_new_section('N' + tag, ['h' + tag]).new_term('T' + tag, tag, prop=tag)
                    edits.quietly(doc, case['ops'])
                elif u == 'save':
                    p = os.path.join(d, 'out%s.csv' % tag)
                    doc.write_csv(p)
                    os.remove(p)
                elif u == 'props':
                    for t in doc.terms:
                        t.props, t.get('p' + tag), getattr(t, 'url', None), t.get_value(tag)
                elif u == 'version':
                    doc.as_version('+1')
                elif u == 'name':
                    doc.update_name(create_term=True)
                elif u == 'package':
                    convert_to_datapackage(doc)
                elif u == 'again':
                    live.from_rows([[str(c) for c in r] for r in doc.rows])
                elif u == 'clean':
                    doc.cleanse(), doc.clean_unused_schema_terms()
                elif u == 'sort':
                    doc.sort_sections(['S' + tag, 'root'])
                    for s in doc:
                        s.sort_by_term(['root.title']), s.sort_by_term()
                elif u == 'remove':
                    s = doc.get_or_new_section('R' + tag, ['h'])
                    t = s.new_term('X' + tag, tag, h=tag, k=tag)
                    t['h'] = None
                    t['h'] = 'x' + tag
                    t.remove_child(t.find_first('k'))
                    s.set_terms(a=tag, b=(tag, {'h': tag}))
                    s.remove_term(t)
                    del s['a']
                    s.add_arg('arg' + tag), s.remove_arg('h')
                    s.clean()
                    del doc['R' + tag]
                elif u == 'strings':
                    for t in doc.all_terms:
                        str(t), repr(t), t.file_ref(), t.as_dict(), list(t.descendents), t.qualified_term
                elif u == 'url':
                    p = os.path.join(d, 'url%s.csv' % tag)
                    live.write_csv(p, [['Title', tag]])
                    url = live.parse_app_url(p, proto='metatab')
                    url.doc, list(url.generator), url.exists()
                    os.remove(p)
                elif u == 'rows':
                    list(doc.rows), list(doc.lines), [list(s.rows) for s in doc], [s.as_lines() for s in doc], [s.as_dict() for s in doc]
                elif u == 'move':
                    other = live.from_rows([['Title', tag], ['Section', 'M' + tag, 'H'], ['Mover', tag, tag]])
                    t = other.find_first('Mover')
                    doc['Root'].add_term(t), doc['Root'].move_term(t)
                elif u == 'reload':
                    doc.load_rows([['Declare', 'metatab-latest'], ['Title', tag], ['Section', 'L' + tag, 'H'], ['Late', tag, tag]])
                elif u == 'keep-term':
                    t = doc.find_first('Title')
                    del doc
                    if t is None:
                        return
                    doc = t.doc
            except live.MetatabError:
                pass

    def held(self):
        """What the process holds now, with the caches filled in a standard way"""
        for k in range(150):
            live.from_rows([['Title', 'standard'], ['Section', 'S', 'H'], ['A', 'b', 'c']])
        p = os.path.join(live.boot.SCRATCH, 'standard.csv')
        for k in range(20):
            MetatabDoc(p).as_csv()
        for _ in range(3):
            gc.collect()
        objs = gc.get_objects()
        docs = sum(1 for o in objs if isinstance(o, MetatabDoc))
        terms = sum(1 for o in objs if isinstance(o, Term))
        n = len(objs)
        del objs
        return {'documents': docs, 'terms': terms, 'objects': n, 'blocks': sys.getallocatedblocks(), 'files': fds(), 'threads': threading.active_count()}

    def execute(self, case, obs):
        if not case['docs']:
            raise core.Skip()
        live.write_csv(os.path.join(live.boot.SCRATCH, 'standard.csv'), [['Title', 'standard'], ['Section', 'S', 'H'], ['A', 'b', 'c']])
        with live.workdir() as d:
            if not WARM:
                # Fill the caches of the standard library and of other packages
                WARM.append(1)
                for k in range(700):
                    self.use({'files': {'main.csv': [['Section', 'A%d' % k, 'B'], ['T', 'v']]}, 'how': 'path', 'uses': USES if k % 10 == 0 else ['find']}, case, d, 'w%d' % k, core.Obs())
            counts = []
            for rnd in range(4):
                for k in range(N if rnd else N // 2):
                    x = case['docs'][k % len(case['docs'])]
                    self.use(x, case, d, 'r%dk%d' % (rnd, k), obs)
                counts.append(self.held())
                obs.ev('rounds')
                obs.state((rnd, counts[-1]['terms']))
            for key, slack in (('documents', 4), ('terms', 60), ('files', 3), ('threads', 0), ('objects', 0.6 * N), ('blocks', 6 * N)):
                obs.events['compare:' + key] += 1
                grown = [b[key] - a[key] for a, b in zip(counts[1:], counts[2:])]
                if min(grown) > slack:
                    obs.fail(key, 'after {} more documents the process holds {} more {} ({})'.format(N, min(grown), {'blocks': 'blocks of memory'}.get(key, key), [c[key] for c in counts]))
            obs.ev('released')
