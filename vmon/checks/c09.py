"""C09: includes are spliced in place, and always terminate"""
import os, posixpath
from urllib.parse import unquote
from .. import core, gen, live, model, parsecheck
from ..model import norm
from metatab import IncludeError


class CHECK(core.Check):
    id = 'C09'
    quick_cases, thorough_cases = 5000, 60000
    cpu_seconds = 20
    rule = ('a case is a set of files with an include graph, with cycles, missing files, links and repeated includes; distinct by content, '
            'non-trivial if it has two files or more')
    needs = ('compare:stream', 'spliced', 'loops-refused', 'missing-refused', 'repeated-includes', 'deep-includes', 'link-loops', 'assert:names-file')
    assumptions = ('the reference interpreter in vmon/model.py', 'included files are CSV files, named by relative paths')

    def gen(self, rng, i, tier):
        x = rng.random()
        kw = dict(hostile=0.1, decl=0.25 if x < 0.5 else 0.0)
        if x < 0.12:
            return {'files': self.chain(rng, rng.choice([5, 12, 30]), rng.random() < 0.4)}
        if x < 0.3:
            return self.graph(rng)
        files = gen.file_docs(rng, n_files=rng.choice([2, 3, 4, 6]), dangling=0.15, loops=0.25, n=rng.randint(1, 15), **kw)
        links = {}
        if rng.random() < 0.25:
            # A link to a file, under another name, that is included as well
            to = rng.choice(sorted(files))
            nm = rng.choice(['', 'sub/', 'lnk dir/']) + 'link.csv'
            links[nm] = to
            frm = rng.choice([f for f in files if not f.split('/')[-1].startswith('decl')])
            files[frm].insert(rng.randint(0, len(files[frm])), ['Include', posixpath.relpath(nm, posixpath.dirname(frm) or '.')])
        return {'files': files, 'links': links}

    def chain(self, rng, n, loop):
        """Files that include one another, in a row of folders"""
        dirs = ['', 'a/', 'a/b/', 'c d/']
        names = ['main.csv'] + [rng.choice(dirs) + 'f{}.csv'.format(k) for k in range(1, n)]
        files = {}
        for k, nm in enumerate(names):
            rows = [['Section', 'S{}'.format(rng.randint(0, 3)), 'H{}'.format(k), 'G']] if rng.random() < 0.5 else []
            rows += [['T{}'.format(k), 'v{}'.format(k), 'c']]
            here = rng.randint(0, len(rows))
            if k + 1 < n:
                rows.insert(here, ['Include', posixpath.relpath(names[k + 1], posixpath.dirname(nm) or '.')])
            elif loop:
                rows.insert(here, ['Include', posixpath.relpath(rng.choice(names), posixpath.dirname(nm) or '.')])
            rows += [['.After', 'a{}'.format(k), 'd'], ['T{}'.format(k), 'w{}'.format(k), 'e', 'f']][:rng.randint(0, 2)]
            files[nm] = rows
        return files

    def graph(self, rng):
        """Any graph at all over a few files"""
        n = rng.randint(1, 5)
        names = ['main.csv'] + ['g{}.csv'.format(k) for k in range(1, n)]
        if rng.random() < 0.3:
            names = ['main.csv'] + rng.sample(['Main.csv', 'g.csv', 'G.csv', 'G.CSV', 'x/g.csv', 'main.csv.csv', 'x/main.csv'], n - 1)
        files = {}
        p = rng.choice([0.15, 0.3, 0.5])
        acyclic = rng.random() < 0.5
        for k, nm in enumerate(names):
            rows = [['T{}'.format(k), 'v']]
            for j, to in enumerate(names):
                if rng.random() < p and (j > k or not acyclic):
                    for _ in range(rng.choice([1, 1, 1, 2])):
                        rows.insert(rng.randint(0, len(rows)), ['Include', posixpath.relpath(to, posixpath.dirname(nm) or '.')])
                        if rng.random() < 0.5:
                            rows.insert(rng.randint(0, len(rows)), rng.choice([['Section', 'S{}'.format(rng.randint(0, 2)), 'H'], ['T', 'x', 'y'], ['.K', 'z', 'q']]))
            files[nm] = rows
        return {'files': files, 'links': {}}

    def fixed_cases(self, tier):
        import random
        return [{'files': self.chain(random.Random(7), 60, False)}, {'files': self.chain(random.Random(8), 60, True)},
                {'files': {'main.csv': [['Include', 'main.csv']]}}, {'files': {'main.csv': [['T', 'v'], ['Include', './main.csv']]}},
                {'files': {'main.csv': [['Include', 'a.csv']], 'a.csv': [['Include', 'b.csv']], 'b.csv': [['Include', 'a.csv']]}},
                {'files': {'main.csv': [['Include', 'a.csv'], ['Include', 'a.csv']], 'a.csv': [['Include', 'b.csv'], ['Include', 'b.csv']], 'b.csv': [['T', 'v']]}},
                {'files': {'main.csv': [['Declare', 'd.csv'], ['T', 'v']], 'd.csv': [['Section', 'DeclaredTerms'], ['Declare', 'e.csv']],
                           'e.csv': [['Section', 'DeclaredTerms'], ['Declare', 'd.csv']]}},
                {'files': {'main.csv': [['Include', 'l.csv']], 'a.csv': [['T', 'v'], ['Include', 'main.csv']]}, 'links': {'l.csv': 'main.csv'}},
                {'files': {'main.csv': [['Section', 'S', 'A', 'B'], ['Include', 'x/a.csv'], ['T', 'v', 'c', 'd']],
                           'x/a.csv': [['Section', 'R', 'P'], ['Include', '../y/b.csv'], ['T', 'w', 'e']], 'y/b.csv': [['Header', '', 'Q'], ['T', 'u', 'f']]}}]

    def trivial(self, case):
        return len(case['files']) < 2

    def execute(self, case, obs):
        links = case.get('links') or {}
        with live.workdir() as d:
            files = parsecheck.materialise(case['files'], d)
            for nm, to in links.items():
                p, t = os.path.join(d, nm), os.path.join(d, to)
                if t not in files or os.path.exists(p):
                    continue
                os.makedirs(os.path.dirname(p), exist_ok=True)
                os.symlink(t, p)
                files[p] = files[t]
            for f in case['files']:
                if f.split('/')[-1].startswith('decl'):
                    parsecheck.in_domain_decl(case['files'][f])
            main = os.path.join(d, 'main.csv')
            if main not in files:
                raise core.Skip()
            m = model.Doc(files=files)
            refused = error = None
            try:
                m.load(files[main], main)
            except model.Refused as e:
                refused = e
            except model.Unspecified:
                raise core.Skip()
            try:
                doc, stream = live.recorded(main)
            except live.MetatabError as e:
                error = e
            obs.ev('documents')
            if refused is not None:
                if refused.kind != 'include':
                    obs.ev('refused-otherwise')
                    return
                obs.true('refused', error is not None, lambda: 'a document with a missing or looping include was accepted: {}'.format(refused.names))
                obs.true('refused', isinstance(error, IncludeError), lambda: 'a missing or looping include raised {!r}, not an include error'.format(error))
                obs.true('names-file', any(n.lower() in t for n in refused.names for t in (str(error).lower(), unquote(str(error)).lower())),
                         lambda: 'the error for {} does not name the file: {}'.format(refused.names, error))
                try:
                    live.MetatabDoc(main)
                except IncludeError:
                    pass
                else:
                    obs.fail('refused', 'MetatabDoc accepted a document with a missing or looping include')
                loop = any(os.path.basename(f) in refused.names for f in files)
                obs.ev('loops-refused' if loop else 'missing-refused')
                if loop and any(os.path.basename(l) in refused.names for l in links):
                    obs.ev('link-loops')
                return
            if error is not None:
                raise error
            got = [(os.path.basename(n.file or ''), t.record_term_lc, norm(t.value), t.parent_term_lc, t.section.name.lower(), t.term_value_name)
                   for t, n in zip(stream, m.stream)]
            exp = [(os.path.basename(n.file or ''), n.name, n.value, n.parent_name, n.section.name.lower(), n.vname) for n in m.stream]
            obs.events['compare:stream'] += 1
            if got != exp or len(stream) != len(m.stream):
                obs.fail('stream', 'terms of the document (file, name, value, parent, section, value name): ' + core.first_diff(
                    got + [(t.record_term_lc, t.value) for t in stream[len(got):]], exp))
            obs.eq('sections', live.sections(doc), [(k, [n.tree() for n in s.terms if n.origin != 'declare']) for k, s in m.sections.items()], 'content')
            for k, s in m.sections.items():
                obs.eq('headings', live.lheads(doc[k]), [h.lower() for h in s.heads], 'headings of section {}'.format(k))
            obs.eq('again', live.sections(live.MetatabDoc(main)), live.sections(doc), 'content of MetatabDoc(path)')
            incs = [n for n in m.stream if n.name == 'include' and n.parent_name == 'root']
            obs.ev('spliced', sum(n.origin == 'include' for n in m.stream))
            obs.ev('repeated-includes', len(incs) - len(set((n.file, n.value) for n in incs)))
            obs.ev('deep-includes', sum(n.origin == 'include' for n in incs))
            obs.state(tuple((os.path.basename(n.file), n.value) for n in incs))
