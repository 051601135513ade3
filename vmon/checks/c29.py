"""C29: a document tells where it is"""
import os, time
from urllib.parse import quote
from .. import core, gen, live
from ..live import MetatabDoc, parse_app_url

DIRS = ['pkg', 'my package', 'a.b', 'nested/deep dir/pk', 'Ünï', 'x.zip.d', "it's", 'a+b', '100%', 'p&q', 'a#b', 'Q?', 'per%20cent', '', '-dash', 'UPPER case', '(1)', 'a,b;c', '~t', '日本', 'end.', '...', 'sub..']
STEMS = ['main', 'my table', 'x.y', 'metadata', 'é', "it's", 'a+b', 'UP', '.hidden', '2%5', 'a_b', '(copy 2)']
SPELL = ['plain', 'relative', 'bare', 'dotted', 'fileurl', 'url', 'metatab', 'decl']


class CHECK(core.Check):
    id = 'C29'
    quick_cases, thorough_cases = 20000, 200000
    rule = 'a case is a file in a folder, a way to spell a reference to it, and uses of the document; distinct by content'
    needs = ('file', 'made', 'compare:path', 'compare:directory', 'compare:mtime', 'compare:after-use', 'kind:csv', 'kind:txt') + tuple('spelling:' + s for s in SPELL)
    assumptions = ('relative references are asked for in the working directory in which the document was opened',
                   'names with # or ? are only used where the reference is a url that quotes them')

    def gen(self, rng, i, tier):
        return {'dir': rng.choice(DIRS), 'stem': rng.choice(STEMS), 'ext': rng.choice(['csv', 'csv', 'txt']), 'spelling': rng.choice(SPELL), 'age': rng.choice([0, 1, 1000, 10 ** 8, 1.5]),
                'rows': gen.row_doc(rng, n=rng.randint(1, 6)), 'how': rng.choice(['file', 'file', 'file', 'rows', 'text', 'new']), 'uses': rng.randint(0, 3)}

    def used(self, doc, n):
        if n > 0:
            doc.as_csv()
        if n > 1:
            doc['Root'].new_term('Title', 'x')
            doc.as_dict()
        if n > 2:
            doc.find('*.*')

    def execute(self, case, obs):
        if case['how'] != 'file':
            return self.made(case, obs)
        dd, sp = case['dir'], case['spelling']
        if any(c in dd + case['stem'] for c in '#?%') and sp != 'fileurl':
            raise core.Skip()
        if case['ext'] not in ('csv', 'txt'):
            raise core.Skip()
        cwd = os.getcwd()
        with live.workdir() as base:
            d = os.path.join(base, dd)
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, case['stem'] + '.' + case['ext'])
            if case['ext'] == 'csv':
                live.write_csv(p, case['rows'] if sp != 'decl' else [['Title', 'x'], ['Name', 'y']])
            else:
                with open(p, 'w', encoding='utf8') as f:
                    f.write('Title: x\nSection: S|H\nT: v\n')
            when = 1600000000 - case['age']
            os.utime(p, (when + 7, when))
            try:
                obs.ev('spelling:' + sp)
                if sp in ('plain', 'decl'):
                    ref = p
                elif sp == 'relative':
                    os.chdir(base)
                    ref = os.path.relpath(p, base)
                elif sp == 'bare':
                    os.chdir(d)
                    ref = os.path.basename(p)
                elif sp == 'dotted':
                    os.chdir(d)
                    ref = './' + os.path.basename(p)
                elif sp == 'fileurl':
                    ref = 'file://' + quote(p)
                elif sp == 'url':
                    ref = parse_app_url(p)
                elif sp == 'metatab':
                    ref = parse_app_url(p, proto='metatab')
                else:
                    raise core.Skip()
                if case['ext'] == 'txt' and sp != 'metatab':
                    ref = parse_app_url(ref if isinstance(ref, str) else p, proto='metatab')
                kw = {'decl': 'metatab-latest'} if sp == 'decl' else {}
                doc = MetatabDoc(ref, **kw)
                obs.ev('file')
                obs.ev('kind:' + case['ext'])
                for k in range(2):
                    obs.eq('path', doc.path is not None and os.path.realpath(doc.path), os.path.realpath(p), 'path of the document {} opened as {!r}'.format(p, ref))
                    obs.eq('directory', doc.doc_dir is not None and (os.path.isabs(doc.doc_dir), os.path.realpath(doc.doc_dir)), (True, os.path.realpath(d)),
                           'directory of the document {} opened as {!r}'.format(p, ref))
                    obs.eq('mtime', doc.mtime, os.path.getmtime(p) if not k else at, 'modification time of the document {} opened as {!r}'.format(p, ref))
                    obs.state((sp, dd, case['stem'], case['ext']))
                    at = doc.mtime
                    self.used(doc, case['uses'])
                    os.utime(p)
                    if k:
                        obs.events['compare:after-use'] += 1
            finally:
                os.chdir(cwd)

    def made(self, case, obs):
        start = time.time()
        if case['how'] == 'rows':
            doc = live.from_rows(case['rows'])
        elif case['how'] == 'text':
            doc = live.from_text('Title: x\nA: b\n')
        else:
            doc = MetatabDoc()
        obs.ev('made')
        for k in range(2):
            obs.eq('no-path', (doc.path, doc.doc_dir), (None, None), 'path and directory of a document that was made from ' + case['how'])
            obs.true('made-mtime', start - 2 <= doc.mtime <= time.time() + 2, lambda: 'modification time of a document that was made just now: {}'.format(doc.mtime))
            self.used(doc, case['uses'])
