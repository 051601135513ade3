"""C28: what a document means depends only on its text"""
import json, os, shutil, subprocess, sys
from .. import boot, core, detrun, gen, live

ROUTES = ['path', 'path', 'rows', 'relative', 'url', 'file-url', 'metatab-url', 'bare', 'txt-path', 'txt-url', 'txt-name']
ENVS = [
    {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'},
    {'LC_ALL': 'POSIX', 'LANG': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'},
    {'LC_ALL': 'C.UTF-8'},
    {'PYTHONUTF8': '1'},
    {'PYTHONOPTIMIZE': '1'},
    {'PYTHONOPTIMIZE': '2'},
    {'TZ': 'Pacific/Kiritimati', 'LANGUAGE': 'tr', 'LC_ALL': 'tr_TR.UTF-8'},
    {'COLUMNS': '3', 'USER': 'nobody', 'PWD': '/nowhere', 'PYTHONIOENCODING': 'utf-8'},
    {'PYTHONDEVMODE': '1'},
    {'PYTHONNODEBUGRANGES': '1', 'TERM': 'dumb'},
]


class CHECK(core.Check):
    id = 'C28'
    quick_cases, thorough_cases = 48, 900
    cpu_seconds = 600
    rule = ('a case is a batch of documents (rows, or files with includes and declarations), each read in the worker and again in fresh processes with other environments, working '
            'directories and references; distinct by content')
    needs = ('fresh-processes', 'environment-watched', 'documents', 'refused', 'decoys', 'compare:csv', 'compare:saved', 'env:PYTHONHASHSEED', 'env:LC_ALL', 'env:PYTHONOPTIMIZE') + tuple('route:' + r for r in set(ROUTES) | {'rows-at-home'})
    assumptions = ('files have ASCII names, since file names depend on the locale of the process', 'documents that are saved have an identifier')

    def gen(self, rng, i, tier):
        docs = []
        for _ in range(14):
            save = None
            if rng.random() < 0.6:
                rows = gen.row_doc(rng, newlines=True)
                if rng.random() < 0.4:
                    save = rng.choice(['csv', 'csv', 'txt'])
                    rows = [['Identifier', 'id-1'], ['Name', rng.choice(['a', 'Änd B', ''])]] + ([['Dataset', 'Dß x']] if rng.random() < 0.5 else []) + rows
                if rng.random() < 0.08:
                    rows = [['Declare', 'metatab-latest']] + rows
                files = {'main.csv': rows}
            else:
                files = gen.file_docs(rng)
            docs.append({'files': files, 'save': save, 'queries': ['Root.*', '*.*', rng.choice(gen.TOP), '*.' + rng.choice(gen.SUB), gen.upper(rng.choice(gen.TOP))]})
        runs = []
        for _ in range(3):
            env = dict(rng.choice(ENVS), PYTHONHASHSEED=str(rng.randint(0, 10000)))
            runs.append({'env': env, 'cwd': rng.choice(['/', 'cases', 'scratch', 'decoys', 'decoys']), 'routes': [rng.choice(ROUTES) for _ in docs]})
        return {'docs': docs, 'runs': runs}

    def execute(self, case, obs):
        with live.workdir() as d:
            dirs, here, cases = [], [], []
            decoys = os.path.join(d, 'decoys')
            os.makedirs(decoys)
            for k, x in enumerate(case['docs']):
                dd = os.path.join(d, 'c%d' % k)
                os.makedirs(dd)
                ok = 'main.csv' in x['files'] and all(f.isascii() for f in x['files'])
                if not ok:
                    raise core.Skip()
                for f, rows in x['files'].items():
                    live.write_csv(os.path.join(dd, f), rows)
                dirs.append(dd)
                # Files of the same names as those that are included, in the working directory of some processes
                incs = {str(r[1]).strip().strip('/') for rs in x['files'].values() for r in rs if len(r) > 1 and str(r[0]).strip().lower().endswith('include') and r[1]}
                decs = {str(r[1]).strip() for rs in x['files'].values() for r in rs if len(r) > 1 and str(r[0]).strip().lower().endswith('declare') and r[1]}
                for f in incs:
                    p = os.path.normpath(os.path.join(decoys, f))
                    if f in x['files'] and f not in decs and p.startswith(decoys + os.sep):
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        if not os.path.isdir(p):
                            live.write_csv(p, [['Decoy', 'x'], ['Section', 'Decoys', 'A'], ['Decoy', 'y', 'z']])
                            obs.ev('decoys')
                rows = [['' if c is None else str(c) for c in r] for r in x['files']['main.csv']]
                c = {'main': 'main.csv', 'rows': rows if len(x['files']) == 1 else None, 'queries': x['queries'], 'save': x['save'], 'route': 'path'}
                cases.append(c)
                here.append(json.loads(json.dumps(detrun.observe(dd, c))))
                if incs and not decs:
                    # Rows have no place, so it does not matter either that the working directory has such files
                    c['rows-only'] = rows
                    c['rows-here'] = json.loads(json.dumps(detrun.observe(dd, dict(c, rows=rows, route='rows'))))
                # The Lines form of the document, which is another document where cells have separators
                if isinstance(here[-1], dict) and len(x['files']) == 1:
                    text = here[-1]['lines']
                    with open(os.path.join(dd, 'main.txt'), 'w', encoding='utf8', newline='') as f:
                        f.write(text)
                    if not ({'\r', '\x00'} & set(text)) and not text.startswith('\ufeff'):
                        c['text'] = text
                        c['text-here'] = json.loads(json.dumps(detrun.observe(dd, dict(c, route='txt-text'))))
                obs.ev('documents')
                if isinstance(here[-1], list):
                    obs.ev('refused')
                else:
                    obs.state(here[-1]['csv'])
            runs, read = list(case['runs']), set()
            while runs:
                run = runs.pop(0)
                if len(run['routes']) < len(cases):
                    raise core.Skip()
                cs = []
                for c, r in zip(cases, run['routes']):
                    if r == 'rows' and (c['rows'] is None or any('\r' in x for row in c['rows'] for x in row)):
                        r = 'path'
                    if r.startswith('txt') and 'text' not in c:
                        r = 'path'
                    if r == 'bare' and c.get('rows-only') and len(c['rows-only']) % 2:
                        r = 'rows-at-home'
                    cs.append(dict(c, route=r, **({'rows': c['rows-only']} if r == 'rows-at-home' else {})))
                    obs.ev('route:' + r)
                for e in run['env']:
                    obs.ev('env:' + e)
                env = dict(os.environ, PYTHONPATH=boot.VERIF, **run['env'])
                cwd = {'/': '/', 'cases': d, 'decoys': decoys}.get(run['cwd'], boot.SCRATCH)
                r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'vmon.detrun'], input=json.dumps({'cwd': cwd, 'cases': [[a, b] for a, b in zip(dirs, cs)]}),
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, env=env, cwd=boot.SCRATCH, timeout=300)
                what = 'with {}, in {}'.format(run['env'], run['cwd'])
                if r.returncode:
                    if boot.REPO in r.stderr:
                        obs.fail('exception', 'a process {} fails: {}'.format(what, r.stderr[-1200:]))
                    raise core.HarnessError('fresh process failed: ' + r.stderr[-1500:])
                obs.ev('fresh-processes')
                docs, new = json.loads(r.stdout)
                obs.ev('environment-watched')
                if set(new) - read:                    # Whatever Metatab reads there, it must not matter what it says
                    other = os.path.join(d, 'elsewhere')
                    if not read:
                        shutil.copytree(decoys, other)
                        for n in ('metatab-latest.csv', 'metatab-latest', 'metatab.csv'):
                            live.write_csv(os.path.join(other, n), [['Declare', 'x'], ['Section', 'Declare'], ['DeclareSection', 'Decoys'], ['DeclareTerm', 'Root.Decoy']])
                    for v in (other, '1'):
                        runs.append({'env': {k: v for k in set(new) - read}, 'cwd': 'scratch', 'routes': run['routes']})
                    read |= set(new)
                for k, (a, b, c) in enumerate(zip(here, docs, cs)):
                    a = c['rows-here'] if c['route'] == 'rows-at-home' else c['text-here'] if c['route'].startswith('txt') else a
                    w = 'document {} {}, read by {}'.format(k, what, c['route'])
                    if isinstance(a, list) or isinstance(b, list):
                        obs.eq('refusal', b if isinstance(b, list) else 'accepted', a if isinstance(a, list) else 'accepted', w)
                        continue
                    for key in a:
                        obs.events['compare:' + key] += 1
                        if a[key] != b.get(key):
                            x, y = b.get(key), a[key]
                            obs.fail(key, '{}: {}'.format(w, core.first_diff(x, y) if isinstance(x, list) else 'got {}, expected {}'.format(core.short(x), core.short(y))))
