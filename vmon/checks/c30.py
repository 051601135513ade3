"""C30: a document on the web is the document that its files are"""
import http.server, os, posixpath, shutil, threading
from urllib.parse import unquote, urlsplit, quote
from .. import core, gen, live, parsecheck
from ..live import MetatabDoc, parse_app_url
from ..model import norm, split_name
from .c17 import run_forked
from .c16 import listing
from metatab import IncludeError

SERVER = {}
os.environ['NO_PROXY'] = os.environ['no_proxy'] = '127.0.0.1,localhost'


class Handler(http.server.BaseHTTPRequestHandler):
    """Serves the files of the case, and keeps what was asked for"""
    def log_message(self, *a):
        pass

    def do_GET(self):
        s = self.server
        path = unquote(urlsplit(self.path).path)
        s.asked.append((self.command, path))
        s.full.append(unquote(self.path))
        body, fault = s.files.get(path), s.faults.get(path)
        if body is None or fault == 404:
            return self.send_error(404)
        if isinstance(fault, int):
            return self.send_error(fault)
        self.send_response(200)
        self.send_header('Content-Type', 'text/csv; charset=utf-8')
        self.send_header('Content-Length', str(len(body)))
        self.end_headers()
        if self.command == 'GET':
            self.wfile.write(body)

    do_HEAD = do_GET


def server():
    s = SERVER.get(os.getpid())
    if s is None:
        s = http.server.ThreadingHTTPServer(('127.0.0.1', 0), Handler)
        s.daemon_threads = True
        s.files, s.faults, s.asked, s.full = {}, {}, [], []
        threading.Thread(target=s.serve_forever, kwargs={'poll_interval': 0.05}, daemon=True).start()
        SERVER[os.getpid()] = s
    return s


def opened(ref):
    try:
        return MetatabDoc(ref), None
    except live.MetatabError as e:
        return None, e


class CHECK(core.Check):
    id = 'C30'
    quick_cases, thorough_cases = 2500, 30000
    cpu_seconds = 60
    rule = ('a case is a set of files with includes, declarations and faults, served by a web server on the loopback network and present in a folder as well; '
            'distinct by content, non-trivial if it has two rows')
    needs = ('route:web', 'route:metatab', 'route:url', 'route:outer', 'route:cli', 'compare:content', 'compare:asked', 'refused-both', 'refused-fault', 'relative', 'absolute', 'declared',
             'compare:printed', 'compare:unwritten', 'assert:include-error', 'loops', 'assert:again', 'nested', 'query', 'compare:queries')
    assumptions = ('the files are served unchanged, by a server on the loopback network', 'the local document is as the other properties say',
                   'the cache folder has no older copies of the files')

    def gen(self, rng, i, tier):
        files = gen.file_docs(rng, n_files=rng.choice([1, 2, 3, 4]), decl=0.35, dangling=0.12, loops=0.15, n=rng.choice([3, 10]), newlines=rng.random() < 0.3, hostile=0.2)
        names = sorted(files)
        case = {'files': files, 'route': rng.choice(['web', 'web', 'metatab', 'url', 'outer', 'outer-decl', 'cli']), 'absolute': rng.choice([0, 0, 0.5, 1]), 'base': rng.choice(['p', 'p/q', 'a b', 'x.y/z', 'Ünï']),
                'fault': None, 'pick': rng.randint(0, 99), 'out': rng.choice(['csv', 'line', 'json', 'yaml'])}
        if rng.random() < 0.15:
            case['fault'] = [rng.choice(names), rng.choice([404, 403, 500, 503])]
        return case

    def fixed_cases(self, tier):
        return [{'files': {'main.csv': [['Title', 'a'], ['Include', 'main.csv']]}, 'route': r, 'absolute': a, 'base': 'p', 'fault': None, 'pick': 0, 'out': 'csv'} for r in ('web', 'metatab', 'outer') for a in (0, 1)] + \
               [{'files': {'main.csv': [['Title', 'a'], ['Include', 'sub/a.csv']], 'sub/a.csv': [['Note', 'x'], ['Include', '../sub/b.csv']], 'sub/b.csv': [['Note', 'y'], ['Include', b]]},
                 'route': 'web', 'absolute': a, 'base': 'p', 'fault': None, 'pick': 0, 'out': 'csv'} for a in (0, 1) for b in ('../sub/a.csv', '../main.csv', './../sub/./b.csv')]

    def trivial(self, case):
        return len(case['files']['main.csv']) < 2

    def execute(self, case, obs):
        for f in case['files']:
            if f.split('/')[-1].startswith('decl'):
                parsecheck.in_domain_decl(case['files'][f])
        s = server()
        n = SERVER['n'] = SERVER.get('n', 0) + 1
        top = '/c{}-{}'.format(os.getpid(), n)
        base = top + '/' + case['base']
        host = 'http://127.0.0.1:{}'.format(s.server_port)
        url = host + quote(base) + '/main.csv'
        cache = os.environ['METATAB_CACHE']
        with live.workdir() as d:
            # The same files in a folder, and on the web, where some of the names are written out
            local = parsecheck.materialise(case['files'], d)
            s.files, s.faults, s.asked, s.full = {}, {}, [], []
            k = 0
            self.queries = {}
            for f, rows in case['files'].items():
                web = []
                for r in rows:
                    kind = {'root.include': 'include', 'root.declare': 'declare'}.get('.'.join(split_name(r[0]))) if r and r[0] and str(r[0]).strip() else None
                    if kind and len(r) > 1 and r[1]:
                        k += 1
                        to = posixpath.normpath(posixpath.join(posixpath.dirname(f), r[1]))
                        if kind == 'declare' and not to.endswith('.csv'):
                            to += '.csv'
                        query = (case['pick'] + k) % 3 == 0 and case['absolute'] and not case['fault']
                        if (case['pick'] + k) % 4 < 4 * case['absolute'] and not to.startswith('..'):
                            r = [r[0], host + quote(base) + '/' + quote(to) + ('?v={}&x=a/b'.format(k) if query else '')] + list(r[2:])
                            obs.ev('query', query)
                            if query:
                                self.queries.setdefault(base + '/' + f, []).append('v={}&x=a/b'.format(k))
                            obs.ev('absolute')
                        else:
                            obs.ev('relative')
                        obs.ev('nested', f != 'main.csv')
                        obs.ev('declared', kind == 'declare')
                    web.append(r)
                s.files[base + '/' + f] = live.csv_text(web).encode('utf8')
            if case['route'] != 'cli' and case['fault'] and case['fault'][1] in (404, 403, 500, 503) and case['fault'][0] in case['files']:
                s.faults[base + '/' + case['fault'][0]] = case['fault'][1]
            try:
                self.compare(case, obs, s, d, url, base, host)
            finally:
                for x in os.listdir(cache):
                    p = os.path.join(cache, x, top[1:])
                    if os.path.isdir(p):
                        shutil.rmtree(p, ignore_errors=True)

    def content(self, doc):
        """What the document has, with the names of files as they were in the folder"""
        def tree(t):
            inc = t.parent_term_lc == 'root' and t.record_term_lc in ('include', 'declare')
            return (t.parent_term_lc, t.record_term_lc, '(file)' if inc else norm(t.value), t.row, t.col, t.term_value_name, t.child_property_type, [tree(c) for c in t.children])
        return [(x.name.lower(), [h.lower() for h in live.heads(x)], [tree(t) for t in live.own(x.terms)]) for x in doc], \
            {k: {a: b for a, b in v.items() if a != 'values'} for k, v in doc.decl_terms.items()}, sorted(doc.decl_sections)

    def compare(self, case, obs, s, d, url, base, host):
        main = os.path.join(d, 'main.csv')
        want, werr = opened(main)
        route = case['route']
        obs.ev('route:' + ('outer' if route == 'outer-decl' else route))
        if route == 'cli':
            return self.cli(case, obs, s, d, url, main, want)
        if route.startswith('outer'):
            # A local file that includes the one on the web
            word = 'Include' if route == 'outer' else 'Declare'
            o1, o2 = os.path.join(d, 'outer1.csv'), os.path.join(d, 'outer2.csv')
            live.write_csv(o1, [['Name', 'o'], [word, url], ['After', 'x']])
            live.write_csv(o2, [['Name', 'o'], [word, 'main.csv'], ['After', 'x']])
            want, werr = opened(o2)
            got, gerr = opened(o1)
        else:
            ref = {'web': url, 'metatab': 'metatab+' + url}.get(route) or parse_app_url(url)
            got, gerr = opened(ref)
        asked = [p for c, p in s.asked]
        reached = [f for f in s.faults if f in asked]
        if werr is not None or reached:
            obs.true('refused', got is None, lambda: 'a document that is {} was opened'.format('refused as a file: {}'.format(werr) if werr else 'not served completely'))
            obs.ev('refused-fault' if reached else 'refused-both')
            if werr is not None and not reached:
                obs.ev('loops', 'loop' in str(werr).lower())
                obs.true('include-error', isinstance(gerr, IncludeError) == isinstance(werr, IncludeError), lambda: 'refused with {!r} on the web, and with {!r} as a file'.format(gerr, werr))
                obs.eq('kind', type(gerr).__name__, type(werr).__name__, 'kind of error')
            elif reached and reached[0] != base + '/main.csv':
                obs.true('include-error', isinstance(gerr, IncludeError), lambda: 'a file that is not served raised {!r}, not an include error'.format(gerr))
            return
        if gerr is not None:
            raise gerr
        obs.eq('content', self.content(got), self.content(want), 'content of the document on the web, and of the same files in a folder')
        obs.state((route, len(s.asked), case['absolute'], len(self.content(got)[0])))
        # It asks for the files that it names, and no others
        named = {base + '/' + os.path.relpath(p, d).replace(os.sep, '/') for p in self.model_opened(d, main, case)}
        obs.eq('asked', sorted(set(asked)), sorted(named), 'files that were asked for on the web')
        obs.eq('queries', sorted(set(unquote(urlsplit(p).query) for p in s.full) - {''}), sorted({q for f in named for q in self.queries.get(f, [])}), 'queries of the urls that were asked for')
        if not route.startswith('outer'):
            again = MetatabDoc(url)
            obs.true('again', self.content(again) == self.content(want), 'opened again, the document is different')
            obs.true('no-path', got.path is None, lambda: 'a document on the web has the path {}'.format(got.path))
            # Its text is that of the local one, but for the names of files
            a = [r for r in got.rows if r and str(r[0]).lower() not in ('include', 'declare')]
            b = [r for r in want.rows if r and str(r[0]).lower() not in ('include', 'declare')]
            obs.eq('rows', a, b, 'rows of the document')

    def model_opened(self, d, main, case):
        files = {os.path.join(d, n): parsecheck.csvify(r) for n, r in case['files'].items()}
        m = parsecheck.model.Doc(files=files)
        try:
            m.load(files[main], main)
        except parsecheck.model.Unspecified:
            raise core.Skip()
        return {os.path.normpath(p) for p in m.opened} if os.path.realpath(d) == d else {os.path.join(d, os.path.relpath(p, os.path.realpath(d))) for p in m.opened}

    def cli(self, case, obs, s, d, url, main, want):
        flag = {'csv': '-c', 'line': '-l', 'json': '-j', 'yaml': '-y'}[case['out']]
        doc, err = opened('metatab+' + url)
        before = listing(d)
        code, out, msg = run_forked([flag, url], d)
        if doc is None:
            obs.true('cli-refused', code == 1 and not out.strip() and msg.strip() and 'Traceback' not in msg, lambda: 'exit status {} with output {!r} and {!r} for a document that can not be opened'.format(code, out, msg))
            obs.ev('refused-both')
            return
        obs.true('cli', code == 0, lambda: 'exit status {} for a document on the web: {}'.format(code, msg))
        text = {'csv': doc.as_csv, 'line': doc.as_lines}.get(case['out'])
        if text:
            obs.eq('printed', out, text() + '\n', 'what was printed')
        else:
            import json, yaml
            obs.eq('printed', json.loads(json.dumps(json.loads(out) if case['out'] == 'json' else yaml.safe_load(out))), json.loads(json.dumps(doc.as_dict())), 'what was printed')
        code, out, msg = run_forked([flag, '-W', url], d)
        obs.true('cli-write', code == 1 and msg.strip() and 'Traceback' not in msg, lambda: 'exit status {} for writing in place of a document on the web: {}'.format(code, msg))
        obs.eq('unwritten', listing(d), before, 'the files in the folder')
