"""C25: reading, rendering and editing have no side effects outside of the document"""
import builtins, contextlib, csv, decimal, gc, io, json, locale, logging, os, pathlib, random, resource, signal, socket, sys, threading, time, warnings
from .. import boot, core, edits, gen, live, parsecheck
from ..live import MetatabDoc, TextRowGenerator, parse_app_url
from metatab.datapackage import convert_to_datapackage

DANGER = ('os.remove', 'os.rename', 'os.rmdir', 'os.mkdir', 'os.link', 'os.symlink', 'os.truncate', 'os.chmod', 'os.chown', 'os.utime', 'shutil.', 'subprocess.', 'os.system', 'os.exec', 'os.spawn',
          'os.posix_spawn', 'os.fork', 'os.kill', 'os.chdir', 'os.putenv', 'os.unsetenv', 'socket.connect', 'socket.bind', 'socket.getaddrinfo', 'socket.gethostbyname', 'urllib.Request', 'ftplib.', 'http.client',
          'tempfile.', 'sqlite3.connect', 'signal.', 'webbrowser.', 'smtplib.', 'os.setxattr', 'resource.', 'fcntl.', '_thread.start_new_thread', '_thread.start_joinable_thread')
LOG, ON = [], [False]


def hook(event, args):
    if not ON[0] or ON[0] != threading.get_ident():
        return
    if event == 'open':
        path, mode, flags = (tuple(args) + (None, None, 0))[:3]
        LOG.append((event, str(path), mode, flags or 0))
    elif event.startswith(DANGER):
        LOG.append((event,) + tuple(str(a) for a in args))


HOOKED = []


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


def loggers():
    """Levels and handlers of the loggers there are; a new one without any is not a change"""
    return {n: (l.level, l.disabled, l.propagate, [id(h) for h in l.handlers]) for n, l in sorted(logging.root.manager.loggerDict.items())
            if isinstance(l, logging.Logger) and (l.level, l.disabled, l.propagate, l.handlers) != (0, False, True, [])}


def settings():
    """What a program may have set for the whole process"""
    return dict(umask=umask(), loggers=loggers(), limits=[resource.getrlimit(getattr(resource, n)) for n in ('RLIMIT_NOFILE', 'RLIMIT_STACK', 'RLIMIT_CORE', 'RLIMIT_AS', 'RLIMIT_FSIZE')],
                priority=os.getpriority(os.PRIO_PROCESS, 0), zone=(time.tzname, time.timezone), tracing=(sys.gettrace(), sys.getprofile()),
                builtins={n: id(getattr(builtins, n)) for n in dir(builtins) if n != '_'}, timers=signal.getitimer(signal.ITIMER_REAL),
                cwd=os.getcwd(), env=dict(os.environ), path=list(sys.path), recursion=sys.getrecursionlimit(), locale=locale.setlocale(locale.LC_ALL),
                logging=(logging.root.level, logging.root.manager.disable, [id(h) for h in logging.root.handlers], logging.raiseExceptions),
                random=random.getstate(), decimal=repr(decimal.getcontext()), timeout=socket.getdefaulttimeout(), threads=threading.active_count(),
                hooks=(sys.excepthook, sys.displayhook, sys.stdin, sys.getswitchinterval()), dialects=(csv.list_dialects(), csv.field_size_limit()), gc=(gc.isenabled(), gc.get_threshold()),
                signals=[signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM)])


def fds():
    out = {}
    for f in os.listdir('/proc/self/fd'):
        with contextlib.suppress(OSError):
            out[f] = os.readlink('/proc/self/fd/' + f)
    return {f: t for f, t in out.items() if not t.startswith('/proc/')}


class CHECK(core.Check):
    id = 'C25'
    quick_cases, thorough_cases = 5000, 60000
    rule = ('a case is a folder with a document (CSV or Lines) that may include and declare others, be rejected, and have neighbours that it does not name, with edits and calls on it; audit events, open files, '
            'output and process settings are observed; distinct by content, non-trivial if it has two rows')
    needs = ('audited', 'opens', 'compare:opened', 'compare:settings', 'compare:fds', 'rejected', 'accepted', 'missing', 'edited', 'written', 'call:render', 'call:dict', 'call:find', 'call:package', 'call:name', 'call:version', 'call:clean', 'call:props',
             'route:path', 'route:url', 'route:text', 'route:rows', 'route:txt-url', 'route:txt-path', 'route:txt-handle', 'route:txt-bad', 'route:metatab-url', 'route:txt-missing', 'decoys', 'stock')
    assumptions = ('files below the cache folder, and imports of modules, are not judged', 'the reference interpreter in vmon/model.py says which files a document names')

    def gen(self, rng, i, tier):
        files = gen.file_docs(rng, n_files=rng.choice([1, 2, 3, 4]), decl=0.4, dangling=0.15, loops=0.1, decl_bad=0.1, n=rng.choice([3, 12]), newlines=False)
        if rng.random() < 0.15:
            files['main.csv'].insert(rng.randint(0, len(files['main.csv'])), rng.choice([['No.Such', 'x'], ['a.b.c', 'd'], ['Section', '']]))
        if rng.random() < 0.15:
            files['main.csv'].insert(0, ['Declare', 'metatab-latest'])
        if rng.random() < 0.3:
            files['main.csv'] += gen.name_rows(rng)
        v = gen.Vals(rng, spaced=False, newlines=False, hostile=0.2)
        return {'files': files, 'route': rng.choice(['path', 'path', 'path', 'url', 'text', 'rows', 'missing', 'txt-url', 'txt-path', 'txt-handle', 'metatab-url', 'txt-missing', 'txt-bad']), 'ops': edits.gen_ops(rng, rng.choice([0, 0, 5, 12]), v, recase=gen.recase),
                'calls': [rng.choice(['render', 'dict', 'find', 'package', 'name', 'write', 'write_lines', 'copy', 'str', 'version', 'clean', 'props']) for _ in range(rng.randint(0, 5))]}

    def trivial(self, case):
        return len(case['files']['main.csv']) < 2

    def execute(self, case, obs):
        if not HOOKED:
            sys.addaudithook(hook)
            HOOKED.append(1)
            with live.workdir() as d:                  # Reading any file with rowgenerators sets the limit of the csv module
                live.write_csv(os.path.join(d, 'x.csv'), [['a', 'b']])
                list(parse_app_url(os.path.join(d, 'x.csv')).generator)
        with live.workdir() as d:
            self.one(case, obs, os.path.realpath(d))

    def one(self, case, obs, d):
        import metatabdecl
        stock = {'metatab-latest': os.path.join(os.path.dirname(metatabdecl.__file__), 'metatab-latest.csv')}
        files = parsecheck.materialise(case['files'], d)
        for n in ('neighbour.csv', 'metadata.csv', 'metadata.txt', 'main.txt.csv', 'decl.csv', 'inc.csv'):
            p = os.path.join(d, n)
            if p not in files:
                live.write_csv(p, [['Title', 'neighbour']])
                obs.ev('decoys')
        main = os.path.join(d, 'main.csv')
        route = case['route']
        m = parsecheck.model.Doc(files=dict(files, **{stock['metatab-latest']: []}), stock=stock)
        refused = None
        lines = os.path.join(d, 'lines.txt')
        missing = route.endswith('missing')
        if route in ('text', 'missing', 'txt-missing'):
            expected = set()
        elif route.startswith('txt'):
            expected = {lines}
        else:
            try:
                m.load(files[main], main if route != 'rows' else None)
            except parsecheck.model.Refused as e:
                refused = e
            except parsecheck.model.Unspecified:
                raise core.Skip()
            expected = set(m.opened)
        if any(r and str(r[0]).strip().lower() == 'declare' and r[1:] and r[1] == 'metatab-latest' for r in case['files']['main.csv']):
            obs.ev('stock')
        text = 'Title: x\nNote: y\nSection: S|A\nThing: v\n.A: w\n'
        with open(lines, 'w') as f:
            f.write(text + ('No.Such: x\n' if route == 'txt-bad' else ''))
        handle = open(lines) if route == 'txt-handle' else None
        rows = files[main]
        if route == 'rows':
            expected = set(m.opened)
        make = {'path': lambda: MetatabDoc(main), 'url': lambda: MetatabDoc(parse_app_url(main)), 'text': lambda: MetatabDoc(TextRowGenerator(text)), 'rows': lambda: live.from_rows(rows),
                'missing': lambda: MetatabDoc(os.path.join(d, 'absent.csv')), 'txt-url': lambda: MetatabDoc(parse_app_url(lines, proto='metatab')),
                'txt-bad': lambda: MetatabDoc(parse_app_url(lines, proto='metatab')), 'txt-path': lambda: MetatabDoc(TextRowGenerator(pathlib.Path(lines))), 'txt-handle': lambda: MetatabDoc(TextRowGenerator(handle)),
                'metatab-url': lambda: MetatabDoc(parse_app_url(main, proto='metatab')), 'txt-missing': lambda: MetatabDoc(parse_app_url(os.path.join(d, 'absent.txt'), proto='metatab'))}[route]
        before_files = self.listing(d)
        before, before_fds = settings(), {f: t for f, t in fds().items() if t != lines}
        out, err = io.StringIO(), io.StringIO()
        doc, raised = None, False
        touched = set()
        del LOG[:]
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('ignore')
            warnings.simplefilter('always', ResourceWarning)
            filters = list(map(repr, warnings.filters))
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                ON[0] = threading.get_ident()
                try:
                    doc = make()
                except Exception as e:
                    raised = True
                    if not isinstance(e, live.MetatabError) and not missing:
                        raise
                    e.__traceback__ = None
                finally:
                    ON[0] = False
                obs.ev('route:' + route)
                obs.ev('missing' if missing else 'rejected' if raised else 'accepted')
                opened = self.judge(obs, d, 'reading the document', touched)
                if doc is not None and not refused:
                    obs.eq('opened', opened - ({lines} if handle else set()), {p for p in expected} - ({lines} if handle else set()), 'files that were opened by reading the document')
                elif refused is not None:
                    obs.events['compare:opened'] += 1
                    extra = {o for o in opened if o not in expected and o in files}
                    obs.true('opened', not extra, lambda: 'a rejected document opened {}, which it does not name before the fault'.format(sorted(extra)))
                if doc is not None:
                    if case['ops']:
                        del LOG[:]
                        ON[0] = threading.get_ident()
                        try:
                            edits.quietly(doc, case['ops'])
                        finally:
                            ON[0] = False
                        obs.ev('edited')
                        self.judge(obs, d, 'editing', touched, False)
                    for c in case['calls']:
                        del LOG[:]
                        ON[0] = threading.get_ident()
                        try:
                            self.call(doc, c, d, touched)
                        except Exception:
                            obs.ev('call-raised')         # Others judge what calls answer
                        finally:
                            ON[0] = False
                        obs.ev('written' if c.startswith(('write', 'copy')) else 'call:' + c)
                        self.judge(obs, d, c, touched, False)
                doc = None
                gc.collect()
                obs.true('settings', sys.stdout is out and sys.stderr is err, 'the standard output of the process was replaced')
            obs.eq('settings', list(map(repr, warnings.filters)), filters, 'the filters for warnings')
        leaks = [str(w.message) for w in caught if issubclass(w.category, ResourceWarning) and d in str(w.message)]
        obs.true('closed', not leaks, lambda: 'a file was left to the garbage collector: {}'.format(leaks[0]))
        if handle:
            handle.close()
        obs.eq('fds', fds(), before_fds, 'open files afterwards')
        obs.true('silent', not out.getvalue() and not err.getvalue(), lambda: 'it printed {!r}'.format(core.short(out.getvalue() + err.getvalue(), 200)))
        after = settings()
        obs.events['compare:settings'] += 1
        for k in before:
            if before[k] != after[k]:
                obs.fail('settings', 'the {} of the process changed: {} instead of {}'.format(k, core.short(repr(after[k]), 200), core.short(repr(before[k]), 200)))
        now = self.listing(d)
        for p in sorted(set(before_files) | set(now)):
            if p not in touched:
                obs.true('files', before_files.get(p) == now.get(p), lambda: 'the file {} was {}'.format(os.path.relpath(p, d), 'changed' if p in now and p in before_files else 'made' if p in now else 'removed'))
        obs.state((route, raised, tuple(case['calls']), len(expected)))

    @staticmethod
    def listing(d):
        out = {}
        for b, ds, fs in os.walk(d):
            for f in fs:
                p = os.path.join(b, f)
                with open(p, 'rb') as fh:
                    out[p] = (fh.read(), os.stat(p).st_mtime_ns, os.stat(p).st_mode)
            for f in ds:
                out[os.path.join(b, f)] = 'dir'
        return out

    def call(self, doc, c, d, touched):
        if c == 'render':
            return doc.as_csv(), doc.as_lines(), list(doc.rows)
        if c == 'dict':
            return doc.as_dict()
        if c == 'find':
            return list(doc.find('*.*')), doc.find_first('Root.Title'), doc.get_value('Root.Name')
        if c == 'package':
            return convert_to_datapackage(doc)
        if c == 'name':
            return doc.update_name(create_term=True), doc.cleanse()
        if c == 'version':
            return [doc.as_version(v) for v in ('+1', None, '7')]
        if c == 'clean':
            return doc.clean_unused_schema_terms()
        if c == 'props':
            return [(t.props, t.all_props, t.arg_props, t.get_value('x'), t.as_dict()) for t in doc.terms]
        if c == 'str':
            return [(str(t), repr(t)) for t in live.all_live(doc)]
        t = os.path.join(d, {'write': 'out.csv', 'write_lines': 'out.txt', 'copy': 'neighbour.csv'}[c])
        touched.add(t)
        return doc.write_lines(t) if c == 'write_lines' else doc.write_csv(t)

    def judge(self, obs, d, what, touched, reading=True):
        """-> the files below the folder that were opened"""
        cache = os.path.realpath(os.environ['METATAB_CACHE'])
        opened = set()
        obs.ev('audited', max(1, len(LOG)))
        for e in LOG:
            if e[0] == 'open':
                p, mode, flags = e[1:]
                if p.isdigit():
                    continue
                real = os.path.realpath(p)
                obs.ev('opens')
                if real == cache or real.startswith(cache + os.sep):
                    continue
                writes = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)) or bool(mode and set(mode) & set('wax+'))
                if writes:
                    obs.true('writes', any(os.path.dirname(real) == os.path.dirname(t) for t in touched) or self.probe(real), lambda: '{} opened {} for writing'.format(what, p))
                elif real.startswith(d + os.sep) or 'metatabdecl' + os.sep in real and not real.endswith(('.py', '.pyc')):
                    opened.add(real)
                    obs.true('reads', reading or what.startswith(('write', 'copy')) or what == 'editing', lambda: '{} read the file {}'.format(what, p))
                else:
                    # (Whether a text is the name of a file is found by opening it)
                    # Modules, and the files of the system and of installed packages, are not judged
                    ok = not os.path.exists(p) or os.path.isdir(real) or real.startswith(tuple(os.path.realpath(x) + os.sep for x in ('/usr', '/etc', '/proc', '/dev', '/lib', '/sys', '/opt', sys.prefix, boot.REPO, boot.VERIF)))
                    obs.true('reads', ok, lambda: '{} read the file {}'.format(what, p))
            else:
                args = [os.path.realpath(a) for a in e[1:] if isinstance(a, str) and (a.startswith('/') or a.startswith('.'))]
                if e[0].startswith('tempfile.') or e[0].startswith(('os.', 'shutil.')) and args and all(
                        a.startswith(cache) or self.probe(a) or any(os.path.dirname(a) == os.path.dirname(t) for t in touched) for a in args):
                    continue
                obs.fail('audit', '{} did {}'.format(what, core.short(repr(e), 300)))
        return opened

    @staticmethod
    def probe(p):
        """The temporary folder's own check whether files can be made in it"""
        import tempfile
        return os.path.dirname(p) == os.path.realpath(tempfile.gettempdir()) and os.path.basename(p).startswith(('TmP', 'tmp')) or p == os.path.realpath(tempfile.gettempdir())
