"""C17: the command line tool agrees with the library and does not clobber files"""
import json, os, signal, subprocess, sys, traceback
import yaml
from .. import boot, canon, core, gen, live, naming, parsecheck
from .c16 import listing
from ..model import norm
import metatab.cli

FLAGS = {'csv': ['-c', '--csv', None], 'line': ['-l', '--line'], 'json': ['-j', '--json'], 'yaml': ['-y', '--yaml'], 'prety': ['-p', '--prety']}
EXT = {'csv': '.csv', 'line': '.txt', 'json': '.json', 'yaml': '.yaml'}
MAINS = ['main', 'metadata', 'my file', 'x.y', 'ünï']
HOW = ['abs', 'rel', 'rel', 'dir', 'default', 'url', 'fragment']


def run_forked(argv, cwd):
    """Run the command in a child process that has the modules loaded -> (status, stdout, stderr)"""
    o, e = os.path.join(boot.SCRATCH, 'o%d' % os.getpid()), os.path.join(boot.SCRATCH, 'e%d' % os.getpid())
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.alarm(100)
            for fd, p in ((1, o), (2, e)):
                f = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(f, fd)
            sys.stdout = os.fdopen(1, 'w', encoding='utf8')
            sys.stderr = os.fdopen(2, 'w', encoding='utf8')
            os.chdir(cwd)
            sys.argv = ['metatab'] + argv
            try:
                metatab.cli.metatab()
                code = 0
            except SystemExit as x:
                code = x.code if isinstance(x.code, int) else 0 if x.code is None else 1
                if isinstance(x.code, str):
                    print(x.code, file=sys.stderr)
            except BaseException:
                traceback.print_exc()
                code = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code & 255)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    with open(o, 'rb') as f, open(e, 'rb') as g:
        return code, f.read().decode('utf8'), g.read().decode('utf8', 'replace')


def run_process(argv, cwd, locale=None):
    env = dict(os.environ, PYTHONPATH=boot.REPO, PYTHONIOENCODING='utf8', PYTHONDONTWRITEBYTECODE='1')
    if locale:
        env.update(LC_ALL=locale, LANG=locale, PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'from metatab.cli import metatab; metatab()'] + argv, cwd=cwd, env=env, capture_output=True, timeout=300)
    return r.returncode, r.stdout.decode('utf8'), r.stderr.decode('utf8', 'replace')


def same_data(x):
    """As read back from JSON"""
    return json.loads(json.dumps(x))


class CHECK(core.Check):
    id = 'C17'
    quick_cases, thorough_cases = 2200, 40000
    rule = ('a case is a folder of files, some of which are broken, and a sequence of commands; output, exit status and the folder are observed for each; distinct by content, '
            'non-trivial if it has a command')
    needs = ('out:csv', 'out:line', 'out:json', 'out:yaml', 'out:prety', 'wrote:csv', 'wrote:line', 'wrote:json', 'wrote:yaml', 'wrote-source', 'overwrote', 'found', 'not-found',
             'failed:library', 'failed:missing', 'created', 'create-existing', 'create-refused', 'create-no-template', 'declaration', 'real-process', 'source:txt', 'source:csv',
             'how:abs', 'how:rel', 'how:dir', 'how:default', 'how:url', 'compare:untouched', 'how:fragment', 'out:terms', 'opt:-f', 'opt:--find-first', 'opt:-C', 'opt:--create', 'opt:-d', 'opt:--show-declaration', 'plain-locale', 'assert:told')
    assumptions = ('the command runs in a forked process that has the modules loaded; some cases run it in a fresh interpreter as well',)

    def fixed_cases(self, tier):
        rows = [['Title', 'é "q", x'], ['Name', 'n'], ['Section', 'S', 'Name', 'Url'], ['Thing', 'v', 'a', 'b'], ['Thing.Part', '1'], ['Thing.Part', '2']]
        out = []
        for k, src in enumerate(['csv', 'txt']):
            runs = [['out', o, fl or '', w, 'rel', ''] for o in FLAGS for fl in FLAGS[o] for w in ('', '-W')][k::2] + [['find', 'Root.Title', 'rel'], ['find', 'Root.Nothing', 'rel'], ['missing', 'csv', 'no.csv', ''],
                    ['create', 'new.csv', '', 'after'], ['create', 'main.csv', 'metatab', 'before'], ['decl', 'json', 'rel']]
            for j in range(0, len(runs), 3):
                out.append({'files': {'main.csv': rows}, 'main': 'main', 'ext': src, 'dir': '', 'runs': runs[j:j + 3], 'real': True})
        return out

    def gen(self, rng, i, tier):
        bad = rng.random() < 0.2
        files = gen.file_docs(rng, n_files=rng.choice([1, 1, 1, 2]), decl=0.3, dirs=True, decl_bad=0.5 if bad else 0, dangling=0.3 if bad else 0, loops=0.3 if bad else 0, n=rng.choice([2, 5, 15]),
                              newlines=rng.random() < 0.3)
        if rng.random() < 0.3:
            files['main.csv'] += gen.name_rows(rng) if rng.random() < 0.5 else gen.package_rows(rng)
        if bad and rng.random() < 0.6:
            rows = files['main.csv']
            rows.insert(rng.randint(0, len(rows)), rng.choice([['Nope.Child', 'x'], ['a.b.c', 'x'], ['Section', ''], ['Include', 'gone.csv'], ['Declare', 'nodecl.csv'], ['Section']]))
        case = {'files': files, 'main': rng.choice(MAINS), 'ext': rng.choice(['csv', 'csv', 'txt']), 'dir': rng.choice(['', '', 'pack dir', 'd.x']), 'real': rng.random() < 0.004,
                'others': rng.sample(['json', 'yaml', 'txt', 'csv', 'prety', 'bak'], rng.randint(0, 3))}
        runs = []
        for _ in range(rng.randint(1, 4)):
            x = rng.random()
            how = rng.choice(HOW)
            if x < 0.6:
                o = rng.choice(sorted(FLAGS))
                runs.append(['out', o, rng.choice(FLAGS[o]) or '', rng.choice(['', '', '-W', '--write-in-place']), how, rng.choice(['', 'after'])])
            elif x < 0.75:
                runs.append(['find', rng.choice(['?', '?', '?', 'Root.Title', 'Root.Nothing', '*.*', 'nothing']), how, rng.choice(['-f', '--find-first'])])
            elif x < 0.78:
                runs.append(['terms', rng.choice(['-t', '--terms']), how])
            elif x < 0.82:
                runs.append(['missing', rng.choice(sorted(FLAGS)), rng.choice(['no.csv', 'none.txt', 'gone/x.csv', 'nodir', 'no such.csv']), rng.choice(['', '-W'])])
            elif x < 0.94:
                runs.append(['create', rng.choice(['new.csv', 'my new.csv', '?', '?', 'new.txt', 'new', 'gone/new.csv', 'x.json', '']), rng.choice(['', 'metatab', 'datapackage', 'notemplate']),
                             rng.choice(['before', 'after']), rng.choice(['-C', '--create'])])
            else:
                runs.append(['decl', rng.choice(['json', 'yaml']), how, rng.choice(['-d', '--show-declaration'])])
        case['runs'] = runs
        return case

    def trivial(self, case):
        return not case['runs']

    def execute(self, case, obs):
        with live.workdir() as d:
            home = os.path.join(d, case['dir']) if case['dir'] else d
            os.makedirs(home, exist_ok=True)
            files = dict(case['files'])
            main = case['main'] + '.csv'
            for n, rows in files.items():
                live.write_csv(os.path.join(home, main if n == 'main.csv' else n), rows)
            if case['ext'] == 'txt':
                try:
                    p = os.path.join(home, main)
                    text = live.from_path(p).as_lines()
                    os.remove(p)
                    main = case['main'] + '.txt'
                    with open(os.path.join(home, main), 'w', encoding='utf8') as f:
                        f.write(text)
                except (live.MetatabError, AttributeError, KeyError):
                    raise core.Skip()
            for x in case.get('others', []):
                for n in (os.path.join(home, case['main'] + '.' + x), os.path.join(d, 'metadata.' + x)):
                    if not os.path.exists(n):
                        with open(n, 'w') as f:
                            f.write('precious' if len(case['runs']) % 3 else '')        # Also a file that has nothing in it yet
            obs.ev('source:' + case['ext'])
            self.d, self.home, self.main = d, home, main
            self.run = run_forked
            if case.get('real'):
                self.run = run_process
                obs.ev('real-process')
            for r in case['runs']:
                getattr(self, 'run_' + r[0])(obs, *r[1:])

    # -- helpers ------------------------------------------------------------------------------

    def place(self, how, obs):
        """-> (the file argument, the working directory, the file that it is)"""
        p = os.path.join(self.home, self.main)
        rel = os.path.relpath(p, self.d)
        if how in ('dir', 'default', 'fragment') and self.main != 'metadata.csv' or how == 'dir' and os.path.splitext(self.home)[1]:
            how = 'rel'
        obs.ev('how:' + how)
        if how == 'abs':
            return [p], self.d, p
        if how == 'rel':
            return [rel], self.d, p
        if how == 'url':
            return ['file:' + p], self.d, p
        if how == 'dir':
            return [self.home], self.d, p
        if how == 'fragment':
            return ['#frag'], self.home, p
        return [], self.home, p

    @staticmethod
    def named(arg):
        return 'metadata.csv' if not arg or arg[0].startswith('#') else arg[0]

    def library(self, arg, cwd):
        """The document as the library reads it, or None"""
        old = os.getcwd()
        os.chdir(cwd)
        try:
            return live.MetatabDoc(live.parse_app_url(self.named(arg), proto='metatab'))
        except Exception as e:
            return None
        finally:
            os.chdir(old)

    def call(self, obs, argv, cwd, fails=False):
        before = listing(self.d)
        code, out, err = self.run(argv, cwd)
        after = listing(self.d)
        changed = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))
        obs.true('no-traceback', 'Traceback' not in err and 'Traceback' not in out, lambda: 'metatab {} shows a traceback: {}'.format(argv, err[-700:]))
        obs.true('status', (code != 0) == fails, lambda: 'metatab {} exits with {}: {}'.format(argv, code, (err or out)[-500:]))
        if fails:
            obs.true('message', err.strip() != '', lambda: 'metatab {} fails without a message'.format(argv))
            obs.eq('untouched', changed, [], 'files that the failing command {} changed'.format(argv))
        obs.state((tuple(argv[:-1]), core.digest(out), code))
        return out, err, changed, before, after

    # -- commands -----------------------------------------------------------------------------

    def run_out(self, obs, o, flag, w, how, order):
        arg, cwd, p = self.place(how, obs)
        opts = [x for x in (flag, w) if x]
        argv = arg + opts if order else opts + arg
        doc = self.library(arg, cwd)
        if doc is None:
            self.call(obs, argv, cwd, fails=True)
            obs.ev('failed:library')
            return
        d = same_data(doc.as_dict())
        text = {'csv': doc.as_csv, 'line': doc.as_lines}.get(o, lambda: None)()
        plain = self.run is run_process and w and o != 'prety'
        if plain:
            # What is written does not depend on the locale
            self.run = lambda a, c: run_process(a, c, 'C')
            obs.ev('plain-locale')
        out, err, changed, before, after = self.call(obs, argv, cwd)
        if plain:
            self.run = run_process
        if w and o != 'prety':
            target = os.path.relpath(os.path.splitext(p)[0] + EXT[o], self.d)
            obs.eq('untouched', [c for c in changed if c != target], [], 'files other than {!r} that {} changed'.format(target, argv))
            obs.true('written', target in after, lambda: '{} wrote no {!r}'.format(argv, target))
            obs.ev('wrote:' + o)
            if target in before:
                obs.ev('overwrote')
            if target == os.path.relpath(p, self.d):
                obs.ev('wrote-source')
            got = after[target].decode('utf8')
        else:
            obs.eq('untouched', changed, [], 'files that {} changed'.format(argv))
            got = out
            obs.true('newline', got.endswith('\n'), lambda: 'the output of {} does not end with a line end'.format(argv))
            got = got[:-1]
            obs.ev('out:' + o)
        if text is not None:
            obs.eq(o, got, text, 'output of {}'.format(argv))
        elif o == 'json':
            obs.eq(o, json.loads(got, object_pairs_hook=list), json.loads(json.dumps(doc.as_dict()), object_pairs_hook=list), 'output of {}'.format(argv))
        elif o == 'yaml':
            obs.eq(o, yaml.safe_load(got), d, 'output of {}'.format(argv))
        else:
            obs.eq(o, same_data(eval(got, {'__builtins__': {}, 'OrderedDict': dict, 'defaultdict': dict})), d, 'output of {}'.format(argv))

    def run_find(self, obs, name, how, opt='-f'):
        arg, cwd, p = self.place(how, obs)
        opt = [opt]
        obs.ev('opt:' + opt[0])
        doc = self.library(arg, cwd)
        if doc is None:
            self.call(obs, opt + [name] + arg, cwd, fails=True)
            obs.ev('failed:library')
            return
        if name == '?':
            ts = [t for t in live.all_live(doc) if norm(t.value) is not None]
            if not ts:
                return
            t = ts[len(ts) * 7 // 11]
            name = t.join
            if name.startswith('-'):
                return
        t = doc.find_first(name)
        if t is None:
            self.call(obs, opt + [name] + arg, cwd, fails=True)
            obs.ev('not-found')
            return
        out, err, changed, *_ = self.call(obs, opt + [name] + arg, cwd)
        obs.eq('untouched', changed, [], 'files that -f changed')
        if t.value is not None:
            obs.eq('found', out, str(t.value) + '\n', 'the first {!r}'.format(name))
            obs.ev('found')

    def run_terms(self, obs, opt, how):
        arg, cwd, p = self.place(how, obs)
        doc = self.library(arg, cwd)
        if doc is None:
            self.call(obs, [opt] + arg, cwd, fails=True)
            obs.ev('failed:library')
            return
        out, err, changed, *_ = self.call(obs, [opt] + arg, cwd)
        obs.eq('untouched', changed, [], 'files that {} changed'.format(opt))
        old = os.getcwd()
        os.chdir(cwd)
        try:
            stream = live.recorded(live.parse_app_url(self.named(arg), proto='metatab'))[1]
        finally:
            os.chdir(old)
        if any(t.join_lc == 'root.declare' for t in stream):
            return
        at = 0
        for t in stream:
            i = out.find(str(t) + '\n', at)
            obs.true('terms', i >= 0, lambda: '{} does not print the term {}, after {!r}'.format(opt, live.show(t), out[max(0, at - 200):at]))
            at = i + len(str(t))
        rest = out
        for t in stream:
            rest = rest.replace(str(t) + '\n', '', 1)
        obs.true('terms', all('root.section=' in l or 'root.root=' in l for l in rest.splitlines()), lambda: '{} prints {!r} as well'.format(opt, rest))
        obs.ev('out:terms')

    def run_missing(self, obs, o, name, w):
        if os.path.exists(os.path.join(self.d, name)):
            return
        self.call(obs, [x for x in (FLAGS[o][0], w) if x] + [name], self.d, fails=True)
        obs.ev('failed:missing')

    def run_create(self, obs, name, template, order, opt='-C'):
        obs.ev('opt:' + opt)
        name = os.path.relpath(os.path.join(self.home, self.main), self.d) if name == '?' else name
        arg = [name] if name else []
        name = name or 'metadata.csv'
        if order == 'before' and template:
            argv = [opt, template] + arg
        else:
            argv = arg + [opt] + ([template] if template else [])
        if os.path.exists(os.path.join(self.d, name)):
            out, err, changed, *_ = self.call(obs, argv, self.d)
            obs.eq('untouched', changed, [], 'files that creating an existing file changed')
            obs.true('told', name in out + err, lambda: 'creating the existing {} says {!r}'.format(name, out + err))
            obs.ev('create-existing')
            return
        if template == 'notemplate':
            self.call(obs, argv, self.d, fails=True)
            obs.ev('create-no-template')
            return
        if not name.endswith('.csv') or name.startswith('gone'):
            self.call(obs, argv, self.d, fails=True)
            obs.ev('create-refused')
            return
        out, err, changed, before, after = self.call(obs, argv, self.d)
        obs.eq('untouched', changed, [name], 'files that creating {!r} changed'.format(name))
        obs.true('told', name in out + err, lambda: 'creating {} says {!r}'.format(name, out + err))
        doc = live.from_path(os.path.join(self.d, name))
        tdoc = live.from_path(os.path.join(os.path.dirname(metatab.cli.__file__), 'templates', (template or 'metatab') + '.csv'))
        obs.true('created', naming.root_value(doc, 'identifier') is not None, 'a new file has no identifier')

        def other(dd):
            return [(n, h, [t for t in ts if not (n == 'Root' and t[0] in ('name', 'identifier', 'version'))]) for n, h, ts in canon.canon(dd)]
        obs.eq('created', other(doc), other(tdoc), 'the content of a new file')
        obs.ev('created')

    def run_decl(self, obs, o, how, opt='-d'):
        arg, cwd, p = self.place(how, obs)
        doc = self.library(arg, cwd)
        obs.ev('opt:' + opt)
        argv = [opt, FLAGS[o][0]] + arg
        try:
            dd = live.MetatabDoc(decl=p) if doc is not None else None
        except live.MetatabError:
            dd = None
        if doc is None or dd is None:
            self.call(obs, argv, cwd, fails=True)
            obs.ev('declaration-failed')
            return
        if p.endswith('.txt'):
            return
        out, err, changed, *_ = self.call(obs, argv, cwd)
        obs.eq('untouched', changed, [], 'files that -d changed')
        got = json.loads(out) if o == 'json' else yaml.safe_load(out)
        obs.eq('declaration', got, same_data({'terms': dd.decl_terms, 'sections': dd.decl_sections}), 'output of {}'.format(argv))
        obs.ev('declaration')
