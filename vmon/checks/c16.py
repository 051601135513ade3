"""C16: saving is faithful and never destroys what it cannot replace"""
import os, pathlib
from .. import canon, core, gen, live, naming, roundtrip
from ..model import norm

NAMES = ['out', 'my out', 'ünï-é', 'x.y', 'OUT', 'metadata', 'a+b', "it's", 'x(1)', 'a.txt', 'a.csv', '.hidden', '[x]', 'a&b=c', '~x', '-x', 'http', 'x@y', 'a,b', '日本']
DIRS = ['', 'sub', 'deep/er', 'with space']
EXT = {'csv': '.csv', 'lines': '.txt'}
RENDER = {'csv': 'as_csv', 'lines': 'as_lines'}
BAD = ['json', 'xlsx', 'csv.bak', 'dat', '']


class Boom(Exception):
    pass


class Bomb:
    """A value that cannot be rendered"""
    def __str__(self):
        raise Boom('cannot be rendered')
    __repr__ = __format__ = lambda self, *a: self.__str__()

    def strip(self):
        return self


def listing(d):
    """What a directory has: {path: content}"""
    out = {}
    for base, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(base, x), d)] = None
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def gen_target(rng, ext):
    return os.path.join(rng.choice(DIRS), rng.choice(NAMES) + ext)


class CHECK(core.Check):
    id = 'C16'
    quick_cases, thorough_cases = 6000, 80000
    rule = ('a case is a document and a history of saves (by every route), edits, refused saves, and saves that fail; the directory is compared before and after each; '
            'distinct by content, non-trivial if it saves')
    needs = ('compare:bytes', 'compare:read-back', 'compare:again', 'compare:untouched', 'compare:kept', 'saved:csv', 'saved:lines', 'overwrote', 'refused-extension', 'refused-url',
             'refused-missing-directory', 'fault:surrogate', 'fault:bomb', 'fault-kept-file', 'default:none', 'default:own', 'form:str', 'form:path', 'form:url', 'form:abs', 'identifier-made', 'edited', 'capitals', 'tampered')
    assumptions = ('target names have no character that is special in a URL (#, %, ?)',)

    def fixed_cases(self, tier):
        out = []
        for rows in roundtrip.stress():
            for m in ('csv', 'lines'):
                out.append({'rows': rows, 'ops': [], 'decl': None, 'steps': [['save', m, m, 'out' + EXT[m], 'str'], ['fault', 'surrogate', 5, m, 'out' + EXT[m]],
                                                                             ['fault', 'bomb', 7, m, 'out' + EXT[m]], ['default', m], ['save', m, 'write', 'o2' + EXT[m], 'path']]})
        # More text than any buffer holds, of characters of several sizes
        big = [['Title', 'big']] + [['Note', '{} é日本 {}'.format(k, 'x' * (k % 97))] for k in range(3000)]
        for m in ('csv', 'lines'):
            out.append({'rows': big, 'ops': [], 'decl': None, 'steps': [['save', m, m, 'big' + EXT[m], 'str'], ['save', m, 'write', 'big' + EXT[m], 'abs'], ['default', m]]})
        return out

    def gen(self, rng, i, tier):
        x = rng.random()
        case = {'rows': [], 'ops': [], 'decl': None}
        if x < 0.35:
            case['rows'] = gen.package_rows(rng)
        elif x < 0.5:
            case['rows'] = gen.name_rows(rng)
        elif x < 0.95:
            case.update(roundtrip.gen_case(rng, tier, newlines=rng.random() < 0.3))
            if rng.random() < 0.3:
                case['rows'] = gen.name_rows(rng) + case['rows']
        steps, targets = [], []
        v = gen.Vals(rng, spaced=False, newlines=False, hostile=0.5)
        for _ in range(rng.randint(1, 7)):
            m = rng.choice(['csv', 'lines'])
            y = rng.random()
            same = [t for t in targets if t.endswith(EXT[m])]
            target = rng.choice(same) if same and rng.random() < 0.5 else gen_target(rng, EXT[m])
            if y < 0.45:
                steps.append(['save', m, rng.choice([m, m, 'write']), target, rng.choice(['str', 'path', 'url', 'abs'])])
                targets.append(target)
            elif y < 0.55:
                steps.append(['edit', rng.randint(0, 50), v() if rng.random() < 0.8 else None])
            elif y < 0.65:
                steps.append(['fault', rng.choice(['surrogate', 'bomb']), rng.randint(0, 50), m, target])
            elif y < 0.75:
                other = rng.choice([EXT['lines' if m == 'csv' else 'csv']] + ['.' + e if e else '' for e in BAD])
                steps.append(['bad', m, gen_target(rng, other), rng.choice(['str', 'path', 'abs'])])
            elif y < 0.8:
                steps.append(['url', m, rng.choice(['http://example.com/a', 'https://example.com/x/a', 's3://bucket/a']) + EXT[m]])
            elif y < 0.85:
                steps.append(['nodir', m, target])
            elif y < 0.87:
                steps.append(['upper', m, rng.choice([m, 'write']), gen_target(rng, EXT[m].upper())])
            elif y < 0.93:
                steps.append(['default', m])
            else:
                steps.append(['open', m, target])
        case['steps'] = steps
        return case

    def trivial(self, case):
        return not case['steps']

    def execute(self, case, obs):
        with live.workdir() as d:
            cwd = os.getcwd()
            work = os.path.join(d, 'work dir')
            os.mkdir(work)
            try:
                os.chdir(work)
                for x in DIRS[1:]:
                    os.makedirs(os.path.join(work, x))
                self.doc = roundtrip.build(case, d, obs)
                self.own = None
                if naming.kinds(self.doc):
                    raise core.Skip()
                self.newlines = False
                self.broken = False
                for st in case['steps']:
                    getattr(self, 'step_' + st[0])(d, work, obs, *st[1:])
            finally:
                os.chdir(cwd)

    # -- steps --------------------------------------------------------------------------------

    def ref(self, work, target, form):
        p = os.path.join(work, target)
        return {'str': target, 'path': pathlib.Path(target), 'url': 'file:' + p, 'abs': p}[form]

    def saver(self, m, how):
        return getattr(self.doc, {'csv': 'write_csv', 'lines': 'write_lines', 'write': 'write'}[how])

    def others(self):
        return [(n, h, [t for t in ts if not (n.lower() == 'root' and t[0] in ('identifier', 'version') or t[0] == 'name')]) for n, h, ts in canon.canon(self.doc)]

    def step_save(self, d, work, obs, m, how, target, form):
        obs.ev('form:' + form)
        self.save(d, work, obs, m, lambda: self.saver(m, how)(self.ref(work, target, form)), os.path.join('work dir', target))

    def step_default(self, d, work, obs, m):
        if self.own is None:
            if m == 'csv':
                obs.ev('default:none')
                self.save(d, work, obs, m, lambda: self.saver(m, m)(), os.path.join('work dir', 'metadata.csv'))
        elif self.own.endswith(EXT[m]):
            obs.ev('default:own')
            self.save(d, work, obs, m, lambda: self.saver(m, m)(), self.own)
        else:
            self.refused(d, obs, lambda: self.saver(m, m)(), 'extension')

    def save(self, d, work, obs, m, call, rel):
        before, others, ident = listing(d), self.others(), naming.root_value(self.doc, 'identifier')
        call()
        after = listing(d)
        obs.ev('saved:' + m)
        if rel in before:
            obs.ev('overwrote')
        obs.eq('untouched', sorted(k for k in set(before) | set(after) if k != rel and before.get(k, 0) != after.get(k, 0)), [], 'other files that a save to {!r} changed'.format(rel))
        obs.true('written', rel in after, lambda: 'a save to {!r} wrote no such file'.format(rel))
        text = getattr(self.doc, RENDER[m])()
        obs.events['compare:bytes'] += 1
        if after[rel] != text.encode('utf8'):
            obs.fail('bytes', 'the file of a save differs from the rendering of the document: line ' + core.first_diff(after[rel].splitlines(True), text.encode('utf8').splitlines(True)))
        now = naming.root_value(self.doc, 'identifier')
        obs.true('identifier', now is not None, 'a saved document has no identifier')
        obs.true('identifier', ident is None or ident == now, 'a save changed the identifier')
        if ident is None:
            obs.ev('identifier-made')
        obs.eq('kept', self.others(), others, 'the other content of the document after a save')
        obs.state((m, core.digest(text)))
        p = os.path.join(d, rel)
        c = canon.canon(self.doc)
        if m == 'csv' or not any('\n' in str(t.value) or '\r' in str(t.value) for t in live.all_live(self.doc)):
            if not any(ch in text for ch in '\r\v\f\x1c\x1d\x1e\x85\u2028\u2029\0'.replace('\r', '' if m == 'csv' else '\r')):
                again = live.from_path(p) if m == 'csv' else live.MetatabDoc(live.parse_app_url(p, proto='metatab'))
                roundtrip.same(obs, 'read-back', again, c, 'reading the saved file')
                obs.eq('read-back-identifier', norm(naming.root_value(again, 'identifier')), norm(now), 'the identifier in the saved file')
        # Somebody else may have changed the file, or removed it
        how = len(text) % 4
        if how == 1:
            os.remove(p)
        elif how > 1:
            st = os.stat(p)
            with open(p, 'r+b') as f:
                f.write(b'#' * (len(after[rel]) if how == 2 else len(after[rel]) + 7))
            if how == 2:
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
        obs.ev('tampered', how > 0)
        call()
        with open(p, 'rb') as f:
            obs.eq('again', f.read(), after[rel], 'the file after saving again')

    def step_edit(self, d, work, obs, i, value):
        ts = [t for s in self.doc for t in live.own(s.terms) if not (t.section.name == 'Root' and t.record_term_lc in ('name', 'identifier', 'version', 'dataset', 'declare'))]
        if value is not None and (not ts or i % 3 == 0):
            self.doc['Root'].new_term('Note', value)
        elif ts and i % 3 == 1 and len(ts) > 1:
            self.doc.remove_term(ts[i % len(ts)])
        elif ts:
            ts[i % len(ts)].value = value
        obs.ev('edited')

    def step_open(self, d, work, obs, m, target):
        """Go on with a document that has a file of its own"""
        p = os.path.join(work, target)
        if not os.path.exists(p):
            live.write_csv(p, [['Title', 'x'], ['Section', 'S', 'Name'], ['Thing', 'v', 'n']]) if m == 'csv' else open(p, 'w').write('Title: x\nSection: S|Name\nThing: v\n  .Name: n\n')
        try:
            self.doc = live.from_path(p) if m == 'csv' else live.MetatabDoc(live.parse_app_url(p, proto='metatab'))
        except live.MetatabError:
            raise core.Skip()
        from .. import edits
        if edits.same_named_nesting(self.doc) or naming.kinds(self.doc):
            raise core.Skip()
        self.own = os.path.join('work dir', target)

    def refused(self, d, obs, call, why):
        before, state = listing(d), live.snapshot(self.doc)
        try:
            call()
        except live.MetatabError as e:
            obs.ev('refused-' + why)
        except OSError as e:
            if why != 'missing-directory':
                raise
            obs.ev('refused-' + why)
        else:
            obs.fail('refused', 'a save that must be refused ({}) succeeded'.format(why))
        self.untouched(d, obs, before, 'a refused save ({})'.format(why))
        if why in ('extension', 'url'):
            obs.eq('document', live.snapshot(self.doc), state, 'the document after a refused save ({})'.format(why))

    def untouched(self, d, obs, before, what):
        after = listing(d)
        obs.eq('untouched', sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)), [], 'files that {} changed'.format(what))

    def step_bad(self, d, work, obs, m, target, form):
        if target.endswith(EXT[m]) or os.path.basename(target).startswith('.') and target.count('.') < 2:
            return
        p = os.path.join(work, target)
        if len(target) % 2 and not os.path.exists(p):
            with open(p, 'w') as f:
                f.write('precious')
        self.refused(d, obs, lambda: self.saver(m, m)(self.ref(work, target, form)), 'extension')
        if not target.endswith(('.csv', '.txt')):
            self.refused(d, obs, lambda: self.doc.write(self.ref(work, target, form)), 'extension')

    def step_url(self, d, work, obs, m, url):
        self.refused(d, obs, lambda: self.saver(m, m)(url), 'url')
        self.refused(d, obs, lambda: self.doc.write(url), 'url')

    def step_upper(self, d, work, obs, m, how, target):
        """An extension in capitals is either accepted, for that very file, or refused"""
        before = listing(d)
        try:
            self.saver(m, how)(target)
        except live.MetatabError:
            self.untouched(d, obs, before, 'a refused save (capitals)')
        else:
            before.pop(os.path.join('work dir', target), None)
            after = listing(d)
            obs.true('written', after.pop(os.path.join('work dir', target), None) is not None, lambda: 'a save to {!r} wrote no such file'.format(target))
            obs.eq('untouched', sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)), [], 'other files that a save to {!r} changed'.format(target))
        obs.ev('capitals')

    def step_nodir(self, d, work, obs, m, target):
        self.refused(d, obs, lambda: self.saver(m, m)(os.path.join('no such', target)), 'missing-directory')

    def step_fault(self, d, work, obs, kind, i, m, target):
        """A document that cannot be rendered or encoded"""
        p = os.path.join(work, target)
        ts = [t for t in live.all_live(self.doc) if not (t.section is not None and t.section.name == 'Root' and t.parent_term_lc in ('root', 'version'))]
        # Not the terms that make the name
        added = None
        if not ts or i % 3 == 0:
            s = self.doc.get_or_new_section('Faults')
            added = s.new_term('Thing', 'v')
            t = added
        else:
            t = ts[i % len(ts)]
        old = t.value
        t.value = Bomb() if kind == 'bomb' else 'a\ud800b'
        try:
            before = listing(d)
            for how in (m, 'write'):
                try:
                    self.saver(m, how)(target)
                except Boom:
                    obs.ev('fault:bomb')
                except UnicodeError:
                    obs.ev('fault:surrogate')
                except live.MetatabError:
                    obs.ev('fault:wrapped')
                else:
                    # Rendered all the same; then it is a save, which is not of interest here
                    obs.ev('fault:none')
                    before = listing(d)
                    continue
                if os.path.exists(p):
                    obs.ev('fault-kept-file')
                self.untouched(d, obs, before, 'a save that failed ({})'.format(kind))
        finally:
            t.value = old
            if added is not None:
                del self.doc['Faults']
