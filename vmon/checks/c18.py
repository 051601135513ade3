"""C18: documents in one process do not influence each other"""
import json, os, pickle, random, struct, sys
from .. import core, edits, gen, live, parsecheck, threads
from ..live import MetatabRowGenerator

READS = ['csv', 'lines', 'dict', 'find', 'finds', 'args', 'plain', 'decls', 'version', 'props']


def j(x):
    return json.dumps(x, default=str)


def named(ts):
    return [(t.join_lc, repr(t.value), t.section.name if t.section is not None else None) for t in ts]


class Program:
    """The operations on one document. Every step gives an answer"""

    def __init__(self, steps, d):
        self.steps, self.d, self.k = steps, d, 0
        self.doc, self.held, self.mirror = None, None, None
        self.answers = []
        self.pump = None

    @property
    def done(self):
        return self.k >= len(self.steps)

    def source(self, rows):
        pump = self.pump

        def it():
            for r in rows:
                if pump:
                    pump()
                yield list(r)
        return MetatabRowGenerator(it())

    def step(self):
        st = self.steps[self.k]
        self.k += 1
        try:
            a = getattr(self, 'do_' + st[0])(*st[1:])
        except core.CpuLimit:
            raise
        except Exception as e:
            a = ('raised', type(e).__name__)
        self.answers.append((st[0], a))

    def run(self):
        while not self.done:
            self.step()
        return self

    def final(self):
        return None if self.doc is None else live.plain(self.doc)

    # -- steps --
    def do_new(self, rows, how, decl):
        kw = {}
        if decl is not None and how != 'row':
            kw['decl'] = os.path.join(self.d, decl)
        if decl is not None and how == 'row':
            rows = [['Declare', os.path.join(self.d, decl)]] + rows
        self.doc = live.MetatabDoc(self.source(rows), **kw) if rows else live.MetatabDoc(**kw)
        return len(self.doc.terms)

    def do_open(self, f):
        self.doc = live.from_path(os.path.join(self.d, f))
        return len(self.doc.terms)

    def do_load(self, rows):
        live_rows = self.source(rows)
        self.mirror = None
        self.doc.load_terms(live.TermParser(live_rows, resolver=self.doc.resolver, doc=self.doc))
        return len(self.doc.terms)

    def do_decl(self, f):
        self.mirror = None
        self.doc.load_declarations([os.path.join(self.d, f)])
        return sorted(self.doc.decl_terms)

    def do_edit(self, ops):
        if self.mirror is None:
            self.mirror = edits.Mirror(self.doc, core.NullObs())
        for op in ops:
            self.mirror.apply(op)
        return len(self.doc.terms)

    def do_section(self, name):
        s = self.doc.get_or_new_section(name)
        return list(s.args)

    def do_arg(self, name, arg, remove):
        s = self.doc.get_or_new_section(name)
        s.remove_arg(arg) if remove else s.add_arg(arg)
        return list(s.args)

    def do_term(self, sec, name, value, props):
        s = self.doc.get_or_new_section(sec)
        self.mirror = None
        t = s.new_term(name, value, **props)
        return [t.term_value_name, t.child_property_type, type(t).__name__]

    def do_hold(self, what, n):
        it = iter(self.doc.rows if what == 'rows' else self.doc.lines if what == 'lines' else self.doc.all_terms)
        out = []
        for _ in range(n):
            try:
                out.append(str(next(it)))
            except StopIteration:
                break
        self.held = it
        return out

    def do_finish(self):
        it, self.held = self.held, None
        return [str(x) for x in it or []]

    def do_read(self, what, name):
        d = self.doc
        if what == 'csv':
            return d.as_csv()
        if what == 'lines':
            return d.as_lines()
        if what == 'dict':
            return j(d.as_dict())
        if what == 'find':
            return named(d.find(name))
        if what == 'finds':
            return named(d.find([name, 'Root.Title', 'Table.Column'])) + named(d.find('*.' + name.split('.')[-1]))
        if what == 'args':
            return {n: list(d.section_args(n)) for n in gen.SECTIONS}
        if what == 'plain':
            return live.plain(d)
        if what == 'decls':
            return [sorted(d.decl_terms), sorted(d.decl_sections), sorted(d.super_terms.items()), sorted((k, sorted(v)) for k, v in d.derived_terms.items())]
        if what == 'version':
            return d.as_version('5')
        if what == 'props':
            return [repr(sorted(t.props.items(), key=repr)) for s in d for t in s.terms]


class Zygote:
    """A process that never handles a document itself; each isolated run is a fork of it"""
    inst = None

    @classmethod
    def get(cls):
        if cls.inst is None or cls.inst.pid != os.getpid():
            cls.inst = Zygote()
        return cls.inst

    def __init__(self):
        self.pid = os.getpid()
        a, b = os.pipe(), os.pipe()
        self.child = os.fork()
        if self.child == 0:
            try:
                os.close(a[1])
                os.close(b[0])
                self.serve(a[0], b[1])
            finally:
                os._exit(0)
        os.close(a[0])
        os.close(b[1])
        self.w, self.r = os.fdopen(a[1], 'wb'), os.fdopen(b[0], 'rb')

    @staticmethod
    def send(f, x):
        p = pickle.dumps(x)
        f.write(struct.pack('>I', len(p)) + p)
        f.flush()

    @staticmethod
    def recv(f):
        h = f.read(4)
        if len(h) < 4:
            return None
        return pickle.loads(f.read(struct.unpack('>I', h)[0]))

    def serve(self, r, w):
        r, w = os.fdopen(r, 'rb'), os.fdopen(w, 'wb')
        while True:
            m = self.recv(r)
            if m is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    p = Program(*m).run()
                    self.send(w, (p.answers, p.final()))
                except BaseException as e:
                    self.send(w, repr(e))
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def isolated(self, steps, d):
        self.send(self.w, (steps, d))
        x = self.recv(self.r)
        if not isinstance(x, tuple):
            raise core.HarnessError('isolated run: ' + str(x))
        return x


class CHECK(core.Check):
    id = 'C18'
    quick_cases, thorough_cases = 1500, 40000
    rule = ('a case is several programs, each of which makes, loads, declares, edits and reads one document, and a schedule; run interleaved in one process that has handled all earlier cases, '
            'also between the rows of a document that is being read, and in threads, and compared with runs alone in fresh processes; distinct by content, non-trivial if there are two programs')
    needs = ('compare:answer', 'compare:final', 'compare:later', 'mode:interleaved', 'mode:nested', 'mode:threads', 'mode:serial', 'switches', 'nested-steps', 'thread-switches', 'line-switches', 'declared-programs',
             'same-declaration', 'held-readers')
    assumptions = ('an isolated run is a fork of a process that has only imported the library and read one empty document', 'registered term classes are shared by design, and are not changed here')
    thorough_wall = 1500

    def gen(self, rng, i, tier):
        n = rng.choice([2, 2, 3, 3, 4])
        tops, subs = rng.sample(gen.TOP, 5), rng.sample(gen.SUB, 4)
        decls = {'decl%d.csv' % k: gen.decl_doc(rng, tops=tops, subs=subs) for k in range(rng.choice([0, 1, 2, 3]))}
        files, progs = {}, []
        kw = dict(tops=tops + gen.ALIASES[:1] + gen.DERIVED[:1], subs=subs + gen.ALIASES[:1])
        for p in range(n):
            v = gen.Vals(rng, spaced=False, hostile=0.2)
            rows = gen.row_doc(rng, n=rng.choice([3, 8, 20]), blank_values=0.1, **kw)
            x = rng.random()
            decl = rng.choice(sorted(decls)) if decls and rng.random() < 0.7 else None
            steps = []
            if x < 0.25:
                f = 'file%d.csv' % p
                files[f] = ([['Declare', decl]] if decl else []) + rows
                steps.append(['open', f])
            elif x < 0.9:
                steps.append(['new', rows, rng.choice(['row', 'arg']), decl])
            else:
                steps.append(['new', [], 'arg', decl])
            for _ in range(rng.randint(2, 9)):
                y = rng.random()
                if y < 0.35:
                    steps.append(['read', rng.choice(READS), rng.choice(['', 'Root.']) + rng.choice(kw['tops'])])
                elif y < 0.5:
                    steps.append(['load', gen.row_doc(rng, n=rng.choice([2, 6]), **kw)])
                elif y < 0.58 and decls:
                    steps.append(['decl', rng.choice(sorted(decls))])
                elif y < 0.7:
                    steps.append(['edit', edits.gen_ops(rng, rng.choice([2, 6]), v)])
                elif y < 0.76:
                    steps.append(['section', rng.choice(gen.SECTIONS)])
                elif y < 0.82:
                    steps.append(['arg', rng.choice(gen.SECTIONS), rng.choice(gen.HEADS), rng.random() < 0.4])
                elif y < 0.9:
                    steps.append(['term', rng.choice(gen.SECTIONS), rng.choice(kw['tops']), v(), {k: v() for k in rng.sample(['prop', 'name', 'url'], rng.randint(0, 2))}])
                else:
                    steps.append(['hold', rng.choice(['rows', 'lines', 'all']), rng.randint(0, 4)])
                    if rng.random() < 0.5:
                        steps.append(['read', rng.choice(READS), rng.choice(kw['tops'])])
                    steps.append(['finish'])
            steps.append(['read', rng.choice(['plain', 'csv', 'dict']), rng.choice(tops)])
            progs.append(steps)
        if rng.random() < 0.25:
            progs[-1] = json.loads(json.dumps(progs[0]))          # The same program twice
        total = sum(len(p) for p in progs)
        sched = [k for k, p in enumerate(progs) for _ in p]
        mode = rng.choice(['interleaved', 'interleaved', 'nested', 'nested', 'nested', 'threads', 'threads', 'serial'])
        if mode != 'serial':
            rng.shuffle(sched)
        return {'decls': decls, 'files': files, 'progs': progs, 'sched': sched, 'mode': mode}

    def trivial(self, case):
        return len(case['progs']) < 2

    def execute(self, case, obs):
        z = Zygote.get()
        with live.workdir() as d:
            for n, rows in list(case['decls'].items()) + list(case['files'].items()):
                live.write_csv(os.path.join(d, n), rows)
            alone = [z.isolated(steps, d) for steps in case['progs']]
            progs = [Program(steps, d) for steps in case['progs']]
            used = [[st[1] for st in p if st[0] == 'decl'] + [st[3] for st in p if st[0] == 'new' and st[3]] for p in case['progs']]
            obs.ev('declared-programs', sum(bool(u) for u in used))
            flat = [x for u in used for x in set(u)]
            obs.ev('same-declaration', len(flat) - len(set(flat)))
            obs.ev('held-readers', sum(st[0] == 'hold' for p in case['progs'] for st in p))
            getattr(self, 'mode_' + case['mode'])(progs, list(case['sched']), obs)
            obs.ev('mode:' + case['mode'])
            finals = [p.final() for p in progs]
            # All of them again in the reverse order, after everything else has been read
            later = [p.final() for p in reversed(progs)][::-1]
            for k, (p, (answers, final)) in enumerate(zip(progs, alone)):
                for n, ((what, a), (what2, b)) in enumerate(zip(p.answers, answers)):
                    obs.events['compare:answer'] += 1
                    obs.events['answer:' + ('raised' if isinstance(b, tuple) and b[:1] == ('raised',) else what)] += 1
                    if a != b:
                        obs.fail('answer', 'step {} ({}) of document {} gives {} in a process with other documents ({}), and {} alone'.format(
                            n, what, k, core.short(repr(a), 500), case['mode'], core.short(repr(b), 500)))
                for kind, got in (('final', finals[k]), ('later', later[k])):
                    obs.events['compare:' + kind] += 1
                    if got != final:
                        part = next((x for x in final if got is None or got.get(x) != final[x]), '') if final else ''
                        obs.fail(kind, 'the {} of document {} in a process with other documents ({}) are {}, and {} alone'.format(
                            part, k, case['mode'], core.short(repr(got and got.get(part)), 500), core.short(repr(final and final.get(part)), 500)))
                obs.state(core.digest(repr(final)))
            obs.state(('sched', case['mode'], tuple(case['sched'])))

    # -- schedules ----------------------------------------------------------------------------

    def mode_interleaved(self, progs, sched, obs, nested=False):
        last, busy = None, set()

        def pump():
            if sched and sched[0] not in busy and nested:
                k = sched.pop(0)
                obs.ev('nested-steps')
                run(k)

        def run(k):
            if k >= len(progs) or progs[k].done:
                return
            busy.add(k)
            progs[k].step()
            busy.discard(k)
        if nested:
            for p in progs:
                p.pump = pump
        while sched:
            k = sched.pop(0)
            if k != last:
                obs.ev('switches')
            last = k
            run(k)
        for p in progs:
            p.run()

    mode_serial = mode_interleaved

    def mode_nested(self, progs, sched, obs):
        self.mode_interleaved(progs, sched, obs, nested=True)

    def mode_threads(self, progs, sched, obs):
        log = []

        def body(k):
            p = progs[k]
            while not p.done:
                log.append(k)
                p.step()
                log.append(k)
        results, errors, switches = threads.together([lambda k=k: body(k) for k in range(len(progs))], len(sched), every=[12, 25, 100, 400][sum(sched) % 4])
        for e in errors:
            if e is not None:
                raise e
        obs.ev('line-switches', switches)
        obs.ev('thread-switches', sum(a != b for a, b in zip(log, log[1:])))
        obs.state(('threads', tuple(log)))
