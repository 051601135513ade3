"""C20: the Lines reader splits text into the rows it denotes"""
import io, os, pathlib
from .. import core, gen, live
from ..live import TextRowGenerator, MetatabDoc, parse_app_url
from rowgenerators import get_generator


def read(text):
    """The rows that a text denotes, with trimmed cells"""
    out = []
    lines = text.replace('\r\n', '\n').split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    for line in lines:
        if line.lstrip().startswith('#'):
            continue
        if line.startswith('===='):
            k = 0
            while k < len(line) and line[k] == '=':
                k += 1
            name, rest, colon = 'Section', line[k:], True
        else:
            k = line.find(':')
            colon = k >= 0
            name, rest = (line[:k], line[k + 1:]) if colon else (line, '')
        row = [name.strip()]
        if colon:
            rest = rest.strip()
            cell = []
            for i, c in enumerate(rest):
                if c == '|' and i and rest[i - 1] == '\\':
                    cell[-1] = '|'
                elif c == '|':
                    row.append(''.join(cell).strip())
                    cell = []
                else:
                    cell.append(c)
            row.append(''.join(cell).strip())
        out.append(row)
    return out


VALUES = ['plain', 'a: b', ': lead', 'x:y:z', '# hash', 'a#b', r'p\|q', r'\|', r'\|\|', r'a\\|b', '\\', 'tail\\', 'http://ex.com/a:b', 'é ü 日本 😀', '  spaced  ', 'tab\there', '', ' ', '====', '==== x',
          '"quoted"', "it's", 'a,b', 'Section: no', '|', 'a|b|c', '|a', 'a|', 'a||b', r'a|b\|c|d', '{}', '%s', '0', '-', 'null', '\\n', r'c:\dir\x', '.', '...', 'x' * 3000, 'a\u00a0b', '\u200b']


def gen_line(rng, seen):
    x = rng.random()
    ind = rng.choice(['', '', '', '', '', '', '  ', '    ', '\t', ' \t ', '\u00a0 ', '\u3000'])
    v = rng.choice(VALUES) if rng.random() < 0.75 else gen.mash(rng)
    if rng.random() < 0.3:
        v = '|'.join(rng.choice(VALUES) for _ in range(rng.randint(1, 5)))
    sep = rng.choice([': ', ':', ' : ', ':  ', ':\t'])
    if x < 0.08:
        return ind + rng.choice(['#', '# comment: x', '#a|b', '#Section: x', '## y'])
    if x < 0.14:
        return rng.choice(['', ' ', '\t'])
    if x < 0.22:
        return rng.choice(['====', '=====', '========']) + rng.choice([' ', '', '  ']) + rng.choice(['Schema', 'My Section', 'S|H1|H2', 'Res|Name||Url', 'A:B', r'x\|y|H', 'Things|Formula=', 'A=B', 'T=|x==', 'S | =']) + rng.choice(['', ' '])
    if x < 0.27:
        return ind + rng.choice(['Section', 'section', 'SECTION']) + sep + rng.choice(['Schema', 'Other|H1|H2', 'Third|A|B|C'])
    if x < 0.3:
        return ind + 'Header' + sep + rng.choice(['|H1|H2', 'Name|X', 'V'])
    if x < 0.35:
        return ind + rng.choice(['NoColon', 'Two Words', 'Title', 'a|b'])
    if x < 0.37:
        return ind + rng.choice([':', ': x', '::', '===', '=x: y', '\\|: z', 'a.b.c: d'])
    if x < 0.5 and seen:
        return ind + rng.choice(seen) + '.' + rng.choice(gen.SUB) + sep + v
    if x < 0.7 and seen:
        return ind + '.' + rng.choice(gen.SUB) + sep + v
    t = rng.choice(gen.TOP)
    seen.append(t)
    return ind + gen.recase(rng, t) + sep + v + rng.choice(['', '', ' ', '\t'])


def said(doc):
    return [(n, h, v, ts) for (n, ts), h, v in zip(live.sections(doc), [live.lheads(s) for s in doc], [s.default_term_value_name for s in doc])]


class CHECK(core.Check):
    id = 'C20'
    quick_cases, thorough_cases = 7000, 120000
    rule = 'a case is a text; it is given to the reader by every route, and to an independent reader; distinct by content, non-trivial if it has a line'
    needs = ('route:string', 'route:stringio', 'route:file', 'route:path', 'route:pathlib', 'route:url', 'compare:rows', 'compare:document', 'rejected', 'crlf', 'comments', 'sections', 'escapes', 'indented')
    assumptions = ('lines end with a line feed, or carriage return and line feed; surrounding blanks of cells are not compared',)

    def fixed_cases(self, tier):
        big = '\n'.join('Title: value {} | c{} | d{}'.format(k, k, k) for k in range(3000))
        return [{'text': t} for t in ('', '\n', '#', '====', ':', '|', 'a', 'a:', 'a:\n', ' ', '\t#x\nA: b', 'A: ' + 'x' * 100000, big, '\n'.join(v for v in VALUES), 'A: ' + '|'.join('c%d' % k for k in range(500)))]

    def gen(self, rng, i, tier):
        seen = []
        lines = [gen_line(rng, seen) for _ in range(rng.choice([1, 3, 8, 20]))]
        if rng.random() < 0.5:                       # Keep it a valid document
            lines = [l for l in lines if l.count('.') < 2 or ':' not in l or l.split(':')[0].count('.') < 2]
        nl = '\r\n' if rng.random() < 0.15 else '\n'
        return {'text': nl.join(lines) + rng.choice(['', nl, nl + nl])}

    def trivial(self, case):
        return not case['text'].strip()

    def execute(self, case, obs):
        text = case['text']
        exp = read(text)
        if '\r\n' in text:
            obs.ev('crlf')
        obs.ev('comments', sum(l.lstrip().startswith('#') for l in text.splitlines()))
        obs.ev('sections', sum(l.startswith('====') for l in text.splitlines()))
        obs.ev('escapes', text.count('\\|'))
        obs.ev('indented', sum(l[:1] in ' \t' and bool(l) for l in text.splitlines()))
        with live.workdir() as d:
            p = os.path.join(d, 'my text.txt')
            with open(p, 'w', encoding='utf8', newline='') as f:
                f.write(text)
            f = open(p, encoding='utf8')
            routes = {'string': lambda: TextRowGenerator(text), 'stringio': lambda: TextRowGenerator(io.StringIO(text)), 'file': lambda: TextRowGenerator(f),
                      'path': lambda: TextRowGenerator(p), 'pathlib': lambda: TextRowGenerator(pathlib.Path(p)), 'url': lambda: get_generator(parse_app_url(p, proto='metatab').get_resource().get_target())}
            for r, mk in routes.items():
                got = [[str(c).strip() for c in row] for row in mk()]
                obs.ev('route:' + r)
                obs.events['compare:rows'] += 1
                if got != exp:
                    obs.fail('rows', 'rows of the text, read as {}: row {}'.format(r, core.first_diff(got, exp)))
            f.close()
            g = TextRowGenerator(text)
            if list(g) != list(g):
                obs.fail('twice', 'reading the rows twice gives different rows')
            for row in exp:
                obs.state(tuple(row))
            # As documents
            f = open(p, encoding='utf8')
            want = self.doc(lambda: live.from_rows(exp))
            routes.update(url=lambda: parse_app_url(p, proto='metatab'), file=lambda: TextRowGenerator(f))
            for r, mk in routes.items():
                got = self.doc(lambda: MetatabDoc(mk()))
                obs.eq('document', got, want, 'the document of the text, read as {}'.format(r))
            f.close()
            if want[0] == 'error':
                obs.ev('rejected')

    @staticmethod
    def doc(mk):
        try:
            return ('document', said(mk()))
        except live.MetatabError as e:
            return ('error', type(e).__name__)
