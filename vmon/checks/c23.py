"""C23: metatab urls resolve to the metadata table of a package"""
import html, os, posixpath, re, zipfile
from urllib.parse import quote, unquote
from .. import core, gen, live
from ..live import MetatabDoc, parse_app_url

DIRS = ['pkg', 'my package', 'example.com-data-2017-1.0.2', 'a.b', 'nested/deep dir/pk', 'Ünï', 'metadata.csv.d', 'x.zip.d', 'p_1', 'UPPER', "it's"]
STEMS = ['table', 'my table', 'mymetadata', 'x.y', 'metadata', 'Meta', 'metadata.csv-old', 'data-1.0', 'é', 'meta']
WEB = ['http://example.com', 'https://example.com:8080', 'http://user:pw@sub.example.org', 's3://bucket', 'https://h']
NOT_XML = re.compile('[\u200b\x00-\x1f\x7f-\x9f\u2028\u2029\ufffe\uffff\ufdd0-\ufdef]')    # Worksheets hold no control characters
KINDS = ['dir', 'csv', 'txt', 'zip', 'xlsx']


def xlsx(path, sheets):
    """Write a workbook with text cells; -> nothing"""
    ns = 'http://schemas.openxmlformats.org/'
    n = range(1, len(sheets) + 1)
    head = '<?xml version="1.0" encoding="UTF-8"?>'

    def col(i):
        s = ''
        i += 1
        while i:
            i, r = divmod(i - 1, 26)
            s = chr(65 + r) + s
        return s

    def cell(v):
        return 't="inlineStr"><is><t xml:space="preserve">{}</t></is>'.format(html.escape(v)) if isinstance(v, str) else '><v>{!r}</v>'.format(v)

    with zipfile.ZipFile(path, 'w') as z:
        z.writestr('[Content_Types].xml', head + '<Types xmlns="{0}package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>'
                   '<Default Extension="xml" ContentType="application/xml"/><Override PartName="/xl/workbook.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml"/>'.format(ns)
                   + ''.join('<Override PartName="/xl/worksheets/sheet{}.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"/>'.format(i) for i in n) + '</Types>')
        z.writestr('_rels/.rels', head + '<Relationships xmlns="{0}package/2006/relationships"><Relationship Id="rId1" Type="{0}officeDocument/2006/relationships/officeDocument" Target="xl/workbook.xml"/></Relationships>'.format(ns))
        z.writestr('xl/workbook.xml', head + '<workbook xmlns="{0}spreadsheetml/2006/main" xmlns:r="{0}officeDocument/2006/relationships"><sheets>'.format(ns)
                   + ''.join('<sheet name="{}" sheetId="{}" r:id="rId{}"/>'.format(html.escape(sheets[i - 1][0]), i, i) for i in n) + '</sheets></workbook>')
        z.writestr('xl/_rels/workbook.xml.rels', head + '<Relationships xmlns="{0}package/2006/relationships">'.format(ns)
                   + ''.join('<Relationship Id="rId{1}" Type="{0}officeDocument/2006/relationships/worksheet" Target="worksheets/sheet{1}.xml"/>'.format(ns, i) for i in n) + '</Relationships>')
        for i in n:
            s = ''
            for r, row in enumerate(sheets[i - 1][1], 1):
                s += '<row r="{}">'.format(r) + ''.join('<c r="{}{}" {}</c>'.format(col(c), r, cell(v))
                                                        for c, v in enumerate(row) if v not in ('', None)) + '</row>'
            z.writestr('xl/worksheets/sheet{}.xml'.format(i), head + '<worksheet xmlns="{0}spreadsheetml/2006/main"><sheetData>{1}</sheetData></worksheet>'.format(ns, s))


def said(doc):
    out = []
    for s in live.sections(doc):
        hs = live.lheads(doc[s[0]])
        while hs and not hs[-1]:                       # The rows of a worksheet are all as wide as the widest
            hs.pop()
        out.append((s, hs))
    return out


class CHECK(core.Check):
    id = 'C23'
    quick_cases, thorough_cases = 2500, 30000
    rule = 'a case is a package layout with a document, or a remote url; distinct by content, all are non-trivial'
    needs = tuple('opened:' + k for k in KINDS) + tuple('parts:' + k for k in KINDS + ['ipynb']) + ('remote', 'spelling:slash', 'spelling:relative', 'spelling:bare', 'spelling:fileurl', 'spelling:metataburl',
             'workbook-other-sheet-first', 'route:url', 'route:doc', 'route:generator', 'route:twice', 'route:string', 'upper-case', 'workbook-numbers')
    assumptions = ('references have no fragment of their own, and no characters that urls reserve', 'workbook cells are text or numbers')

    def gen(self, rng, i, tier):
        if rng.random() < 0.3:
            kind = rng.choice(KINDS + ['ipynb'])
            d = '/'.join(quote(rng.choice(DIRS)) for _ in range(rng.randint(0, 3)))
            stem = quote(rng.choice(STEMS))
            ref = '/' + (d + '/' if d else '') + (stem + '.' + kind if kind != 'dir' else '')
            if kind == 'dir' and rng.random() < 0.4 and not ref.rstrip('/').endswith(('.csv', '.txt', '.zip', '.xlsx')):
                ref = ref.rstrip('/')
            return {'remote': rng.choice(WEB) + ref, 'kind': kind, 'meta': rng.random() < 0.4, 'query': rng.random() < 0.1}
        kind = rng.choice(KINDS)
        rows = gen.row_doc(rng, n=rng.randint(1, 20), newlines=False, spaced=False, hostile=0.2, decorate=False)
        rows = [[NOT_XML.sub('x', str('' if c is None else c)) for c in r] for r in rows]
        if kind == 'xlsx' and rng.random() < 0.4:      # All numbers of a worksheet are floats
            rows = [[c if isinstance(c, str) else float(c) for c in r] for r in gen.numbers(rng, rows)]
            for r in rows:
                if r and str(r[0]).lower() not in ('section', 'root.section', 'header'):
                    r[1:] = [c if rng.random() < 0.8 else rng.choice([0.0, 7.0, 2.5, -1.0, 2020.0]) for c in r[1:]]
        return {'kind': kind, 'dir': rng.choice(DIRS), 'stem': rng.choice(STEMS), 'rows': rows, 'upper': rng.random() < 0.1,
                'sheets': rng.choice([['meta'], ['meta', 'data'], ['data', 'meta'], ['a', 'b', 'meta', 'c']]),
                'spelling': rng.choice(['plain', 'slash', 'relative', 'bare', 'fileurl', 'metataburl'])}

    def fixed_cases(self, tier):
        rows = [['Title', 'x'], ['Section', 'S', 'A', 'B'], ['T', 'v', '1', '2']]
        return [{'kind': k, 'dir': 'p', 'stem': 't', 'rows': rows, 'upper': False, 'sheets': ['a', 'meta'], 'spelling': s}
                for k in KINDS for s in ('plain', 'slash', 'relative', 'bare', 'fileurl', 'metataburl')]

    def parts(self, obs, u, kind, name, fragment_free=True):
        """What the url says that it refers to"""
        target = {'dir': 'metadata.csv', 'zip': 'metadata.csv', 'xlsx': 'meta'}.get(kind, name)
        fmt = {'dir': 'csv', 'zip': 'csv'}.get(kind, kind)
        obs.eq('target-file', unquote(u.target_file), target, 'target file of {}'.format(u))
        obs.eq('target-format', u.target_format, fmt, 'target format of {}'.format(u))
        obs.eq('resource-format', u.resource_format, 'csv' if kind == 'dir' else kind, 'resource format of {}'.format(u))
        obs.eq('resource-file', unquote(u.resource_file), 'metadata.csv' if kind == 'dir' else name, 'resource file of {}'.format(u))
        obs.eq('fragment', u.fragment[0] or '', {'zip': 'metadata.csv', 'xlsx': 'meta'}.get(kind, ''), 'fragment of {}'.format(u))
        obs.eq('proto', u.proto, 'metatab', 'protocol of {}'.format(u))
        obs.ev('parts:' + kind)
        obs.state((kind, target, fmt))

    def execute(self, case, obs):
        if 'remote' in case:
            return self.remote(case, obs)
        kind, rows = case['kind'], case['rows']
        if any('\n' in c or '\r' in c for r in rows for c in r if isinstance(c, str)):
            raise core.Skip()
        exp = said(live.from_rows(rows))
        with live.workdir() as base:
            d = os.path.join(base, case['dir'])
            os.makedirs(d, exist_ok=True)
            name = case['stem'] + '.' + ('csv' if kind == 'dir' else kind)
            if case['upper']:
                name = case['stem'] + '.' + kind.upper()
            if kind == 'dir':
                name = 'metadata.csv'
                ref = d
            else:
                ref = os.path.join(d, name)
            p = os.path.join(d, name)
            text = live.csv_text(rows)
            decoy = [['Title', 'not the metadata'], ['Decoy', 'x']]
            if kind != 'dir' and name.lower() != 'metadata.csv':
                live.write_csv(os.path.join(d, 'metadata.csv'), decoy)
            if kind in ('dir', 'csv'):
                live.write_csv(p, rows)
            elif kind == 'txt':
                lines = live.from_rows(rows).as_lines()
                exp = said(live.from_text(lines))
                with open(p, 'w', encoding='utf8') as f:
                    f.write(lines)
            elif kind == 'zip':
                with zipfile.ZipFile(p, 'w') as z:
                    z.writestr('data/first.csv', 'Title,first\n')
                    z.writestr(('top/' if case['dir'] == 'pkg' else '') + 'metadata.csv', text.encode('utf8'))
                    z.writestr('zz.csv', 'Title,last\n')
            else:
                xlsx(p, [(s, rows if s == 'meta' else decoy) for s in case['sheets']])
                if any(isinstance(c, float) for r in rows for c in r):
                    obs.ev('workbook-numbers')
                if case['sheets'][0] != 'meta':
                    obs.ev('workbook-other-sheet-first')
            if case['upper'] and kind != 'dir':
                obs.ev('upper-case')
            sp = case['spelling']
            cwd = os.getcwd()
            proto = dict(proto='metatab')
            try:
                if sp == 'slash' and kind == 'dir':
                    ref += '/'
                elif sp == 'relative':
                    os.chdir(base)
                    ref = os.path.relpath(ref, base)
                elif sp == 'bare':
                    os.chdir(d)
                    ref = '.' if kind == 'dir' else name
                elif sp == 'fileurl':
                    ref = 'file://' + quote(ref)
                elif sp == 'metataburl':
                    ref, proto = 'metatab+file://' + quote(ref), {}
                elif sp != 'plain':
                    sp = 'plain'
                obs.ev('spelling:' + sp)
                u = parse_app_url(ref, **proto)
                self.parts(obs, u, kind, name)
                obs.eq('scheme', u.scheme, 'file', 'scheme of {}'.format(u))
                obs.eq('path', os.path.realpath(str(u.fspath)), os.path.realpath(p), 'path of {}'.format(u))
                routes = {'url': lambda: MetatabDoc(u), 'doc': lambda: u.doc, 'generator': lambda: live.from_rows(list(u.generator)),
                          'twice': lambda: MetatabDoc(parse_app_url(str(u))), 'string': lambda: MetatabDoc(str(u))}
                for r, mk in routes.items():
                    obs.eq('document', said(mk()), exp, 'the document of {}, opened by {}'.format(u, r))
                    obs.ev('route:' + r)
                obs.true('exists', u.exists(), lambda: '{} does not exist'.format(u))
                obs.ev('opened:' + kind)
                os.remove(p)
                obs.true('exists', not parse_app_url(ref, **proto).exists(), lambda: '{} exists, but was removed'.format(u))
            finally:
                os.chdir(cwd)

    def remote(self, case, obs):
        ref, kind = case['remote'], case['kind']
        scheme, rest = ref.split('://')
        host, path = rest.split('/', 1) if '/' in rest else (rest, '')
        if not host or kind != 'dir' and not path.endswith('.' + kind):
            raise core.Skip()
        if kind == 'dir' and path.endswith(('.csv', '.txt', '.zip', '.xlsx', '.ipynb')):
            raise core.Skip()
        q = '?a=1&b=x.zip' if case['query'] else ''
        u = parse_app_url('metatab+' + ref + q) if case['meta'] else parse_app_url(ref + q, proto='metatab')
        self.parts(obs, u, kind, unquote(posixpath.basename(path)))
        obs.eq('scheme', u.scheme, scheme, 'scheme of {}'.format(u))
        obs.eq('host', u.netloc, host, 'host of {}'.format(u))
        want = posixpath.join('/' + path, 'metadata.csv') if kind == 'dir' else '/' + path
        obs.eq('path', unquote(u.path), unquote(want), 'path of {}'.format(u))
        obs.true('string', str(u).startswith('metatab+' + scheme + '://' + host + '/'), lambda: 'the url reads {}'.format(u))
        v = parse_app_url(str(u))
        obs.eq('again', (type(v).__name__, unquote(v.path), v.netloc, v.scheme, v.target_file, v.fragment), (type(u).__name__, unquote(u.path), u.netloc, u.scheme, u.target_file, u.fragment),
               'parts of {} when parsed again'.format(u))
        obs.ev('remote')
