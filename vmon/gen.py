"""Workload generators. Everything they make is JSON-able, and deterministic for a random.Random."""

TOP = ['Title', 'Name', 'Description', 'Note', 'Datafile', 'Table', 'Alpha', 'Beta', 'Gamma', 'Subroot', 'Rooted', 'Root_x',
       'Headers', 'Sectional', 'Includes', 'Declared', 'X', 'x1', 'A_b', 'A-b', 'Two Words', '42', '7', '0', 'Contact',
       'Column', 'Origin', 'Version', 'x_custom', 'A/B', 'C++', 'What?', 'P (q)', 'N&M', 'µm', 'Straße', 'ßx']
SUB = ['Column', 'Prop', 'Name', 'Title', 'Url', 'Deep', 'Leaf', 'Subroot', 'Datatype', 'Description', 'x', 'Y_z', '3', 'Value_x',
       'Alpha', 'Beta', 'Header', 'Include', 'Declare', 'Rows', 'Key', 'x_extra', 'Size (m)', 'a/b', '_u', 'µg', 'Größe']
HEADS = ['Name', 'Title', 'Description', 'Datatype', 'Url', 'Email', 'Width', 'Two Words', 'Subroot', 'X', 'Y_z', 'H1', 'H2', 'H3', 'H4',
         'H5', 'H6', 'H7', 'H8', 'H9', 'H10', 'H11', 'H12', 'H13', 'H14', 'H15', 'H16', 'H17', 'H18', 'H19', 'H20', 'Leaf', 'Column', 'Width (cm)',
         'Formula=', 'x_extra', 'a/b', '% of', 'Q1?', "It's", 'No #', 'X_Y', '_u', 'AltId', '3', 'Three Word Head', 'a-b', 'A,B', 'N+1', '@at', '$', 'Größe', 'Année', '日本', 'Πρώτος', 'µg/l', 'ß']
SECTIONS = ['Resources', 'Schema', 'Contacts', 'Docs', 'My Section', 'Alpha', 'References', 'S-1', 'Data_2', 'Notes', 'P (q)', 'x/y', 'A=B', 'C,D', 'Roots', 'Straße', 'µ-Data', 'Ångström']

HOSTILE = ['a,b', 'say "hi"', "it's", 'x: y', '#hash', '# lead', 'p|q', '|', 'a\\|b', 'back\\slash', 'trail\\', 'http://ex.com/a?b=c#d;e',
           '0', '00', '1.0', '-1', '+1', 'None', 'False', 'nan', '@value', 'Section', 'root.', 'root.x', 'x.root.y', '====', '==== S',
           'Header', '<none>', '<elided_term>', 'Ünïcödé', '日本語', 'emoji 😀', 'café', '\u00df', 'tab\there', 'a  b', '=SUM(A1)',
           'ends with colon:', ':', '::', '"', '""', ',', ',,', "'", '%20', '{}', '{0}', '%s', '\\n', '\\', '.', '..', '.x', '*', '*.*',
           '1e5', '٣', 'İ', '\u200b', 'a\u00a0b', '\u202eabc', 'e\u0301', 'Section: x|y', 'null', '~', '- a', 'true', 'x' * 140,
           '\ufeffmark', 'mark\ufeff', '\u200bzero\u200b', '\x00nul', 'esc\x1b[0m', '&amp;', '<b>', '&lt;', 'N/A', '-', '--', '#N/A', '1,234.5', '2010-01-01', '1e400', '\u0130x', 'ΑΣ', '\U0010ffff']
NEWLINES = ['two\nlines', 'a\n\nb', 'x,\n"y"', 'l1\nSection,Evil', 'p\nq\nr', '"\n"', 'a\n#b', 'a\u2028b', 'a\x0cb', 'a\x85b']
CRS = ['dos\r\nlines', 'old\rmac', 'x\n\r\ny', 'a\r\n\r\nb']         # Reading a file makes these plain line ends
SPACED = [' lead', 'trail ', '  both  ', '\ttab\t', ' a b ', '\u00a0hard\u00a0', '\u3000wide\u3000', '\x0bvt\x0c', '\u2003em']


PIECES = list(',;:|#=.\\/\'"()[]{}<>*+-_!?@$%&~^`') + ['//', '::', ', ', ': ', ' #', '==', '\\|', '--', '1', '0', '42', 'a', 'b', 'Zz', 'word', 'é', '日', ' ', '  ', '\t', 'x.y', 'root', 'http:']


def mash(rng, newlines=False):
    """Text of random pieces, so that any character can come first, last or beside any other"""
    ps = PIECES + (['\n'] * 8 if newlines else [])
    return ''.join(rng.choice(ps) for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 6, 12]))).strip()


class Vals:
    """Values, mostly unique so that they identify the cell that they came from"""
    def __init__(self, rng, newlines=True, spaced=True, hostile=0.3, numeric=False, long=True):
        self.rng, self.n = rng, 0
        self.newlines, self.spaced, self.hostile, self.numeric, self.long = newlines, spaced, hostile, numeric, long

    def __call__(self):
        r = self.rng
        self.n += 1
        u = 'v{}'.format(self.n)
        x = r.random()
        if x > self.hostile:
            return u
        y = r.random()
        if self.newlines and y < 0.12:
            return r.choice(NEWLINES + CRS * (self.newlines == 'cr'))
        if self.spaced and y < 0.2:
            return r.choice(SPACED)
        if self.numeric and y < 0.35:
            return r.choice([0, 1, 7, -3, 2.5, 0.0, 10 ** 12])
        if self.long and y < 0.38:
            return (u + ' ') * r.choice([40, 300, 1500]) + 'end'
        v = r.choice(HOSTILE) if y < 0.72 else mash(r, self.newlines)
        if r.random() < 0.4:
            v = u + ' ' + v
        return v.strip() or u


def cased(s, how):
    """The same name in other letter case; a letter whose other case is that of another letter stays"""
    r = getattr(s, how)()
    if r.lower() != s.lower():
        r = ''.join(x if x.lower() == c.lower() else c for c in s for x in [getattr(c, how)()])
    return r if r.lower() == s.lower() else s


def upper(s):
    return cased(s, 'upper')


def title(s):
    return cased(s, 'title')


def swapcase(s):
    return cased(s, 'swapcase')


def recase(rng, s):
    x = rng.random()
    r = s if x < 0.5 else s.lower() if x < 0.7 else upper(s) if x < 0.85 else swapcase(s)
    return r if r.lower() == s.lower() else s       # Not every letter has the other case


def pad(rng, s):
    x = rng.random()
    return s if x < 0.8 else ' ' + s if x < 0.88 else s + ' ' if x < 0.95 else '  ' + s + '\t'


def headings(rng, lo=0, hi=None, blanks=0.15, pool=HEADS):
    hi = hi if hi is not None else rng.choice([2, 3, 4, 6, 12, 25])
    n = rng.randint(lo, max(lo, hi))
    hs = rng.sample(pool, min(n, len(pool)))
    return ['' if rng.random() < blanks else recase(rng, h) for h in hs]


def size(rng):
    """Mostly small, sometimes beyond the thresholds that code tends to have"""
    x = rng.random()
    return rng.randint(1, 8) if x < 0.45 else rng.randint(5, 40) if x < 0.9 else rng.randint(40, 150) if x < 0.985 else rng.randint(150, 600)


def row_doc(rng, n=None, sections=True, headers=True, elided=True, qualified=True, comments=True, cells=True, newlines=True,
            numeric=False, spaced=True, names=None, blank_values=0.08, decorate=True, same_name_nesting=True, hostile=0.3,
            blank_heads=0.15, nheads=None, reopen=True, header_value=True, bare_header=0, tops=None, subs=None, root_reopen=True, dup_heads=False, cross_section=True):
    """A document as a list of rows, in the domain of the properties: all names and parents are valid"""
    n = n or size(rng)
    few = rng.random() < 0.5
    tops = tops or (rng.sample(TOP, rng.randint(1, 5)) if few else TOP)
    subs = subs or (rng.sample(SUB, rng.randint(1, 4)) if few else SUB)
    secs = rng.sample(SECTIONS, rng.randint(1, 3)) if few else SECTIONS
    v = Vals(rng, newlines=newlines, numeric=numeric, spaced=spaced, hostile=hostile)
    rows, seen, used = [], [], set()
    anc = {}                                   # name -> the names of its ancestors, when it was last used
    last = None
    width = 0

    def dec(s):
        return pad(rng, recase(rng, s)) if decorate else s

    def value():
        return rng.choice(['', '', '  ', None]) if rng.random() < blank_values else v()

    def mkcells():
        if not cells:
            return []
        x = rng.random()
        k = 0 if x < 0.3 else rng.randint(0, max(1, width)) if x < 0.9 else rng.randint(0, width + rng.choice([1, 2, 5, 12]))
        return [rng.choice(['', '', ' ', None]) if rng.random() < 0.25 else v() for _ in range(k)]

    for _ in range(n):
        x = rng.random()
        if comments and x < 0.08:
            rows.append(rng.choice([[], [''], ['  ', 'x'], ['# comment', 'y'], ['#'], [None], [' #Title', 'z', 'w'], ['', 'lost?'],
                                    ['#Section', 'Zzz', 'A'], ['#Table.Column', 'c']]))
        elif sections and x < 0.16:
            if reopen and used and rng.random() < 0.35:
                name = recase(rng, rng.choice(sorted(used)))
            elif root_reopen and rng.random() < 0.12:
                name = rng.choice(['Root', 'root', 'ROOT'])
            else:
                name = rng.choice(secs)
            if name.lower() not in used and name.lower() != 'root':
                hs = headings(rng, hi=nheads, blanks=blank_heads)
                if dup_heads and hs and rng.random() < 0.2:
                    hs = hs + [hs[0]]
                width = len(hs)
                used.add(name.lower())
            else:
                hs = [] if rng.random() < 0.7 else headings(rng, hi=nheads, blanks=blank_heads)
            rows.append([dec('Section') if rng.random() < 0.9 else 'Root.Section', (pad(rng, name) if decorate else name)] + hs)
            last = None
            if not cross_section:
                seen = []
        elif headers and sections and x < 0.19:
            hs = headings(rng, lo=1, hi=nheads, blanks=blank_heads) if not bare_header or rng.random() >= bare_header else []
            width = len(hs)
            rows.append([dec('Header'), rng.choice(['', 'Vname', 'value', 'Url', None]) if header_value else ''] + hs)
        elif elided and x < 0.36:
            sub = rng.choice(subs)
            if last is None and sub.lower() in ('header', 'include', 'declare', 'section', 'root'):
                continue
            if not same_name_nesting and last is not None and (sub.lower() == last or sub.lower() in anc[last]):
                continue
            rows.append([('.' if rng.random() < 0.9 or not decorate else ' . ') + dec(sub).strip(), value()] + mkcells())
        elif qualified and x < 0.55 and seen:
            p = rng.choice(seen)
            s = rng.choice(subs)
            if not same_name_nesting and (s.lower() == p or s.lower() in anc[p]):
                continue
            dot = '.' if rng.random() < 0.93 or not decorate else ' . '
            rows.append([recase(rng, p) + dot + recase(rng, s) if decorate else p + dot + s, value()] + mkcells())
            anc[s.lower()] = anc[p] | {p}
            last = s.lower()
            if last not in seen:
                seen.append(last)
        else:
            t = rng.choice(tops)
            nm = dec(t) if rng.random() < 0.93 else 'Root.' + t
            rows.append([nm, value()] + mkcells())
            last = t.lower()
            anc[last] = set()
            if last not in seen:
                seen.append(last)
    if not rows:
        rows.append(['Title', v()])
    return rows


def numbers(rng, rows):
    """The same rows with numbers for some names, as in the cells of a spreadsheet"""
    sec, num = rng.choice(SECTIONS).lower(), rng.choice([int, float])
    out = []
    for r in rows:
        r = list(r)
        k = str(r[0]).strip().lower() if r else ''
        if k.isdecimal() and k.isascii() and rng.random() < 0.6:
            r[0] = rng.choice([int, float])(k)
        elif k in ('section', 'root.section', 'header'):
            if len(r) > 1 and str(r[1]).strip().lower() == sec:
                r[1] = num(2020)
            r[2:] = [num(h) if str(h).isdecimal() and str(h).isascii() else num(2000 + i) if h and rng.random() < 0.15 else h for i, h in enumerate(r[2:])]
            if k == 'header' and rng.random() < 0.1:
                r[1] = rng.choice([7, 0])
        out.append(r)
    return out


# -- declarations and several files ---------------------------------------------------------------

PTYPES = ['scalar', 'sequence', 'sconcat', 'bconcat', 'any', '']
VNAMES = ['name', 'title', 'url', 'Text', 'thing', 'Name', '']
DECL_COLS = ['TermValueName', 'ChildPropertyType', 'Section', 'Synonym', 'InheritsFrom', 'Options', 'ValueSetName']


def decl_doc(rng, tops=None, subs=None, secs=None, sections=True, synonyms=True, inherits=True, bad=0.0, dup_heads=False):
    """A declaration document, as rows"""
    tops = tops or rng.sample(TOP, rng.randint(2, 6))
    subs = subs or rng.sample(SUB, rng.randint(2, 5))
    cols = list(DECL_COLS)
    if rng.random() < 0.5:
        rng.shuffle(cols)
    if rng.random() < 0.3:
        cols = [recase(rng, c) for c in cols]
    if rng.random() < 0.2:
        cols.insert(rng.randint(0, len(cols)), '')
    rows, secnames = [], ['root']
    rows.append(['Section', 'DeclaredSections'])
    if sections:
        for s in rng.sample(secs or SECTIONS, rng.randint(1, 3)):
            hs = headings(rng, hi=4, blanks=0.1)
            if dup_heads and hs and rng.random() < 0.15:
                hs.insert(rng.randint(0, len(hs)), rng.choice(hs))
            rows.append(['DeclareSection', recase(rng, s)] + hs)
            secnames.append(s)
    style = rng.random()
    if style < 0.6:
        rows.append(['Section', 'DeclaredTerms'] + cols)
    else:
        rows += [['Section', 'DeclaredTerms'], ['Header', rng.choice(['Term', ''])] + cols]

    def term(name, **props):
        d = {k.lower(): v for k, v in props.items()}
        cells = [d.get(c.lower(), '') for c in cols]
        while cells and not cells[-1] and rng.random() < 0.5:
            cells.pop()
        rows.append(['DeclareTerm', name] + cells)

    sec = rng.choice(secnames)
    kids = {}
    for t in tops:
        if rng.random() < 0.8:
            term(rng.choice(['', 'Root.']) + recase(rng, t), TermValueName=rng.choice(VNAMES), ChildPropertyType=rng.choice(PTYPES),
                 Section=rng.choice(['', sec, sec, recase(rng, sec)]), Options=rng.choice(['', '', 'a,b', 'opt', 'OPT', 'Two Words, b', 'A,a']))
        for s in subs:
            if rng.random() < 0.4:
                ih = rng.choice(tops) if inherits and rng.random() < 0.08 else None
                term(recase(rng, t) + '.' + recase(rng, s), TermValueName=rng.choice(VNAMES), ChildPropertyType=rng.choice(PTYPES),
                     Section=rng.choice(['', sec, sec]) if not ih else sec, **({'InheritsFrom': ih} if ih else {}))
                kids.setdefault(t, []).append(s)
    if synonyms:
        for _ in range(rng.randint(0, 3)):
            t = rng.choice(tops)
            if rng.random() < 0.6:
                term(rng.choice(['', 'Root.']) + rng.choice(ALIASES), Synonym=rng.choice(['', 'Root.']) + recase(rng, t))
            else:
                term(t + '.' + rng.choice(ALIASES), Synonym=t + '.' + rng.choice(subs))
            if rng.random() < 0.15:                                                    # A synonym of a synonym stands for that, or for itself
                a, b = rng.choice(ALIASES), rng.choice(ALIASES)
                term(a, Synonym=b)
    if inherits:
        for _ in range(rng.randint(0, 3)):
            t = rng.choice(tops)
            term(rng.choice(['', 'Root.']) + rng.choice(DERIVED), InheritsFrom=rng.choice(['', 'Root.']) + recase(rng, t), Section=recase(rng, sec),
                 TermValueName=rng.choice(VNAMES), ChildPropertyType=rng.choice(PTYPES))
    if rng.random() < bad:
        k = rng.choice([0, 1, 2])
        if k == 0:
            term('Bad', Section='No Such Section')
        elif k == 1:
            term('Bad', InheritsFrom=tops[0])
        else:
            rows.append([rng.choice(['DeclareTerm', 'DeclareSection']), ''])
    if rng.random() < 0.25:
        # Declaration documents may describe themselves, as other documents do
        own = [['Title', 'Declarations'], ['Note', 'n', 'x'], ['.Kid', 'k', 'y'], ['Note.Sub', 's'], ['Description', 'of the declarations']]
        own = own[:rng.randint(1, 5)]
        if rng.random() < 0.5:
            rows[:0] = own
        else:
            rows += [['Section', rng.choice(SECTIONS + ['Root', 'Other']), rng.choice(['A', 'Name'])]][:rng.randint(0, 1)] + own
    return rows


ALIASES = ['Aka', 'Alias2', 'Syn_x']
DERIVED = ['Special', 'Kind2', 'Subtype']


def file_docs(rng, n_files=None, decl=0.4, include=True, dangling=0.0, loops=0.0, dirs=True, repeat=True, decl_bad=0.0, n=None, **kw):
    """Several files: {'main.csv': rows, ...}; names are relative to one folder"""
    k = n_files if n_files is not None else rng.choice([1, 1, 2, 2, 3, 4])
    ds = [''] + (['sub/', 'sub/deep/', 'other dir/', 'http/'] + (['~/', '$HOME/', '..x/'] if rng.random() < 0.2 else []) if dirs else [])
    names = ['main.csv'] + [rng.choice(ds) + rng.choice(['inc', 'inc', 'inc', 'inc', 'http', 'Inc. ']) + '{}.csv'.format(i) for i in range(1, k)]
    if dirs and k > 1 and rng.random() < 0.2:
        names[rng.randint(1, k - 1)] = rng.choice(ds[1:]) + 'main.csv'
    kw.setdefault('tops', rng.sample(TOP, rng.randint(2, 6)) + (ALIASES[:2] + DERIVED[:2] if decl else []))
    kw.setdefault('subs', rng.sample(SUB, rng.randint(2, 5)) + (ALIASES[:1] if decl else []))
    real_tops = [t for t in kw['tops'] if t not in ALIASES + DERIVED]
    real_subs = [t for t in kw['subs'] if t not in ALIASES]
    files = {}
    for nm in names:
        files[nm] = row_doc(rng, n=n or (rng.randint(1, 25) if k > 1 else None), **kw)
        if nm != 'main.csv' and rng.random() < 0.06:                                   # A file that says nothing
            files[nm] = rng.choice([[], [[]], [['# only', 'a comment']], [['', 'x'], ['#', 'y'], []]])

    def rel(frm, to):
        import posixpath
        return posixpath.relpath(to, posixpath.dirname(frm) or '.')

    def insert(nm, row, first=False):
        files[nm].insert(0 if first else rng.randint(0, len(files[nm])), row)

    if include:
        for i in range(1, k):
            p = names[rng.randint(0, i - 1)] if rng.random() < 0.8 else 'main.csv'
            insert(p, [rng.choice(['Include', 'include', 'INCLUDE', 'Root.Include', ' Include ']), rel(p, names[i])]
                   + (['ignored', 'x'] if rng.random() < 0.1 else []))
            if rng.random() < 0.15:                                                    # Its terms go on, after the included file
                at = [j for j, r in enumerate(files[p]) if r and str(r[0]).strip().lower().endswith('include')][-1]
                files[p].insert(at + 1, ['.' + rng.choice(real_subs), 'after the file'])
            if repeat and rng.random() < 0.15:
                insert('main.csv', ['Include', rel('main.csv', names[i])])
        if rng.random() < dangling:
            p = rng.choice(names)
            insert(p, ['Include', rng.choice(['nothere.csv', 'sub/none.csv', '../gone.csv', ''])])
        if rng.random() < loops:
            p = rng.choice(names)
            q = rng.choice(names)
            insert(p, ['Include', rel(p, q) if rng.random() < 0.7 else './' + rel(p, q)])
    if rng.random() < decl:
        m = rng.choice([1, 1, 2])
        for j in range(m):
            dn = rng.choice(['', 'sub/'] if dirs else ['']) + 'decl{}.csv'.format(j)
            files[dn] = decl_doc(rng, tops=real_tops, subs=real_subs, bad=decl_bad)
            if j and rng.random() < 0.4:
                prev = [f for f in files if f.startswith('decl0') or f.endswith('/decl0.csv')][0]
                insert(prev, ['Declare', rel(prev, dn)], first=rng.random() < 0.5)
            else:
                r = rel('main.csv', dn)
                insert('main.csv', ['Declare', r if rng.random() < 0.7 or not r.endswith('.csv') else r[:-4]], first=rng.random() < 0.7)
    return files


def stress_docs():
    """Documents at sizes that random generation rarely reaches"""
    out = []
    out.append([['Term{}'.format(i % 97), 'v{}'.format(i)] for i in range(3000)])                                  # Many rows
    out.append([['Section', 'Wide'] + ['Col{}'.format(i) for i in range(300)], ['Row', 'r'] + ['c{}'.format(i) for i in range(300)],
                ['Row', 'r2'] + ['' if i % 7 else 'd{}'.format(i) for i in range(320)]])                           # Wide rows
    out.append([['Row', 'r'] + ['c{}'.format(i) for i in range(3000)], ['.Kid', 'k'] + [''] * 5000 + ['last'], ['Row.Kid', 'k'] + ['x'] * 1100])   # Wider
    rows = []
    for i in range(150):                                                                                          # Many sections, twice
        rows += [['Section', 'Sec{}'.format(i), 'H{}'.format(i)], ['T', 'v{}'.format(i), 'c{}'.format(i)]]
    for i in range(149, -1, -1):
        rows += [['Section', 'SEC{}'.format(i)], ['T', 'w{}'.format(i), 'd{}'.format(i)]]
    out.append(rows)
    rows = [['N0', 'v0', 'c']]                                                                                     # Deep nesting
    for i in range(1, 60):
        rows += [['N{}.N{}'.format(i - 1, i), 'v{}'.format(i), 'c{}'.format(i)], ['.Leaf', 'l{}'.format(i), 'm', 'n']]
    out.append(rows + [['N{}.Z'.format(i), 'z{}'.format(i)] for i in range(59, 0, -1)])
    out.append([['Long', 'x' * 200000, 'y' * 70000], ['Long', 'a b ' * 30000], ['L' * 300, 'v', 'w'], ['.' + 'M' * 300, 'v', 'w']])  # Long cells
    out.append([['Same', 'v', 'c'] for _ in range(500)] + [['Same.Kid', 'k', 'c'] for _ in range(500)] + [['.Kid', 'k'] for _ in range(500)])
    out.append([[]] * 1200 + [['# c', 'x']] * 1200 + [['Late', 'v', 'c']])                                        # Late rows
    out.append([['Section', 'S', 'A', 'B']] + [['T', h, h] for h in HOSTILE] + [['T.Kid', h] for h in HOSTILE] + [['T', 'x', '', h] for h in NEWLINES])
    out.append([['T', v, v, v] for v in (0, 1, 0.0, 2.5, -1, 10 ** 20, '0', '00', '0.0')])
    return out


# -- documents that describe data packages --------------------------------------------------------

PART_VALUES = ['example.com', 'Foo Bar', 'a-b', 'Ünïcödé', 'x.y', 'under_score', '2017', '2010-2015', 'US', 'tract', 'v1', 'A & B', "it's", 'MiXeD', '  pad  ', '10%', 'a/b',
               'one two  three', 'é', 'ﬁne', 'ＷＩＤＥ', 'a--b', '1.0', 'x+y', '(p)', 'tab\tbed', 'naïve café', '-lead', 'trail-', 'a - b', 'q"r', '#1', 'ß1', '1-2-3-4', 'Acme Inc.', 'etc...', 'a. b', '_x_', '.x', 'x,y', 'x;y', '0', '00', 'A_-_B', 'é-é', 'x' * 90]
PARTS = ['Dataset', 'Origin', 'Time', 'Space', 'Grain', 'Variant']


def name_rows(rng, dataset=0.85, name=0.8, identifier=0.5, version=0.8, others=0.5):
    """Root terms that make up a name, in any order"""
    rows = []
    for p in PARTS:
        if rng.random() < (dataset if p == 'Dataset' else others):
            rows.append([rng.choice(['', 'Root.']) + recase(rng, p), rng.choice(PART_VALUES) if rng.random() > 0.06 else rng.choice(['', ' '])])
    if rng.random() < name:
        rows.append(['Name', rng.choice(['', 'old-name', 'Some Name', 'x'])])
    if rng.random() < identifier:
        rows.append(['Identifier', rng.choice(['id-0001', '', 'ab cd', 'x', '0', '7'])])
    rng.shuffle(rows)
    if rng.random() < version:
        k = rng.randint(0, len(rows))
        rows[k:k] = version_rows(rng)
    return rows


def version_rows(rng):
    x = rng.random()
    if x < 0.5:
        return [['Version', rng.choice(['1', '2', '10', '007', '0', '-3', '', '1.2.3', 'beta', '3.0', ' 5 ', '1-2', 'v1', '99', 'x y'])]]
    rows = [['Version', rng.choice(['', '1.2.3', 'old'])]]
    ps = [p for p in ('Major', 'Minor', 'Patch') if rng.random() < 0.75]
    if rng.random() < 0.2:
        ps.append('Build')
    rng.shuffle(ps)
    for p in ps:
        rows.append([rng.choice(['.', 'Version.']) + recase(rng, p), rng.choice(['0', '1', '2', '12', '3', '0', 'x', '007']) if rng.random() < 0.95 else ''])
    return rows


TYPES = ['str', 'text', 'unicode', 'int', 'float', 'date', 'integer', 'string', 'Int', 'number', '']


def package_rows(rng, root=None, schema=True, resources=True):
    """Root terms, tables with columns, and data files"""
    rows = list(root if root is not None else name_rows(rng))
    if rng.random() < 0.8:
        rows.insert(0, ['Title', 'A title'])
    for _ in range(rng.randint(0, 2)):
        rows.append(['Description', 'text {}'.format(rng.randint(0, 99))])
    tables = ['t{}'.format(i) for i in range(rng.randint(0, 4))]
    parts = []
    if resources and rng.random() < 0.9:
        cols = rng.sample(['Name', 'Table', 'Title', 'Description', 'Url', 'Header', 'Schema'], rng.randint(1, 7))
        out = [['Section', recase(rng, 'Resources')] + [recase(rng, c) for c in cols]]
        for i in range(rng.randint(0, 6)):
            d = {'Name': rng.choice(tables + ['f{}'.format(i), '']), 'Table': rng.choice(tables + ['nosuch', '', '']), 'Title': 'file {}'.format(i),
                 'Url': rng.choice(['', 'http://u/{}.csv'.format(i)]), 'Header': str(i), 'Schema': rng.choice(tables + [''])}
            out.append([rng.choice(['Datafile', 'Datafile', 'datafile', 'Root.Datafile', 'Reference']), rng.choice(['http://x.y/{}.csv'.format(i), 'data/{}.csv'.format(i), 'a b.csv'])]
                       + [d.get(c, '') for c in cols])
            if rng.random() < 0.12:           # A property without a value
                out.append([rng.choice(['.', 'Datafile.'] if 'atafile' in out[-1][0] else ['.']) + rng.choice(['Url', 'Name', 'Table']), rng.choice(['', ' '])])
        parts.append(out)
    if schema and rng.random() < 0.9:
        cols = rng.sample(['Title', 'Datatype', 'Description', 'Width', 'Name', 'Note'], rng.randint(1, 6))
        out = [['Section', recase(rng, 'Schema')] + [recase(rng, c) for c in cols]]
        for t in tables:
            if rng.random() < 0.1:
                continue
            out.append(['Table', t, 'table title'])
            for j in range(rng.choice([0, 1, 1, 2, 3, 8])):
                d = {'Title': rng.choice(['', 'Title {}'.format(j)]), 'Datatype': rng.choice(TYPES), 'Description': rng.choice(['', 'about {}'.format(j), 'a, "b"']), 'Width': '3',
                     'Name': rng.choice(['', '', 'nm{}'.format(j)])}
                out.append([rng.choice(['Table.Column', '.Column', 'Table.column']), 'c{}'.format(j)] + [d.get(c, '') for c in cols])
                if rng.random() < 0.2 and not out[-1][0].startswith('.'):
                    out.append(['Column.Note', 'n'])
            if rng.random() < 0.08:            # Not a table, though it has columns and perhaps the name of one
                out += [[rng.choice(['View', 'Tables', 'Note']), rng.choice([t, 'v1', 'f0'])], ['.Column', 'not a column of a table']]
        parts.append(out)
    rng.shuffle(parts)
    for p in parts:
        rows += p
    return rows
