"""An independent reference interpreter: from rows (and files) to the document that they denote.

It shares no code with metatab. Blank values ('' or None) are the same thing."""
import collections, os


def blank(v):
    return v is None or v is False or (isinstance(v, str) and not v.strip())


def text(v):
    """The text of a cell that holds a name: spreadsheets have numbers, and whole ones are written without a fraction"""
    return v if v is None or isinstance(v, str) else str(int(v)) if v == int(v) else str(v)


def norm(v):
    """Normalise a value: strip text, and blank is None"""
    if blank(v):
        return None
    return v.strip() if isinstance(v, str) else v


class Refused(Exception):
    """The document is to be rejected. kind is 'parser', 'include' or 'declaration'; names are texts, one of which the error names"""
    def __init__(self, kind, *names):
        super().__init__(kind, *names)
        self.kind, self.names = kind, names


class Unspecified(Exception):
    """The properties do not say what such a document means"""


class Node:
    __slots__ = ('parent_name', 'name', 'value', 'children', 'parent', 'section', 'row', 'col', 'file', 'is_cell', 'ptype', 'vname',
                 'valid', 'options', 'origin', 'index')

    def __init__(self, parent_name, name, value, row, col, file):
        self.parent_name, self.name, self.value, self.row, self.col, self.file = parent_name, name, value, row, col, file
        self.children, self.parent, self.section, self.is_cell = [], None, None, col > 1
        self.ptype, self.vname, self.valid, self.options, self.origin, self.index = 'any', '@value', False, [''], 'doc', None

    def tree(self):
        return (self.name, self.value, tuple(c.tree() for c in self.children))


class Sec:
    def __init__(self, name, heads):
        self.name, self.args, self.header, self.vname, self.terms = name, list(heads), [], '@value', []
        self.at = None                                 # (file, row) of the row that opened it first

    @property
    def heads(self):
        return self.header or self.args


BUILTIN = {
    'root.section': {'termvaluename': 'name'},
    'root.synonym': {'termvaluename': 'term', 'childpropertytype': 'sequence'},
    'root.declareterm': {'termvaluename': 'term', 'childpropertytype': 'sequence'},
    'root.declaresection': {'termvaluename': 'section', 'childpropertytype': 'sequence'},
    'root.declarevalueset': {'termvaluename': 'name', 'childpropertytype': 'sequence'},
    'declarevalueset.value': {'termvaluename': 'value', 'childpropertytype': 'sequence'},
}


def split_name(s):
    """-> (parent or None for root or '' for elided, record), lower case"""
    parts = s.split('.')
    if len(parts) > 2:
        raise Refused('parser', s)
    if len(parts) == 1:
        return 'root', parts[0].strip().lower()
    return parts[0].strip().lower(), parts[1].strip().lower()


def qualify(s):
    return '.'.join(split_name(s))


class Doc:
    """files maps absolute paths to lists of rows; stock maps declaration names to paths"""

    def __init__(self, files=None, stock=None):
        self.files, self.stock = files or {}, stock or {}
        self.sections = collections.OrderedDict(root=Sec('Root', []))
        self.terms = []            # Top level terms in the order they were read
        self.opened = []           # The files that were read, or were to be read
        self.stream = []           # All terms, in the order they were read
        self.decl_terms = {k: dict(v) for k, v in BUILTIN.items()}
        self.decl_sections = {'root': {'args': [], 'terms': []}, 'declaredterms': {'args': [], 'terms': []},
                              'declaredsections': {'args': [], 'terms': []}}

    # -- reading ------------------------------------------------------------------------------

    def load(self, rows, path=None):
        self.cur = self.sections['root']
        self.heads, self.vname = [], '@value'          # A parser starts without headings
        self.last_parent, self.last = 'root', {'root': None}
        self.dlast = dict(self.last)                         # Seen by the rows of declaration files only
        self._load(rows, path, 'doc', ())
        return self

    @property
    def synonyms(self):
        return {k: qualify(v['synonym']) for k, v in self.decl_terms.items() if v.get('synonym')}

    def _resume(self, sec):
        self.cur, self.heads, self.vname, self.last_parent = sec, sec.heads, sec.vname, 'root'

    def _load(self, rows, path, origin, stack):
        if path:
            stack = stack + (os.path.realpath(path),)
            self.opened.append(os.path.realpath(path))
        here = self.cur                                # The section that this file is in now

        for rown, row in enumerate(rows, 1):
            if not row or blank(row[0]) or str(row[0]).strip().startswith('#'):
                continue
            pname, name = split_name(text(row[0]))
            full = pname + '.' + name
            if origin == 'declare' or full in ('root.section', 'root.header', 'root.include', 'root.declare'):
                row = [text(c) for c in row]       # Cells that are names
            value = norm(row[1]) if len(row) > 1 else None
            cells = list(row[2:])

            if full == 'root.section':
                if value is None:
                    raise Refused('parser', 'ection')
                key = str(value).lower()
                if key in self.sections:
                    sec = self.sections[key]
                else:
                    heads = cells if cells else self.decl_sections.get(key, {}).get('args', [])
                    sec = Sec(value, [norm(h) or '' for h in heads])
                    sec.at = (path, rown)
                    if origin != 'declare':
                        self.sections[key] = sec
                here = sec
                self._resume(sec)
                continue

            if full == 'root.header':
                self.cur.header = [norm(h) or '' for h in cells]
                self.heads = self.cur.header
                self.vname = self.cur.vname = (value or '@value').lower()
                continue

            if full in ('root.include', 'root.declare'):
                kind = name
                self.at = (path, rown, full)           # Where an include error is to be reported
                if value is None:
                    raise Refused('include', name)
                target = self._resolve(kind, value, path, row)
                if os.path.realpath(target) in stack:
                    raise Refused('include', os.path.basename(target))
                self._place(Node(pname, name, value, rown, 1, path), False, origin)
                if target not in self.files:
                    raise Refused('include', os.path.basename(target), value)
                self._load(self.files[target], target, kind, stack)
                self._resume(here)
                continue

            if full == 'root.root':
                raise Refused('parser', 'root')
            elided = pname == ''
            if elided and self.last_parent == 'root' and name in ('header', 'include', 'declare', 'section', 'root'):
                raise Unspecified(row[0])
            node = Node(self.last_parent if elided else pname, name, value, rown, 1, path)
            full = node.parent_name + '.' + node.name
            syn, seen = self.synonyms, set()
            while full in syn and full not in seen:     # The target may be a synonym, too
                seen.add(full)
                full = syn[full]
                node.parent_name, node.name = full.split('.')
            self._place(node, elided, origin)

            kids = []
            for i, c in enumerate(cells):
                if c is None or not str(c).strip():
                    continue
                h = self.heads[i] if i < len(self.heads) else ''
                kid = Node(node.name, h.lower() if h else str(i), str(c).strip(), rown, i + 2, path)
                kid.parent, kid.section, kid.origin = node, self.cur, origin
                self._declared(kid)
                node.children.append(kid)
                self._emit(kid)

            if origin == 'declare':
                self._declaration(node, cells)

    def _resolve(self, kind, value, path, row):
        if kind == 'declare':
            if value in self.files:
                return value
            if value in self.stock:
                return self.stock[value]
        if not path:
            if kind == 'declare':
                raise Refused('include', value)
            raise Refused('include', value)
        base = os.path.dirname(path)
        if kind == 'declare':
            for fn in (os.path.join(base, value), os.path.join(base, value + '.csv')):
                if os.path.normpath(fn) in self.files:
                    return os.path.normpath(fn)
            raise Refused('include', value)
        return os.path.normpath(os.path.join(base, value.strip('/')))

    def _declared(self, node):
        d = self.decl_terms.get(node.parent_name + '.' + node.name)
        node.valid = d is not None
        d = d or {}
        node.ptype = d.get('childpropertytype', 'any')
        node.vname = d.get('termvaluename', self.vname)
        node.options = d.get('options', '').split(',')

    def _emit(self, node):
        if node.origin != 'declare':
            node.index = len(self.stream)
            self.stream.append(node)

    def _place(self, node, elided, origin):
        node.section, node.origin = self.cur, origin
        self._declared(node)
        last = self.dlast if origin == 'declare' else self.last
        if node.parent_name not in last:
            raise Refused('parser', node.parent_name)
        if node.parent_name == 'root':
            self.cur.terms.append(node)
            if origin != 'declare':
                self.terms.append(node)
        else:
            node.parent = last[node.parent_name]
            node.parent.children.append(node)
        if not elided:
            self.last_parent = node.name
            last[node.name] = node
        self._emit(node)

    # -- declarations -------------------------------------------------------------------------

    def _declaration(self, node, cells):
        full = node.parent_name + '.' + node.name
        if full == 'root.declaresection':
            if node.value is None:
                raise Refused('declaration')
            self.decl_sections[node.value.lower()] = {'args': [norm(c) for c in cells if not blank(c)], 'terms': []}
        elif full == 'root.declareterm':
            if node.value is None:
                raise Refused('declaration')
            d = {h.lower(): norm(c) for h, c in zip(self.heads, cells) if not blank(c)}
            d['term'] = node.value
            self.decl_terms[qualify(node.value)] = d
            self._in_section(d)
            sup = d.get('inheritsfrom')
            if sup:
                if not d.get('section'):
                    raise Refused('declaration')
                sup_r, own_r = qualify(sup).split('.')[1], qualify(node.value).split('.')[1]
                for other in list(self.decl_sections[d['section'].lower()]['terms']):
                    p, r = split_name(other)
                    if p == sup_r:
                        nd = dict(self.decl_terms[p + '.' + r])
                        nd.pop('inheritsfrom', None)
                        nd['term'] = own_r + '.' + r
                        self.decl_terms[own_r + '.' + r] = nd
                        self._in_section(nd)

    def _in_section(self, d):
        s = d.get('section')
        if s:
            if s.lower() not in self.decl_sections:
                raise Refused('declaration', s)
            ts = self.decl_sections[s.lower()]['terms']
            if d['term'].lower() not in [t.lower() for t in ts]:
                ts.append(d['term'])

    def kinds_of(self, name):
        """The names of terms that inherit directly from the named term"""
        q = qualify(name)
        return sorted(k for k, v in self.decl_terms.items() if v.get('inheritsfrom') and qualify(v['inheritsfrom']) == q)
