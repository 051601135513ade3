"""Reads documents in a fresh process, whose environment is set by its parent: requests on stdin, observations on stdout"""
import contextlib, json, os, pathlib, sys

READ = set()                                          # What Metatab itself read of the environment


@contextlib.contextmanager
def watched():
    """Notes the variables of the environment that code of the repository reads"""
    from . import boot
    cls, real = type(os.environ), type(os.environ).__getitem__

    def getitem(self, key):
        f = sys._getframe(1)
        for _ in range(12):
            if f is None:
                break
            if f.f_code.co_filename.startswith(boot.REPO):
                READ.add(str(key))
                break
            if not f.f_code.co_filename.endswith(('os.py', '_collections_abc.py', 'posixpath.py', 'pathlib.py', 'genericpath.py', 'tempfile.py', 'getpass.py', '<frozen os>', '<frozen posixpath>', '<frozen _collections_abc>')):
                break
            f = f.f_back
        return real(self, key)
    cls.__getitem__ = getitem
    try:
        yield
    finally:
        cls.__getitem__ = real


def observe(d, case):
    """Everything that can be told of the document of one case, without identities and file names"""
    from . import live
    main = os.path.join(d, case['main'])
    route = case['route']
    cwd = os.getcwd()
    try:
        if route == 'rows':
            doc = live.from_rows(case['rows'])
        elif route == 'rows-at-home':         # In the directory that has the files that the rows would include
            os.chdir(d)
            doc = live.from_rows(case['rows'])
        elif route == 'bare':
            os.chdir(d)
            doc = live.MetatabDoc(case['main'])
        elif route == 'path':
            doc = live.MetatabDoc(main)
        elif route == 'relative':
            doc = live.MetatabDoc(os.path.relpath(main))
        elif route == 'url':
            doc = live.MetatabDoc(live.parse_app_url(main))
        elif route == 'file-url':
            doc = live.MetatabDoc(live.parse_app_url('file:' + main))
        elif route == 'txt-text':
            doc = live.MetatabDoc(live.TextRowGenerator(case['text']))
        elif route == 'txt-path':
            doc = live.MetatabDoc(live.TextRowGenerator(pathlib.Path(d) / 'main.txt'))
        elif route == 'txt-name':
            doc = live.MetatabDoc(live.TextRowGenerator(os.path.join(d, 'main.txt')))
        elif route == 'txt-url':
            doc = live.MetatabDoc(live.parse_app_url(os.path.join(d, 'main.txt'), proto='metatab'))
        elif route == 'metatab-url':
            doc = live.MetatabDoc(live.parse_app_url(main, proto='metatab'))
        else:
            raise ValueError(route)
    except live.MetatabError as e:
        return ['refused', type(e).__name__]
    finally:
        os.chdir(cwd)

    def node(t):
        return [t.join_lc, repr(t.value), t.term_value_name, t.child_property_type, bool(t.valid), t.row, t.col, [node(c) for c in t.children]]
    out = {}
    out['content'] = [[s.name, [str(h) for h in s.property_names], [node(t) for t in s.terms]] for s in doc]
    out['terms'] = [[t.join_lc, repr(t.value)] for t in doc.terms if t.file_type != 'declare']
    out['declared'] = [list(doc.decl_terms), list(doc.decl_sections), [repr(x) for x in doc.super_terms.items()], repr(doc.decl_terms), repr(doc.decl_sections)]
    out['csv'], out['lines'] = doc.as_csv(), doc.as_lines()
    out['dict'], out['dict-values'] = json.dumps(doc.as_dict(), default=str), json.dumps(doc.as_dict(False), default=str)
    out['rows'] = [[repr(c) for c in r] for r in doc.rows]
    out['all'] = [t.join_lc for t in doc.all_terms]
    out['find'] = [[[t.join_lc, repr(t.value), t.row] for t in doc.find(q)] for q in case['queries']]
    out['props'] = [sorted((k, repr(v)) for k, v in t.props.items()) for t in doc.terms if t.file_type != 'declare'][:20]
    if case.get('save'):
        p = os.path.join(d, 'saved-{}.{}'.format(os.getpid(), case['save']))
        (doc.write_csv if case['save'] == 'csv' else doc.write_lines)(p)
        with open(p, 'rb') as f:
            out['saved'] = f.read().decode('latin1')
        os.remove(p)
        out['name'] = doc.get_value('Root.Name')
    return out


if __name__ == '__main__':
    req = json.load(sys.stdin)
    from . import boot
    os.chdir(req['cwd'])
    with watched():
        out = [observe(d, c) for d, c in req['cases']]
    json.dump([out, sorted(READ)], sys.stdout)
