#!/usr/bin/env python3
"""Mutation run, for the author: which small changes to the code do the checks not notice?

mutate.py list                      print the mutants
mutate.py run OUT.jsonl [k/n]       run the checks against each mutant, in copies of the repository

Not a registered check; it works on copies below /tmp/mut and reads /repo and /verif only."""
import ast, json, os, re, shutil, subprocess, sys, random, multiprocessing

REPO, VERIF = '/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['parser', 'doc', 'terms', 'rowgen', 'datapackage', 'appurl', 'cli', 'util', 'resolver']
SKIP_FUNCS = {'YamlMetatabSource', 'make_dir_structure', 'walk_up', 'ensure_dir', 'copytree', 'md5_file', 'Bunch', 'prt', 'warn', 'err', 'cli_init', 'flatten', '__repr__', '__str__', 'add_declared_value_set'}


def mutants(path):
    src = open(path).read()
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    data = src.encode()
    tree = ast.parse(src)

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return data[a:b].decode()
    out = []

    def put(n, new, kind):
        a, b = pos(n)
        if data[a:b].decode() != new:
            out.append((a, b, new, kind, n.lineno))
    OPS = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}

    def walk(n, infunc=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in SKIP_FUNCS:
            return
        if isinstance(n, (ast.Assert, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, '(%s %s %s)' % (text(n.left), OPS[type(n.ops[0])], text(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BoolOp):
            op = ' and ' if isinstance(n.op, ast.And) else ' or '
            other = ' or ' if op == ' and ' else ' and '
            put(n, '(' + other.join('(%s)' % text(v) for v in n.values) + ')', 'boolop')
            for k in range(len(n.values)):
                put(n, '(' + op.join('(%s)' % text(v) for j, v in enumerate(n.values) if j != k) + ')', 'drop-operand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(%s)' % text(n.operand), 'not')
        elif isinstance(n, ast.IfExp):
            put(n, '(%s)' % text(n.body), 'ifexp'); put(n, '(%s)' % text(n.orelse), 'ifexp')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ('lower', 'strip', 'title', 'upper', 'lstrip', 'rstrip') and not n.args:
                put(n, text(f.value), 'drop-' + f.attr)
            if isinstance(f, ast.Name) and f.id in ('list', 'sorted', 'str', 'set', 'dict', 'reversed') and len(n.args) == 1:
                put(n, '(%s)' % text(n.args[0]), 'drop-' + f.id)
            for k in n.keywords:
                if k.arg and infunc:
                    a = [text(x) for x in n.args] + [text(x) if x.arg is None else '%s=%s' % (x.arg, text(x.value)) for x in n.keywords if x is not k]
                    a = [('**' + text(x.value) if isinstance(x, ast.keyword) and x.arg is None else y) for x, y in zip(list(n.args) + [x for x in n.keywords if x is not k], a)]
                    put(n, '%s(%s)' % (text(f), ', '.join(a)), 'drop-kw-' + k.arg)
        elif isinstance(n, ast.Constant) and infunc:
            v = n.value
            if v is True or v is False:
                put(n, repr(not v), 'const')
            elif isinstance(v, int):
                put(n, str(v + 1), 'const')
                if v > 0:
                    put(n, str(v - 1), 'const')
            elif isinstance(v, str) and len(v) < 20 and '\n' not in v and '{' not in v:
                put(n, repr(v + 'X' if v else 'X'), 'const')
            elif v is None:
                put(n, "''", 'const')
        if isinstance(n, (ast.If, ast.While)):
            put(n.test, 'True', 'if-true'); put(n.test, 'False', 'if-false')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) and infunc:
            put(n, 'pass', 'drop-statement')
        if isinstance(n, ast.Expr) and infunc and not isinstance(n.value, ast.Constant) and not isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            put(n, 'pass', 'drop-statement')
        if isinstance(n, ast.Continue):
            put(n, 'break', 'continue')
        if isinstance(n, ast.Break):
            put(n, 'continue', 'break')
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n, 'return None', 'return')
        if isinstance(n, ast.ExceptHandler) and n.body and not isinstance(n.body[0], ast.Raise):
            put(n.body[0], 'raise', 'handler')
        if isinstance(n, ast.comprehension) and n.ifs:
            put(n.ifs[0], 'True', 'comp-if')
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef,)) and isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            walk(c, infunc or isinstance(n, ast.FunctionDef))
    walk(tree)
    res = []
    for a, b, new, kind, ln in out:
        new_src = (data[:a] + new.encode() + data[b:]).decode()
        try:
            ast.parse(new_src)
        except SyntaxError:
            continue
        res.append((ln, kind, data[a:b].decode(), new, new_src))
    return res


def all_mutants():
    for f in FILES:
        p = os.path.join(REPO, 'metatab', f + '.py')
        for k, (ln, kind, old, new, src) in enumerate(mutants(p)):
            yield dict(id='%s-%d' % (f, k), file='metatab/%s.py' % f, line=ln, kind=kind, old=old, new=new), src


ORDER = {'parser': 'C01 C02 C03 C04 C08 C09 C22 C19 C10 C18 C25 C30', 'doc': 'C11 C14 C15 C10 C16 C04 C08 C24 C19 C05 C06 C07 C13 C12 C22 C23 C25 C18 C21 C29', 'terms': 'C12 C11 C27 C05 C06 C07 C10 C13 C01 C02 C03 C04 C08 C24 C22 C19 C18',
         'rowgen': 'C20 C06 C22 C23 C25', 'datapackage': 'C21 C13', 'appurl': 'C23 C20 C25 C29 C30', 'cli': 'C17 C30', 'util': 'C14 C15 C08 C19 C17', 'resolver': 'C09 C08 C22 C18'}


def work(args):
    m, src, w = args
    d = '/tmp/mut/%s' % m['id']
    os.makedirs('/tmp/mut', exist_ok=True)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    try:
        open(os.path.join(d, m['file']), 'w').write(src)
        env = dict(os.environ, VMON_REPO=d, VMON_WORKERS='1', VMON_NO_SHRINK='1', PYTHONDONTWRITEBYTECODE='1', VERIF_SEED='1')
        f = m['id'].split('-')[0]
        order = ORDER[f].split()
        if os.environ.get('MUT_ALL'):
            order += ['C%02d' % k for k in range(1, 31) if 'C%02d' % k not in order and k not in (17, 28)]
        try:
            r = subprocess.run(['python3', 'tools/mutone.py', ','.join(order), os.environ.get('MUT_CASES', '200')], cwd='/tmp/mut/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return dict(m, by='timeout')
        if r.returncode:
            return dict(m, by=(r.stdout.strip().split('\n') or [''])[-1][:300] or 'rc%d' % r.returncode, err='' if r.stdout else r.stderr[-300:])
        return dict(m, by=None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    ms = list(all_mutants())
    if sys.argv[1] == 'list':
        for m, _ in ms:
            print(json.dumps(m))
        print(len(ms), file=sys.stderr)
    else:
        done = set()
        if os.path.exists(sys.argv[2]):
            done = {json.loads(l)['id'] for l in open(sys.argv[2])}
        shutil.rmtree('/tmp/mut/verif', ignore_errors=True)
        shutil.copytree(VERIF, '/tmp/mut/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'replays', 'evidence', '__pycache__'))
        random.Random(5).shuffle(ms)
        only = set(sys.argv[3].split(',')) if len(sys.argv) > 3 else None
        ms = [(m, s, k) for k, (m, s) in enumerate(ms) if m['id'] not in done and (only is None or m['id'] in only or m['id'].split('-')[0] in only)]
        with multiprocessing.Pool(8) as pool, open(sys.argv[2], 'a') as out:
            for r in pool.imap_unordered(work, ms, chunksize=1):
                out.write(json.dumps(r) + '\n')
                out.flush()
