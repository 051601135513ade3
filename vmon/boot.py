"""Import the code under test from /repo's working tree, with all of its side effects in a scratch folder."""
import atexit, os, shutil, sys, tempfile, warnings

REPO = os.environ.get('VMON_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SCRATCH = tempfile.mkdtemp(prefix='vmon-')
_pid = os.getpid()

def _cleanup():
    if os.getpid() == _pid:
        shutil.rmtree(SCRATCH, ignore_errors=True)

atexit.register(_cleanup)

os.environ['METAPACK_CACHE'] = os.environ['METATAB_CACHE'] = os.path.join(SCRATCH, 'cache')
os.makedirs(os.environ['METATAB_CACHE'], exist_ok=True)
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(SCRATCH, 'pyc')     # never read stale byte code of the tree
warnings.simplefilter('ignore')
os.chdir(SCRATCH)
sys.path[:] = [REPO] + [p for p in sys.path if os.path.realpath(p or '.') != REPO]

import logging
logging.disable(logging.NOTSET)

import metatab                                          # noqa
import metatab.doc, metatab.parser, metatab.terms, metatab.rowgen, metatab.exc   # noqa

assert os.path.realpath(metatab.__file__).startswith(os.path.realpath(REPO) + os.sep), metatab.__file__

import rowgenerators                                    # noqa
# Warm up the entry points, which are slow to find the first time
rowgenerators.get_generator([['A', 'b']])

# rowgenerators resolves the requirements of every entry point again on each use, which takes most of the time
# of opening a file. Once is enough.
import pkg_resources                                    # noqa
_load, _loaded = pkg_resources.EntryPoint.load, {}


def load_once(self, *args, **kwargs):
    key = (self.name, self.module_name, tuple(self.attrs))
    if key not in _loaded:
        _loaded[key] = _load(self, *args, **kwargs)
    return _loaded[key]


pkg_resources.EntryPoint.load = load_once
_p = os.path.join(SCRATCH, 'warm.csv')
with open(_p, 'w') as _f:
    _f.write('A,b\n')
# (not as a document, so what the first document does to the process is seen)
list(rowgenerators.parse_app_url(_p).generator)
os.remove(_p)
