"""Bring up the simulated process.

Must be the first thing imported by anything that is going to run code of
/repo.  It

* puts every source of nondeterminism behind the kernel (clocks, sleep,
  locks, os.urandom, the random module, files below the scratch directory,
  spec fetches, HTTP clients, real sockets),
* installs an import hook that compiles the *current* source of
  /repo/pyswagger with a scheduling point in front of every statement inside
  a function and between computing and storing a value.  Nothing in /repo is
  changed and the compiled code is only ever in memory.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import warnings

REPO = os.environ.get('SIM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

from . import kernel          # noqa: E402  (saves the real primitives first)

COVER = os.environ.get('SIM_COVER')          # development only: tools/cover.sh
LINES = {}
HIT = set()
SITES = []                    # site number -> "module:function:line"


class _Instrument(ast.NodeTransformer):
    """insert scheduling points; never changes what the code computes"""

    def __init__(self, module):
        self.module = module
        self.stack = []
        self.counts = {}

    # -- helpers ---------------------------------------------------------
    def _site(self, kind):
        fn = '.'.join(self.stack)
        k = (fn, kind)
        n = self.counts[k] = self.counts.get(k, 0) + 1
        SITES.append('{0}:{1}:{2}{3}'.format(self.module, fn, kind, n))
        return len(SITES) - 1

    def _y(self, node):
        LINES[len(SITES)] = getattr(node, 'lineno', 0)
        e = ast.Expr(ast.Call(ast.Name('__sim_y__', ast.Load()), [ast.Constant(self._site('s'), None)], []))
        ast.copy_location(e, node)
        ast.fix_missing_locations(e)
        return e

    def _v(self, value):
        e = ast.Call(ast.Name('__sim_v__', ast.Load()), [ast.Constant(self._site('v'), None), value], [])
        ast.copy_location(e, value)
        ast.copy_location(e.func, value)
        ast.copy_location(e.args[0], value)
        return e

    def _block(self, stmts, doc=False):
        out = []
        for i, s in enumerate(stmts):
            if doc and i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                out.append(s)
                continue
            if not isinstance(s, (ast.Global, ast.Nonlocal)):
                out.append(self._y(s))
            out.append(s)
        return out

    # -- scopes ----------------------------------------------------------
    def _scope(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        node.body = self._block(node.body, doc=True)
        self.stack.pop()
        return node

    visit_FunctionDef = _scope
    visit_AsyncFunctionDef = _scope

    def visit_ClassDef(self, node):
        self.stack.append('<' + node.name + '>')
        self.generic_visit(node)
        self.stack.pop()
        return node

    @property
    def in_func(self):
        return bool(self.stack) and not self.stack[-1].startswith('<')

    def visit_Lambda(self, node):
        self.stack.append('lambda')
        self.generic_visit(node)
        node.body = self._v(node.body)
        self.stack.pop()
        return node

    # -- statements with bodies -------------------------------------------
    def _bodies(self, node):
        self.generic_visit(node)
        if self.in_func:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(node, f, None)
                if isinstance(b, list) and b:
                    setattr(node, f, self._block(b))
        return node

    visit_If = visit_For = visit_AsyncFor = visit_While = _bodies
    visit_With = visit_AsyncWith = visit_Try = visit_ExceptHandler = _bodies

    # -- values ------------------------------------------------------------
    def _assign(self, node):
        self.generic_visit(node)
        if self.in_func and node.value is not None:
            node.value = self._v(node.value)
        return node

    visit_Assign = visit_AugAssign = visit_AnnAssign = _assign

    def _comp(self, node):
        self.generic_visit(node)
        if self.in_func:
            node.elt = self._v(node.elt)
        return node

    visit_ListComp = visit_SetComp = visit_GeneratorExp = _comp

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if self.in_func:
            node.value = self._v(node.value)
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with kernel.real_open(path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = _Instrument(fullname).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'pyswagger' and not name.startswith('pyswagger.'):
            return None
        if name.startswith('pyswagger.tests'):
            return None
        search = [REPO] if name == 'pyswagger' else path
        spec = importlib.machinery.PathFinder.find_spec(name, search, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = _Loader(spec.loader.name, spec.loader.path)
        spec.cached = None
        return spec


_done = False


def boot():
    global _done
    if _done:
        return
    _done = True
    builtins.__sim_y__ = kernel.y
    builtins.__sim_v__ = kernel.v
    if COVER:
        def y(site, add=HIT.add, y=kernel.y):
            add(site)
            y(site)
        builtins.__sim_y__ = y
    kernel.install()
    from . import rnd, disk
    rnd.install()
    disk.install()
    sys.meta_path.insert(0, _Finder())
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)

    import logging
    logging.disable(logging.CRITICAL)

    from . import net
    net.install()

    import importlib
    import pkgutil
    import pyswagger
    if not os.path.abspath(pyswagger.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError('pyswagger comes from ' + pyswagger.__file__)

    def fail(name):
        raise
    for m in pkgutil.walk_packages(pyswagger.__path__, 'pyswagger.', onerror=fail):
        if m.name.startswith('pyswagger.tests'):
            continue
        importlib.import_module(m.name)
    # nothing is imported while tasks run: two tasks in one import would wait
    # for each other on a lock the scheduler doesn't know
    for n in ('flask', 'flask.testing', 'werkzeug.test', 'werkzeug.testapp', 'requests', 'tornado.simple_httpclient', 'asyncio', 'xml.etree.ElementTree',
              'encodings.ascii', 'netrc', 'tornado.platform.asyncio', 'encodings.idna', 'stringprep', 'charset_normalizer', 'uuid', 'tempfile', 'multiprocessing.pool'):
        try:
            importlib.import_module(n)
        except ImportError:
            pass
    net.install_late()
    # locks around what is only made once per process: they would be
    # scheduling points of the first run only. Nothing of pyswagger runs
    # while they are held
    import asyncio.events
    logging._lock = kernel.REAL_RLOCK()
    asyncio.events._lock = kernel.REAL_RLOCK()


def cover_dump():
    with kernel.real_open(os.path.join(COVER, '%d.txt' % os.getpid()), 'w') as f:
        f.write('\n'.join('%s:%d' % (SITES[i].split(':')[0], LINES[i]) for i in sorted(HIT)))
    with kernel.real_open(os.path.join(COVER, 'all'), 'w') as f:
        f.write('\n'.join('%s:%d' % (SITES[i].split(':')[0], LINES[i]) for i in sorted(LINES)))
