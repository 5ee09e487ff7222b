"""Ghost file system and loop rule for contract_generator (C34).

GhostFS: the output directory is not on the disk.  Its state before the code runs is arbitrary; it is
observed at one arbitrary path P, so what is proved at P is proved at every path.  P is known by its
relation to the paths mentioned (at: it is that path; under: it lies below it), two booleans each with the
axioms of path prefixes; every assignment that satisfies them is some path's.  The
library functions that read or change a file system act on it when their argument lies in the output
directory, and are the real ones elsewhere.

Elements: "any list", for the rule of loops.  It hands out given elements; before each it can havoc the
state, and before the last, arbitrary one it havocs every variable the loop has changed so far.
"""
import ast
import ctypes
import gc
import importlib
import io
import os
import shutil
import sys
import types
import zipfile

import z3

from . import sym
from .sym import Unsupported


def _refuse(name):
    def f(self, *a, **k):
        raise Unsupported(f'the loop reads a value carried over from an earlier iteration ({name})')
    return f


class Poison:
    """a variable changed by earlier iterations: any value"""


for _n in ('bool len iter next getitem setitem delitem contains call getattr setattr add radd sub rsub mul rmul or ror and '
           'rand xor eq ne lt le gt ge hash int index str repr format enter exit iadd isub ior iand truediv mod rmod '
           'fspath').split():
    setattr(Poison, f'__{_n}__', _refuse(_n))


class Tail(list):
    """a list that grew in earlier iterations: it may grow further, not be read"""


for _n in ('bool len iter getitem setitem delitem contains add mul eq ne lt le gt ge reversed').split():
    setattr(Tail, f'__{_n}__', _refuse(_n))
for _n in ('pop', 'index', 'count', 'sort', 'reverse', 'remove', 'insert', 'copy', 'clear'):
    setattr(Tail, _n, _refuse(_n))


def poison_is(a, b):
    if type(a) is Poison or type(b) is Poison:
        raise Unsupported('the loop reads a value carried over from an earlier iteration (is)')
    return a is b


class IsHook(ast.NodeTransformer):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            call = ast.Call(ast.Name('dvh_is', ast.Load()), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.IsNot):
                call = ast.UnaryOp(ast.Not(), call)
            return ast.copy_location(call, node)
        return node


def load(repo):
    """contract_generator, executed afresh from its source (`is` made aware of havocked values)"""
    for m in [m for m in sys.modules if m == 'contract_generator' or m.startswith('contract_generator.')]:
        del sys.modules[m]

    class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
        def find_spec(self, name, path=None, target=None):
            if name != 'contract_generator' and not name.startswith('contract_generator.'):
                return None
            base = os.path.join(repo, *name.split('.'))
            if os.path.isdir(base):
                return importlib.util.spec_from_file_location(name, os.path.join(base, '__init__.py'), loader=self,
                                                              submodule_search_locations=[base])
            return importlib.util.spec_from_file_location(name, base + '.py', loader=self)

        def create_module(self, spec):
            return None

        def exec_module(self, module):
            f = module.__spec__.origin
            src = ''
            if os.path.exists(f):
                with open(f) as fh:
                    src = fh.read()
            module.__dict__['dvh_is'] = poison_is
            exec(compile(ast.fix_missing_locations(IsHook().visit(ast.parse(src, f))), f, 'exec'), module.__dict__)
    f = Finder()
    sys.meta_path.insert(0, f)
    try:
        b = importlib.import_module('contract_generator.builder')
        w = importlib.import_module('contract_generator.writer')
        c = importlib.import_module('contract_generator.config')
        return b, w, c
    finally:
        sys.meta_path.remove(f)


def freeze(x, seen=None, depth=0):
    seen = seen if seen is not None else set()
    if x is None or isinstance(x, (int, str, bytes, float)):
        return x
    if id(x) in seen or depth > 8:
        return ('again', id(x))
    seen = seen | {id(x)}
    if isinstance(x, dict):
        return ('d', id(x), tuple((freeze(k, seen, depth + 1), freeze(v, seen, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ('l', id(x) if isinstance(x, list) else 0,
                tuple(freeze(v, seen, depth + 1) for v in list.__iter__(x)) if isinstance(x, list) else
                tuple(freeze(v, seen, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ('s', id(x), frozenset(freeze(v, seen, depth + 1) for v in x))
    if isinstance(x, (types.FunctionType, types.ModuleType, types.BuiltinFunctionType, types.MethodType, io.IOBase,
                      zipfile.ZipFile)):
        return ('o', id(x))
    if isinstance(x, type):
        if (x.__module__ or '').startswith('contract_generator'):
            return ('c', id(x), tuple((k, freeze(v, seen, depth + 1)) for k, v in x.__dict__.items()
                                      if not k.startswith('__') and not isinstance(v, types.FunctionType)))
        return ('o', id(x))
    if isinstance(x, (GhostFS, Elements)):
        return ('o', id(x))
    d = getattr(x, '__dict__', None)
    if d:
        return ('i', id(x), tuple((k, freeze(v, seen, depth + 1)) for k, v in d.items()))
    return ('o', id(x))


def havocked(v):
    if type(v) is list:
        return Tail(v)
    if type(v) is Tail:
        return v
    return Poison()


class Elements:
    """any list: its elements reach the loop one by one (see the module text)"""

    def __init__(self, items, root_frame, before):
        self.items, self.before, self.root = items, before, root_frame
        self.i = 0
        self.marks = []
        self.it = None

    def __bool__(self):
        return True

    def __iter__(self):
        if self.it is not None:
            raise Unsupported('the list is gone through more than once')
        self.it = True
        return self

    def __len__(self):
        raise Unsupported('length of an arbitrary list')

    def __getitem__(self, i):
        raise Unsupported('element of an arbitrary list')

    def __contains__(self, x):
        raise Unsupported('membership in an arbitrary list')

    def __eq__(self, o):
        raise Unsupported('comparison of an arbitrary list')

    __hash__ = None

    def scopes(self, f):
        """(read, write) of every variable the loop could carry state in"""
        out = {}
        while f is not None and f is not self.root:
            if f.f_code.co_flags & 0x20:
                raise Unsupported('generator around a loop over an arbitrary list')
            fr = f

            def put(n, v, fr=fr):
                fr.f_locals[n] = v
                ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(fr), ctypes.c_int(0))
            for n, v in f.f_locals.items():
                if v is self or type(v) is Poison:
                    continue
                out[('local', id(f), n)] = (v, lambda x, put=put, n=n: put(n, x))
                if n == 'self' and hasattr(v, '__dict__'):
                    for k, a in v.__dict__.items():
                        out[('attr', id(v), k)] = (a, lambda x, v=v, k=k: setattr(v, k, x))
            f = f.f_back
        for mn, m in list(sys.modules.items()):
            if mn.startswith('contract_generator'):
                for k, v in list(m.__dict__.items()):
                    if k.startswith('__'):
                        continue
                    out[('global', mn, k)] = (v, lambda x, m=m, k=k: setattr(m, k, x))
                    if isinstance(v, type) and (v.__module__ or '').startswith('contract_generator'):
                        for a, b in list(v.__dict__.items()):
                            if not a.startswith('__') and not isinstance(b, (types.FunctionType, staticmethod, classmethod)):
                                out[('class', mn, k, a)] = (b, lambda x, v=v, a=a: setattr(v, a, x))
        return out

    def __next__(self):
        f = sys._getframe(1)
        fine = (types.FrameType, dict, types.CellType, types.MethodType)
        for r in gc.get_referrers(self):
            if type(r) is tuple:                     # the arguments of a call, unless an iterator holds it
                if all(isinstance(q, (types.FrameType, list)) for q in gc.get_referrers(r)):
                    continue
            if not isinstance(r, fine):
                raise Unsupported(f'an arbitrary list inside a {type(r).__name__}')
        sc = self.scopes(f)
        now = {}
        for k, (v, _) in sc.items():
            if k[0] == 'local' and k[2] == 'self':
                continue
            now[k] = freeze(v)
        if self.i == len(self.items):
            self.before(self.i, None)
            raise StopIteration
        self.marks.append(now)
        if self.i and self.i == len(self.items) - 1:
            first = self.marks[0]
            changed = {k for m in self.marks[1:] for k in m if k not in first or m[k] != first[k]}
            changed |= {k for m in self.marks[1:] for k in first if k not in m}
            for k in changed:
                if k not in sc:
                    continue
                v, put = sc[k]
                if k[0] == 'local' and isinstance(v, Elements):
                    continue
                put(havocked(v))
        x = self.items[self.i]
        self.before(self.i, x)
        self.i += 1
        return x


class GhostFile(io.RawIOBase):
    def __init__(self, fs, f, text):
        self.fs, self.f, self.text, self.data = fs, f, text, b''

    def writable(self):
        return True

    def write(self, b):
        if isinstance(b, str):
            b = b.encode()
        self.data += bytes(b)
        return len(b)

    def close(self):
        if not self.closed:
            self.fs.put(self.f, self.data)
        super().close()


class GhostFS:
    """see the module text.  cell: what is at P: 0 nothing, -1 what was there before, k > 0 content number k"""

    def __init__(self, w, repo, root):
        self.w, self.en, self.repo, self.root = w, w.eng, repo, root
        self.known = {}
        self.contents = {}
        self.stray = []
        self.havoc()

    # ---- state
    def havoc(self):
        c = self.en.const(self.en.fresh_name('there before'), 'bool')
        self.initial = z3.If(c, z3.IntVal(-1), z3.IntVal(0))
        self.cell = self.initial
        self.log = []

    def number(self, data):
        return self.contents.setdefault(data, len(self.contents) + 1)

    def rel(self, f):
        """booleans at, under for the path f"""
        r = os.path.relpath(f, self.root)
        if r == '.':
            return z3.BoolVal(False), z3.BoolVal(True)
        if r not in self.known:
            at, under = (self.en.const(f'file {x} {r}', 'bool') for x in ('is', 'below'))
            self.en.add(z3.Not(z3.And(at, under)))
            for q, (a, u) in self.known.items():
                lo, hi = q.startswith(r + '/'), r.startswith(q + '/')
                self.en.add(z3.Not(z3.And(a, at)))
                self.en.add(z3.Implies(at, u) if hi else z3.Not(z3.And(at, u)))
                self.en.add(z3.Implies(a, under) if lo else z3.Not(z3.And(a, under)))
                self.en.add(z3.Implies(u, under) if lo else z3.Implies(under, u) if hi else z3.Not(z3.And(u, under)))
            self.known[r] = at, under
        return self.known[r]

    def under(self, d):
        return self.rel(d)[1]

    def at(self, f):
        return self.rel(f)[0]

    # ---- which paths
    def inside(self, p):
        """-> normalised path when it lies in the output directory"""
        if isinstance(p, (int, io.IOBase)) or p is None:
            return None
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = p.decode()
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        return p if p == self.root or p.startswith(self.root + '/') else None

    def changes(self, p):
        """a change at p is only legitimate in the output directory"""
        f = self.inside(p)
        if f is None:
            q = os.path.realpath(os.fspath(p))
            if q.startswith(os.path.realpath(self.repo)):
                self.stray.append(q)
                raise OSError(f'refused: {p}')
            raise Unsupported(f'change outside the output directory: {p}')
        return f

    # ---- queries
    def is_kind(self, f, kind):
        for op, g, *x in reversed(self.log):
            if op == 'rm' and (f == g or f.startswith(g + '/')):
                return False
            if op == 'mkdir' and (g == f or g.startswith(f + '/')):
                return kind in ('dir', 'any')
            if op == 'file':
                if g == f:
                    return kind in ('file', 'any')
                if g.startswith(f + '/'):
                    return kind in ('dir', 'any')
                if f.startswith(g + '/'):
                    return False
            if op == 'rmfile' and g == f:
                return False
            if op == 'was' and g == f:
                return x[0] == kind or (kind == 'any' and x[0] != 'none')
            if op == 'was' and x[0] != 'dir' and f.startswith(g + '/'):
                return False
        n = self.en.fresh_name('was.' + os.path.relpath(f, self.root))
        isdir, isfile = self.en.const(n + '.dir', 'bool'), self.en.const(n + '.file', 'bool')
        there = self.cell != 0
        self.en.add(z3.Not(z3.And(isdir, isfile)))
        self.en.add(z3.Implies(z3.And(self.under(f), there), isdir))
        self.en.add(z3.Implies(self.at(f), isfile == there))
        if self.en.fork(isdir):
            was = 'dir'
        else:
            was = 'file' if self.en.fork(isfile) else 'none'
        # what was there before the operations so far: those looked at above did not concern it
        self.log.append(('was', f, was))
        return was == kind or (kind == 'any' and was != 'none')

    # ---- changes
    def put(self, f, data):
        d = os.path.dirname(f)
        if not self.is_kind(d, 'dir'):
            raise FileNotFoundError(2, 'No such file or directory', f)
        if (self.log and any(op == 'mkdir' and (g == f or g.startswith(f + '/')) for op, g, *_ in self.log)):
            if self.is_kind(f, 'dir'):
                raise IsADirectoryError(21, 'Is a directory', f)
        self.cell = z3.If(self.at(f), z3.IntVal(self.number(data)), self.cell)
        self.log.append(('file', f))

    def rmtree(self, d, ignore_errors=False):
        if not self.is_kind(d, 'dir'):
            if ignore_errors:
                return
            raise FileNotFoundError(2, 'No such file or directory', d)
        self.cell = z3.If(z3.Or(self.under(d), self.at(d)), z3.IntVal(0), self.cell)
        self.log.append(('rm', d))

    def makedirs(self, d, exist_ok):
        if not exist_ok and self.is_kind(d, 'any'):
            raise FileExistsError(17, 'File exists', d)
        # nothing but directories stands where the build needs directories (assumed)
        pre = z3.Or(*[self.at(x) for x in self.ancestors(d)])
        self.en.add(z3.Not(z3.And(pre, self.cell != 0)))
        self.log.append(('mkdir', d))

    def ancestors(self, d):
        out = []
        while len(d) > len(self.root):
            out.append(d)
            d = os.path.dirname(d)
        return out + [self.root]

    def unlink(self, f):
        if not self.is_kind(f, 'file'):
            raise FileNotFoundError(2, 'No such file or directory', f)
        self.cell = z3.If(self.at(f), z3.IntVal(0), self.cell)
        self.log.append(('rmfile', f))

    def result(self):
        return sym.SymInt(self.cell)

    # ---- the library functions
    def patched(self):
        fs = self

        def first(orig, ghost):
            def f(p='.', *a, **k):
                g = fs.inside(p)
                return orig(p, *a, **k) if g is None else ghost(g, *a, **k)
            return f

        def no(orig, changing=False):
            def f(*a, **k):
                for x in a[:2]:
                    if isinstance(x, (str, bytes, os.PathLike)) and fs.inside(x) is not None:
                        raise Unsupported(f'{getattr(orig, "__name__", "?")} on the output directory')
                if changing:
                    fs.changes(a[0])
                return orig(*a, **k)
            return f

        def changing(ghost):
            def f(p, *a, **k):
                return ghost(fs.changes(p), *a, **k)
            return f

        def copy(src, dst, *a, **k):
            if fs.inside(src) is not None:
                raise Unsupported('copying from the output directory')
            g = fs.changes(dst)
            with real_open(src, 'rb') as fh:
                data = fh.read()
            if any(x[0] == 'mkdir' and (x[1] == g or x[1].startswith(g + '/')) for x in fs.log) and fs.is_kind(g, 'dir'):
                g = g + '/' + os.path.basename(src)
            fs.put(g, data)
            return dst

        def mkdirs(p, mode=0o777, exist_ok=False):
            fs.makedirs(fs.changes(p), exist_ok)

        def mkdir(p, mode=0o777, **k):
            g = fs.changes(p)
            if g != fs.root and not fs.is_kind(os.path.dirname(g), 'dir'):
                raise FileNotFoundError(2, 'No such file or directory', g)
            fs.makedirs(g, False)

        import builtins
        real_open = builtins.open

        def open_(f, mode='r', *a, **k):
            if isinstance(f, int):
                return real_open(f, mode, *a, **k)
            g = fs.inside(f)
            if not set(mode) & set('wax+'):
                if g is not None:
                    raise Unsupported('reading the output directory')
                return real_open(f, mode, *a, **k)
            g = fs.changes(f)
            if mode.replace('t', '').replace('b', '') != 'w':
                raise Unsupported(f'opening with mode {mode}')
            if not fs.is_kind(os.path.dirname(g), 'dir'):
                raise FileNotFoundError(2, 'No such file or directory', g)
            return GhostFile(fs, g, 'b' not in mode)

        class GhostZip(zipfile.ZipFile):
            def extractall(self, path=None, members=None, pwd=None):
                for m in (members if members is not None else self.namelist()):
                    self.extract(m, path, pwd)

            def extract(self, member, path=None, pwd=None):
                g = fs.changes(os.path.join(os.fspath(path) if path is not None else os.getcwd(),
                                            getattr(member, 'filename', member)))
                fs.makedirs(os.path.dirname(g), True)
                fs.put(g, self.read(member))
                return g

        P = os.path
        out = []

        def sub(mod, name, new):
            out.append((mod, name, getattr(mod, name), new))
        for n, kind in (('isdir', 'dir'), ('isfile', 'file'), ('exists', 'any'), ('lexists', 'any')):
            sub(P, n, first(getattr(P, n), lambda g, kind=kind: fs.is_kind(g, kind)))
        sub(P, 'islink', first(P.islink, lambda g: False))
        for n in ('getsize', 'getmtime', 'samefile'):
            sub(P, n, no(getattr(P, n)))
        sub(os, 'makedirs', mkdirs)
        sub(os, 'mkdir', mkdir)
        for n in ('remove', 'unlink'):
            sub(os, n, changing(lambda g, *a, **k: fs.unlink(g)))
        for n in ('rmdir', 'removedirs', 'rename', 'replace', 'renames', 'link', 'symlink', 'chmod', 'utime', 'truncate'):
            sub(os, n, no(getattr(os, n), True))
        for n in ('listdir', 'scandir', 'stat', 'lstat', 'access', 'walk', 'open'):
            sub(os, n, no(getattr(os, n)))
        sub(shutil, 'rmtree', changing(lambda g, ignore_errors=False, *a, **k: fs.rmtree(g, ignore_errors)))
        for n in ('copy', 'copy2', 'copyfile'):
            sub(shutil, n, copy)
        for n in ('copytree', 'move', 'copymode', 'copystat'):
            sub(shutil, n, no(getattr(shutil, n), True))
        sub(builtins, 'open', open_)
        sub(io, 'open', open_)
        sub(zipfile, 'ZipFile', GhostZip)
        return out

    def __enter__(self):
        self.subs = self.patched()
        for mod, n, _, new in self.subs:
            setattr(mod, n, new)
        return self

    def __exit__(self, *a):
        for mod, n, old, _ in self.subs:
            setattr(mod, n, old)
