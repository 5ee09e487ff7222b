"""Interface proxies (C32), storage wrapper (C33), deployable packages (C34)."""
import ast
import itertools
import json
import os
import shutil
import sys
import tempfile

from .common import *

ABCS = {'ABCConverter': ('abc_converter', CONV), 'ABCFlexibleToken': ('abc_flexible_token', FT),
        'ABCIcxToken': ('abc_icx_token', ICX), 'ABCIRCToken': ('abc_irc_token', IRC), 'ABCOwned': ('abc_owned', OWNED),
        'ABCScoreRegistry': ('abc_score_registry', REG), 'ABCTokenHolder': ('abc_token_holder', HOLDER)}


def abc_path(n):
    return f'interfaces.{ABCS[n][0]}:{n}'


def abstract_methods(cls):
    return sorted(n for n in dir(cls) if getattr(getattr(cls, n), '__isabstractmethod__', False))


def params(cls, m):
    import inspect
    return [(p.name, p.annotation, p.default is not inspect.Parameter.empty)
            for p in list(inspect.signature(getattr(cls, m)).parameters.values())[1:]]


class Echo(Env):
    """answers every call with something new and remembers it"""
    assume_contracts = True

    def __init__(self):
        self.answers = []

    def call(self, w, inst, to, name, kw):
        a = w.fresh('answer')
        self.answers.append((name, a))
        return a


def reset_proxies(w):
    """a fresh process: no proxies yet, no function decorated yet"""
    P = w.cls('utility.proxy_score:ProxyScore')
    for c in [c for c, v in P.__dict__.items() if isinstance(v, dict)]:
        delattr(P, c)
    for n in ABCS:
        for c in w.cls(abc_path(n)).__mro__:
            for f in c.__dict__.values():
                if getattr(f, '__isabstractmethod__', False):
                    for k in [k for k in f.__dict__ if k != '__isabstractmethod__']:
                        del f.__dict__[k]
    return P


def value_for(w, name, ann):
    k = {int: 'int', bool: 'bool', str: 'str', bytes: 'bytes'}.get(ann, 'addr')
    return by_type(w, name, k)


def through_proxy(w, cls, m, P, keywords=False):
    """call cls's method m through its proxy; check name, arguments, target, answer"""
    env = Echo()
    inst = subject(w, OWNED, env)
    to = w.addr('target', zero=False, contract=True)
    ps = params(cls, m)
    given = len(ps) - (0 if w.branch(w.bool('give optional arguments')) else len([p for p in ps if p[2]]))
    vals = [value_for(w, n, a) for n, a, _ in ps[:given]]
    kwmode = keywords and w.branch(w.bool('by keyword'))

    def go():
        proxy = P(cls)
        score = inst.obj.create_interface_score(to, proxy)
        if kwmode:
            return getattr(score, m)(**{p[0]: v for p, v in zip(ps, vals)})
        return getattr(score, m)(*vals)
    o = w.do(inst, go, 'contracts.utility.proxy_score.ProxyScore')
    w.ensure('a call through the interface goes through', o.ok)
    if not o.ok:
        return
    w.cover('called')
    c = o.calls()
    w.ensure('exactly one call is made', len(c) == 1)
    if len(c) != 1:
        return
    got = [v for v in list(c[0].args.values())[:given]]
    w.ensure('to the given address, of the method named, with exactly the arguments given in this order', And(
        eq(c[0].to, to), c[0].name == m, len(got) == given, *[eq(a, b) for a, b in zip(got, vals)]))
    w.ensure('its answer is returned', eq(o.value, env.answers[0][1]))


@spec('C32', name='each interface of the DEX', covers=('called', 'another interface first'), budget=200)
def dex_interfaces(w):
    P = reset_proxies(w)
    names = sorted(ABCS)
    n = w.choose('interface', names)
    first = w.choose('created before', [None] + names)
    if first is not None:
        w.cover('another interface first')
        P(w.cls(abc_path(first)))
    cls = w.cls(abc_path(n))
    P(cls)
    m = w.choose('method', abstract_methods(cls))
    through_proxy(w, cls, m, P, keywords=True)


@spec('C32', name='interfaces agree with the SCOREs behind them', covers=('compared',))
def conformity(w):
    n = w.choose('interface', sorted(ABCS))
    cls = w.cls(abc_path(n))
    path = ABCS[n][1]
    ext = set(w.externals(path)) | set(w.externals(path, readonly=True))
    w.cover('compared')
    for m in abstract_methods(cls):
        if m == 'tokenFallback' and m not in ext:
            continue
        w.ensure(f'{m} of the interface is a method callers can reach', m in ext)
        if m in ext:
            a = [(x[0], x[2]) for x in params(cls, m)]
            b = [(x[0], x[2]) for x in w.signature(path, m)]
            w.ensure(f'{m} takes the same arguments on both sides', a == b)


def shapes(w):
    """interface classes built afresh: inheritance, overriding, same names, concrete helpers"""
    abstractmethod, ABC = w.cls('utility.proxy_score:abstractmethod'), w.cls('utility.proxy_score:ABC')

    class ABCOne(ABC):
        @abstractmethod
        def send(self, _to: str, _value: int):
            pass

        def helper(self) -> int:
            return 7

    class ABCTwo(ABC):
        @abstractmethod
        def send(self, _a: int):
            pass

        @abstractmethod
        def mint(self, _a: int, _b: int):
            pass

    class ABCThree(ABCOne):
        @abstractmethod
        def burn(self, _a: int, _b: int):
            pass

    class ABCFour(ABCThree, ABCTwo):
        pass

    class ABCFive(ABCThree):
        @abstractmethod
        def send(self, _v: int, _w: int):
            pass
    cl = [ABCOne, ABCTwo, ABCThree, ABCFour, ABCFive]
    for c in cl:
        for n, f in list(c.__dict__.items()):
            if getattr(f, '__isabstractmethod__', False):
                f.__qualname__ = f'{c.__name__}.{n}'         # as if written at module level
    return cl


@spec('C32', name='any interface shape, any order of creation', covers=('called', 'helper'), budget=200,
      bounded='interface classes: five inheritance shapes, every order of creating two of them first')
def any_interface(w):
    P = reset_proxies(w)
    cl = shapes(w)
    i = w.choose('interface', list(range(5)))
    a = w.choose('first', list(range(5)))
    b = w.choose('second', list(range(5)))
    same_name = w.branch(w.bool('homonymous interfaces'))
    if same_name:
        for c in cl:
            c.__name__ = c.__qualname__ = 'ABCSame'
    pa, pb = P(cl[a]), P(cl[b])
    p = P(cl[i])
    w.ensure('different interfaces have different proxies', And((pa is pb) == (a == b), (p is pa) == (a == i)))
    w.ensure('a proxy offers everything the interface does', all(hasattr(p, m) for m in abstract_methods(cl[i])))
    w.ensure('a proxy is of the interface type', isinstance(p, type) and issubclass(p, cl[i]))
    m = w.choose('method', abstract_methods(cl[i]))
    through_proxy(w, cl[i], m, P)
    if hasattr(cl[i], 'helper'):
        w.cover('helper')
        w.ensure('what is not abstract stays', p.helper is cl[i].helper)


# ------------------------------------------------------------------ C33
FIELDS = [('flexible_token_address', 'VarDB', 'addr'), ('fee', 'VarDB', 'int'), ('max_fee', 'VarDB', 'int'),
          ('enabled', 'VarDB', 'bool'), ('title', 'VarDB', 'str'), ('connector_tokens', 'ArrayDB', 'addr'),
          ('weights', 'DictDB', 'int'), ('memo', 'VarDB', 'bytes')]
VARS = [(n, k) for n, c, k in FIELDS if c == 'VarDB']


def make_storage(w, inst, fields=FIELDS):
    S = w.cls('utility.storage:Storage')
    ty = {'addr': w.cls('utility.storage:Address'), 'int': int, 'bool': bool, 'str': str, 'bytes': bytes}
    s = S(inst.obj.db)
    s.add_fields([(n, w.cls(f'utility.storage:{c}'), ty[k]) for n, c, k in fields])
    return s


DEFAULTS = {'int': 0, 'bool': False, 'addr': None, 'str': '', 'bytes': None}


def set_value(w, name, kind):
    return {'int': lambda: w.int(name), 'bool': lambda: w.bool(name), 'addr': lambda: w.addr(name),
            'str': lambda: w.str(name), 'bytes': lambda: w.bytes(name)}[kind]()


@spec('C33', name='a variable reads back what was written, nothing else moves', covers=('written',))
def storage_vars(w):
    inst = subject(w, OWNED)
    f, g = w.choose('written field', VARS), w.choose('other field', VARS)
    key, tok = w.str('dict key'), w.addr('token')
    v = set_value(w, 'v.' + f[0], f[1])
    order = FIELDS if w.branch(w.bool('declared in this order')) else FIELDS[::-1]
    seen = {}

    def go():
        s, other = make_storage(w, inst, order), make_storage(w, inst)
        seen['before'] = getattr(s, g[0])
        seen['n0'] = len_(s.connector_tokens)
        seen['d0'] = s.weights[key]
        setattr(s, f[0], v)
        seen['read'] = getattr(s, f[0])
        seen['fresh'] = getattr(other, f[0])
        seen['later'] = getattr(make_storage(w, inst, order), f[0])
        seen['after'] = getattr(s, g[0])
        seen['n1'] = len_(s.connector_tokens)
        seen['d1'] = make_storage(w, inst).weights[key]
        setattr(s, f[0], getattr(s, f[0]))
        seen['again'] = getattr(s, f[0])
    o = w.do(inst, go, 'contracts.utility.storage.Storage')
    w.ensure('declared fields can be read and written', o.ok)
    if not o.ok:
        return
    w.cover('written')
    w.ensure('the value written is read back', eq(seen['read'], v))
    w.ensure('every storage object over the same database sees it', And(eq(seen['fresh'], v), eq(seen['later'], v)))
    w.ensure('writing back what was read changes nothing', eq(seen['again'], v))
    if f != g:
        w.ensure('other variables stay', eq(seen['before'], seen['after']))
    w.ensure('arrays and dictionaries stay', And(eq(seen['n0'], seen['n1']), eq(seen['d0'], seen['d1'])))


def len_(a):
    f = getattr(a, '__dv_len__', None)
    return f() if f else len(a)


@spec('C33', name='storages over different databases do not meet', covers=('written',))
def storage_apart(w):
    a, b = w.choose('written first', [0, 1]), w.branch(w.bool('same field'))
    here, there = this(w), w.addr('that', zero=False, contract=True)
    w.assume(ne(here, there))
    one, two = w.deploy(OWNED, here, label='owned', nonneg=()), w.deploy(OWNED, there, label='owned2', nonneg=())
    w.env = Anything()
    f = w.choose('written field', VARS)
    g = f if b else VARS[(VARS.index(f) + 1) % len(VARS)]
    v, u = set_value(w, 'v.' + f[0], f[1]), set_value(w, 'u.' + g[0], g[1])
    key, tok, n = w.str('dict key'), w.addr('token'), w.int('n')
    seen = {}

    def go():
        s, t = (make_storage(w, one), make_storage(w, two)) if a else (make_storage(w, two), make_storage(w, one))
        seen['t0'], seen['n0'], seen['d0'] = [getattr(t, x) for x, _ in VARS], len_(t.connector_tokens), t.weights[key]
        setattr(s, f[0], v)
        s.connector_tokens.put(tok)
        s.weights[key] = n
        seen['t1'], seen['n1'], seen['d1'] = [getattr(t, x) for x, _ in VARS], len_(t.connector_tokens), t.weights[key]
        setattr(t, g[0], u)
        seen['s'], seen['t'] = getattr(s, f[0]), getattr(t, g[0])
    o = w.do(one, go, 'contracts.utility.storage.Storage')
    w.ensure('declared fields can be read and written', o.ok)
    if o.ok:
        w.cover('written')
        w.ensure('writing to one leaves the other alone', And(*[eq(p, q) for p, q in zip(seen['t0'], seen['t1'])],
                                                              eq(seen['n0'], seen['n1']), eq(seen['d0'], seen['d1'])))
        w.ensure('each reads back its own', And(eq(seen['s'], v), eq(seen['t'], u)))


@spec('C33', name='fields are empty until written', covers=('read',))
def storage_default(w):
    inst = subject(w, OWNED, lazy=False)
    f = w.choose('field', VARS)
    seen = {}

    def go():
        s = make_storage(w, inst)
        seen['v'] = getattr(s, f[0])
        seen['n'] = len_(s.connector_tokens)
    o = w.do(inst, go, 'contracts.utility.storage.Storage')
    w.ensure('declared fields can be read', o.ok)
    if o.ok:
        w.cover('read')
        w.ensure('the empty value', And(eq(seen['v'], DEFAULTS[f[1]]), eq(seen['n'], 0)))


@spec('C33', name='containers are the live containers', covers=('used',))
def storage_containers(w):
    inst = subject(w, OWNED)
    k1, k2 = w.str('k1'), w.str('k2')
    x, a = w.int('x'), w.addr('a')
    seen = {}

    def go():
        s = make_storage(w, inst)
        seen['vars'] = [getattr(s, n) for n, _ in VARS]
        seen['old2'] = s.weights[k2]
        seen['n0'] = len_(s.connector_tokens)
        s.weights[k1] = x
        s.connector_tokens.put(a)
        t = make_storage(w, inst)
        seen['k1'], seen['k2'] = t.weights[k1], t.weights[k2]
        seen['n1'] = len_(s.connector_tokens)
        seen['last'] = s.connector_tokens[seen['n1'] - 1]
        seen['vars1'] = [getattr(s, n) for n, _ in VARS]
        s.note = 'plain'
        seen['plain'] = s.note
    o = w.do(inst, go, 'contracts.utility.storage.Storage')
    w.ensure('containers can be used', o.ok)
    if not o.ok:
        return
    w.cover('used')
    w.ensure('an entry written is seen everywhere, others stay', And(
        eq(seen['k1'], x), eq(seen['k2'], If(eq(k1, k2), x, seen['old2']))))
    w.ensure('an element appended is seen', And(eq(seen['n1'], seen['n0'] + 1), eq(seen['last'], a)))
    w.ensure('no variable moves', And(*[eq(p, q) for p, q in zip(seen['vars'], seen['vars1'])]))
    w.ensure('an undeclared attribute is an ordinary one', seen['plain'] == 'plain')


# ------------------------------------------------------------------ C34
REPO = os.environ.get('DV_REPO', '/repo')


def fresh_generator():
    for m in [m for m in sys.modules if m == 'contract_generator' or m.startswith('contract_generator.')]:
        del sys.modules[m]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import importlib
    return (importlib.import_module('contract_generator.builder').Builder,
            importlib.import_module('contract_generator.writer'),
            importlib.import_module('contract_generator.config').config)


def tree(d):
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def unresolved(pkg, files):
    """relative imports of a package that lead nowhere, absolute ones that leave the platform"""
    bad = []
    mods = {f[:-3].replace('/', '.') for f in files if f.endswith('.py')}
    mods |= {m[:-9] for m in mods if m.endswith('.__init__')}
    dirs = {os.path.dirname(f).replace('/', '.') for f in files}
    for f, src in files.items():
        if not f.endswith('.py'):
            continue
        here = f[:-3].replace('/', '.').split('.')
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.ImportFrom):
                if n.level == 0:
                    if n.module.split('.')[0] not in PLATFORM:
                        bad.append((f, n.module))
                    continue
                base = here[:-n.level]
                if len(here) < n.level + 0:
                    bad.append((f, '.' * n.level + (n.module or '')))
                    continue
                t = '.'.join(base + (n.module.split('.') if n.module else []))
                if n.module and t not in mods and t not in dirs:
                    bad.append((f, t))
                elif not n.module:
                    bad += [(f, f'{t}.{a.name}') for a in n.names if f'{t}.{a.name}'.lstrip('.') not in mods]
            elif isinstance(n, ast.Import):
                bad += [(f, a.name) for a in n.names if a.name.split('.')[0] not in PLATFORM]
    return bad


PLATFORM = {'iconservice', 'typing', 'abc', 'functools', 'json', 'math', 'inspect', 'itertools', 'collections', 'hashlib'}


def check_package(w, name, files):
    """files: relative path -> bytes"""
    src = os.path.join(REPO, 'contracts')
    own = {os.path.relpath(k, '.'): v for k, v in tree(os.path.join(src, name)).items()
           if '__pycache__' not in k and not k.startswith('tests/')}
    try:
        pj = json.loads(files.get('package.json', b''))
    except ValueError:
        pj = {}
    w.ensure(f'{name}: package.json is there and names the main module and class',
             isinstance(pj.get('main_file'), str) and isinstance(pj.get('main_score'), str) and bool(pj.get('version')))
    if not isinstance(pj.get('main_file'), str):
        return None
    mf = pj['main_file'].replace('.', '/') + '.py'
    w.ensure(f'{name}: the main module is in the package', mf in files)
    if mf in files:
        cls = [n.name for n in ast.parse(files[mf]).body if isinstance(n, ast.ClassDef)]
        w.ensure(f'{name}: the main class is in the main module', pj['main_score'] in cls)
    w.ensure(f'{name}: every import inside the package resolves inside the package', not unresolved(name, files))
    w.ensure(f'{name}: everything of the SCORE is in the package, unmodified', all(
        files.get(k if k == 'package.json' else f'{name}/{k}') == v for k, v in own.items()))
    ok = True
    for k, v in files.items():
        if k == 'package.json':
            continue
        if k == 'NOTICE':
            with open(os.path.join(REPO, 'NOTICE'), 'rb') as f:
                ok = ok and f.read() == v
            continue
        p = os.path.join(src, k)
        ok = ok and os.path.exists(p) and open(p, 'rb').read() == v
    w.ensure(f'{name}: every file is the one of the source tree', ok)
    w.ensure(f'{name}: no tests and no caches are shipped',
             not [k for k in files if 'tests' in k.split('/') or '__pycache__' in k])
    return pj


def load_package(root, name, pj):
    """really import the package under the real platform (real mode only)"""
    import importlib
    sys.path.insert(0, root)
    old = {m: sys.modules.pop(m) for m in list(sys.modules) if m == name or m.startswith(name + '.')}
    try:
        importlib.invalidate_caches()
        m = importlib.import_module(f'{name}.{pj["main_file"]}')
        c = getattr(m, pj['main_score'])
        return any(b.__name__ == 'IconScoreBase' for b in c.__mro__) and not getattr(c, '__abstractmethods__', ())
    except Exception:
        return False
    finally:
        sys.path.remove(root)
        for m in [m for m in sys.modules if m == name or m.startswith(name + '.')]:
            del sys.modules[m]
        sys.modules.update(old)


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='dvpkg')
        self.cwd = os.getcwd()
        os.chdir(REPO)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.d, ignore_errors=True)


def subsets(names):
    return [list(c) for r in range(1, len(names) + 1) for c in itertools.combinations(names, r)]


T34 = ['zipfile, os.walk and the file system behave as documented; nothing but directories stands where a build needs '
       'directories (dv/ghostfs.py gives os and shutil their meaning on the output directory)',
       'a source tree with another layout of directory names than the four kinds tried is packaged the same way']


def text(w, name, options):
    """an arbitrary file path under the output directory"""
    sc = w.p.sc['consts']
    if w.p.kind == 'random' and name not in sc:
        sc[name] = w.p.r.choice(options)
    if name not in sc:
        at = [k[8:] for k, v in sc.items() if k.startswith('file is ') and v]
        below = sorted((k[11:] for k, v in sc.items() if k.startswith('file below ') and v), key=len)
        sc[name] = at[0] if at else (below[-1] + '/' if below else '') + 'some.other.file'
    return sc[name]


def wanted(contract):
    """package path -> content, of one contract's list of files"""
    out = {}
    for src, dst in contract.path_list:
        with open(src, 'rb') as f:
            out[os.path.normpath(dst)] = f.read()
    return out


def put_real(root, p, data):
    f = os.path.join(root, p)
    try:
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, 'wb') as fh:
            fh.write(data)
    except OSError:
        return False
    return True


@spec('C34', name='writing packages over any directory', covers=('last of any list', 'gone', 'kept', 'written'), budget=300,
      trusted=T34)
def any_directory(w):
    """whatever was there before and whatever the list of packages: exactly the packages of the list are replaced"""
    Builder, wr, config = fresh_generator()
    names = sorted(config)
    k = w.choose('package', names)
    items = [Builder(os.path.join(REPO, 'contracts'), [n]).contract_list[0] for n in (names[0], names[-1], k)]
    want = [wanted(c) for c in items]
    others = [k + '/stale.py', k + '/utility/stale/x.py', names[1] + '/old.py', 'top.txt', k + '2/y.py', k + '.py']
    rel = None if w.symbolic else text(w, 'file', sorted(want[2]) + others)
    with scratch() as d:
        root = os.path.join(d, 'out', 'build')
        if not w.symbolic:
            return any_directory_real(w, wr, items, want, d, root, rel, others)
        from .. import ghostfs
        mods = ghostfs
        fs = ghostfs.GhostFS(w, REPO, root)
        state = {'i': -1, 'end': False}

        def before(i, x):
            if i:
                c, exp, cell = items[i - 1], want[i - 1], fs.cell
                v = w.z3.If(fs.under(os.path.join(root, c.name)), w.z3.IntVal(0), fs.initial)
                for p, data in exp.items():
                    v = w.z3.If(fs.at(os.path.join(root, p)), w.z3.IntVal(fs.number(data)), v)
                w.ensure('exactly the package is replaced, whatever was there', w.sym.SymBool(cell == v))
                if i == len(items):
                    w.cover('last of any list')
                    w.cover('gone', w.sym.SymBool(w.z3.And(cell == 0, fs.initial == -1)))
                    w.cover('kept', w.sym.SymBool(cell == -1))
                    w.cover('written', w.sym.SymBool(cell > 0))
            if x is None:
                state['end'] = True
            else:
                fs.havoc()
                # nothing stands in the way of the build: see T34
                need = {os.path.join(root, a) for p in want[i] for a in above(p)} | {root}
                w.eng.add(w.z3.Not(w.z3.And(fs.initial != 0, w.z3.Or(*[fs.at(a) for a in need]))))
                w.eng.add(w.z3.Not(w.z3.And(fs.initial != 0, w.z3.Or(*[fs.under(os.path.join(root, p)) for p in want[i]]))))
        with fs:
            _, m, _ = mods.load(REPO)
            writer = m.FileWriter(root)
            el = ghostfs.Elements(items, sys._getframe(), before)
            err = attempt(lambda: writer.write(el))
        w.ensure('the whole list is written', err is None and state['end'])
        w.ensure('the sources are left alone', not fs.stray)


def above(p):
    out = []
    while '/' in p:
        p = os.path.dirname(p)
        out.append(p)
    return out


def attempt(f):
    """the exception the code under proof raised, if any"""
    try:
        f()
    except Exception as e:
        if type(e).__name__ == 'Unsupported':
            raise
        return e


def any_directory_real(w, wr, items, want, d, root, rel, others):
    base = {o: b'old ' + o.encode() for o in others if w.bool('there.' + o)}
    base[rel] = b'what was there'
    need = {a for x in want for p in x for a in above(p)}
    for p in list(base):
        if p in need or any(p.startswith(q + '/') for x in want for q in x) or not put_real(root, p, base[p]):
            del base[p]
    side = os.path.join(d, 'out', 'beside')
    put_real(d, 'out/beside', b'beside')
    src = tree(os.path.join(REPO, 'contracts'))
    err = attempt(lambda: wr.FileWriter(root).write(items))
    exp = {p: v for p, v in base.items() if p.split('/')[0] not in [c.name for c in items] or '/' not in p}
    for x in want:
        exp.update(x)
    w.ensure('the whole list is written', err is None)
    w.ensure('exactly the package is replaced, whatever was there', tree(root) == exp)
    w.ensure('the sources are left alone', os.path.exists(side) and tree(os.path.join(REPO, 'contracts')) == src)
    for c in ('last of any list', 'gone', 'kept', 'written'):
        w.cover(c)


@spec('C34', name='unpacking an archive over any directory', covers=('unpacked', 'gone'), budget=300, trusted=T34)
def any_archive(w):
    """the archive of any list holds exactly its packages; unpacked, they are all there is"""
    Builder, wr, config = fresh_generator()
    names = sorted(config)
    k = w.choose('package', names)
    comp = w.choose('compression', ['ZIP_STORED', 'ZIP_DEFLATED'])
    items = [Builder(os.path.join(REPO, 'contracts'), [n]).contract_list[0] for n in (names[0], names[-1], k)]
    if k in (names[0], names[-1]):
        items = [c for c in items[:2] if c.name != k] + items[2:]
    want = [wanted(c) for c in items]
    full = {p: v for x in want for p, v in x.items()}
    rel = None if w.symbolic else text(w, 'file', sorted(full) + [k + '/stale.py', 'top.txt', 'other/x.py'])
    with scratch() as d:
        root = os.path.join(d, 'out', 'build')
        if not w.symbolic:
            if rel not in {a for p in full for a in above(p)} and w.bool('there before'):
                put_real(root, rel, b'what was there')
            z = wr.ZipWriter(comp)
            z.write(items)
            data = z.to_bytes()
            z.store_to_file(root)
            w.ensure('the archive holds exactly the packages', archive(data) == full)
            w.ensure('unpacked, it is all there is', tree(root) == full)
            w.cover('unpacked'), w.cover('gone')
            return
        from .. import ghostfs
        fs = ghostfs.GhostFS(w, REPO, root)
        need = {os.path.join(root, a) for p in full for a in above(p)} | {root}
        w.eng.add(w.z3.Not(w.z3.And(fs.initial != 0, w.z3.Or(*[fs.at(a) for a in need]))))
        state = {'end': False, 'n': 0}
        with fs:
            _, m, _ = ghostfs.load(REPO)
            z = m.ZipWriter(comp)

            def before(i, x):
                now = [e.filename for e in z.list_content()]
                if i:
                    w.ensure('each package is added to the archive',
                             sorted(now[state['n']:]) == sorted(os.path.normpath(p[1]) for p in items[i - 1].path_list))
                state['n'] = len(now)
                state['end'] = x is None
            el = ghostfs.Elements(items, sys._getframe(), before)
            err = attempt(lambda: z.write(el))
            w.ensure('the whole list is written', err is None and state['end'])
            if err is not None:
                return
            data = z.to_bytes()
            w.ensure('the archive holds exactly the packages', archive(data) == full)
            err = attempt(lambda: z.store_to_file(root))
        w.ensure('it can be unpacked', err is None)
        v = w.z3.IntVal(0)
        for p, c in full.items():
            v = w.z3.If(fs.at(os.path.join(root, p)), w.z3.IntVal(fs.number(c)), v)
        w.ensure('unpacked, it is all there is', w.sym.SymBool(fs.cell == v))
        w.ensure('the sources are left alone', not fs.stray)
        w.cover('unpacked')
        w.cover('gone', w.sym.SymBool(w.z3.And(fs.cell == 0, fs.initial == -1)))


def archive(data):
    import io
    import zipfile
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        return {os.path.normpath(n): z.read(n) for n in z.namelist() if not n.endswith('/')}


@spec('C34', name='any list of contracts', covers=('last of any list',), budget=200, trusted=T34)
def any_list(w):
    """what is built of a contract does not depend on what is built before it, or how often"""
    Builder, wr, config = fresh_generator()
    names = sorted(config)
    k = w.choose('contract', names)
    items = [names[0], names[-1], k]
    if not w.symbolic:
        items = [w.choose(f'item {i}', names) for i in range(w.int('more', 0, 15))] + items
    loc = os.path.join(REPO, 'contracts')
    want = {n: sorted(Builder(loc, [n]).contract_list[0].path_list) for n in items}
    if w.symbolic:
        from .. import ghostfs
        bm, _, cm = ghostfs.load(REPO)
        state = {'end': False}

        def before(i, x):
            state['end'] = x is None
        el = ghostfs.Elements(items, sys._getframe(), before)
        box = []
        err = attempt(lambda: box.append(bm.Builder(loc, el)))
        w.ensure('any list of contracts can be built', err is None and state['end'])
    else:
        box = []
        err = attempt(lambda: box.append(Builder(loc, items)))
        w.ensure('any list of contracts can be built', err is None)
    if not box:
        return
    w.cover('last of any list')
    b = box[0]
    got = list(list.__iter__(b.contract_list)) if isinstance(b.contract_list, list) else list(b.contract_list)
    w.ensure('a package for each contract asked for, and no other', {c.name for c in got} == set(items))
    w.ensure('a package does not depend on what is built with it', all(sorted(c.path_list) == want[c.name] for c in got))
    seen = []

    class Record(wr.Writer):
        def write(self, contract_list):
            seen.append(contract_list)
    b.build(Record())
    w.ensure('what is built is what is written', len(seen) == 1 and
             {c.name for c in list.__iter__(seen[0])} == set(items))


@spec('C34', name='a package is self-contained', covers=('built', 'zip'), trusted=T34, budget=300)
def packages(w):
    Builder, wr, config = fresh_generator()
    names = sorted(config)
    which = w.choose('contracts', subsets(names) + [None])
    zipped = w.choose('writer', ['files', 'zip'])
    if which and len(which) > 1 and w.branch(w.bool('reversed')):
        which = which[::-1]
    place = w.choose('location', ['absolute', 'relative', 'separator at the end', 'the working directory', 'another working '
                     'directory', 'elsewhere', 'elsewhere, test-like name', 'a name that recurs']) \
        if which is None or len(which) == 1 else 'absolute'
    with scratch() as d:
        root = os.path.join(d, 'build')
        C = os.path.join(REPO, 'contracts')
        loc = {'absolute': C, 'relative': 'contracts', 'separator at the end': C + '/', 'the working directory': '.',
               'another working directory': C,
               'elsewhere': os.path.join(d, 'src', 'network', 'dex'),
               'elsewhere, test-like name': os.path.join(d, 'tests', 'my_tests', 'contracts'),
               'a name that recurs': 'utility'}[place]
        if place.startswith('elsewhere') or place == 'a name that recurs':
            shutil.copytree(C, os.path.join(d, loc))
        if place == 'the working directory':
            os.chdir(C)
        elif place.endswith('working directory') or place == 'a name that recurs':
            os.chdir(d)
            with open('NOTICE', 'w') as f:
                f.write('of another project')
        def go():
            b = Builder(loc, which)
            if zipped == 'zip':
                z = wr.ZipWriter()
                b.build(z)
                z.store_to_file(root)
                return sorted(i.filename for i in z.list_content())
            b.build(wr.FileWriter(root))
        listing = []
        err = attempt(lambda: listing.append(go()))
        w.ensure('packages can be built', err is None)
        if err is not None:
            return
        if zipped == 'zip':
            w.cover('zip')
            w.ensure('the archive and its listing agree', listing[0] == sorted(tree(root)))
        w.cover('built')
        want = which or names
        w.ensure('exactly the requested packages are built', sorted(os.listdir(root)) == sorted(want))
        for n in want:
            pj = check_package(w, n, tree(os.path.join(root, n)))
            if pj and not w.symbolic:
                w.ensure(f'{n}: the package loads on the real platform', load_package(root, n, pj))


@spec('C34', name='sources that have grown', covers=('built',), trusted=T34, budget=300,
      bounded='six directory names, three depths, four file names, each with each writer and contract')
def grown(w):
    """a contract with more source files, deeper, under names that resemble those left out"""
    Builder, wr, config = fresh_generator()
    n = w.choose('contract', sorted(config))
    name = w.choose('directory', ['testimony', 'contests', 'latest', 'tests_of_time', 'my_tests', 'data'])
    below = w.choose('depth', ['', 'rates', 'rates/of/old'])
    file = w.choose('file', ['table.py', 'testimony.py', '__init__.py', 'table.bin'])
    zipped = w.choose('writer', ['files', 'zip'])
    with scratch() as d:
        src, root = os.path.join(d, 'contracts'), os.path.join(d, 'build')
        shutil.copytree(os.path.join(REPO, 'contracts'), src, ignore=shutil.ignore_patterns('__pycache__'))
        rel = os.path.join(below, name, file)
        os.makedirs(os.path.dirname(os.path.join(src, n, rel)))
        with open(os.path.join(src, n, rel), 'wb') as f:
            f.write(b'# of ' + rel.encode())

        def go():
            b = Builder(src, [n])
            if zipped == 'zip':
                z = wr.ZipWriter()
                b.build(z)
                z.store_to_file(root)
            else:
                b.build(wr.FileWriter(root))
        err = attempt(go)
        w.ensure('packages can be built', err is None)
        if err is not None:
            return
        w.cover('built')
        w.ensure('every source file of the contract is in its package, unmodified',
                 tree(os.path.join(root, n)).get(os.path.join(n, rel)) == b'# of ' + rel.encode())


@spec('C34', name='a second build', covers=('rebuilt',), trusted=T34, budget=400)
def rebuild(w):
    Builder, wr, config = fresh_generator()
    names = sorted(config)
    first = w.choose('first', [[n] for n in names] + [names, None])
    second = w.choose('second', [[n] for n in names] + [names, None])
    C = os.path.join(REPO, 'contracts')
    with scratch() as d:
        root = os.path.join(d, 'build')
        fw = wr.FileWriter(root)
        err = attempt(lambda: Builder(C, first).build(fw))
        w.ensure('packages can be built', err is None)
        if err is not None:
            return
        t1 = tree(root)
        one = (first or names)[0]
        stale = os.path.join(root, one, 'utility', 'stale.py')
        os.makedirs(os.path.dirname(stale), exist_ok=True)
        open(stale, 'w').close()
        again = fw if w.branch(w.bool('same writer')) else wr.FileWriter(root)
        err = attempt(lambda: Builder(C, second).build(again))
        w.ensure('packages can be built again', err is None)
        if err is not None:
            return
        t2 = tree(root)
        w.cover('rebuilt')
        reb = second or names
        for n in reb:
            check_package(w, n, {k[len(n) + 1:]: v for k, v in t2.items() if k.startswith(n + '/')})
        w.ensure('nothing of an older build is left in a rebuilt package',
                 (os.path.relpath(stale, root) in t2) == (one not in reb))
        w.ensure('packages not rebuilt stay', all(t2.get(k) == v for k, v in t1.items() if k.split('/')[0] not in reb))
        w.ensure('a package does not depend on what is built with it', all(
            t2.get(k) == v for k, v in t1.items() if k.split('/')[0] in reb))
        w.ensure('cleaning removes the build directory, once', fw.clean() is True and not os.path.exists(root)
                 and fw.clean() is False)
