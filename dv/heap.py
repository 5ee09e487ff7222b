"""The Python state that outlives a call: attributes of a SCORE object, of the contract classes and of the contract modules.

A specification starts from a newly built SCORE object on arbitrary storage.  That covers every later transaction only if calls
leave nothing behind in the objects themselves, which live on (and are not rolled back when a transaction fails).  `leftover`
is that frame condition: what one path of calls left in the heap beyond storage handles filed under their own key and classes."""
import sys
import types

from . import logic

CODE = (type, types.FunctionType, types.MethodType, types.BuiltinFunctionType, types.ModuleType, staticmethod, classmethod,
        property)


def owners():
    """contract modules and the classes defined in them"""
    seen = set()
    for mn in sorted(m for m in sys.modules if m == 'contracts' or m.startswith('contracts.')):
        m = sys.modules[mn]
        for o in [m] + [c for c in list(vars(m).values())
                        if isinstance(c, type) and str(getattr(c, '__module__', '')).startswith('contracts')]:
            if id(o) not in seen:
                seen.add(id(o))
                yield o


def _skip(k):
    return k.startswith('__') or k.startswith('_abc_') or k.startswith('_dv')


def data(v):
    return not isinstance(v, CODE) and not callable(v)


def loaded():
    return frozenset(m for m in sys.modules if m == 'contracts' or m.startswith('contracts.'))


class Image:
    """module and class state, to compare with and to go back to"""

    def __init__(self):
        self.mods = loaded()
        self.items = []
        for o in owners():
            d = {k: v for k, v in vars(o).items() if not _skip(k) and data(v)}
            self.items.append((o, set(vars(o)), d, {k: type(v)(v) for k, v in d.items() if type(v) in (dict, list, set)},
                               {k: form(v) for k, v in d.items()}))

    def changes(self):
        out = []
        for o, names, d, copies, forms in self.items:
            nm = getattr(o, '__name__', '?')
            vo = vars(o)
            if len(vo) != len(names):
                for k in [k for k in vo if k not in names and not _skip(k) and data(vo[k])]:
                    if not handles(form(vo[k]), SHARED):
                        out.append(f'{nm}.{k}')
            for k, f in forms.items():
                if k not in vo:
                    out.append(f'{nm}.{k}')
                elif vo[k] is not d[k] or k in copies:
                    if not kept(f, form(vo[k]), SHARED):
                        out.append(f'{nm}.{k}')
        return out

    def restore(self):
        for o, names, d, copies, forms in self.items:
            vo = vars(o)
            if len(vo) != len(names):
                for k in [k for k in vo if k not in names and not _skip(k) and data(vo[k])]:
                    try:
                        delattr(o, k)
                    except (AttributeError, TypeError):
                        pass
            for k, v in d.items():
                if vo.get(k) is not v:
                    try:
                        setattr(o, k, v)
                    except (AttributeError, TypeError):
                        pass
            for k, c in copies.items():
                v = d[k]
                if isinstance(v, dict):
                    for x in [x for x in v if x not in c and (data(x) or data(v[x]))] if len(v) != len(c) else ():
                        dict.__delitem__(v, x)
                    for x in c:
                        if x not in v or v[x] is not c[x]:
                            v[x] = c[x]
                elif len(v) != len(c) or v != c:
                    v.clear()
                    v.extend(c) if isinstance(v, list) else v.update(c)


def atom(v):
    e = getattr(v, 'e', None)
    return ('sym', type(v).__name__, e.get_id() if hasattr(e, 'get_id') else id(v))


def form(v, seen=()):
    """a comparable picture of a value"""
    if v is None:
        return ('none',)
    if logic.SYM is not None and isinstance(v, logic.SYM.SymBase):
        return atom(v)
    if isinstance(v, CODE):
        return ('code', id(v) if not isinstance(v, types.MethodType) else (id(v.__func__), id(v.__self__)))
    if isinstance(v, (bool, int, str, bytes, float, complex)):
        return ('data', type(v).__name__, v)
    if id(v) in seen:
        return ('loop',)
    seen = seen + (id(v),)
    if len(seen) > 12:
        return ('deep', id(v))
    if isinstance(v, dict):
        return ('dict', tuple((form(k, seen), form(x, seen)) for k, x in v.items()))
    if isinstance(v, (list, tuple, set, frozenset)):
        return (type(v).__name__, tuple(form(x, seen) for x in v))
    n = type(v).__name__
    m = str(getattr(type(v), '__module__', ''))
    if n in ('VarDB', 'DictDB', 'ArrayDB', 'Database', 'IconScoreDatabase') and not m.startswith('contracts'):
        keys = v.keys() if n == 'Database' else getattr(v, '_prekeys', None) or getattr(v, '_keys', None) or ()
        return ('handle', n, getattr(v, '_name', None) or getattr(v, '_base', None), tuple(form(k) for k in keys))
    if n == 'Address':
        return ('data', n, str(v))
    if m.startswith('contracts') or hasattr(v, '_dv_to'):
        d = getattr(v, '__dict__', {})
        return ('obj', id(type(v)), tuple((k, form(x, seen)) for k, x in d.items() if k not in ('_dv_inst', '_dv_db', '_dv_from')))
    return ('opaque', n, id(v))


SHARED = ('shared',)     # state of a class or module belongs to no one database


def handles(f, key):
    """only storage handles (each of no sub-database, or of the one named by `key`), classes and functions"""
    t = f[0]
    if t == 'handle':
        return key != SHARED and all(k == key for k in f[3])
    if t in ('code', 'loop'):
        return True
    if t == 'dict':
        return all(handles(x, key if key == SHARED else k) for k, x in f[1])
    if t in ('list', 'tuple', 'set', 'frozenset'):
        return all(handles(x, key) for x in f[1])
    if t == 'obj':
        return all(handles(x, key) for k, x in f[2])
    return False


def kept(a, b, key=None):
    """the picture b is the picture a, up to storage handles filed since"""
    if a == b or a[0] in ('none', 'dict') and handles(a, key) and handles(b, key):
        return True
    if a[0] == 'none':
        return handles(b, key)
    if a[0] == 'dict' and b[0] == 'dict':
        old = dict(a[1])
        new = dict(b[1])
        return all(k in new and kept(x, new[k], key if key == SHARED else k) for k, x in a[1]) and \
            all(handles(x, key if key == SHARED else k) for k, x in b[1] if k not in old)
    if a[0] == 'obj' and b[0] == 'obj' and a[1] == b[1]:
        old, new = dict(a[2]), dict(b[2])
        return all(k in new and kept(x, new[k], key) for k, x in a[2]) and \
            all(handles(x, key) for k, x in b[2] if k not in old)
    return False


def picture(obj):
    return {k: form(v) for k, v in vars(obj).items() if k not in ('_dv_inst', '_dv_db')}


def leftover(before, obj, name):
    now = picture(obj)
    return [f'{name}.{k}' for k in sorted(set(before) | set(now))
            if not (kept(before[k], now[k]) if k in before and k in now else k in now and handles(now[k], None))]


_image = None


def fresh_process(preload=()):
    """module and class state as when the contracts were loaded"""
    global _image
    if _image is None:
        import importlib
        for m in preload:
            try:
                importlib.import_module('contracts.' + m)
            except Exception:
                pass
        _image = Image()
        return
    _image.restore()
    if loaded() != _image.mods:
        _image = Image()


def module_loaded(m):
    global _image
    if _image is not None and m not in _image.mods:
        _image.restore()
        _image = Image()


def shared_leftover():
    return _image.changes() if _image is not None else []
