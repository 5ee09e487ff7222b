"""Contracts assumed of the ICON platform: the `iconservice` names the contracts import, over
symbolic storage.  Mirrors iconservice 1.1.2; every entry here is in the trusted base."""
import inspect
import json as _json
import sys
import types
from abc import ABC, ABCMeta, abstractmethod
from functools import partial, wraps
from inspect import isfunction

import z3

from . import sym
from .sym import SymAddr, SymAddrText, SymBase, SymBool, SymBytes, SymCat, SymInt, SymJson, SymStr, SymText, Unsupported
from .engine import LazyPathText, PathEnd


class IconServiceBaseException(BaseException):
    def __init__(self, message=None, code=0):
        self.message = message
        self.code = code

    def __str__(self):
        return f'{self.message}'


class InvalidParamsException(IconServiceBaseException):
    pass


class IconScoreException(IconServiceBaseException):
    pass


class RevertException(IconServiceBaseException):
    pass


class InterfaceException(IconServiceBaseException):
    pass


class EventLogException(IconServiceBaseException):
    pass


class ContainerDBException(IconServiceBaseException):
    pass


class IconTypeError(IconServiceBaseException):
    pass


class PayableException(IconServiceBaseException):
    pass


class _AddrMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymAddr):
            return sym.E().fork(x.e != 0)
        return False


class Address(metaclass=_AddrMeta):
    __dv_address__ = True

    @staticmethod
    def from_string(s):
        if isinstance(s, SymAddrText):
            ok = z3.And(s.ok, z3.Not(s.ws))
            if not sym.E().fork(ok):
                raise InvalidParamsException('Invalid address')
            return s.addr
        if isinstance(s, LazyPathText):
            ok, a = s.as_addr_text()
            if not sym.E().fork(ok):
                raise InvalidParamsException('Invalid address')
            return a
        if isinstance(s, str) and s in sym.E().tokens and isinstance(sym.E().tokens[s], SymAddr):
            return sym.E().tokens[s]
        if s is None or isinstance(s, (bool, int, float, SymInt, SymBool, sym.SymReal, sym.SymJsonOther)):
            raise InvalidParamsException('Invalid address')
        raise Unsupported('Address.from_string of an unmodelled value')


ZERO = SymAddr(z3.IntVal(1))


def revert(message=None, code=32100):
    raise RevertException(message, code)


def json_loads(s, **kw):
    en = sym.E()
    if isinstance(s, SymText):
        if not en.fork(en.facet('json', s.code, z3.BoolSort())):
            raise _json.JSONDecodeError('bad', '', 0)
        if en.fork(en.facet('dict', s.code, z3.BoolSort())):
            return SymJson(s.code)
        return sym.SymJsonOther('list')
    if isinstance(s, SymBase):
        raise Unsupported('json_loads')
    return _json.loads(s, **kw)


class JsonDump:
    """json_dumps of a structure holding symbolic values; parsed back by the environment"""

    def __init__(self, obj):
        self.obj = obj

    def encode(self, encoding='utf-8', *a, **k):
        return JsonDump(self.obj)

    def decode(self, *a, **k):
        return self


def json_dumps(o, **kw):
    def has(x):
        if isinstance(x, dict):
            return any(has(v) for v in x.values())
        if isinstance(x, (list, tuple)):
            return any(has(v) for v in x)
        return isinstance(x, SymBase) or isinstance(x, str) and any(t in x for t in sym.E().tokens)
    if has(o):
        return JsonDump(dict(o) if isinstance(o, dict) else o)
    return _json.dumps(o, **kw)


def sha3_256(data):
    raise Unsupported('sha3_256')


class Logger:
    @staticmethod
    def debug(*a, **k): pass
    info = warning = error = exception = debug


class IconServiceFlag:
    pass


# ------------------------------------------------------------------ containers
def kind_of(t):
    k = {int: 'int', bool: 'bool', str: 'str', bytes: 'bytes'}.get(t)
    if k is None and getattr(t, '__dv_address__', False):
        k = 'addr'
    if k is None:
        raise ContainerDBException(f'unsupported type {t}')
    return k


class Database:
    def __init__(self, inst, parts=()):
        self.inst = inst
        self.parts = SymCat(list(parts))
        self.address = inst.address if inst is not None else None

    def get_sub_db(self, prefix):
        p = SymCat.of(prefix).parts
        cur = self.parts.parts
        return Database(self.inst, (cur + [b'|'] if cur else []) + p)

    def name(self, what):
        s = ''
        for p in self.parts.parts:
            s += p.decode('latin1') if isinstance(p, bytes) else '{}'
        s = s.encode('unicode_escape').decode()
        return f'{s}#{what}' if s else what

    def keys(self):
        return [p[1] for p in self.parts.parts if not isinstance(p, bytes)]

    def _raw(self, *a):
        raise Unsupported('raw database access')
    get = put = delete = _raw

    def set_observer(self, o):
        pass


def _keyname(k):
    if isinstance(k, bytes):
        return k.decode('latin1')
    if not isinstance(k, str):
        raise Unsupported('non-literal container name')
    return k


def _check_value(v, kind):
    if v is None:
        raise ContainerDBException("can't encode value: None")
    if isinstance(v, (SymAddr, SymStr, SymBytes)) and sym.E().fork(v.e == 0):
        raise ContainerDBException("can't encode value: None")
    if isinstance(v, (sym.SymReal, float, sym.SymJsonOther, list, dict)):
        raise ContainerDBException("can't encode value")
    ok = {'int': (int, SymInt, SymBool), 'bool': (int, SymInt, SymBool), 'addr': (SymAddr,), 'str': (str, SymStr),
          'bytes': (bytes, SymBytes)}[kind]
    if not isinstance(v, ok):
        raise Unsupported(f'storing a {type(v).__name__} in a {kind} container')


class VarDB:
    def __init__(self, var_key, db, value_type):
        self._db = db
        self._name = db.name(f'var:{_keyname(var_key)}')
        if db.inst is not None:
            db.inst.cells.add(self._name)
        self._keys = db.keys()
        self._kind = kind_of(value_type)

    def _map(self):
        return self._db.inst.store(self._name, self._kind, len(self._keys))

    def get(self):
        return self._map().get(*self._keys)

    def set(self, value):
        _check_value(value, self._kind)
        self._map().set(self._keys, value)

    def remove(self):
        m = self._map()
        m.set(self._keys, m.default())


def _key_check(k):
    if k is None or (isinstance(k, SymAddr) and sym.E().fork(k.e == 0)):
        raise ContainerDBException('key is None')
    if not isinstance(k, (SymAddr, SymInt, SymStr, str, int)):
        raise Unsupported(f'container key of type {type(k).__name__}')
    return k


class DictDB:
    def __init__(self, var_key, db, value_type, depth=1):
        self._db = db
        self._base = db.name(f'dict:{_keyname(var_key)}')
        self._prekeys = list(db.keys())
        self._type = value_type
        self._kind = kind_of(value_type)
        self._depth = depth

    def _map(self):
        return self._db.inst.store(self._base, self._kind, len(self._prekeys) + 1)

    def __getitem__(self, key):
        _key_check(key)
        if self._depth != 1:
            d = DictDB.__new__(DictDB)
            d._db, d._base, d._type, d._kind = self._db, self._base + '/', self._type, self._kind
            d._prekeys = self._prekeys + [key]
            d._depth = self._depth - 1
            return d
        return self._map().get(*self._prekeys, key)

    def __setitem__(self, key, value):
        _key_check(key)
        if self._depth != 1:
            raise ContainerDBException('DictDB depth mismatch')
        _check_value(value, self._kind)
        self._map().set(self._prekeys + [key], value)

    def __delitem__(self, key):
        _key_check(key)
        m = self._map()
        m.set(self._prekeys + [key], m.default(), present=False)

    remove = __delitem__

    def __contains__(self, key):
        _key_check(key)
        return bool(self._map().present(*self._prekeys, key))


class ArrayDB:
    def __init__(self, var_key, db, value_type):
        self._db = db
        self._name = db.name(f'array:{_keyname(var_key)}')
        self._kind = kind_of(value_type)
        if db.keys():
            raise Unsupported('array in a keyed sub database')

    # iconservice caches the size when the SCORE object is created, which happens before each
    # transaction's first call; reading the stored size is the same thing here
    def _sizemap(self):
        return self._db.inst.store(self._name + ':size', 'int', 0, lo=0)

    def _elems(self):
        return self._db.inst.store(self._name, self._kind, 1)

    def __dv_len__(self):
        return self._sizemap().get()

    def __len__(self):
        n = self._sizemap().get()
        return n if isinstance(n, int) else n.__index__()

    def put(self, value):
        _check_value(value, self._kind)
        n = self._sizemap().get()
        self._elems().set([n], value)
        self._sizemap().set([], n + 1)

    def pop(self):
        n = self._sizemap().get()
        if n == 0:
            return None
        v = self._elems().get(n - 1)
        self._sizemap().set([], n - 1)
        return v

    def get(self, index=0):
        return self[index]

    def __getitem__(self, i):
        n = self._sizemap().get()
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise ContainerDBException('ArrayDB out of range')
        return self._elems().get(i)

    def __setitem__(self, i, value):
        if i >= self._sizemap().get():
            raise ContainerDBException('ArrayDB out of range')
        _check_value(value, self._kind)
        self._elems().set([i], value)

    def __iter__(self):
        n = self._sizemap().get()
        k = 0
        if not isinstance(n, int) and sym.E().unique_value(n.e) is None:
            sym.E().bounded('iteration over a stored array cut at length 3')
            for c in range(3):
                if n == c:
                    break
            else:
                sym.E().assume_raw(n.e == 3)
        while bool(n > k):
            yield self._elems().get(k)
            k += 1

    def __contains__(self, item):
        for e in self:
            if e == item:
                return True
        return False


# ------------------------------------------------------------------ decorators and base classes
class InterfaceScore(ABC):
    def __init__(self, addr_to, from_score):
        self._dv_to = addr_to
        self._dv_from = from_score

    @property
    def addr_to(self):
        return self._dv_to

    @property
    def from_score(self):
        return self._dv_from


def interface(func):
    cls_name, func_name = str(func.__qualname__).split('.')[-2:] if '.' in func.__qualname__ else ('', func.__name__)
    if not isfunction(func):
        raise InterfaceException('not a function')
    if getattr(func, '_dv_interface', False):
        raise IconScoreException('duplicated interface decorator')
    func._dv_interface = True

    @wraps(func)
    def wrapper(calling_obj, *args, **kwargs):
        if not isinstance(calling_obj, InterfaceScore):
            raise InterfaceException('not an interface SCORE')
        to = calling_obj.addr_to
        if to is None or (isinstance(to, SymAddr) and sym.E().fork(to.e == 0)):
            raise InterfaceException("Can't create an interface SCORE with None address")
        inst = calling_obj.from_score._dv_inst
        return inst.world.external(inst, to, func_name, args, kwargs)
    return wrapper


def eventlog(func=None, *, indexed=0):
    if func is None:
        return partial(eventlog, indexed=indexed)
    name = func.__name__
    sg = inspect.signature(func)
    params = list(sg.parameters.values())[1:]
    if indexed > 3 or len(params) < indexed:
        raise EventLogException('indexed')

    @wraps(func)
    def wrapper(calling_obj, *args, **kwargs):
        try:
            b = sg.bind(calling_obj, *args, **kwargs)
        except TypeError as e:
            raise EventLogException(str(e))
        b.apply_defaults()
        vals = list(b.arguments.values())[1:]
        from .hooks import h_isinstance
        for p, v in zip(params, vals):
            if v is None or isinstance(v, SymAddr):
                if isinstance(v, SymAddr) and not getattr(p.annotation, '__dv_address__', False):
                    raise EventLogException('type mismatch')
                continue
            if isinstance(v, JsonDump):
                continue
            if not h_isinstance(v, p.annotation):
                raise EventLogException('type mismatch')
        calling_obj._dv_inst.world.emit(calling_obj._dv_inst, name, vals, indexed)
    wrapper._dv_event = True
    return wrapper


def external(func=None, *, readonly=False):
    if func is None:
        return partial(external, readonly=readonly)
    if func.__name__ == 'fallback':
        raise IconScoreException('external fallback')
    func._dv_external = True
    func._dv_readonly = readonly

    @wraps(func)
    def wrapper(self, *args, **kwargs):
        return func(self, *args, **kwargs)
    return wrapper


def payable(func):
    func._dv_payable = True

    @wraps(func)
    def wrapper(self, *args, **kwargs):
        return func(self, *args, **kwargs)
    return wrapper


class IconScoreObject(ABC):
    def __init__(self, *args, **kwargs):
        pass

    def on_install(self, **kwargs):
        pass

    def on_update(self, **kwargs):
        pass


class Icx:
    def __init__(self, inst):
        self._inst = inst

    def transfer(self, to, amount):
        self._inst.world.icx_transfer(self._inst, to, amount)

    def send(self, to, amount):
        try:
            self.transfer(to, amount)
            return True
        except (Unsupported, PathEnd):
            raise
        except BaseException:
            return False

    def get_balance(self, address):
        return self._inst.world.icx_balance(self._inst, address)


class IconScoreBase(IconScoreObject):
    @abstractmethod
    def on_install(self, **kwargs):
        super().on_install(**kwargs)

    @abstractmethod
    def on_update(self, **kwargs):
        super().on_update(**kwargs)

    @abstractmethod
    def __init__(self, db):
        super().__init__(db)
        self._dv_inst = db.inst
        self._dv_db = db

    def fallback(self):
        pass

    @property
    def msg(self):
        return self._dv_inst.world.msg

    @property
    def address(self):
        return self._dv_inst.address

    @property
    def icx(self):
        return Icx(self._dv_inst)

    @property
    def db(self):
        return self._dv_db

    @property
    def owner(self):
        return self._dv_inst.world.deployer(self._dv_inst)

    @property
    def tx(self):
        return self._dv_inst.world.tx

    @property
    def block(self):
        raise Unsupported('block')

    @property
    def block_height(self):
        return self._dv_inst.world.int('block_height', 0)

    def now(self):
        return self._dv_inst.world.int('block_timestamp', 0)

    def revert(self, message=None, code=0):
        revert(message)

    def get_owner(self, a):
        raise Unsupported('get_owner')

    def is_score_active(self, a):
        raise Unsupported('is_score_active')

    def call(self, addr_to, func_name, kw_dict, amount=0):
        return self._dv_inst.world.external(self._dv_inst, addr_to, func_name, (), kw_dict)

    def create_interface_score(self, addr_to, interface_cls):
        if interface_cls is InterfaceScore:
            raise InterfaceException('not derived')
        return interface_cls(addr_to, self)


def module():
    m = types.ModuleType('iconservice')
    g = globals()
    for n in ('Address', 'IconScoreException', 'VarDB', 'DictDB', 'ArrayDB', 'interface', 'eventlog', 'external',
              'payable', 'IconScoreBase', 'InterfaceScore', 'revert', 'sha3_256', 'json_loads', 'json_dumps',
              'Logger', 'isfunction', 'wraps', 'ABCMeta', 'abstractmethod', 'ABC', 'IconServiceFlag'):
        setattr(m, n, g[n])
    m.ZERO_SCORE_ADDRESS = ZERO
    m.IconScoreDatabase = Database
    m.IconSystemScoreBase = IconScoreBase
    m.__all__ = [n for n in vars(m) if not n.startswith('_')]
    return m
