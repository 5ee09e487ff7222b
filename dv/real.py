"""RealWorld: the specification interface over the *real, unmodified* contracts on the *real*
iconservice, run with /opt/venv/bin/python.  Used to replay counter-models of the verifier and for
the bounded stand-in search; never the deciding step for a proof."""
import hashlib
import importlib
import inspect
import json
import os
import random
import re
import sys

from . import heap
from . import world as W
from .logic import And, Not, eq
from .world import PRELOAD, BaseWorld, CallFailed, Msg, Outcome, T

REPO = os.environ.get('DV_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import iconservice                                                   # noqa: E402
from iconservice import *                                            # noqa: E402,F401,F403
from iconservice.base.address import Address, AddressPrefix, ZERO_SCORE_ADDRESS   # noqa: E402
from iconservice.base.message import Message                         # noqa: E402
from iconservice.database.db import IconScoreDatabase                # noqa: E402
from iconservice.iconscore import icon_container_db as cdb           # noqa: E402
from iconservice.iconscore import icon_score_base as isb             # noqa: E402
from iconservice.iconscore.icon_score_context import ContextContainer   # noqa: E402


class PathEnd(BaseException):
    pass


class Broken(BaseException):
    """a history stopped in the middle of a call: its state is no state of the platform"""


class Violation(BaseException):
    def __init__(self, label):
        self.label = label


def intern_code(kind, val):
    h = int.from_bytes(hashlib.sha256(repr((kind, val)).encode()).digest()[:7], 'big')
    return h + 2 ** 60


# ------------------------------------------------------------------ value providers
class ReplayProvider:
    kind = 'replay'

    def __init__(self, sc):
        self.sc = sc
        self.fns = {n: {tuple(a): v for a, v in t} for n, t in sc.get('fns', {}).items()}

    def const(self, name, kind, lo=None, hi=None, hints=()):
        v = self.sc['consts'].get(name)
        if v is None:
            v = False if kind == 'bool' else max(0, lo or 0)
        return self._fix(v, kind)

    def app(self, name, kind, args, lo=None, hi=None):
        t = self.fns.get(name, {})
        v = t.get(tuple(args))
        if v is None:
            v = {'bool': False}.get(kind, lo if lo is not None and lo > 0 else 0)
        return self._fix(v, kind)

    def _fix(self, v, kind):
        return v


POOL = [0, 1, 2, 3, 5, 7, 10, 50, 100, 999, 1000, 5000, 10 ** 5, 10 ** 6 - 1, 10 ** 6, 10 ** 6 + 1, 300000, 10 ** 12,
        10 ** 18, 123456789123456789, 10 ** 24, 2 ** 63, 10 ** 27]


class RandomProvider:
    kind = 'random'

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.memo = {}
        self.drawn = []
        self.sc = {'consts': {}, 'fns': {}, 'strs': {}, 'bytes': {}}
        self.na = self.r.choice([2, 3, 4, 6, 8])
        self.hints = {}

    def _draw(self, name, kind, lo, hi, hints, args=()):
        r = self.r
        name = name.split('|', 1)[-1]
        h = self.hints.get(name) or next((v for k, v in self.hints.items() if k[0] == '*' and name.endswith(k[1:])), None)
        if h is not None and r.random() < h[1]:
            return (h[0](r) if h[0].__code__.co_argcount == 1 else h[0](r, args)) if callable(h[0]) else h[0]
        if name.startswith('st:'):
            if kind == 'bool' and r.random() < 0.75:
                return True
            if kind == 'int' and r.random() < 0.95:
                if name.endswith('weight'):
                    return r.choice([1, 300000, 500000, 10 ** 6, r.randint(1, 10 ** 6)])
                if name.endswith('max_conversion_fee'):
                    return r.choice([10 ** 6] * 5 + [30000])
                if name.endswith('conversion_fee'):
                    return r.choice([0, 0, 1, 3000, 3000, 30000, 30000, 999999, 10 ** 6])
                if name.endswith('virtual_balance'):
                    return r.choice([10 ** 3, 10 ** 6, 10 ** 18, 10 ** 24, r.randint(1, 10 ** 9)])
        if kind == 'bool':
            p = 0.5
            if name in ('is_contract', 'g:fn:payee accepts') or name.startswith('g:fn:formula.'):
                p = 0.85
            if name.startswith('facet.'):
                p = 0.97 if name.split('.')[1] in ('utf8', 'json', 'dict') or name.endswith('.ok') else \
                    0.03 if name.endswith('.ws') else 0.95
            return r.random() < p
        if kind == 'addr':
            return r.choice([1] + list(range(2, 3 + self.na)) * 3)
        if kind in ('str', 'bytes'):
            if kind == 'bytes' and r.random() < 0.15:
                return intern_code('bytes', b'conversionResult')
            if kind == 'bytes' and r.random() < 0.1:
                return intern_code('bytes', r.choice(KNOWN_BYTES))
            if r.random() < 0.06:
                return intern_code(kind, '' if kind == 'str' else b'')
            return r.randint(1, 3)
        if kind == 'real':
            return [r.randint(-10, 10 ** 7), r.choice([2, 4, 8])]
        if name.startswith('facet.type.'):
            k = name[11:]
            if r.random() < 0.85:
                return 0 if k in ('minReturn', 'amount') else 1
            return r.randint(0, 5)
        if name.endswith('.n') and ('text' in name or 'path' in name):
            k = 3
            if name in ('facet.text.path.n',) or not name.startswith('facet.'):
                k = r.choice([1, 2, 3, 3, 3, 4, 5, 5, 7, 9, 21, 22, 23])
            else:
                k = 1 if r.random() < 0.95 else 2
            return k
        c = r.random()
        if hints and c < 0.6:
            v = r.choice(list(hints))
            v = v if isinstance(v, int) else v[0]
        elif c < 0.35 and self.drawn:
            v = r.choice(self.drawn) + r.choice([0, 0, 0, 1, -1])
        elif c < 0.75:
            v = r.choice(POOL)
        elif c < 0.8:
            v = -r.choice(POOL)
        elif c < 0.9:
            v = r.randint(0, 10 ** r.randint(1, 26))
        else:
            v = r.randint(0, 10 ** 6)
        if lo is not None and v < lo:
            v = lo + abs(v) if hi is None else lo + abs(v) % (hi - lo + 1)
        if hi is not None and v > hi:
            v = hi - (abs(v) % (hi - (lo if lo is not None else 0) + 1))
        return v

    sticky = 0
    last = 'h0'

    def _again(self, memo, name, args=None):
        """the value the same thing had in the episode before: most of a history repeats itself"""
        if self.sticky and not name.startswith(('st:', 'm')) and self.r.random() < self.sticky:
            n = self.last + '|' + name.split('|', 1)[-1]
            return memo.get(n if args is None else (n, args))
        return None

    def const(self, name, kind, lo=None, hi=None, hints=()):
        if name not in self.sc['consts']:
            v = self._again(self.sc['consts'], name)
            if v is None or lo is not None and v < lo or hi is not None and v > hi:
                v = self._draw(name, kind, lo, hi, hints)
            if kind == 'int':
                self.drawn.append(v)
            self.sc['consts'][name] = v
        return self.sc['consts'][name]

    def app(self, name, kind, args, lo=None, hi=None):
        key = (name, tuple(args))
        if key not in self.memo:
            v = self._again(self.memo, name, tuple(args))
            if v is None:
                v = self._draw(name, kind, lo, hi, (), args)
            if kind == 'int' and not name.startswith('facet.'):
                self.drawn.append(v)
            self.memo[key] = v
            self.sc['fns'].setdefault(name, []).append([list(args), v])
        return self.memo[key]


# ------------------------------------------------------------------ platform plumbing
class FakeDB:
    def __init__(self):
        self.d = {}

    def get(self, context, key):
        return self.d.get(key)

    def put(self, context, key, value):
        if value is None:
            self.d.pop(key, None)
        else:
            self.d[key] = value

    def delete(self, context, key):
        self.d.pop(key, None)

    def close(self, context):
        pass


class Block:
    height = 1
    timestamp = 1


class Internal:
    def __init__(self, ctx):
        self.ctx = ctx

    def other_external_call(self, addr_from, addr_to, func_name, args, kwargs, amount):
        w = self.ctx.world
        return w.external(w.inst_at(addr_from), addr_to, func_name, args, kwargs)

    def icx_transfer_call(self, addr_from, addr_to, amount):
        w = self.ctx.world
        w.icx_transfer(w.inst_at(addr_from), addr_to, amount)

    def get_icx_balance(self, a):
        w = self.ctx.world
        return w.icx_balance(w.cur_inst, a)


class Ctx:
    step_counter = None
    block = Block()
    type = 0
    func_type = 0
    readonly = False

    def __init__(self, world):
        self.world = world
        self.internal_call = Internal(self)
        self.msg = None
        self.tx = None

    def get_owner(self, ctx, addr):
        return self.world.owner_now

    def is_score_active(self, *a):
        return True


_EVENT = None


def _emit(context, score_address, event_signature, arguments, indexed_args_count, *a):
    w = context.world
    w.emit(w.inst_at(score_address), event_signature.split('(')[0], arguments, indexed_args_count)


isb.EventLogEmitter.emit_event_log = staticmethod(_emit)


def _dbname(db, what, w):
    p = db._prefix
    keys = []
    if p is None:
        return what, keys
    s = ''
    i = 0
    while i < len(p):
        for a in w.known_bytes:
            if p.startswith(a, i):
                keys.append(w.known_bytes[a])
                s += '{}'
                i += len(a)
                break
        else:
            s += p[i:i + 1].decode('latin1')
            i += 1
    return f"{s.encode('unicode_escape').decode()}#{what}", keys


KINDS = {int: 'int', bool: 'bool', str: 'str', bytes: 'bytes', Address: 'addr'}


def _patch(cls, fn):
    return fn


def _install_patches():
    V, D, A = cdb.VarDB, cdb.DictDB, cdb.ArrayDB
    vi, vg = V.__init__, V.get
    di, dg, dc, dd = D.__init__, D.__getitem__, D.__contains__, D.__delitem__
    ai = A.__init__

    def v_init(self, var_key, db, value_type):
        vi(self, var_key, db, value_type)
        w = World.cur
        self._dv = (w.inst_now, var_key, db, KINDS[value_type])
        if w.inst_now is not None:
            w.inst_now.cells.add(_dbname(db, f'var:{var_key}', w)[0])

    def v_get(self):
        inst, key, db, kind = self._dv
        if inst is not None:
            name, keys = _dbname(db, f'var:{key}', inst.world)
            inst.ensure_cell(name, kind, keys, lambda v: V.set(self, v))
        return vg(self)

    def d_init(self, var_key, db, value_type, depth=1):
        di(self, var_key, db, value_type, depth)
        self._dv = (World.cur.inst_now, var_key, db, KINDS[value_type], depth)

    def d_mat(self, key):
        if not hasattr(self, '_dv'):
            return
        inst, vk, db, kind, depth = self._dv
        if inst is None or depth != 1 or key is None:
            return
        name, keys = _dbname(db, f'dict:{vk}', inst.world)
        inst.ensure_cell(name, kind, keys + [key], lambda v: D.__setitem__(self, key, v), dict_=True)

    def d_get(self, key):
        d_mat(self, key)
        return dg(self, key)

    def d_contains(self, key):
        d_mat(self, key)
        return dc(self, key)

    def d_set(self, key, v, _o=D.__setitem__):
        d_mat(self, key)
        return _o(self, key, v)

    def d_del(self, key):
        d_mat(self, key)
        return dd(self, key)

    def v_set(self, v, _o=V.set):
        inst, key, db, kind = self._dv
        if inst is not None:
            name, keys = _dbname(db, f'var:{key}', inst.world)
            inst.mark(name, keys)
        return _o(self, v)

    def v_remove(self, _o=V.remove):
        inst, key, db, kind = self._dv
        if inst is not None:
            name, keys = _dbname(db, f'var:{key}', inst.world)
            inst.mark(name, keys)
        return _o(self)

    def a_init(self, var_key, db, value_type):
        w = World.cur
        self._dv = (w.inst_now, var_key, db, KINDS[value_type])
        ai(self, var_key, db, value_type)

    SZ = cdb.ContainerUtil.encode_key('size')

    def a_mat(self, index=None):
        inst, vk, db, kind = self._dv
        if inst is None:
            return
        name, keys = _dbname(db, f'array:{vk}', inst.world)
        inst.ensure_cell(name + ':size', 'int', keys,
                         lambda v: self._db.put(SZ, cdb.ContainerUtil.encode_value(v)), lo=0, hi=30)
        self._ArrayDB__size = cdb.ContainerUtil.decode_object(self._db.get(SZ), int)
        if index is not None and 0 <= index < self._ArrayDB__size:
            inst.ensure_cell(name, kind, keys + [index],
                             lambda v: self._db.put(cdb.ContainerUtil.encode_key(index),
                                                    cdb.ContainerUtil.encode_value(v)))

    def wrapA(n):
        o = getattr(A, n)

        def f(self, *a):
            a_mat(self)
            inst, vk, db, kind = self._dv
            if inst is not None and n in ('put', '__setitem__'):
                name, keys = _dbname(db, f'array:{vk}', inst.world)
                inst.mark(name, keys + [self._ArrayDB__size if n == 'put' else a[0]])
            return o(self, *a)
        setattr(A, n, f)

    orig_get = A.__getitem__

    def a_getitem(self, index):
        a_mat(self)
        if isinstance(index, int) and index < 0:
            index += self._ArrayDB__size
        a_mat(self, index)
        return orig_get(self, index)

    for n in ('put', 'pop', '__iter__', '__len__', '__setitem__'):
        wrapA(n)
    A.__getitem__ = a_getitem
    A.__init__ = a_init
    V.__init__, V.get, V.set, V.remove = v_init, v_get, v_set, v_remove
    D.__init__, D.__getitem__, D.__contains__, D.__setitem__, D.__delitem__ = d_init, d_get, d_contains, d_set, d_del
    D.remove = d_del


class RInst:
    def __init__(self, world, label, path, cls, address, lazy, nonneg):
        self.world, self.label, self.path, self.cls, self.address = world, label, path, cls, address
        self.lazy, self.nonneg = lazy, nonneg
        self.mat = set()
        self.cells = set()
        self.suffix = ''
        self.db = FakeDB()
        self.obj = None
        self.busy = False

    def _key(self, name, keys):
        return (name + self.suffix, tuple(self.world.enc(k) for k in keys))

    def mark(self, name, keys):
        if not self.busy:
            self.mat.add(self._key(name, keys))

    def ensure_cell(self, name, kind, keys, setter, dict_=False, lo=None, hi=None):
        if not self.lazy or self.busy:
            return
        k = self._key(name, keys)
        if k in self.mat:
            return
        self.mat.add(k)
        w = self.world
        cell = f'st:{self.label}:{name}{self.suffix}'
        if lo is None and kind == 'int' and self.nonneg and (name in self.nonneg or '*' in self.nonneg):
            lo = 0
        has = True
        if dict_ and kind in ('int', 'bool', 'str'):
            has = w.p.app(cell + ':has', 'bool', k[1])
        v = w.p_val(w.p.app(cell, kind, k[1], lo, hi) if keys else w.p.const(cell, kind, lo, hi), kind)
        if not has:
            w.eff_default(cell, kind, k[1])
            return
        if v is None:
            return
        self.busy = True
        try:
            setter(v)
        finally:
            self.busy = False


class RMap:
    def __init__(self, world, name, kind, arity, lo, hi):
        self.world, self.name, self.kind, self.arity, self.lo, self.hi = world, name, kind, arity, lo, hi
        self.w = {}

    def _k(self, keys):
        return tuple(self.world.enc(k) for k in keys)

    def initial(self, *keys):
        w = self.world
        k = self._k(keys)
        raw = w.p.app(self.name, self.kind, k, self.lo, self.hi) if k else \
            w.p.const(self.name, self.kind, self.lo, self.hi)
        return w.p_val(raw, self.kind)

    def get(self, *keys):
        k = self._k(keys)
        if k in self.w:
            return self.w[k]
        return self.initial(*keys)

    def set(self, keys, value, present=True):
        if not isinstance(keys, (list, tuple)):
            keys = [keys]
        self.w = dict(self.w)
        self.w[self._k(keys)] = value

    def add(self, keys, delta):
        if not isinstance(keys, (list, tuple)):
            keys = [keys]
        self.set(keys, self.get(*keys) + delta)


class World(BaseWorld):
    symbolic = False
    cur = None

    def __init__(self, provider, formula='table'):
        super().__init__()
        World.cur = self
        self.p = provider
        self.formula = formula
        self.known_bytes = {}
        self.strs = {int(k): v for k, v in provider.sc.get('strs', {}).items()}
        self.byts = {int(k): bytes.fromhex(v) for k, v in provider.sc.get('bytes', {}).items()}
        for b in KNOWN_BYTES:
            self.byts[intern_code('bytes', b)] = b
        self.byts[intern_code('bytes', b'')] = b''
        self.strs[intern_code('str', '')] = ''
        self.rev_s, self.rev_b = {}, {}
        self.nfresh = 0
        self.covers = set()
        self.checked = 0
        self.inst_now = None
        self.owner_now = None
        self.cur_inst = None
        self.failed = []
        self.undecided = []
        self.datas = {}
        self.history = False
        self.tag = ''
        self.old = {}
        self.places = {}
        heap.fresh_process(PRELOAD)
        self.ctx = Ctx(self)
        ContextContainer._clear_context()
        ContextContainer._push_context(self.ctx)

    # ---- histories on one live instance: the specification is run on objects that have already served calls
    SHARED = ('self', 'deployer:', 'fn:formula.')

    def _n(self, name):
        return name if not self.tag or name.startswith(self.SHARED) else f'{self.tag}|{name}'

    def episode(self, tag):
        self.tag = tag
        self.trace, self.env, self.msgs, self.smaps, self.datas = [], W.Env(), [], {}, {}
        self.depth, self.tx = 0, None
        self.insts, self.places = [], {}
        self.cur_inst = self.inst_now = self.owner_now = None
        self.ctx.msg = None

    def hint(self, name, value, p=0.8):
        if self.p.kind == 'random':
            self.p.hints[name] = (value if callable(value) else self.enc(value), p)

    # ---- encoding
    def contract_flag(self, code):
        if code == 1:
            return True
        if code == 0:
            return False
        return bool(self.p.app('is_contract', 'bool', (code,)))

    def dec_addr(self, code):
        if code == 0:
            return None
        if code == 1:
            a = ZERO_SCORE_ADDRESS
        else:
            a = Address(AddressPrefix.CONTRACT if self.contract_flag(code) else AddressPrefix.EOA,
                        code.to_bytes(20, 'big'))
        self.known_bytes[a.to_bytes()] = a
        return a

    def enc(self, v):
        if v is None:
            return 0
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Address):
            if v == ZERO_SCORE_ADDRESS:
                return 1
            return int.from_bytes(v.body, 'big')
        if isinstance(v, str):
            return self.rev_s.get(v, intern_code('str', v))
        if isinstance(v, bytes):
            return self.rev_b.get(v, intern_code('bytes', v))
        raise TypeError(type(v))

    def p_val(self, raw, kind):
        if kind == 'addr':
            return self.dec_addr(raw)
        if kind == 'str':
            if raw == 0:
                return None
            s = self.strs.get(raw, f's{raw}')
            self.rev_s[s] = raw
            return s
        if kind == 'bytes':
            if raw == 0:
                return None
            b = self.byts.get(raw, b'\xfe' + str(raw).encode())
            self.rev_b[b] = raw
            return b
        if kind == 'real':
            return raw[0] / raw[1]
        if kind == 'bool':
            return bool(raw)
        return raw

    def eff_default(self, cell, kind, keys):
        if isinstance(self.p, RandomProvider):
            d = False if kind == 'bool' else 0
            self.p.memo[(cell, tuple(keys))] = d
            for e in self.p.sc['fns'].get(cell, []):
                if e[0] == list(keys):
                    e[1] = d

    # ---- values
    def int(self, name, lo=None, hi=None, hints=()):
        return self.p.const(self._n(name), 'int', lo, hi, hints)

    def bool(self, name):
        return bool(self.p.const(self._n(name), 'bool'))

    def str(self, name, hints=()):
        name = self._n(name)
        if hints and self.p.kind == 'random' and name not in self.p.sc['consts'] and self.p.r.random() < 0.7:
            h = self.p.r.choice(list(hints))
            c = self.p.sc['consts'][name] = intern_code('str', h)
            self.strs[c] = h
            self.p.sc['strs'][str(c)] = h
        return self.p_val(self.p.const(name, 'str') or 1, 'str')

    def addr(self, name, none=False, zero=True, contract=None, avoid=()):
        name = self._n(name)
        code = self.p.const(name, 'addr')
        if self.p.kind == 'random':
            av = {self.enc(a) for a in avoid}
            for _ in range(30):
                bad = code in av or (code == 1 and not zero)
                if not bad and contract is not None and self.contract_flag(code) != contract:
                    bad = True
                if not bad:
                    break
                code = self.p.r.randint(2, 8) if self.p.r.random() < .8 else self.p.r.randint(2, 30)
            if none and self.p.r.random() < 0.1 and name not in self.datas:
                code = 0
            self.p.sc['consts'][name] = code
            none = True
        if code == 0 and not none:
            code = 1
        a = self.dec_addr(code)
        if contract is not None and a is not None and a.is_contract != contract:
            raise PathEnd()
        for x in avoid:
            if eq(a, x):
                raise PathEnd()
        if not zero and code == 1:
            raise PathEnd()
        return a

    def zero(self):
        return ZERO_SCORE_ADDRESS

    def bytes(self, name, none=False):
        name = self._n(name)
        raw = self.p.const(name, 'bytes')
        if none and self.p.kind == 'random' and self.p.r.random() < 0.2:
            raw = self.p.sc['consts'][name] = 0
        if raw == 0 and not none:
            raw = 1
        return self.p_val(raw, 'bytes')

    def fn(self, name, kind, *keys, lo=None, hi=None):
        return self.smap('fn:' + name, kind, len(keys), lo, hi).initial(*keys)

    def fresh(self, base, kind='int', lo=None):
        self.nfresh += 1
        v = self.p_val(self.p.const(f'{base}!{self.nfresh}', kind, lo), kind)
        if kind == 'int' and lo is not None:
            self.assume(v >= lo)
        return v

    def pow(self, base, e):
        return base ** e

    def is_contract(self, a):
        return a is not None and a.is_contract

    used_formula = False

    def use_formula(self):
        self.used_formula = True
        if self.formula == 'real':
            self.drop_formula()
        else:
            super().use_formula()

    def formula_contract(self, which, a):
        if self.formula != 'real':
            return super().formula_contract(which, a)
        self.drop_formula()
        C = self.cls('formula.fixed_map_formula:FixedMapFormula')
        try:
            r = getattr(C(), self.FORMULA[which])(*a)
        except (PathEnd, KeyboardInterrupt, MemoryError):
            raise
        except BaseException:
            return False, 0
        return True, r

    def _new_map(self, name, kind, arity, lo, hi):
        return RMap(self, self._n(name) if not name.startswith('g:fn:formula.') else name, kind, arity, lo, hi)

    # ---- logic
    def branch(self, cond):
        return bool(cond)

    def assume(self, cond):
        if not cond:
            raise PathEnd()

    def stop(self):
        raise PathEnd()

    def spec_stop(self, why):
        self.undecided.append(why)
        raise PathEnd()

    def unsupported(self, what):
        raise PathEnd()

    def ensure(self, label, cond):
        self.checked += 1
        if not cond:
            raise Violation(label)

    def cover(self, label, cond=True):
        if cond:
            self.covers.add(label)

    def choose(self, name, options):
        i = self.p.const(self._n(name), 'int', 0, len(options) - 1)
        return options[i]

    def finish(self):
        pass

    # ---- contracts
    def cls(self, path):
        m, c = path.split(':')
        k = importlib.import_module('contracts.' + m)
        heap.module_loaded(k.__name__)
        return getattr(k, c)

    def inst_at(self, a):
        for i in reversed(self.insts):
            if i.address == a:
                return i
        return self.cur_inst

    def deploy(self, path, addr, label=None, lazy=True, nonneg=()):
        label = label or path.split(':')[-1]
        n = self.places[label] = self.places.get(label, 0) + 1
        old = self.old.get((label, n, path))
        if old is not None and lazy and old.lazy and old.address == addr:
            self.insts.append(old)
            return old
        inst = RInst(self, label, path, self.cls(path), addr, lazy, nonneg)
        self.old[(label, n, path)] = inst
        self.owner_now = None
        self.inst_now = inst
        self.ctx.msg = Message(self.zero(), 0)
        inst.obj = inst.cls(IconScoreDatabase(addr, inst.db))
        self.inst_now = None
        self.insts.append(inst)
        return inst

    def snapshot(self):
        return ([(i, dict(i.db.d), set(i.mat), i.suffix) for i in self.insts],
                {k: m.w for k, m in self.smaps.items()})

    def restore(self, s):
        for i, d, mat, sfx in s[0]:
            i.db.d = d
            i.mat = mat
            i.suffix = sfx
        for k, m in self.smaps.items():
            m.w = s[1].get(k, {})

    def havoc(self, inst, tag, lo=None):
        if self.history:
            return
        inst.suffix += f'@{tag}'
        inst.mat = set()
        inst.db.d = {}

    def _flags(self, f):
        return getattr(f, isb.CONST_BIT_FLAG, 0)

    def externals(self, path, readonly=False):
        cls = self.cls(path)
        out = []
        for n in dir(cls):
            f = getattr(cls, n, None)
            fl = self._flags(f) if inspect.isfunction(f) else 0
            if fl & isb.ConstBitFlag.External and bool(fl & isb.ConstBitFlag.ReadOnly) == readonly:
                out.append(n)
        return out

    def is_payable(self, inst, m):
        return bool(self._flags(getattr(inst.cls, m, None)) & isb.ConstBitFlag.Payable)

    def signature(self, path, method):
        f = getattr(self.cls(path), method)
        return [(p.name, KINDS.get(p.annotation), p.default is not inspect.Parameter.empty)
                for p in list(inspect.signature(f).parameters.values())[1:]
                if p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)]

    def deployer(self, inst):
        return self.addr(f'deployer:{inst.label}')

    def do(self, inst, fn, name, sender=None):
        return self.call(inst, name, sender=sender, inside=fn)

    def call(self, inst, method, *args, sender=None, value=0, view=False, install=False, fallback=False, kwargs=None,
             inside=None):
        snap = self.snapshot()
        t0 = len(self.trace)
        self.msgs.append(Msg(sender if sender is not None else self.zero(), value))
        prev, self.cur_inst = self.cur_inst, inst
        pm = self.ctx.msg
        self.ctx.msg = Message(self.msg.sender, value)
        pn, self.inst_now = self.inst_now, inst
        try:
            if inside:
                r = inside()
            elif install:
                r = inst.obj.on_install(*args, **(kwargs or {}))
            elif method == 'on_update':
                if value > 0:
                    raise CallFailed('not payable')
                r = inst.obj.on_update(*args, **(kwargs or {}))
            elif fallback or method == 'fallback':
                r = inst.obj._IconScoreBase__fallback_call()
            else:
                r = inst.obj._IconScoreBase__external_call(method, args, kwargs or {})
            return Outcome(True, r, None, self.trace[t0:])
        except (PathEnd, Violation, KeyboardInterrupt, MemoryError, SystemExit) as e:
            if self.tag and isinstance(e, (PathEnd, Violation)):
                raise Broken() from None
            raise
        except BaseException as e:
            tr = self.trace[t0:]
            self.restore(snap)
            return Outcome(False, None, f'{type(e).__name__}: {e}', tr)
        finally:
            self.msgs.pop()
            self.cur_inst = prev
            self.ctx.msg = pm
            self.inst_now = pn

    def cell(self, inst, name, kind):
        t = {v: k for k, v in KINDS.items()}[kind]
        if f'var:{name}' not in inst.cells:
            return None
        pn, self.inst_now = self.inst_now, inst
        try:
            return cdb.VarDB(name, IconScoreDatabase(inst.address, inst.db), t).get()
        finally:
            self.inst_now = pn

    # ---- attacker data
    def data(self, name, keys):
        if name not in self.datas:
            self.datas[name] = RData(self, name, keys)
        return self.datas[name]

    def path_text(self, name):
        return RText(self, self._n(name), ())

    def parse_sent(self, data):
        try:
            if isinstance(data, (bytes, bytearray)):
                data = data.decode('utf-8')
            o = json.loads(data)
        except Exception:
            return None
        return self._addrs(o)

    def _addrs(self, o):
        if isinstance(o, dict):
            return {k: self._addrs(v) for k, v in o.items()}
        if isinstance(o, str) and re.fullmatch(r'(hx|cx)[0-9a-f]{40}', o):
            return Address.from_string(o)
        return o


class RText:
    def __init__(self, w, base, args):
        self.w, self.base, self.args = w, base, tuple(args)

    def _a(self, field, kind, i):
        return self.w.p.app(f'{self.base}.{field}', kind, self.args + (i,))

    @property
    def n(self):
        p = self.w.p
        n = p.app(f'{self.base}.n', 'int', self.args) if self.args else p.const(f'{self.base}.n', 'int', 1)
        return max(1, min(n, 500))

    def ok(self, i):
        return bool(self._a('ok', 'bool', i))

    def ws(self, i):
        return bool(self._a('ws', 'bool', i))

    def addr(self, i):
        return self.w.dec_addr(max(1, self._a('addr', 'addr', i)))

    @property
    def raw(self):
        out = []
        for i in range(self.n):
            s = str(self.addr(i)) if self.ok(i) else 'hx12'
            out.append(' ' + s if self.ws(i) else s)
        return ','.join(out)


KNOWN_BYTES = (b'', b'conversionResult', b'conversionResult ', b'conversionResult{}', b' conversionResult', b'ConversionResult',
               b'conversion', b'None', b'"conversionResult"', b'null', b'[]')


def _kind_of(b):
    """(utf-8, JSON, a JSON object)"""
    try:
        o = json.loads(b.decode('utf-8'))
    except UnicodeDecodeError:
        return False, False, False
    except ValueError:
        return True, False, False
    return True, True, isinstance(o, dict)


class RData:
    def __init__(self, w, name, keys):
        self.w = w
        self.keys = keys
        self.code = w.p.const(w._n(name), 'bytes') or 1
        self.fixed = self.code in w.byts
        self._raw = None
        if not self.fixed:
            _ = self.raw
            w.rev_b[self.raw] = self.code

    def _f(self, n, kind='bool'):
        return self.w.p.app('facet.' + n, kind, (self.code,))

    @property
    def utf8(self):
        return _kind_of(self.raw)[0] if self.fixed else bool(self._f('utf8'))

    @property
    def json(self):
        return _kind_of(self.raw)[1] if self.fixed else bool(self._f('json'))

    @property
    def is_dict(self):
        return _kind_of(self.raw)[2] if self.fixed else bool(self._f('dict'))

    def well_formed(self):
        return self.utf8 and self.json and self.is_dict

    def has(self, k):
        return bool(self._f(f'has.{k}'))

    def type(self, k):
        return ('int', 'str', 'real', 'null', 'bool', 'other')[self._f(f'type.{k}', 'int') % 6]

    def is_type(self, k, t):
        return self.type(k) == t

    def int(self, k):
        return self._f(f'int.{k}', 'int')

    def real(self, k):
        r = self._f(f'real.{k}', 'real')
        return r[0] / r[1] if isinstance(r, list) else float(r)

    def bool(self, k):
        return bool(self._f(f'bool.{k}'))

    def text(self, k):
        return RText(self.w, f'facet.text.{k}', (self.code,))

    def addr_ok(self, k):
        t = self.text(k)
        return self.is_type(k, 'str') and t.n == 1 and t.ok(0) and not t.ws(0)

    def addr(self, k):
        return self.text(k).addr(0)

    @property
    def raw(self):
        if self._raw is None:
            self._raw = self._build()
        return self._raw

    def _affixes(self, which):
        """what the scenario says the data starts (ends) with; the longest"""
        found = [bytes.fromhex(n.split('.')[-1]) for n, t in getattr(self.w.p, 'fns', {}).items()
                 if n.startswith('facet.' + which + '.') and t.get((self.code,))]
        return max(found, key=len, default=b'')

    def _build(self):
        if self.fixed:
            return self.w.byts[self.code]
        if not self.utf8:
            return self._affixes('startswith') + b'\xff' + str(self.code).encode() + self._affixes('endswith')
        if not self.json:
            return (self._affixes('startswith') or b'{"') + str(self.code).encode() + self._affixes('endswith')
        if not self.is_dict:
            return json.dumps([self.code]).encode()
        o = {'~': self.code}
        for k in self.keys:
            if self.has(k):
                t = self.type(k)
                o[k] = {'int': lambda: self.int(k), 'str': lambda: self.text(k).raw, 'real': lambda: self.real(k),
                        'null': lambda: None, 'bool': lambda: self.bool(k), 'other': lambda: [1]}[t]()
        return json.dumps(o).encode()


_install_patches()


def meddle(w):
    """a few arbitrary operations of arbitrary callers on the live instances, in an arbitrary environment"""
    from .specs.common import Anything, any_args

    class Meddler(Anything):
        assume_contracts = False

        def unknown(self, w, inst, to, name, kw):
            w.require(w.fresh('accepts', 'bool') or w.p.r.random() < 0.7, 'refused')
            return super().unknown(w, inst, to, name, kw)
    r = w.p.r
    live = [i for i in w.old.values() if i.lazy]
    if not live:
        return
    w.insts = list(live)
    w.env = Meddler()
    inst = r.choice(live)
    views = w.externals(inst.path, readonly=True)
    ms = w.externals(inst.path) + (views if r.random() < .3 else []) + ['fallback']
    ms = r.sample(ms, min(len(ms), r.choice([1, 2, 2, 3, 5, 99])))
    for j in range(r.choice([0, 1, 1, 2, 3, 4])):
        m = r.choice(ms)
        w.tag = f'{w.tag.split("/")[0]}/{j}'
        given = {n: r.choice([0, 1, 2, 18]) for n, k, _ in w.signature(inst.path, m) if k == 'int'} \
            if m in views else None
        args = any_args(w, inst.path, m, given)[0] if m != 'fallback' else []
        sender = w.addr('sender')
        if r.random() < .6:
            known = []
            for g in w.externals(inst.path, readonly=True):
                if not w.signature(inst.path, g) and ('get' in g.lower() or 'own' in g.lower()):
                    try:
                        o = w.call(inst, g, view=True)
                    except Broken:
                        continue
                    if o.ok and isinstance(o.value, Address):
                        known.append(o.value)
            if known:
                sender = r.choice(known)
        value = w.int('value', 0) if w.is_payable(inst, m) and r.random() < .5 else 0
        w.call(inst, m, *args, sender=sender, value=value, fallback=m == 'fallback')


def run_one(spec, provider, formula='table', history=False):
    """-> (status, label, world);  status in ok / skip / violation / harness"""
    w = World(provider, formula)
    try:
        if history:
            w.history = True
            provider.sticky = provider.r.choice([0, 0.5, 0.9, 0.95, 0.98])
            for i in range(provider.r.choice([1, 1, 2])):
                w.episode(f'h{i}')
                try:
                    spec(w)
                except (PathEnd, Violation):
                    pass
                w.undecided = []
                provider.last = f'h{i}'
                w.episode(f'm{i}')
                try:
                    meddle(w)
                except (PathEnd, Violation):
                    pass
            w.episode('')
            w.checked = 0
            if not w.old:
                return 'skip', None, w
        spec(w)
        return ('skip' if w.undecided else 'ok'), None, w
    except (PathEnd, Broken):
        return 'skip', None, w
    except Violation as v:
        return 'violation', v.label, w
