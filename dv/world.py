"""The interface specifications are written against; two back ends (SymWorld here, RealWorld in real.py)."""
from . import logic
from .logic import And, If, Implies, Not, Or, eq, ne

SIG = {
    'transfer': ('_to', '_value', '_data'), 'balanceOf': ('_owner',), 'totalSupply': (), 'decimals': (),
    'name': (), 'symbol': (), 'getOwner': (), 'getNewOwner': (), 'issue': ('_to', '_amount'),
    'destroy': ('_from', '_amount'), 'withdrawTo': ('_amount', '_to'), 'withdraw': ('_amount',), 'deposit': (),
    'withdrawTokens': ('_token', '_to', '_amount'), 'tokenFallback': ('_from', '_value', '_data'),
    'getAddress': ('_scoreName',), 'getReturn': ('_fromToken', '_toToken', '_amount'),
    'transferOwnerShip': ('_newOwner',), 'acceptOwnerShip': (), 'disableTransfer': ('_disable',),
    'getConversionFee': (), 'getConnector': ('_address',), 'getConnectorBalance': ('_connectorToken',),
}


class CallFailed(BaseException):
    """an external call failed; the whole transaction reverts"""


class Outcome:
    def __init__(self, ok, value=None, error=None, trace=()):
        self.ok = ok
        self.value = value
        self.error = error
        self.trace = list(trace)

    @property
    def events(self):
        return [t for t in self.trace if t.kind == 'event']

    def event(self, name):
        return [t for t in self.trace if t.kind == 'event' and t.name == name]

    def calls(self, name=None):
        return [t for t in self.trace if t.kind == 'call' and (name is None or t.name == name)]

    def icx(self):
        return [t for t in self.trace if t.kind == 'icx']


class T:
    def __init__(self, kind, inst, name, args=None, to=None, amount=None):
        self.kind, self.inst, self.name, self.args, self.to, self.amount = kind, inst, name, args, to, amount

    def __repr__(self):
        return f'<{self.kind} {self.name} to={self.to} args={self.args}>'


class Msg:
    def __init__(self, sender, value=0):
        self.sender = sender
        self.value = value


class Env:
    """Environment of the contract under proof: contracts assumed of other SCOREs.
    Handlers are x_<method>(w, inst, to, **named args)."""

    assume_contracts = False

    def call(self, w, inst, to, name, kw):
        f = getattr(self, 'x_' + name, None)
        if f is None:
            return self.unknown(w, inst, to, name, kw)
        return f(w, inst, to, **kw)

    def unknown(self, w, inst, to, name, kw):
        w.unsupported(f'external call to {name}')

    def icx(self, w, inst, to, amount):
        pass

    def icx_balance(self, w, inst, addr):
        w.unsupported('icx.get_balance')


PRELOAD = ('irc_token.irc_token', 'flexible_token.flexible_token', 'icx_token.icx_token', 'score_registry.score_registry',
           'converter.converter', 'network.network', 'utility.token_holder', 'utility.flexible_token_controller',
           'utility.storage', 'formula.fixed_map_formula')


class BaseWorld:
    def __init__(self):
        self.trace = []
        self.env = Env()
        self.msgs = []
        self.smaps = {}
        self.insts = []
        self.tx = None
        self.depth = 0

    @property
    def msg(self):
        return self.msgs[-1]

    def entries(self, path):
        """every way a transaction can enter the SCORE and write: external methods, a plain payment, an update"""
        return self.externals(path) + ['fallback', 'on_update']

    # ---- calls made by the contract
    def external(self, inst, to, name, args, kwargs):
        sig = SIG.get(name)
        if sig is None:
            sig = tuple(f'_{i}' for i in range(len(args)))
        kw = {}
        if len(args) > len(sig):
            raise CallFailed('too many arguments')
        for n, a in zip(sig, args):
            kw[n] = a
        for n, a in (kwargs or {}).items():
            if n in kw or n not in sig:
                raise CallFailed('bad keyword argument')
            kw[n] = a
        for n in sig:
            if n not in kw:
                if name == 'transfer' and n == '_data':
                    kw[n] = None
                else:
                    raise CallFailed('missing argument')
        if self.env.assume_contracts:
            self.assume(self.is_contract(to))
        elif not self.branch(self.is_contract(to)):
            return None                      # the platform dispatches nothing to an EOA
        self.trace.append(T('call', inst, name, kw, to=to))
        return self.env.call(self, inst, to, name, kw)

    def emit(self, inst, name, vals, indexed):
        self.trace.append(T('event', inst, name, list(vals)))

    def icx_transfer(self, inst, to, amount):
        self.trace.append(T('icx', inst, 'icx', to=to, amount=amount))
        self.env.icx(self, inst, to, amount)

    def icx_balance(self, inst, addr):
        return self.env.icx_balance(self, inst, addr)

    def hint(self, name, value, p=0.8):
        """steer the random search (real mode); no meaning for proofs and replays"""

    # ---- helpers for specs
    def smap(self, name, kind='int', arity=1, lo=None, hi=None):
        if name not in self.smaps:
            self.smaps[name] = self._new_map('g:' + name, kind, arity, lo, hi)
        return self.smaps[name]

    def view(self, inst, method, *args, sender=None):
        o = self.call(inst, method, *args, sender=sender, view=True)
        if not o.ok:
            self.spec_stop(f'view {method} failed: {o.error}')
        return o.value

    # ---- the pricing formula, replaced by its contract (proved separately) at the call sites
    FORMULA = {'purchase': 'calculate_purchase_return', 'sale': 'calculate_sale_return',
               'cross': 'calculate_cross_connector_return'}

    formula_free = False

    def formula_contract(self, which, a):
        """(accepted, result) of the formula under its contract"""
        M = 10 ** 6
        if which == 'purchase':
            s, b, wt, x = a
            ok = And(s > 0, b > 0, wt > 0, wt <= M, x >= 0)
        elif which == 'sale':
            s, b, wt, x = a
            ok = And(s > 0, b > 0, wt > 0, wt <= M, x >= 0, x <= s)
        else:
            fb, fw, tb, tw, x = a
            ok = And(fb > 0, fw > 0, fw <= M, tb > 0, tw > 0, tw <= M, x >= 0)
        ok = And(ok, self.fn(f'formula.{which}.defined', 'bool', *a))
        if self.formula_free:
            # nothing is relied upon but that the answer is a whole number, the same for the same question
            return ok, self.fn(f'formula.any.{which}', 'int', *a)
        r = self.fn(f'formula.{which}', 'int', *a, lo=0)
        if which == 'sale':
            self.assume(Or(Not(ok), And(r <= b, Or(eq(x, s), r < b), Or(ne(x, s), eq(r, b)))))
        if which == 'cross':
            self.assume(Or(Not(ok), r < tb))
        self.assume(Or(Not(ok), ne(a[-1], 0), eq(r, 0)))
        return ok, r

    def use_formula(self):
        import functools
        import inspect
        C = self.cls('formula.fixed_map_formula:FixedMapFormula')
        for which, m in self.FORMULA.items():
            orig = self.formula_originals.setdefault(m, getattr(C, m, None))
            if orig is None:
                self.unsupported(f'formula method {m} is gone')
            sig = inspect.signature(orig)

            def f(*args, _w=which, _s=sig, **kw):
                ba = _s.bind(*args, **kw)
                ba.apply_defaults()
                ok, r = self.formula_contract(_w, list(ba.arguments.values())[1:])
                if not self.branch(ok):
                    self.fail_formula()
                return r
            setattr(C, m, f)

    def drop_formula(self):
        if self.formula_originals:
            C = self.cls('formula.fixed_map_formula:FixedMapFormula')
            for m, o in self.formula_originals.items():
                setattr(C, m, o)

    formula_originals = {}

    def fail_formula(self):
        raise CallFailed('formula refuses')

    def require(self, cond, why='external call failed'):
        """environment precondition: on failure the call (hence the transaction) fails"""
        if not self.branch(cond):
            raise CallFailed(why)


# =====================================================================================  symbolic
class Inst:
    def __init__(self, world, label, cls, address, lazy, nonneg):
        self.world = world
        self.label = label
        self.cls = cls
        self.address = address
        self.lazy = lazy
        self.nonneg = nonneg
        self.maps = {}
        self.cells = set()
        self.suffix = ''
        self.obj = None

    def store(self, name, kind, arity, lo=None):
        m = self.maps.get(name)
        if m is None:
            if lo is None and kind == 'int' and self.nonneg and (name in self.nonneg or '*' in self.nonneg):
                lo = 0
            m = self.maps[name] = SymMap(self.world, f'st:{self.label}:{name}{self.suffix}', kind, arity, lo, None, self.lazy)
        if m.kind != kind:
            self.world.unsupported(f'storage cell {name} used with two types')
        return m


class SymMap:
    DEFAULT = {'int': 0, 'bool': False, 'addr': 0, 'str': None, 'bytes': 0}

    def __init__(self, world, name, kind, arity, lo=None, hi=None, lazy=True):
        self.world, self.name, self.kind, self.arity = world, name, kind, arity
        self.lo, self.hi, self.lazy = lo, hi, lazy
        self.writes = ()

    def default(self):
        return {'int': 0, 'bool': False, 'addr': None, 'str': '', 'bytes': None}[self.kind]

    def _k(self, keys):
        z = self.world.z3
        out = []
        for k in keys:
            if isinstance(k, self.world.sym.SymAddr) or k is None:
                out.append(self.world.sym.aval(k))
            elif isinstance(k, (str, self.world.sym.SymStr)):
                out.append(self.world.sym.sval(k))
            else:
                e = self.world.sym.ival(k)
                if e is None:
                    self.world.unsupported('map key')
                out.append(e)
        return out

    def initial_e(self, ks):
        en = self.world.eng
        z = self.world.z3
        if not self.lazy:
            return en.unwrap(self.default(), self.kind)
        a = en.app(self.name, self.kind, ks)
        key = (self.name, a.get_id())
        if key not in self.world.bounded_cells:
            self.world.bounded_cells.add(key)
            if self.lo is not None:
                en.add(a >= self.lo)
            if self.hi is not None:
                en.add(a <= self.hi)
        return a

    def _fold(self, ks, init, field):
        z = self.world.z3
        en = self.world.eng
        e = init()
        for w in self.writes:
            c = z.simplify(z.And(*[a == b for a, b in zip(ks, w[0])])) if ks else z.BoolVal(True)
            if z.is_true(c):
                e = w[field]
            elif z.is_false(c):
                continue
            else:
                e = z.If(c, w[field], e)
        return e

    def get(self, *keys):
        ks = self._k(keys)
        # the last write to a syntactically equal key hides everything older
        e = self._fold(ks, lambda: self.initial_e(ks), 1)
        return self.world.eng.wrap(e, self.kind)

    def initial(self, *keys):
        return self.world.eng.wrap(self.initial_e(self._k(keys)), self.kind)

    def present(self, *keys):
        z = self.world.z3
        en = self.world.eng
        ks = self._k(keys)
        if self.kind in ('addr', 'bytes'):
            return self.world.sym.SymBool(self._fold(ks, lambda: self.initial_e(ks), 1) != 0)

        def init():
            if not self.lazy:
                return z.BoolVal(False)
            h = en.app(self.name + ':has', 'bool', ks)
            en.add(z.Implies(z.Not(h), self.initial_e(ks) == en.unwrap(self.default(), self.kind)))
            return h
        return self.world.sym.SymBool(self._fold(ks, init, 2))

    def set(self, keys, value, present=True):
        z = self.world.z3
        if not isinstance(keys, (list, tuple)):
            keys = [keys]
        ks = self._k(keys)
        self.writes = self.writes + ((ks, self.world.eng.unwrap(value, self.kind), z.BoolVal(present)),)

    def add(self, keys, delta):
        if not isinstance(keys, (list, tuple)):
            keys = [keys]
        self.set(keys, self.get(*keys) + delta)


class SymWorld(BaseWorld):
    symbolic = True

    def __init__(self, eng):
        super().__init__()
        import z3
        from . import sym, hooks, loader, engine
        self.z3, self.sym, self.hooks, self.loader, self.engine = z3, sym, hooks, loader, engine
        self.eng = eng
        self.bounded_cells = set()
        self.undone = []
        from . import heap
        self.heap = heap
        loader.setup()
        heap.fresh_process(PRELOAD)

    # ---- values
    def int(self, name, lo=None, hi=None, hints=()):
        e = self.eng.const(name, 'int')
        if lo is not None:
            self.eng.add(e >= lo)
        if hi is not None:
            self.eng.add(e <= hi)
        return self.sym.SymInt(e)

    def bool(self, name):
        return self.sym.SymBool(self.eng.const(name, 'bool'))

    def str(self, name, hints=()):
        e = self.eng.const(name, 'str')
        self.eng.add(e >= 1)
        return self.sym.SymStr(e)

    def addr(self, name, none=False, zero=True, contract=None, avoid=()):
        e = self.eng.const(name, 'addr')
        for x in avoid:
            self.eng.add(e != self.sym.aval(x))
        if not none:
            self.eng.add(e >= 1)
        if not zero:
            self.eng.add(e != 1)
        if contract is True:
            self.eng.add(self.eng.is_contract(e))
        elif contract is False:
            self.eng.add(self.z3.Not(self.eng.is_contract(e)))
        return self.sym.SymAddr(e)

    def zero(self):
        from .icstub import ZERO
        return ZERO

    def bytes(self, name, none=False):
        e = self.eng.const(name, 'bytes')
        if not none:
            self.eng.add(e >= 1)
        return self.sym.SymBytes(e)

    def fn(self, name, kind, *keys, lo=None, hi=None):
        """value of an arbitrary but fixed function (environment choice)"""
        m = self.smap('fn:' + name, kind, len(keys), lo, hi)
        return m.initial(*keys)

    def fresh(self, base, kind='int', lo=None):
        n = self.eng.fresh_name(base)
        v = self.eng.wrap(self.eng.const(n, kind), kind)
        if lo is not None:
            self.assume(v >= lo)
        return v

    def pow(self, base, e):
        return self.eng.ipow(base, self.sym.ival(e))

    def is_contract(self, a):
        return self.sym.SymBool(self.eng.is_contract(self.sym.aval(a)))

    def _new_map(self, name, kind, arity, lo, hi):
        return SymMap(self, name, kind, arity, lo, hi)

    # ---- logic
    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        return self.eng.fork(self.sym.bval(cond))

    def assume(self, cond):
        c = cond if isinstance(cond, bool) else self.z3.simplify(self.sym.bval(cond))
        if c is True or (not isinstance(c, bool) and self.z3.is_true(c)):
            return
        if c is False or self.z3.is_false(c):
            raise self.engine.PathEnd()
        self.eng.add(c)

    def stop(self):
        if not self.msgs:
            self.finish()
        raise self.engine.PathEnd()

    def spec_stop(self, why):
        self.eng.stats.undecided.append(('harness', why))
        raise self.engine.PathEnd()

    def unsupported(self, what):
        raise self.sym.Unsupported(what)

    def ensure(self, label, cond):
        if self.eng.replaying():
            return
        self.eng.discharge(label, cond)

    def cover(self, label, cond=True):
        st = self.eng.stats
        if st.covers.get(label):
            return
        c = self.sym.bval(cond) if not isinstance(cond, bool) else self.z3.BoolVal(cond)
        r = self.eng.check(c)
        st.covers[label] = bool(r == self.z3.sat) or st.covers.get(label, False)
        if r == self.z3.unknown:
            st.covers['?' + label] = True

    def choose(self, name, options):
        e = self.eng.const(name, 'int')
        self.eng.add(self.z3.And(e >= 0, e < len(options)))
        for i in range(len(options) - 1):
            if self.eng.fork(e == i):
                return options[i]
        return options[-1]

    def finish(self):
        """frame condition of every path: the calls left nothing in the objects that live on"""
        if self.eng.replaying():
            return
        st = self.eng.stats
        st.obligations += 1
        st.frames += 1
        left = self.heap.shared_leftover()
        for i in self.insts:
            left += self.heap.leftover(i.picture, i.obj, i.path.split(':')[-1])
        if left:
            for x in left:
                st.heap[x] = st.heap.get(x, 0) + 1
        else:
            st.discharged += 1
            st.trivial += 1

    # ---- contracts
    def cls(self, path):
        return self.loader.get(path)

    def deploy(self, path, addr, label=None, lazy=True, nonneg=()):
        cls = self.cls(path)
        label = label or path.split(':')[-1]
        inst = Inst(self, label, cls, addr, lazy, nonneg)
        inst.path = path
        from .icstub import Database
        self.msgs.append(Msg(self.zero()))
        inst.obj = cls(Database(inst))
        self.msgs.pop()
        inst.picture = self.heap.picture(inst.obj)
        self.insts.append(inst)
        return inst

    def snapshot(self):
        return ([(i, i.maps, i.suffix, {k: (m, m.writes) for k, m in i.maps.items()}) for i in self.insts],
                {k: m.writes for k, m in self.smaps.items()})

    def restore(self, s):
        for i, maps, sfx, ms in s[0]:
            i.maps, i.suffix = maps, sfx
            for k, m in i.maps.items():
                m.writes = ms[k][1] if k in ms else ()
        for k, m in self.smaps.items():
            m.writes = s[1].get(k, ())

    def havoc(self, inst, tag, lo=None):
        """arbitrary re-entrant activity: every cell of the contract becomes unknown"""
        inst.maps = {}
        inst.lazy = True
        inst.suffix += f'@{tag}'

    def externals(self, path, readonly=False):
        cls = self.cls(path)
        out = []
        for n in dir(cls):
            f = getattr(cls, n, None)
            if callable(f) and getattr(f, '_dv_external', False) and getattr(f, '_dv_readonly', False) == readonly:
                out.append(n)
        return out

    def is_payable(self, inst, m):
        return getattr(getattr(inst.cls, m, None), '_dv_payable', False)

    def signature(self, path, method):
        import inspect
        f = getattr(self.cls(path), method)
        out = []
        for p in list(inspect.signature(f).parameters.values())[1:]:
            if p.kind in (p.VAR_KEYWORD, p.VAR_POSITIONAL):
                continue
            a = p.annotation
            t = {int: 'int', bool: 'bool', str: 'str', bytes: 'bytes'}.get(a)
            if t is None and getattr(a, '__dv_address__', False):
                t = 'addr'
            out.append((p.name, t, p.default is not inspect.Parameter.empty))
        return out

    def deployer(self, inst):
        return self.addr(f'deployer:{inst.label}')

    def do(self, inst, fn, name, sender=None):
        """run code inside the SCORE inst, as one of its methods would"""
        return self.call(inst, name, sender=sender, inside=fn)

    def call(self, inst, method, *args, sender=None, value=0, view=False, install=False, fallback=False, kwargs=None,
             inside=None):
        f = inside or getattr(inst.obj, method, None)
        entry = method in ('fallback', 'on_update')
        if not (install or fallback or inside or entry):
            if f is None or not getattr(f, '_dv_external', False):
                return Outcome(False, error='no such external method')
        if not install and not inside and not self.is_payable(inst, method):
            if self.branch(value > 0 if not isinstance(value, int) else value > 0):
                return Outcome(False, error='not payable')
        snap = self.snapshot()
        t0 = len(self.trace)
        self.msgs.append(Msg(sender if sender is not None else self.zero(), value))
        self.eng.stats.functions.add(method if inside else f'{inst.path}.{method}')
        try:
            r = f(*args, **(kwargs or {}))
            return Outcome(True, r, None, self.trace[t0:])
        except (self.sym.Unsupported, self.engine.PathEnd, self.engine.SpecError):
            raise
        except BaseException as e:
            from .icstub import IconServiceBaseException
            if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError, RecursionError)):
                raise
            if self.hooks.native_artefact(e):
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                raise self.sym.Unsupported(f'native {type(e).__name__}: {e} at {tb.filename}:{tb.lineno}')
            tr = self.trace[t0:]
            self.restore(snap)
            return Outcome(False, None, f'{type(e).__name__}: {e}', tr)
        finally:
            self.msgs.pop()

    # ---- representation (storage cells, by their database name)
    def cell(self, inst, name, kind):
        """current value of a stored variable; None when the code keeps no such variable"""
        n = f'var:{name}'
        if not any(c == n for c in inst.cells):
            return None
        return inst.store(n, kind, 0).get()

    # ---- attacker data
    def data(self, name, keys):
        return SymData(self, name, keys)

    def path_text(self, name):
        return SymTextView(self, self.engine.LazyPathText(name, []))

    # ---- JSON sent by the contract
    def parse_sent(self, data):
        """structure of a JSON message the contract sent, or None"""
        from .icstub import JsonDump
        import json
        if isinstance(data, JsonDump):
            o = data.obj
        elif isinstance(data, (bytes, str)):
            try:
                o = json.loads(data)
            except ValueError:
                return None
        else:
            return None
        return self._untoken(o)

    def _untoken(self, o):
        if isinstance(o, dict):
            return {k: self._untoken(v) for k, v in o.items()}
        if isinstance(o, str) and o in self.eng.tokens:
            return self.eng.tokens[o]
        return o


class SymTextView:
    def __init__(self, w, t):
        self.w, self.raw = w, t

    @property
    def n(self):
        return self.w.sym.SymInt(self.raw.count())

    def ok(self, i):
        return self.w.sym.SymBool(self.raw.elem(i).ok)

    def ws(self, i):
        return self.w.sym.SymBool(self.raw.elem(i).ws)

    def addr(self, i):
        return self.raw.elem(i).addr


class SymData:
    def __init__(self, w, name, keys):
        self.w = w
        self.keys = keys
        self.raw = w.bytes(name)
        self.code = self.raw.e
        w.eng.intern('bytes', b'conversionResult')
        w.eng.data_axioms(self.code)

    def _f(self, n, sort=None):
        return self.w.eng.facet(n, self.code, self.w.z3.BoolSort() if sort is None else sort)

    def _b(self, e):
        return self.w.sym.SymBool(e)

    @property
    def utf8(self):
        return self._b(self._f('utf8'))

    @property
    def json(self):
        return self._b(self._f('json'))

    @property
    def is_dict(self):
        return self._b(self._f('dict'))

    def well_formed(self):
        return And(self.utf8, self.json, self.is_dict)

    def has(self, k):
        return self._b(self._f(f'has.{k}'))

    def is_type(self, k, t):
        i = {'int': 0, 'str': 1, 'real': 2, 'null': 3, 'bool': 4, 'other': 5}[t]
        return self._b(self.w.eng.json_type(self.code, k) == i)

    def int(self, k):
        return self.w.sym.SymInt(self._f(f'int.{k}', self.w.z3.IntSort()))

    def real(self, k):
        return self.w.sym.SymReal(self._f(f'real.{k}', self.w.z3.RealSort()))

    def bool(self, k):
        return self._b(self._f(f'bool.{k}'))

    def text(self, k):
        return SymTextView(self.w, self.w.eng.json_text(self.code, k))

    def addr_ok(self, k):
        t = self.text(k)
        return And(self.is_type(k, 'str'), eq(t.n, 1), t.ok(0), Not(t.ws(0)))

    def addr(self, k):
        return self.text(k).addr(0)
