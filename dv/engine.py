"""Path exploration and obligation discharge for the real, instrumented contract code.

A specification is a Python function run once per path against a SymWorld.  Branches on symbolic
conditions fork (both feasible sides are explored, by re-execution with a decision prefix); each
ensure() is a verification condition  path-condition => post, discharged by z3 (cvc5 second).
"""
import hashlib
import os
import subprocess
import tempfile
import time

import z3

from . import sym
from .sym import (Engine, SymAddr, SymAddrText, SymBool, SymBytes, SymInt, SymJson, SymJsonOther, SymPathText,
                  SymReal, SymSeq, SymStr, Unsupported, aval, bval, byval, ival, mkbool, mkint, sval)

FEAS_MS = 3000
VC_MS = int(os.environ.get('DV_VC_MS', '15000'))
CODE_MAX = 2 ** 64


class PathEnd(BaseException):
    """this path is over (infeasible, or cut)"""


class SpecError(BaseException):
    """the specification harness itself misbehaved"""


class Stats:
    def __init__(self):
        self.paths = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.z3 = 0
        self.cvc5 = 0
        self.solver_s = 0.0
        self.covers = {}
        self.bounded = set()
        self.undecided = []          # (label, reason)
        self.failures = []           # (label, scenario)
        self.labels = {}
        self.heap = {}               # what calls left in objects that live on
        self.frames = 0              # obligations of that kind
        self.functions = set()


class Eng:
    def __init__(self, prefix, stats, seed=1):
        self.prefix = prefix
        self.stats = stats
        self.seed = seed
        self.decisions = []
        self.alts = []
        self.solver = z3.Solver()
        self.solver.set('timeout', FEAS_MS)
        self.solver.set('random_seed', seed)
        self.pc = []
        self.sat_known = True
        self.ufs = {}
        self.app_ids = set()
        self.apps = {}         # name -> list of (argexprs, app, kind)
        self.consts = {}       # name -> (expr, kind)
        self.tokens = {}
        self.interned = {'str': {}, 'bytes': {}}
        self.nfresh = 0
        self.datas = []
        self.seen_axiom = set()

    # ----- basic solver access
    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)
        self.sat_known = False

    def assume_raw(self, c):
        self.add(c)

    def check(self, *cs):
        t = time.time()
        r = self.solver.check(*cs)
        self.stats.solver_s += time.time() - t
        return r

    def replaying(self):
        return len(self.decisions) < len(self.prefix)

    def fork(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            b = self.prefix[i]
            self.decisions.append(b)
            self.add(c if b else z3.Not(c))
            return b
        t = self.check(c) != z3.unsat
        f = True if not t else self.check(z3.Not(c)) != z3.unsat
        if not t and not self.sat_known and self.check() == z3.unsat:
            raise PathEnd()
        self.sat_known = True
        if t and f:
            self.alts.append(self.decisions + [False])
        b = t
        self.decisions.append(b)
        self.add(c if b else z3.Not(c))
        self.sat_known = True
        return b

    def proves(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(z3.Not(c)) == z3.unsat

    def unique_value(self, e):
        v = sym.const_int(e)
        if v is not None:
            return v
        if self.check() != z3.sat:
            return None
        v = self.solver.model().eval(e, model_completion=True)
        if self.check(e != v) == z3.unsat:
            return v.as_long()
        return None

    def bounded(self, why):
        self.stats.bounded.add(why)

    # ----- named symbols
    def uf(self, name, dom, rng):
        k = name
        if k not in self.ufs:
            self.ufs[k] = z3.Function(name, *dom, rng)
        return self.ufs[k]

    def const(self, name, kind):
        if name in self.consts:
            return self.consts[name][0]
        e = {'int': z3.Int, 'bool': z3.Bool, 'addr': z3.Int, 'str': z3.Int, 'bytes': z3.Int,
             'real': z3.Real}[kind](name)
        self.consts[name] = (e, kind)
        if kind in ('addr', 'str', 'bytes'):
            self.add(z3.And(e >= 0, e < CODE_MAX))
        return e

    def app(self, name, kind, args):
        """named uninterpreted function applied to z3 int expressions (args may be empty)"""
        if not args:
            return self.const(name, kind)
        rng = {'int': z3.IntSort(), 'bool': z3.BoolSort(), 'real': z3.RealSort()}.get(kind, z3.IntSort())
        f = self.uf(name, [z3.IntSort()] * len(args), rng)
        a = f(*args)
        lst = self.apps.setdefault(name, [])
        key = a.get_id()
        if (name, key) in self.app_ids:
            return a
        self.app_ids.add((name, key))
        lst.append((list(args), a, kind))
        if kind in ('addr', 'str', 'bytes'):
            self.add(z3.And(a >= 0, a < CODE_MAX))
        return a

    def fresh_name(self, base):
        self.nfresh += 1
        return f'{base}!{self.nfresh}'

    def wrap(self, e, kind):
        return {'int': mkint, 'bool': mkbool, 'addr': SymAddr, 'str': SymStr, 'bytes': SymBytes,
                'real': SymReal}[kind](e)

    def unwrap(self, v, kind):
        f = {'int': ival, 'bool': bval, 'addr': aval, 'str': sval, 'bytes': byval}[kind]
        if kind == 'int' and isinstance(v, SymReal):
            raise Unsupported('storing a non-integer')
        e = f(v)
        if e is None:
            raise Unsupported(f'value of the wrong type for kind {kind}: {type(v).__name__}')
        return e

    # ----- domain facts
    def is_contract(self, code):
        return z3.Or(code == 1, z3.And(code > 1, self.app('is_contract', 'bool', [code])))

    def intern(self, kind, val):
        t = self.interned[kind]
        if val not in t:
            h = int.from_bytes(hashlib.sha256(repr((kind, val)).encode()).digest()[:7], 'big')
            t[val] = h + 2 ** 60
        return t[val]

    def ipow(self, base, e):
        c = sym.const_int(e)
        if c is not None:
            if c < 0:
                raise Unsupported('negative exponent')
            return base ** c
        a = self.app(f'pow{base}', 'int', [e])
        self.add(z3.Implies(e >= 0, a >= 1))
        self.add(z3.Implies(e == 0, a == 1))
        self.add(z3.Implies(e >= 1, a >= base))
        return SymInt(a)

    def token(self, v):
        t = f'\u27e6{len(self.tokens)}\u27e7'
        self.tokens[t] = v
        return t

    # ----- attacker data facets
    def facet(self, name, code, sort, *more):
        kind = 'bool' if sort == z3.BoolSort() else 'real' if sort == z3.RealSort() else 'int'
        return self.app('facet.' + name, kind, [code] + [m if not isinstance(m, int) else z3.IntVal(m) for m in more])

    def data_axioms(self, code):
        import json
        for b, c in list(self.interned['bytes'].items()):
            key = (code.get_id(), c)
            if key in self.seen_axiom:
                continue
            self.seen_axiom.add(key)
            try:
                txt = b.decode('utf-8')
                u = True
            except UnicodeDecodeError:
                u, txt = False, ''
            j, o = True, None
            try:
                o = json.loads(txt)
            except ValueError:
                j = False
            isd = isinstance(o, dict)
            if isd:
                raise Unsupported('constant JSON object compared with attacker data')
            self.add(z3.Implies(code == c, z3.And(
                self.facet('utf8', code, z3.BoolSort()) == u,
                self.facet('json', code, z3.BoolSort()) == j,
                self.facet('dict', code, z3.BoolSort()) == isd)))

    # JSON member types
    T_INT, T_STR, T_REAL, T_NULL, T_BOOL, T_OTHER = range(6)

    def json_type(self, code, k):
        t = self.facet(f'type.{k}', code, z3.IntSort())
        self.add(z3.And(t >= 0, t <= 5))
        return t

    def json_member(self, code, k):
        t = self.json_type(code, k)
        if self.fork(t == self.T_STR):
            return self.json_text(code, k)
        if self.fork(t == self.T_INT):
            return SymInt(self.facet(f'int.{k}', code, z3.IntSort()))
        if self.fork(t == self.T_NULL):
            return None
        if self.fork(t == self.T_REAL):
            return SymReal(self.facet(f'real.{k}', code, z3.RealSort()))
        if self.fork(t == self.T_BOOL):
            return SymBool(self.facet(f'bool.{k}', code, z3.BoolSort()))
        return SymJsonOther('list')

    def text_elem(self, base, args, i):
        a = args + [z3.IntVal(i) if isinstance(i, int) else i]
        addr = self.app(f'{base}.addr', 'addr', a)
        self.add(addr >= 1)
        return SymAddrText(self.app(f'{base}.ok', 'bool', a), SymAddr(addr), self.app(f'{base}.ws', 'bool', a))

    def text_n(self, base, args):
        n = self.app(f'{base}.n', 'int', args)
        self.add(n >= 1)
        return n

    def json_text(self, code, k):
        return LazyPathText(f'facet.text.{k}', [code])

    # ----- obligations
    def discharge(self, label, cond):
        """prove pc => cond.  Returns 'ok' | 'fail' | 'unknown'"""
        st = self.stats
        st.obligations += 1
        st.labels[label] = st.labels.get(label, 0) + 1
        c = cond if isinstance(cond, bool) else z3.simplify(bval(cond))
        if c is True or (not isinstance(c, bool) and z3.is_true(c)):
            st.discharged += 1
            st.trivial += 1
            return 'ok'
        neg = z3.BoolVal(True) if c is False else z3.Not(c)
        self.solver.set('timeout', VC_MS)
        r = self.check(neg)
        self.solver.set('timeout', FEAS_MS)
        if r == z3.unsat:
            st.discharged += 1
            st.z3 += 1
            return 'ok'
        if r == z3.sat:
            m = self.nice_model(neg)
            st.failures.append((label, self.scenario(m)))
            return 'fail'
        r2 = self.cvc5(neg)
        if r2 == 'unsat':
            st.discharged += 1
            st.cvc5 += 1
            return 'ok'
        st.undecided.append((label, f'solver gave no answer ({self.solver.reason_unknown()})'))
        return 'unknown'

    def nice_model(self, neg):
        m = self.solver.model()
        # prefer small magnitudes so that the replay is readable; best effort
        self.solver.push()
        try:
            self.solver.add(neg)
            ints = [e for (e, k) in self.consts.values() if k == 'int']
            ints += [a for lst in self.apps.values() for (_, a, k) in lst if k == 'int']
            for bound in (100, 10 ** 6, 10 ** 20):
                self.solver.push()
                self.solver.add(*[z3.And(x >= -bound, x <= bound) for x in ints])
                r = self.solver.check()
                if r == z3.sat:
                    m = self.solver.model()
                    self.solver.pop()
                    break
                self.solver.pop()
        finally:
            self.solver.pop()
        return m

    def cvc5(self, neg):
        s = z3.Solver()
        s.add(*self.pc)
        s.add(neg)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        t = time.time()
        try:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
                f.write(txt)
                f.flush()
                p = subprocess.run(['cvc5', '--tlimit=%d' % VC_MS, '--nl-ext-tplanes', f.name],
                                   capture_output=True, text=True, timeout=VC_MS / 1000 + 10)
            return p.stdout.strip().splitlines()[0] if p.stdout.strip() else 'unknown'
        except Exception:
            return 'unknown'
        finally:
            self.stats.solver_s += time.time() - t

    def scenario(self, m):
        def val(e, kind):
            v = m.eval(e, model_completion=True)
            if kind == 'bool':
                return bool(z3.is_true(v))
            if kind == 'real':
                return [v.numerator_as_long(), v.denominator_as_long()]
            try:
                return v.as_long()
            except Exception:
                return 0
        sc = {'consts': {}, 'fns': {},
              'strs': {str(c): s for s, c in self.interned['str'].items()},
              'bytes': {str(c): b.hex() for b, c in self.interned['bytes'].items()}}
        for n, (e, kind) in self.consts.items():
            sc['consts'][n] = val(e, kind)
        for n, lst in self.apps.items():
            sc['fns'][n] = [[[val(a, 'int') for a in args], val(app, kind)] for (args, app, kind) in lst]
        return sc


class LazyPathText(SymPathText):
    """text with an unknown number of comma separated elements"""
    __slots__ = ('base', 'args')
    MAX = 21

    def __init__(self, base, args):
        self.base, self.args = base, args
        self.elems = None

    def count(self):
        return sym.E().text_n(self.base, self.args)

    def elem(self, i):
        return sym.E().text_elem(self.base, self.args, i)

    def split(self, sep=None, *a):
        if sep != ',' or a:
            raise Unsupported('split of a path by something else')
        en = sym.E()
        n = self.count()
        v = en.unique_value(n)
        if v is None:
            if en.fork(n > self.MAX):
                return SymSeq(SymInt(n), self.elem, self.MAX + 1)
            for k in range(1, self.MAX + 1):
                if en.fork(n == k):
                    v = k
                    break
            else:
                raise PathEnd()
        if v > 200:
            raise Unsupported('huge path')
        return [self.elem(i) for i in range(v)]

    def strip(self, *a):
        ok, addr = self.as_addr_text(strip=True)
        return SymAddrText(ok, addr, z3.BoolVal(False))

    def as_addr_text(self, strip=False):
        """this text read as a single address: (valid flag expression, address)"""
        n = self.count()
        e = self.elem(0)
        return z3.And(n == 1, e.ok, z3.BoolVal(True) if strip else z3.Not(e.ws)), e.addr


def run_path(specfn, make_world, prefix, stats, seed):
    eng = Eng(prefix, stats, seed)
    Engine.cur = eng
    try:
        w = make_world(eng)
        specfn(w)
        w.finish()
    except PathEnd:
        pass
    except Unsupported as e:
        stats.undecided.append(('verifier', f'unsupported: {e}'))
    finally:
        try:
            w.drop_formula()
        except UnboundLocalError:
            pass
    stats.paths += 1
    return eng.alts


def explore_slice(specfn, make_world, prefixes, seconds, seed=1):
    stats = Stats()
    todo = list(prefixes)
    t0 = time.time()
    while todo:
        todo.extend(run_path(specfn, make_world, todo.pop(), stats, seed))
        if time.time() - t0 > seconds or len(stats.failures) >= 3:
            break
    return stats, todo


def explore(specfn, make_world, budget_s=120, max_paths=20000, seed=1):
    """run specfn(world) on every path; returns Stats"""
    stats, rest = explore_slice(specfn, make_world, [[]], budget_s, seed)
    if rest and not stats.failures:
        stats.undecided.append(('exploration', f'budget exhausted after {stats.paths} paths'))
    return stats
