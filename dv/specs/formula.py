"""C22-C25: the pricing formula.

Bottom-up, every function against the contracts of its callees:

  kernels (dv/kernels.py)   _optimal_log, _general_log, _optimal_exp, _general_exp, _find_position_in_max_exp_array
  _power                    kernels stubbed by fresh values within their contracts; z3
  calculate_*_return        _power stubbed by its contract; z3
  composition               from the kernels' contracts to bounds on the power; Lean (lean/Composition.lean)
  bounds                    from the power to the statements of the properties; z3 (reals)

A failed obligation is reported only with a call of the real code that breaks the property; the contracts are
stronger than the properties, so without one it stays undecided."""
import random

from . import spec
from .. import oracle

M = 10 ** 6
F1 = 1 << 127
MAXN = 1 << 129
PATH = 'formula.fixed_map_formula:FixedMapFormula'
FN = 'contracts.' + PATH
SIDES = {'C22': ('range',), 'C23': ('range', 'up'), 'C24': ('range', 'lo'), 'C25': ('range', 'up')}
WEIGHT = ('w', 'fw', 'tw')
SEARCHED = 'power'
PROPS = ('C22', 'C23', 'C24', 'C25')


# ------------------------------------------------------------------ real-code side (both uses: replay and search)
_F = []


def real_formula():
    if not _F:
        import importlib
        from .. import real                                   # noqa: F401   sets up the real platform and the import path
        oracle.limit_memory()
        m, c = PATH.split(':')
        _F.append(getattr(importlib.import_module('contracts.' + m), c)())
    return _F[0]


def report(prop, sid, found, n, o):
    o['runs'] += n
    o['nontrivial'] += n
    if found:
        which, a, lab = found
        o['violations'].append({'spec': sid, 'kind': 'random', 'label': f'{lab} [{oracle.METHOD[which]}]',
                                'scenario': {'which': which, 'args': [str(x) for x in a]}, 'formula': 'real'})


def make_search(prop, sid):
    def search(o, seconds, seed):
        n, found = oracle.search(real_formula(), prop, seconds, seed)
        report(prop, sid, found, n, o)
    return search


def candidates(rec):
    sc = rec['scenario']
    if 'which' in sc:
        return [(sc['which'], tuple(int(x) for x in sc['args']))]
    if 'kernel' in sc:
        return oracle.points_for(sc)
    c = {k.split('.')[-1]: v for k, v in sc.get('consts', {}).items()}
    out = []
    r = random.Random(5)
    if 'bn' in c:
        for en, ed in [(c['en'], c['ed'])] + oracle.RATIOS:
            out += oracle.calls_for(c['bn'], c['bd'], en, ed)
            out += oracle.calls_for(c['bn'], max(1, c['bn'] >> r.randrange(1, 100)), en, ed)
    for which, names in oracle.NAMES.items():
        if all(n in c for n in names):
            a = [c[n] for n in names]
            for k in (10 ** 3, 10 ** 9, 10 ** 18, 1 << 64):
                out.append((which, tuple(x * k if n not in WEIGHT else x for n, x in zip(names, a))))
            for _ in range(600):                              # the weights of the model, other sizes
                which2, b = oracle.sample(r)
                if which2 == which:
                    out.append((which, tuple(x if n in WEIGHT else y for n, x, y in zip(names, a, b))))
            out = out[::-1] + [(which, tuple(a))]             # taken from the end
    return out


def make_replay(prop):
    def replay(rec):
        F = real_formula()
        if rec.get('kind') == 'random':
            which, a = candidates(rec)[0]
            lab = oracle.broken(F, prop, which, a)
            return {'status': 'violation' if lab else 'ok', 'label': lab, 'formula': 'real'}
        pts = candidates(rec)
        n, found = oracle.search(F, prop, 15, 1, points=pts)
        if found:
            return {'status': 'violation', 'label': found[2], 'formula': 'real',
                    'call': [oracle.METHOD[found[0]]] + [str(x) for x in found[1]]}
        return {'status': 'ok', 'label': f'{n} calls at the failed obligation satisfy the property', 'formula': None}
    return replay


def formula_spec(prop, name, run, parts=(None,), **opts):
    sid = f'{prop}:{name}'
    # one search of the real code serves all specifications of the property
    via = {'search': make_search(prop, sid)} if name == SEARCHED else {'search_with': f'{prop}:{SEARCHED}'}
    spec(prop, name=name, run=run, parts=list(parts), replay=make_replay(prop), confirm=True, **via, **opts)(run)


# ------------------------------------------------------------------ kernels
def kernel_runner(name, prop):
    def run(st, tier, part):
        from .. import kernels, taylor
        kernels.KERNELS[name][1](st, SIDES[prop], part)
    return run


# name -> (number of parts, properties)
KERNELS = {'logarithm below e': (16, PROPS), 'general logarithm': (16, PROPS), 'exponential below e^16': (16, PROPS),
           'general exponential': (8, PROPS), 'precision search': (1, PROPS)}
TRUST = ('dv/taylor.py and dv/kernels.py: the exact integer/rational evaluation that bounds each kernel over its whole domain',
         'textbook facts: Taylor remainders of exp and ln (Lagrange, alternating series), monotonicity of exp and ln',
         'Lean 4 kernel and Mathlib (composition theorems in lean/Composition.lean), matching of its hypotheses with the obligations proved for the code (DESIGN.md)')

def lean_runner(side):
    def run(st, tier, part):
        from .. import kernels
        kernels.composition(st, side)
    return run


for _p, _side in (('C22', 'range'), ('C23', 'up'), ('C24', 'lo'), ('C25', 'trip')):
    formula_spec(_p, 'composition', lean_runner(_side), trusted=TRUST)
for _k, (_n, _ps) in KERNELS.items():
    for _p in _ps:
        formula_spec(_p, _k, kernel_runner(_k, _p), range(_n), trusted=TRUST)


# ------------------------------------------------------------------ _power and the three returns, with z3
def attempt(w, f, *a):
    """-> (accepted, value)"""
    from ..icstub import IconServiceBaseException
    from ..world import CallFailed
    try:
        return True, f(*a)
    except (IconServiceBaseException, CallFailed):
        return False, None
    except Exception as e:
        if w.hooks.native_artefact(e):
            raise w.sym.Unsupported(f'native {type(e).__name__}: {e}')
        return False, e


def fresh_formula(w):
    C = w.cls(PATH)
    return C()


def stub(w, f, name, g):
    if not callable(getattr(f, name, None)):
        w.unsupported(f'formula method {name} is gone')
    setattr(f, name, g)


def power_body(w):
    from ..logic import And, Implies, eq
    from .. import kernels
    st = w.eng.stats
    st.functions.add(FN + '._power')
    f = fresh_formula(w)
    bn, bd = w.int('bn', lo=1), w.int('bd', lo=1)
    en, ed = w.int('en', lo=1, hi=M), w.int('ed', lo=1, hi=M)
    w.assume(bn >= bd)
    calls = []
    top = kernels.opt_log_max()

    def log(kind):
        def g(x):
            calls.append((kind, x))
            l = w.int('l', lo=0)
            w.assume(Implies(eq(x, F1), eq(l, 0)))
            calls[-1] += (l,)
            return l
        return g

    def oexp(x):
        r = w.int('R', lo=F1)
        w.assume(Implies(eq(x, 0), eq(r, F1)))
        calls.append(('oexp', x, r))
        return r

    def find(x):
        p = w.int('p', lo=0, hi=127)
        w.assume((p >= 32) | eq(p, 0))
        calls.append(('find', x, p))
        return p

    def gexp(x, p):
        r = w.int('R')
        w.assume(r >= w.pow(2, p))
        calls.append(('gexp', (x, p), r))
        return r

    stub(w, f, '_optimal_log', log('olog'))
    stub(w, f, '_general_log', log('glog'))
    stub(w, f, '_optimal_exp', oexp)
    stub(w, f, '_find_position_in_max_exp_array', find)
    stub(w, f, '_general_exp', gexp)
    ok, res = attempt(w, f._power, bn, bd, en, ed)
    if not ok:
        w.ensure('a power is refused only when the base is too large', bn >= MAXN)
        w.cover('refused')
        return
    w.ensure('a power of a base that is too large is refused', bn < MAXN)
    kinds = [c[0] for c in calls]
    w.ensure('one logarithm, then one exponential', kinds in (['olog', 'oexp'], ['glog', 'oexp'],
                                                             ['olog', 'find', 'gexp'], ['glog', 'find', 'gexp']))
    if len(kinds) not in (2, 3) or kinds[0] not in ('olog', 'glog'):
        w.stop()
    x, l = calls[0][1], calls[0][2]
    w.ensure('the logarithm is taken of the base', And(x * bd <= bn * F1, bn * F1 < x * bd + bd))
    w.ensure('the base is at least one', x >= F1)
    w.ensure('the logarithm is within its domain', (x < top) if kinds[0] == 'olog' else And(x >= top, x < 1 << 257))
    X = calls[1][1]
    w.ensure('the exponent is the scaled logarithm', And(X * ed <= l * en, l * en < X * ed + ed, X >= 0))
    try:
        R, P = res
    except TypeError:
        w.ensure('the power is a pair', False)
        return
    if kinds[1] == 'oexp':
        w.ensure('the exponential is within its domain', X < 16 * F1)
        w.ensure('the power is the exponential at its precision', And(eq(R, calls[1][2]), eq(P, 127)))
        w.ensure('a power of one is one', Implies(eq(bn, bd), eq(R, F1)))
        w.cover('accurate')
    else:
        w.ensure('the precision is searched beyond the accurate domain', X >= 16 * F1)
        p = calls[1][2]
        (y, p2), r = calls[2][1], calls[2][2]
        s = w.pow(2, 127 - p)
        w.ensure('the exponential uses the precision found', eq(p2, p))
        w.ensure('the exponent is rescaled to the precision', And(y * s <= X, X < y * s + s))
        w.ensure('the power is the exponential at its precision', And(eq(R, r), eq(P, p)))
        w.cover('large')


def returns_body(which, side):
    def body(w):
        from ..logic import And, Implies, Not, Or, eq, ne
        st = w.eng.stats
        st.functions.add(f'{FN}.{oracle.METHOD[which]}')
        f = fresh_formula(w)
        calls = []

        def power(bn, bd, en, ed):
            # the contract of _power: defined for bn >= bd >= 1 and 1 <= en, ed <= M
            w.ensure('the power is asked for within its domain', And(bn >= bd, bd >= 1, en >= 1, en <= M, ed >= 1, ed <= M))
            if not w.branch(bn < MAXN):
                calls.append((bn, bd, en, ed, None, None))
                w.fail_formula()
            R, p = w.int('R'), w.int('p', lo=0, hi=127)
            P = w.pow(2, p)
            w.assume(And(R >= P, P >= 1, Implies(eq(bn, bd), eq(R, P))))
            calls.append((bn, bd, en, ed, R, P))
            return R, p
        stub(w, f, '_power', power)
        a = [w.int(n) for n in oracle.NAMES[which]]
        d = a[-1]
        w.assume(d >= 0)
        if which == 'purchase':
            s, b, wt, _ = a
            valid = And(s > 0, b > 0, wt > 0, wt <= M)
            full = eq(wt, M)
            want = (b + d, b, wt, M)
        elif which == 'sale':
            s, b, wt, _ = a
            valid = And(s > 0, b > 0, wt > 0, wt <= M, d <= s)
            full = eq(wt, M)
            want = (s, s - d, M, wt)
        else:
            fb, fw, tb, tw, _ = a
            valid = And(fb > 0, fw > 0, fw <= M, tb > 0, tw > 0, tw <= M)
            full = eq(fw, tw)
            want = (fb + d, fb, fw, tw)
        exact = Or(eq(d, 0), full)
        if which == 'sale':
            exact = Or(exact, eq(d, s))
        priced = Or(full if which == 'cross' else exact, want[0] < MAXN)
        ok, r = attempt(w, getattr(f, oracle.METHOD[which]), *a)
        if not ok:
            if side == 'range':
                w.ensure('accepted for every valid input', Not(And(valid, priced)))
            w.cover('refused')
            return
        if side == 'range':
            w.ensure('refused for every invalid input', valid)
        w.assume(valid)
        if not isinstance(r, (int, w.sym.SymInt)) or isinstance(r, bool):
            w.ensure('the result is a whole number', False)
            return
        # cases priced without the power
        w.ensure('priced by at most one power', len(calls) <= 1)
        if len(calls) > 1:
            w.stop()
        if side != 'range' and calls:
            c = calls[0]
            w.ensure('the power is that of the formula', And(*[eq(x, y) for x, y in zip(c[:4], want)]))
        if not calls:
            w.ensure('priced by the power unless an exact case', exact)
        zero = eq(d, 0)
        if w.branch(zero):
            w.ensure('a zero amount returns zero', eq(r, 0))
            w.cover('zero')
            return
        R, P = (calls[0][4], calls[0][5]) if calls else (None, None)
        if calls:
            # monotonicity of products (true of all integers)
            B = a[0] if which == 'purchase' else a[1] if which == 'sale' else a[2]
            w.assume(And(B * R >= B * P, B * P >= B))
        if which == 'purchase':
            if w.branch(full):
                num, den = s * d, b
                w.cover('full weight')
                if side == 'range':
                    w.assume(num >= 0)
                    w.ensure('never negative', r >= 0)
                if side == 'up':
                    w.ensure('exact with full weight, from above', r * den <= num)
                if side == 'lo':
                    w.ensure('exact with full weight, from below', num < r * den + den)
                return
            if not calls:
                w.stop()
            w.cover('power')
            if side == 'range':
                w.ensure('never negative', r >= 0)
            if side == 'up':
                w.ensure('never more than the power gives', (r + s) * P <= s * R)
            if side == 'lo':
                w.ensure('never a unit less than the power gives', s * R < (r + s) * P + P)
            return
        T = b if which == 'sale' else tb
        if which == 'sale' and w.branch(eq(d, s)):
            w.ensure('selling everything returns the whole reserve', eq(r, b))
            w.cover('everything')
            return
        if w.branch(full):
            num, den = (b * d, s) if which == 'sale' else (tb * d, fb + d)
            w.cover('full weight')
            if side == 'range':
                w.assume(And(num >= 0, T * den >= 0, num < T * den))           # d < den
                w.ensure('never negative', r >= 0)
                w.ensure('less than the reserve', r < T)
            if side == 'up':
                w.ensure('exact with equal weights, from above', r * den <= num)
            if side == 'lo':
                w.ensure('exact with equal weights, from below', num < r * den + den)
            return
        if not calls:
            w.stop()
        w.cover('power')
        if side == 'range':
            w.ensure('never negative', r >= 0)
            w.ensure('less than the reserve', r < T)
        if side == 'up':
            w.ensure('never more than the power gives', T * P <= (T - r) * R)
        if side == 'lo':
            w.ensure('never a unit less than the power gives', (T - r) * R < T * P + R)
    return body


def z3_runner(body):
    def run(st, tier, part):
        from .. import engine, runner, world
        s = engine.explore(body, world.SymWorld, 150 if tier == 'quick' else 900)
        runner.merge(st, s)
    return run


# ------------------------------------------------------------------ from the contracts to the statements (reals)
def schemas(z3):
    """label -> (sides, premises, conclusion): valid for all reals; g the exact power, P > 0 the scale of R"""
    s, b, r, q, R, P, g, B, d, R2, P2, den, num = z3.Reals('s b r q R P g B d R2 P2 den num')
    A, L = 2 ** 100, 2 ** 91
    D = 2 ** 90
    pos = [P > 0, s > 0, b > 0, g >= 1, R >= P]
    up = R * A <= P * g * (A + 1)
    lo = R * L >= P * g * (L - 1)
    far = R >= oracle.FLOOR * P
    out = {}
    out['purchase: from the power to the bound above'] = (
        'up', pos + [up, (r + s) * P <= s * R], (r + s) * A <= s * g * (A + 1))
    out['sale and cross: from the power to the bound above'] = (
        'up', pos + [up, b * P <= (b - r) * R], g * ((b - r) * A + b) >= b * A)
    out['purchase: from the power to the bound below'] = (
        'lo', pos + [lo, s * R < (r + s) * P + P], g * s * (D - 1) <= (r + s + 1) * D)
    out['sale and cross: from the power to the bound below'] = (
        'lo', pos + [lo, (b - r) * R < b * P + R], g * ((b - r - 1) * D - b) <= b * D)
    out['purchase: from a large power to the bound below'] = (
        'lo', pos + [far, s * R < (r + s) * P + P], r + 1 + s >= s * oracle.FLOOR)
    out['sale and cross: from a large power to the bound below'] = (
        'lo', pos + [far, (b - r) * R < b * P + R], (b - r - 1) * oracle.FLOOR <= b)
    # round trips: B = reserve after the deposit, b = B - d; q = what comes back
    trip = [P2 > 0, R2 >= P2, b > 0, B > 0, R2 * b * A <= P2 * B * (A + 1), B * P2 <= (B - q) * R2]
    out['round trip: from the second power to the bound'] = ('trip', trip, (q - (B - b)) * A <= B)
    out['round trip: the second base is at most the first power (purchase)'] = (
        'trip', pos + [(r + s) * P <= s * R], (s + r) * P <= s * R)
    out['round trip: the second base is at most the first power (cross)'] = (
        'trip', pos + [b * P <= (b - r) * R, r < b], b * P <= (b - r) * R)
    out['round trip with full weight'] = (
        'trip', [s > 0, b > 0, d > 0, r >= 0, r * b <= s * d, q * (s + r) <= (b + d) * r], q <= d)
    out['round trip with equal weights'] = (
        'trip', [b > 0, s > 0, d > 0, r >= 0, r * (b + d) <= s * d, r < s, q * ((s - r) + r) <= (b + d) * r], q <= d)
    return out


def schema_runner(side):
    def run(st, tier, part):
        import time
        import z3
        for lab, (sd, pre, concl) in schemas(z3).items():
            if sd != side:
                continue
            st.obligations += 1
            st.labels[lab] = st.labels.get(lab, 0) + 1
            t = time.time()
            S = z3.SolverFor('QF_NRA')
            S.set('timeout', 60000)
            S.add(*pre)
            S.add(z3.Not(concl))
            r = S.check()
            st.solver_s += time.time() - t
            if r == z3.unsat:
                st.discharged += 1
                st.z3 += 1
            else:
                st.undecided.append((lab, f'solver: {r}'))
        st.paths += 1
    return run


for _p in PROPS:
    formula_spec(_p, 'power', z3_runner(power_body), covers=('refused', 'accurate', 'large'), trusted=TRUST)

_RET = {'purchase': ('refused', 'zero', 'full weight', 'power'), 'sale': ('refused', 'zero', 'full weight', 'power', 'everything'),
        'cross': ('refused', 'full weight', 'power')}
for _which, _cov in _RET.items():
    for _p, _side in (('C22', 'range'), ('C23', 'up'), ('C24', 'lo'), ('C25', 'up')):
        formula_spec(_p, f'{_which} return', z3_runner(returns_body(_which, _side)), covers=_cov, trusted=TRUST)
for _p, _side in (('C23', 'up'), ('C24', 'lo'), ('C25', 'trip')):
    formula_spec(_p, 'bounds', schema_runner(_side), trusted=TRUST)
