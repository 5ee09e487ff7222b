"""Contracts of the pricing kernels (logarithm, exponential, precision search), checked by dv.taylor on the real
methods over their whole input range.  All bounds are in units of F1 = 2^127.

  logarithm    l >= 0,   ln(x) - LOG_LO <= l/F1 <= ln(x) + LOG_UP      x = argument/F1
  exponential  R >= F1,  e^y (1 - EXP_LO) <= R/F1 <= e^y (1 + EXP_UP)  y = argument/F1, 0 <= y < 16
  general exponential with precision p:  2^p <= R <= 2^p e^(x/2^p)
  precision search for an argument y >= 16: p in {0, 32..127}, and the general exponential with p gives at
               least FLOOR * 2^p"""
import os
import time
from fractions import Fraction as Q

from . import taylor as T

F1 = 1 << 127
LOG_UP, LOG_LO = Q(1, 2 ** 122), Q(1, 2 ** 114)
EXP_UP, EXP_LO = Q(1, 2 ** 122), Q(1, 2 ** 115)
FLOOR = 8880000
LIMIT = 8885000
MAXN = 1 << 129
PRECISIONS = [0] + list(range(32, 128))
REPO = os.environ.get('DV_REPO', '/repo')
_cls = {}


def formula(merge=False):
    if merge not in _cls:
        _cls[merge] = T.load(REPO, merge)()
    return _cls[merge]


def opt_log_max():
    v = getattr(formula(), '_OPT_LOG_MAX_VAL', None)
    return v if isinstance(v, int) and F1 < v < 4 * F1 else 0x15bf0a8b1457695355fb8ac404e7a79e3


def opt_exp_max():
    v = getattr(formula(), '_OPT_EXP_MAX_VAL', None)
    return v if isinstance(v, int) and v == 16 * F1 else 16 * F1


class Rep:
    """collects obligations; sides selects which count for the property at hand"""

    def __init__(self, st, kernel, sides):
        self.st, self.kernel, self.sides = st, kernel, sides
        st.other = getattr(st, 'other', 0)
        st.functions.add('contracts.formula.fixed_map_formula:FixedMapFormula.' + kernel)

    def check(self, side, label, ok, a, b, extra=None):
        if side not in self.sides:
            return
        st = self.st
        st.obligations += 1
        st.labels[label] = st.labels.get(label, 0) + 1
        if ok:
            st.discharged += 1
            st.other += 1
        elif len(st.failures) < 6:
            st.failures.append((label, {'kernel': self.kernel, 'a': str(a), 'b': str(b), 'extra': extra}))

    def trouble(self, e, a, b, extra=None):
        st = self.st
        if isinstance(e, T.Refuted):
            self.check('range', 'never fails', False, a, b, extra)
            if 'range' not in self.sides:
                st.undecided.append((self.kernel, f'fails on an input of [{a:#x}, {b:#x}]: {e}'))
        else:
            u = (self.kernel, f'unsupported: {e}')
            if u not in st.undecided:
                st.undecided.append(u)


def method(F, name):
    f = getattr(F, name, None)
    if f is None:
        raise T.Unsupported(f'no method {name}')
    return f


def guarded(f):
    def g(st, sides, part):
        t0 = time.time()
        try:
            f(st, sides, part)
        except T.Unsupported as e:
            st.undecided.append((f.__name__, f'unsupported: {e}'))
        st.paths += 1
        st.solver_s += 0.0
        st.kernel_s = getattr(st, 'kernel_s', 0) + time.time() - t0
    return g


def slices(a, b, n, i, align=1):
    """i-th of n slices of [a, b)"""
    w = -(-(b - a) // n)
    w = -(-w // align) * align
    lo, hi = a + i * w, min(b, a + (i + 1) * w)
    return lo, hi - 1


def sc(q):
    return (q.numerator << T.S) // q.denominator


def scu(q):
    return -((-q.numerator << T.S) // q.denominator)


def target_bounds(res, coefs, lo, hi, slack):
    """bounds of result - target where target = sum coefs[j] t^j (each an interval (lo, hi) of Fractions)"""
    if isinstance(res, int):
        p, elo, ehi = [res << T.S], 0, 0
    else:
        p, elo, ehi = list(res.p), res.elo, res.ehi
    n = max(len(p), len(coefs))
    p += [0] * (n - len(p))
    for j, (cl, ch) in enumerate(coefs):
        l, h = sc(cl), scu(ch)
        p[j] -= l
        elo -= h - l
    elo -= scu(hi)
    ehi -= sc(lo)
    return T.pbounds(p, elo, ehi)


def exp_coefs(a, b):
    """F1*e^(x/F1) on x = a + (b-a) t -> (coefficient intervals, remainder interval)"""
    h = Q(b - a, F1)
    l, u = T.exp_iv(Q(a, F1))
    l, u = l * F1, u * F1
    out, m, f = [], Q(1), 1
    for j in range(T.DEG):
        if j:
            m = m * h
            f *= j
        if m.denominator.bit_length() > 1200:
            m = T.rup(m)
        out.append((l * m / f, u * m / f))
    # remainder: e^c h^DEG/DEG!, c <= h; h <= 2
    rem = m * h / (f * T.DEG) * u * 8
    return out, rem


def ln_coefs(a, b):
    """F1*ln(x/F1) on x = a + (b-a) t, b <= 2a"""
    l, u = T.ln_iv(a, F1)
    q = Q(b - a, a)
    out, m = [(l * F1, u * F1)], Q(1)
    for j in range(1, T.DEG + 1):
        m = m * q
        c = m * F1 / j * (1 if j % 2 else -1)
        if c.denominator.bit_length() > 3000:
            out.append((T.rdown(c), T.rup(c)))
        else:
            out.append((c, c))
    rem = m * q * F1 / (T.DEG + 1)
    return out, rem            # |remainder| <= rem (alternating series, q <= 1)


NLOG = NEXP = 16


@guarded
def k_log(st, sides, part):
    F = formula()
    f = method(F, '_optimal_log')
    r = Rep(st, '_optimal_log', sides)
    a, b = slices(F1, opt_log_max(), NLOG, part)
    if part == 0:
        z = T.once(f, F1, F1, lambda a, b: a)[0]
        r.check('range', 'the logarithm of one is zero', z == 0, F1, F1)
    todo = [(a, b)]
    while todo:
        a, b = todo.pop()
        for x, y, res, run in T.cells(f, a, b, T.vinput):
            if run is None:
                r.trouble(res, x, y)
                continue
            if (y - x) * 64 > x:                                # keep the series short
                m = (x + y) // 2
                todo += [(m + 1, y), (x, m)]
                continue
            lo = res if isinstance(res, int) else res.lo
            r.check('range', 'a logarithm is never negative', lo >= 0, x, y)
            c, rem = ln_coefs(x, y)
            dl, dh = target_bounds(res, c, -rem, rem, 0)
            r.check('up', 'a logarithm is never too large', dh <= scu(LOG_UP * F1), x, y, dh >> T.S)
            r.check('lo', 'a logarithm is never too small', dl >= -sc(LOG_LO * F1), x, y, dl >> T.S)


@guarded
def k_exp(st, sides, part):
    F = formula()
    f = method(F, '_optimal_exp')
    r = Rep(st, '_optimal_exp', sides)
    if part == 0:
        z = T.once(f, 0, 0, lambda a, b: a)[0]
        r.check('range', 'the exponential of zero is one', z == F1, 0, 0)
    todo = [slices(0, 16 * F1, NEXP, part)]
    while todo:
        a, b = todo.pop()
        for x, y, res, run in T.cells(f, a, b, T.vinput):
            if run is None:
                r.trouble(res, x, y)
                continue
            if y - x > F1 // 4:
                m = (x + y) // 2
                todo += [(m + 1, y), (x, m)]
                continue
            lo = res if isinstance(res, int) else res.lo
            r.check('range', 'an exponential is at least one', lo >= F1, x, y)
            c, rem = exp_coefs(x, y)
            up = [(l * (1 + EXP_UP), u * (1 + EXP_UP)) for l, u in c]
            _, dh = target_bounds(res, up, Q(0), rem * 2, 0)
            r.check('up', 'an exponential is never too large', dh <= 0, x, y)
            dn = [(l * (1 - EXP_LO), u * (1 - EXP_LO)) for l, u in c]
            dl, _ = target_bounds(res, dn, Q(0), rem, 0)
            r.check('lo', 'an exponential is never too small', dl >= 0, x, y)


def linput(a, b):
    if a == b:
        return T.LV(None, a, b)
    return T.LV(T.Aff({'L': 1}, T.Q(0), T.Q(0), T.Q(0)), a, b)


def glog_bounds(res, run, a, b):
    """bounds of result - F1*ln(x/F1), over x in [a, b]"""
    if isinstance(res, int):
        return res - T.ln_iv(b, F1)[1] * F1, res - T.ln_iv(a, F1)[0] * F1
    if not isinstance(res, T.A):
        raise T.Unsupported('result of the logarithm')
    l2 = T.ln2()
    mid = Q(l2[0], 1 << T.W)
    wid = Q(l2[1] - l2[0], 1 << T.W) * F1 * 300
    f = res.f.plus(T.Aff({'L': -F1 * mid}, F1 * mid * 127, -wid, wid))
    best = None
    for v in run.constraints[-3:]:
        if v.l is None:
            continue
        k = v.l.c.get('L')
        if not k:
            continue
        lo, hi = T.log2_iv(v.lo)[0], T.log2_iv(v.hi)[1]
        q = F1 * mid / k
        e = T.Aff(v.l.c, v.l.k, v.l.elo - hi, v.l.ehi - lo)           # contains zero
        g = f.plus(e.scale(q))
        g.c.pop('L', None)
        bd = g.bounds()
        if best is None or bd[1] - bd[0] < best[1] - best[0]:
            best = bd
    if best is None:
        # no relation: bound with the range of L
        raise T.Unsupported('no relation between the result and the argument')
    return best


NGLOG = 16


@guarded
def k_glog(st, sides, part):
    F = formula(True)
    f = method(F, '_general_log')
    r = Rep(st, '_general_log', sides)
    top = 257
    for k in range(1, top - 127):
        if k % NGLOG != part:
            continue
        a, b = max(opt_log_max(), F1 << k), (F1 << k + 1) - 1
        if a > b:
            continue
        todo = [(a, b)]
        while todo:
            a, b = todo.pop()
            for x, y, res, run in T.cells(f, a, b, linput, limit=400):
                if run is None:
                    r.trouble(res, x, y)
                    continue
                if isinstance(res, T.RangeCmp):
                    r.trouble(T.Unsupported('shape of the result'), x, y)
                    continue
                lo, hi = glog_bounds(res, run, x, y)
                if y > x and isinstance(res, int) and (lo < -LOG_LO * F1 or hi > LOG_UP * F1) and y - x < 1 << 400 \
                        and T.ln_iv(y, x)[1] > LOG_LO / 4 and len(todo) < 300:
                    m = (x + y) // 2
                    todo += [(m + 1, y), (x, m)]
                    continue
                # ln(x) >= 1/2 here, so the lower bound implies a positive result
                r.check('range', 'a logarithm is never negative', lo >= -F1 // 2, x, y, float(lo))
                r.check('up', 'a logarithm is never too large', hi <= LOG_UP * F1, x, y, float(hi))
                r.check('lo', 'a logarithm is never too small', lo >= -LOG_LO * F1, x, y, float(lo))


def gexp_abs(p, a):
    """general exponential with precision p on every argument >= a"""
    f = method(formula(), '_general_exp')
    return T.once(lambda x: f(x, p), a, a, lambda u, v: T.P([Q(0), Q(1)], a))[0]


@guarded
def k_gexp(st, sides, part):
    r = Rep(st, '_general_exp', sides)
    for p in PRECISIONS:
        if p % 8 != part:
            continue
        try:
            v = gexp_abs(p, 0)
        except (T.Unsupported, T.Refuted) as e:
            r.trouble(e, 0, 0, p)
            continue
        if not isinstance(v, T.P):
            r.trouble(T.Unsupported('shape of the result'), 0, 0, p)
            continue
        r.check('range', f'an exponential is at least one', v.at >= 1 << p, 0, 0, p)
        ok, fact = True, 1
        for k, c in enumerate(v.up):
            fact *= max(k, 1)
            # c x^k <= 2^p (x/2^p)^k / k!
            ok = ok and c * fact * (1 << p) ** k <= (1 << p)
        r.check('up', 'an exponential is never too large', ok, 0, 0, p)


TOPX = 90 * 10 ** 6 * F1        # above any argument that can occur: 129 ln 2 * 10^6 < 90 * 10^6


@guarded
def k_find(st, sides, part):
    F = formula()
    r = Rep(st, '_find_position_in_max_exp_array', sides)
    f = method(F, '_find_position_in_max_exp_array')
    for x, y, res, run in T.cells(f, 16 * F1, TOPX, T.vinput):
        if run is None:
            r.trouble(res, x, y)
            continue
        ok = isinstance(res, int) and res in PRECISIONS
        r.check('range', 'the precision found is one the exponential supports', ok, x, y, str(res))
        if ok and 'lo' in sides:
            try:
                v = gexp_abs(res, x >> 127 - res)
            except (T.Unsupported, T.Refuted) as e:
                r.trouble(e, x, y)
                continue
            if not isinstance(v, T.P):
                r.trouble(T.Unsupported('shape of the result'), x, y)
                continue
            r.check('lo', 'a large power stays large', v.at >= FLOOR << res, x, y, res)


# ------------------------------------------------------------------ composition (Lean)
THEOREMS = {'range': ('exponent_top',), 'up': ('general_exp_scaled', 'power_upper'),
            'lo': ('power_lower', 'accurate_branch', 'floor_far'), 'trip': ('general_exp_scaled', 'round_trip')}
AXIOMS = {'propext', 'Classical.choice', 'Quot.sound'}


def lean_text(names):
    def q(v):
        v = Q(v)
        return f'{v.numerator} / {v.denominator}' if v.denominator > 1 else str(v.numerator)
    consts = {'F': F1, 'LU': LOG_UP, 'LL': LOG_LO, 'EU': EXP_UP, 'EL': EXP_LO, 'LIMIT': LIMIT, 'FLOOR': FLOOR,
              'TOP': Q(TOPX, F1)}
    head = ''.join(f'import Mathlib.{m}\n' for m in ('Analysis.SpecialFunctions.Pow.Real', 'Analysis.SpecialFunctions.Log.Deriv',
                                                     'Analysis.Complex.ExponentialBounds', 'Tactic'))
    head += 'noncomputable section\n' + ''.join(f'def {n} : ℝ := {q(v)}\n' for n, v in consts.items())
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lean', 'Composition.lean')) as f:
        body = f.read()
    return head + body + ''.join(f'\n#print axioms {n}' for n in names) + '\n'


def composition(st, side, part=None):
    """the step from the contracts of the kernels and of _power to bounds on the power, checked by Lean"""
    import subprocess
    import tempfile
    t0 = time.time()
    names = THEOREMS[side]
    st.obligations += len(names)
    for n in names:
        st.labels[n] = st.labels.get(n, 0) + 1
    st.paths += 1
    with tempfile.TemporaryDirectory(prefix='dvlean') as d:
        f = os.path.join(d, 'Composition.lean')
        with open(f, 'w') as fh:
            fh.write(lean_text(names))
        try:
            p = subprocess.run(['lean', f], capture_output=True, text=True, timeout=400, cwd=d)
            out, rc = p.stdout + p.stderr, p.returncode
        except (OSError, subprocess.TimeoutExpired) as e:
            out, rc = repr(e), 1
    st.solver_s += time.time() - t0
    for n in names:
        line = [x for x in out.splitlines() if x.startswith(f"'{n}' depends on axioms: [")]
        ax = set(line[0].split('[')[1].rstrip(']').replace(' ', '').split(',')) if line else None
        if rc == 0 and ax is not None and ax <= AXIOMS:
            st.discharged += 1
            st.other = getattr(st, 'other', 0) + 1
        else:
            st.undecided.append((n, f'Lean: {out[-300:]}'))


KERNELS = {
    'logarithm below e': ('_optimal_log', k_log, list(range(NLOG))),
    'general logarithm': ('_general_log', k_glog, list(range(NGLOG))),
    'exponential below e^16': ('_optimal_exp', k_exp, list(range(NEXP))),
    'general exponential': ('_general_exp', k_gexp, list(range(8))),
    'precision search': ('_find_position_in_max_exp_array', k_find, [0]),
}


def main():
    import sys
    from .engine import Stats
    for n, (m, f, parts) in KERNELS.items():
        if len(sys.argv) > 1 and sys.argv[1] not in m:
            continue
        t = time.time()
        st = Stats()
        for p in parts:
            f(st, ('range', 'up', 'lo'), p)
        print(n, st.obligations, st.discharged, 'und', st.undecided[:3], 'fail', [(l, s['a'][:20], s['b'][:20], s['extra']) for l, s in st.failures[:6]], f'{time.time() - t:.1f}s', flush=True)


if __name__ == '__main__':
    main()
