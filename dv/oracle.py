"""Exact-arithmetic oracle for the pricing formula (plain Python, both interpreters).

G = (bn/bd)^(en/ed) is compared with a rational N/D through logarithms of 320 significant digits; a comparison
too close to call counts as satisfied."""
import random
import signal
import time
from decimal import Context, Decimal, Inexact, ROUND_HALF_EVEN

CTX = Context(prec=320, rounding=ROUND_HALF_EVEN, Emax=10 ** 9, Emin=-10 ** 9, traps=[])
TINY = Decimal('1e-300')
MILLION = 10 ** 6
MAXN = 1 << 129
_ln = {}
CALL_S = 4.0
FAST = Context(prec=100, rounding=ROUND_HALF_EVEN, Emax=10 ** 9, Emin=-10 ** 9, traps=[])
FTINY = Decimal('1e-85')


def ln(n, c=CTX):
    k = (n, c is CTX)
    if k not in _ln:
        if len(_ln) > 4000:
            _ln.clear()
        _ln[k] = c.ln(Decimal(n))
    return _ln[k]


class G:
    """(bn/bd)^(en/ed), compared through logarithms of 100 digits, of 320 when that is too close to call"""

    def __init__(self, bn, bd, en, ed):
        self.a = (bn, bd, en, ed)
        self._l = {}

    def l(self, c):
        if (c is CTX) not in self._l:
            bn, bd, en, ed = self.a
            self._l[c is CTX] = c.divide(c.multiply(c.subtract(ln(bn, c), ln(bd, c)), Decimal(en)), Decimal(ed))
        return self._l[c is CTX]

    def _sign(self, N, D):
        """sign of G - N/D"""
        for c, tiny in ((FAST, FTINY), (CTX, TINY)):
            v = c.subtract(self.l(c), c.subtract(ln(N, c), ln(D, c)))
            if abs(v) > tiny:
                return 1 if v > 0 else -1
        return 0

    def ge(self, N, D):
        """G*D >= N"""
        if N <= 0:
            return D >= 0 or (N == 0 and D == 0)
        if D <= 0:
            return False
        return self._sign(N, D) >= 0

    def le(self, N, D):
        """G*D <= N"""
        if D <= 0:
            return N >= 0 or (D < 0 and self.ge(-N, -D))
        if N <= 0:
            return False
        return self._sign(N, D) <= 0


LIMIT = 8885000
FLOOR = 8880000
ABOVE = 'never above the exact value'
BELOW = 'accurate up to a unit while the power is moderate'
FAR = 'a large power stays large'


def statements(which, a, r, g):
    """the bounds of C23 and C24 for one result -> [(property, label, condition)]; a condition is a bool or
    (guard, bound, condition)"""
    e, d = 2 ** 100, 2 ** 90
    if which == 'purchase':
        s = a[0]
        return [('C23', ABOVE, g.ge((r + s) * e, s * (e + 1))),
                ('C24', BELOW, ('if_le', LIMIT, lambda: g.le((r + s + 1) * d, s * (d - 1)))),
                ('C24', FAR, ('if_gt', LIMIT, lambda: r + 1 + s >= s * FLOOR))]
    b = a[1] if which == 'sale' else a[2]
    return [('C23', ABOVE, g.ge(b * e, (b - r) * e + b)),
            ('C24', BELOW, ('if_le', LIMIT, lambda: g.le(b * d, (b - r - 1) * d - b))),
            ('C24', FAR, ('if_gt', LIMIT, lambda: (b - r - 1) * FLOOR <= b))]


def power_args(which, a):
    if which == 'purchase':
        s, b, w, d = a
        return b + d, b, w, MILLION
    if which == 'sale':
        s, b, w, d = a
        return s, s - d, MILLION, w
    fb, fw, tb, tw, d = a
    return fb + d, fb, fw, tw


def valid(which, a):
    if which == 'purchase':
        s, b, w, d = a
        return s > 0 and b > 0 and 0 < w <= MILLION
    if which == 'sale':
        s, b, w, d = a
        return s > 0 and b > 0 and 0 < w <= MILLION and d <= s
    fb, fw, tb, tw, d = a
    return fb > 0 and 0 < fw <= MILLION and tb > 0 and 0 < tw <= MILLION


def exact_case(which, a):
    """the cases priced with integers only -> (numerator, denominator) of the exact value, or None"""
    if which == 'purchase':
        s, b, w, d = a
        return (0, 1) if d == 0 else (s * d, b) if w == MILLION else None
    if which == 'sale':
        s, b, w, d = a
        return (0, 1) if d == 0 else (b, 1) if d == s else (b * d, s) if w == MILLION else None
    fb, fw, tb, tw, d = a
    return (tb * d, fb + d) if fw == tw else None


NAMES = {'purchase': ('s', 'b', 'w', 'd'), 'sale': ('s', 'b', 'w', 'd'), 'cross': ('fb', 'fw', 'tb', 'tw', 'd')}
METHOD = {'purchase': 'calculate_purchase_return', 'sale': 'calculate_sale_return',
          'cross': 'calculate_cross_connector_return'}


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang


def run(F, which, a):
    """result, None when refused; Hang is not caught: the call did not end within the time limit"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CALL_S)
    try:
        return getattr(F, METHOD[which])(*a)
    except (KeyboardInterrupt, SystemExit, Hang):
        raise
    except BaseException:               # the platform's refusals are not Exceptions
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def limit_memory():
    """a wrong kernel may build astronomically large numbers"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))


def defined(which, a):
    return exact_case(which, a) is not None or power_args(which, a)[0] < MAXN


def judge(F, which, a):
    """all broken single-call statements at this input -> [(property, label)]"""
    bad = []
    v = valid(which, a)
    try:
        r = run(F, which, a)
    except Hang:
        return [('C22', 'a valid request is answered')] if v and defined(which, a) else []
    ok = r is not None
    if not ok and v and defined(which, a):
        bad.append(('C22', 'a valid request is answered'))
    if ok and not v:
        bad.append(('C22', 'an invalid request is refused'))
    if not ok or not v:
        return bad
    if r < 0 or type(r) is not int:
        bad.append(('C22', 'the result is a whole number, not negative'))
        return bad
    if a[-1] == 0 and r != 0:
        bad.append(('C22', 'a zero amount returns zero'))
    if which == 'sale':
        if (r != a[1]) if a[3] == a[0] else (r >= a[1]):
            bad.append(('C22', 'a sale returns less than the reserve unless everything is sold'))
    if which == 'cross' and r >= a[2]:
        bad.append(('C22', 'a cross conversion returns less than the target reserve'))
    x = exact_case(which, a)
    if x is not None:
        if r * x[1] > x[0]:
            bad.append(('C23', 'never above the exact value'))
        if (r + 1) * x[1] <= x[0]:
            bad.append(('C24', BELOW))
        return bad
    if not defined(which, a):
        return bad
    g = G(*power_args(which, a))
    small = None
    for p, lab, c in statements(which, a, r, g):
        if isinstance(c, tuple):
            if small is None:
                small = g.le(c[1], 1)
            c = c[2]() if small == (c[0] == 'if_le') else True
        if not c:
            bad.append((p, lab))
    return bad


def round_trips(F, which, a):
    """C25 at this input"""
    e = 2 ** 100
    try:
        if which == 'purchase':
            s, b, w, d = a
            if not (valid(which, a) and defined(which, a)) or d < 0:
                return []
            r = run(F, 'purchase', a)
            if type(r) is not int or r <= 0:
                return []
            q = run(F, 'sale', (s + r, b + d, w, r))
            if q is not None and (q > d if w == MILLION else (q - d) * e > b + d):
                return [('C25', 'buying and selling back gains nothing')]
        if which == 'cross':
            fb, fw, tb, tw, d = a
            if not (valid(which, a) and defined(which, a)) or d <= 0:
                return []
            r = run(F, 'cross', a)
            if type(r) is not int or r <= 0 or r >= tb:
                return []
            q = run(F, 'cross', (tb - r, tw, fb + d, fw, r))
            if q is not None and (q > d if fw == tw else (q - d) * e > fb + d):
                return [('C25', 'converting there and back gains nothing')]
    except Hang:
        pass
    return []


def broken(F, prop, which, a):
    """label of a statement of the property broken at this call, or None"""
    if prop == 'C25':
        bad = round_trips(F, which, a)
    else:
        bad = [x for x in judge(F, which, a) if x[0] == prop]
    return bad[0][1] if bad else None


# ------------------------------------------------------------------ inputs
WEIGHTS = (1, 2, 10, 1000, 100000, 200000, 250000, 333333, 500000, 500001, 750000, 900000, 999999, MILLION)


def magnitude(r, top=128):
    k = r.randrange(0, top)
    return (1 << k) + r.randrange(0, 1 << k) if k else 1


def sample(r):
    """structured random input -> (which, args)"""
    w = lambda: r.choice(WEIGHTS) if r.random() < .7 else r.randrange(1, MILLION + 1)     # noqa: E731
    which = r.choice(('purchase', 'sale', 'cross'))
    s, b, t = (magnitude(r, r.choice((10, 70, 128))) for _ in range(3))

    def part(x):
        m = r.random()
        if m < .1:
            return r.choice((0, 1, 2, x, x - 1, x + 1, x // 2))
        if m < .7:
            return x * r.randrange(0, 10 ** 6) // 10 ** 6
        return max(0, x >> r.randrange(0, 100)) + r.randrange(0, 3)
    if which == 'purchase':
        d = part(b)
        if r.random() < .3:
            d = b * r.randrange(1, 10 ** r.randrange(1, 12))
        return which, (s, b, w(), max(0, d))
    if which == 'sale':
        d = min(max(0, part(s)), s + r.choice((0, 0, 0, 1)))
        if r.random() < .2:
            d = max(0, s - r.randrange(0, 5))
        return which, (s, b, w(), d)
    d = part(b)
    if r.random() < .3:
        d = b * r.randrange(1, 10 ** r.randrange(1, 12))
    return which, (b, w(), t, w(), max(0, d))


RATIOS = [(1, 1), (MILLION, 999999), (999999, MILLION), (MILLION, 500000), (500000, MILLION), (MILLION, 100000),
          (100000, MILLION), (MILLION, 1000), (1000, MILLION), (MILLION, 1), (1, MILLION), (300000, 700000), (3, 2)]


def calls_for(bn, bd, en, ed):
    """calls whose pricing evaluates (bn/bd)^(en/ed)"""
    out = []
    if not (bd >= 1 and bn > bd and bn < MAXN):
        return out
    for S in (10 ** 18, 1 << 100, 1 << 127):
        if ed == MILLION:
            out.append(('purchase', (S, bd, en, bn - bd)))
        if en == MILLION:
            out.append(('sale', (bn, S, ed, bn - bd)))
        out.append(('cross', (bd, en, S, ed, bn - bd)))
    return out


def calls_for_log(x):
    """calls that take the logarithm of x / 2^127"""
    k = max(0, x.bit_length() - 128)
    out = []
    for en, ed in RATIOS:
        out += calls_for(x >> k, (1 << 127) >> k if k <= 127 else 1, en, ed)
    return out


def calls_for_exp(x):
    """calls that take the exponential of about x / 2^127"""
    out = []
    for en, ed in RATIOS:
        lam = CTX.divide(Decimal(x * ed), Decimal((1 << 127) * en))
        if lam > 80:
            continue
        for bits in (127, 100, 60):
            bd = 1 << bits
            bn = int(CTX.multiply(CTX.exp(lam), Decimal(bd)))
            out += calls_for(bn, bd, en, ed)
            out += calls_for(bn + 1, bd, en, ed)
    return out


def points_for(rec):
    """calls near a failed kernel obligation"""
    k = rec.get('kernel')
    a, b = int(rec['a']), int(rec['b'])
    r = random.Random(7)
    one = 1 << 127
    xs = sorted({a, b, (a + b) // 2} | {a + (b - a) * i // 16 for i in range(17)} | {r.randrange(a, b + 1) for _ in range(12)})
    out = []
    if k in ('_optimal_log', '_general_log'):
        for x in xs:
            out += calls_for_log(x)
    elif k in ('_optimal_exp', '_find_position_in_max_exp_array', '_general_exp'):
        if k == '_general_exp' or b - a > 100 * one:
            xs = [16 * one + r.randrange(0, 1 << r.randrange(100, 133)) for _ in range(200)]
            xs += [one * v // 16 for v in range(256, 1430, 5)]
        for x in xs:
            out += calls_for_exp(x)
    r.shuffle(out)
    return out


def search(F, prop, seconds, seed, points=None):
    """-> (calls judged, broken call or None as (which, args, label))"""
    r = random.Random(seed)
    t0 = time.time()
    n = 0
    while time.time() - t0 < seconds:
        for _ in range(10):
            if points is not None:
                if not points:
                    return n, None
                todo = [points.pop()]
            else:
                m = r.random()
                if m < .6:
                    todo = [sample(r)]
                elif m < .8:
                    todo = calls_for_exp(r.randrange(1, 1 << r.choice((120, 124, 127, 129, 131, 131, 132))))
                else:
                    todo = calls_for_log((1 << 127) + r.randrange(1, 1 << r.choice((20, 60, 100, 120, 126, 127, 128, 140, 180))))
                if len(todo) > 4:
                    todo = r.sample(todo, 4)
            for which, a in todo:
                n += 1
                lab = broken(F, prop, which, a)
                if lab:
                    return n, (which, a, lab)
    return n, None
