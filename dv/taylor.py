"""Exact evaluation of integer kernels over whole input ranges (no solver).

The real method is run on values standing for every integer of an input cell [a, b]:

  V   polynomial in t (input = a + (b-a)*t, 0 <= t <= 1) + error interval + exact range
  P   polynomial upper bound with non-negative coefficients, valid for every input >= a, + exact value at a
  LV  log2 of the value as an affine form over L = log2(input) and 0/1 symbols (one per merged branch) + range
  A   integer affine over the 0/1 symbols

All coefficients are integers or Fractions; every rounding is added to the error interval.  A decision that is not
the same on the whole cell raises Split; the driver divides the cell at the exact input where it flips.
Anything else raises Unsupported: the obligation is then undecided, never refuted.
"""
import ast
from fractions import Fraction as Q

S = 96                      # extra bits of every polynomial coefficient
ONE = 1 << S
DEG = 26
BITCAP = 6000
OPCAP = 60000


class Unsupported(BaseException):
    pass


class Split(BaseException):
    def __init__(self, n):
        self.n = n


class Refuted(BaseException):
    """the kernel raised on some input of the cell"""


# ------------------------------------------------------------------ enclosures of exp and ln (integers scaled 2^W)
W = 420


def _atanh(n, d):
    """atanh(n/d)*2^W with error bound, |n/d| <= 1/3"""
    if n < 0:
        s, e = _atanh(-n, d)
        return -s, e
    x = (n << W) // d
    x2 = x * x >> W
    s, p, k = 0, x, 1
    while p:
        s += p // k
        p = p * x2 >> W
        k += 2
    return s, k * 4 + 40           # every truncation is at most a few units, the tail below 2 units


_LN2 = None


def ln2():
    global _LN2
    if _LN2 is None:
        s, e = _atanh(1, 3)
        _LN2 = (2 * s - 2 * e, 2 * s + 2 * e)
    return _LN2


def ln_iv(n, d=1):
    """(lo, hi) of ln(n/d) as Fractions"""
    assert n > 0 and d > 0
    k = n.bit_length() - d.bit_length()
    num, den = (n, d << k) if k >= 0 else (n << -k, d)        # num/den in (1/2, 2)
    if 3 * num > 4 * den:
        den <<= 1
        k += 1
    elif 3 * num < 2 * den:
        num <<= 1
        k -= 1
    s, e = _atanh(num - den, num + den)
    lo, hi = ln2()
    a, b = (k * lo, k * hi) if k >= 0 else (k * hi, k * lo)
    return Q(2 * s - 2 * e + a, 1 << W), Q(2 * s + 2 * e + b, 1 << W)


def exp_iv(q):
    """(lo, hi) of e^q, q a Fraction >= 0"""
    q = Q(q)
    m = max(0, int(q).bit_length() + 4)
    x = (q.numerator << W) // (q.denominator << m)            # q / 2^m, rounded down
    s, p, k = 0, 1 << W, 1
    while p:
        s += p
        p = (p * x >> W) // k
        k += 1
    lo, hi = s, s + 4 * k + 8                                  # tail and truncations
    for _ in range(m):
        lo, hi = lo * lo >> W, (hi * hi >> W) + 1
    # the argument was rounded down by less than 2^-W (scaled by 2^m): widen
    hi += (hi >> (W - m - 2)) + 1
    return Q(lo, 1 << W), Q(hi, 1 << W)


# ------------------------------------------------------------------ run state
class Run:
    cur = None

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.trace = []
        self.ops = 0
        self.nbits = 0
        self.assumed = {}
        self.constraints = []

    def op(self):
        self.ops += 1
        if self.ops > OPCAP:
            raise Unsupported('too many operations')

    def decide(self, at_lo, at_hi):
        """a decision whose value at the two ends of a monotone quantity is given"""
        n = len(self.trace)
        if at_lo != at_hi:
            self.trace.append(None)
            raise Split(n)
        self.trace.append(at_lo)
        return at_lo


def cap(*xs):
    for x in xs:
        if isinstance(x, int) and x.bit_length() > BITCAP:
            raise Unsupported('numbers grow out of bounds')


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def _bad(name):
    def f(self, *a):
        raise Unsupported(f'{name} on {type(self).__name__}')
    f.__name__ = name
    return f


class Abs:
    __hash__ = None
    for _n in ('truediv', 'rtruediv', 'pow', 'rpow', 'rmod', 'rfloordiv', 'rand', 'or', 'ror', 'xor', 'rxor', 'neg',
               'rrshift', 'rlshift', 'index', 'int', 'float', 'iter', 'len', 'getitem', 'contains', 'abs', 'bool', 'invert'):
        locals()[f'__{_n}__'] = _bad(_n)
    del _n

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'attribute {n} of {type(self).__name__}')

    def __repr__(self):
        return f'<{type(self).__name__}>'

    def __rmul__(self, o):
        return self * o

    def __radd__(self, o):
        return self + o

    def __pos__(self):
        return self

    def __divmod__(self, o):
        return self // o, self % o

    def __lshift__(self, k):
        if not isint(k) or k < 0:
            raise Unsupported('shift')
        return self * (1 << k)


class RangeCmp(Abs):
    """comparisons and bit tests through the range [lo, hi]"""
    __slots__ = ()

    def rng(self):
        return self.lo, self.hi

    def _dec(self, f, o):
        Run.cur.op()
        if not isint(o):
            if isinstance(o, RangeCmp):
                d = self - o
                return d._dec(lambda v, _z: f(v, 0), 0)
            raise Unsupported('comparison with something that is no number')
        lo, hi = self.rng()
        return Run.cur.decide(f(lo, o), f(hi, o))

    def __ge__(self, o): return self._dec(lambda v, c: v >= c, o)
    def __gt__(self, o): return self._dec(lambda v, c: v > c, o)
    def __le__(self, o): return self._dec(lambda v, c: v <= c, o)
    def __lt__(self, o): return self._dec(lambda v, c: v < c, o)

    def _eq(self, o):
        Run.cur.op()
        if not isint(o):
            raise Unsupported('equality')
        lo, hi = self.rng()
        return Run.cur.decide((lo > o) - (lo < o), (hi > o) - (hi < o)) == 0

    def __eq__(self, o): return self._eq(o)
    def __ne__(self, o): return not self._eq(o)

    def _block(self, m):
        """floor(self / m), the same on the whole cell"""
        lo, hi = self.rng()
        return Run.cur.decide(lo // m, hi // m)

    def __mod__(self, m):
        if not isint(m) or m <= 0:
            raise Unsupported('modulo')
        return self - self._block(m) * m

    def __and__(self, m):
        if not isint(m) or m < 0:
            raise Unsupported('bit and')
        if m == 0:
            return 0
        s = (m & -m).bit_length() - 1
        lo, hi = self.rng()
        if lo < 0:
            raise Unsupported('bit and of a negative number')
        if s == 0 and m & (m + 1) == 0:
            return self % (m + 1)
        return (self._block(1 << s) << s) & m

    def __bool__(self):
        return self != 0

    def bit_length(self):
        lo, hi = self.rng()
        if lo < 0:
            raise Unsupported('bit_length of a negative number')
        return Run.cur.decide(lo.bit_length(), hi.bit_length())


def imul(a, b, c, d):
    v = (a * c, a * d, b * c, b * d)
    return min(v), max(v)


class V(RangeCmp):
    """poly: ints scaled 2^S; err: (lo, hi) scaled 2^S; lo, hi: exact integer range; mono: nondecreasing in the input
    (then lo, hi are the values at a and b)"""
    __slots__ = ('p', 'elo', 'ehi', 'lo', 'hi', 'mono')

    def __init__(self, p, elo, ehi, lo, hi, mono):
        cap(lo, hi, elo, ehi)
        self.p, self.elo, self.ehi, self.lo, self.hi, self.mono = p, elo, ehi, lo, hi, mono

    def __add__(self, o):
        Run.cur.op()
        if isint(o):
            p = list(self.p)
            p[0] += o << S
            return V(p, self.elo, self.ehi, self.lo + o, self.hi + o, self.mono)
        if not isinstance(o, V):
            return NotImplemented if not isinstance(o, Abs) else self._no()
        n = max(len(self.p), len(o.p))
        p = [(self.p[i] if i < len(self.p) else 0) + (o.p[i] if i < len(o.p) else 0) for i in range(n)]
        return V(p, self.elo + o.elo, self.ehi + o.ehi, self.lo + o.lo, self.hi + o.hi, self.mono and o.mono)

    def _no(self):
        raise Unsupported('mixed values')

    def __neg__(self):
        return V([-c for c in self.p], -self.ehi, -self.elo, -self.hi, -self.lo, self.lo == self.hi)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        Run.cur.op()
        if isint(o):
            if o < 0:
                return -(self * -o)
            return V([c * o for c in self.p], self.elo * o, self.ehi * o, self.lo * o, self.hi * o, self.mono)
        if not isinstance(o, V):
            return NotImplemented if not isinstance(o, Abs) else self._no()
        n = min(DEG + 1, len(self.p) + len(o.p) - 1)
        out = [0] * n
        dlo = dhi = 0
        for i, x in enumerate(self.p):
            if x:
                for j, y in enumerate(o.p):
                    if y:
                        if i + j < n:
                            out[i + j] += x * y
                        else:
                            c = x * y
                            dlo += min(c, 0)
                            dhi += max(c, 0)
        p = [c >> S for c in out]
        plo, phi = (self.lo << S) - self.ehi, (self.hi << S) - self.elo           # range of this polynomial
        a1 = imul(plo, phi, o.elo, o.ehi)
        a2 = imul(o.lo << S, o.hi << S, self.elo, self.ehi)
        elo = (a1[0] + a2[0] + dlo >> S) - 1
        ehi = (a1[1] + a2[1] + dhi >> S) + 2 + n
        lo, hi = imul(self.lo, self.hi, o.lo, o.hi)
        mono = self.mono and o.mono and self.lo >= 0 and o.lo >= 0
        return V(p, elo, ehi, lo, hi, mono)

    def __floordiv__(self, c):
        Run.cur.op()
        if not isint(c) or c <= 0:
            raise Unsupported('division by something that is no positive constant')
        if c == 1:
            return self
        p = [x // c for x in self.p]
        elo = self.elo // c - ((c - 1 << S) // c + 1)
        ehi = -(-self.ehi // c) + len(p)
        return V(p, elo, ehi, self.lo // c, self.hi // c, self.mono)

    def __rshift__(self, k):
        if not isint(k) or k < 0:
            raise Unsupported('shift')
        return self // (1 << k)

    def fits(self):
        """a number whose range is a single value is that value"""
        return self.lo if self.lo == self.hi else None


def vinput(a, b):
    return V([a << S, (b - a) << S], 0, 0, a, b, True)


def pbounds(p, elo, ehi):
    """range of a polynomial with error, 0 <= t <= 1 (scaled)"""
    return (p[0] + sum(min(c, 0) for c in p[1:]) + elo, p[0] + sum(max(c, 0) for c in p[1:]) + ehi)


class P(Abs):
    """for every input x >= a: a <= value-preserving lower value `at` (exact at x = a, value nondecreasing in x), value <= sum up[k] x^k"""
    __slots__ = ('up', 'at')

    def __init__(self, up, at):
        cap(at)
        self.up, self.at = up, at
        if at < 0 or any(c < 0 for c in up):
            raise Unsupported('a negative quantity')

    def __add__(self, o):
        Run.cur.op()
        if isint(o):
            if o < 0:
                raise Unsupported('subtraction')
            up = list(self.up)
            up[0] += o
            return P(up, self.at + o)
        n = max(len(self.up), len(o.up))
        return P([(self.up[i] if i < len(self.up) else 0) + (o.up[i] if i < len(o.up) else 0) for i in range(n)], self.at + o.at)

    __sub__ = _bad('subtraction')
    __rsub__ = _bad('subtraction')

    def __mul__(self, o):
        Run.cur.op()
        if isint(o):
            return P([c * o for c in self.up], self.at * o)
        if not isinstance(o, P):
            raise Unsupported('mixed values')
        n = len(self.up) + len(o.up) - 1
        if n > 80:
            raise Unsupported('degree')
        out = [Q(0)] * n
        for i, x in enumerate(self.up):
            for j, y in enumerate(o.up):
                out[i + j] += x * y
        return P(out, self.at * o.at)

    def __floordiv__(self, c):
        Run.cur.op()
        if not isint(c) or c <= 0:
            raise Unsupported('division')
        return P([Q(x) / c for x in self.up], self.at // c)

    def __rshift__(self, k):
        if not isint(k) or k < 0:
            raise Unsupported('shift')
        return self // (1 << k)

    def _cmp(self, *a):
        raise Unsupported('a comparison on the unbounded range')
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _cmp


class Cond:
    """an undecided test on an LV, for branch merging"""
    def __init__(self, v, lo_true, hi_true, lo_false, hi_false):
        self.v = v
        self.n = len(Run.cur.trace)
        Run.cur.trace.append(None)
        self.r = {True: (lo_true, hi_true), False: (lo_false, hi_false)}

    def __bool__(self):
        raise Split(self.n)


LB = 400                    # bits of the log2 error intervals


def log2_iv(n, d=1):
    lo, hi = ln_iv(n, d)
    a, b = ln2()
    l, h = lo / Q(b if lo >= 0 else a, 1 << W), hi / Q(a if hi >= 0 else b, 1 << W)
    return rdown(l), rup(h)


def rdown(q):
    return Q((q.numerator << LB) // q.denominator, 1 << LB)


def rup(q):
    return -rdown(-q)


class Aff:
    """affine form over symbols 'L' and bits (ints), constant and error interval, Fractions"""
    __slots__ = ('c', 'k', 'elo', 'ehi')

    def __init__(self, c, k, elo, ehi):
        self.c, self.k, self.elo, self.ehi = c, k, elo, ehi

    def scale(self, q):
        e = (self.elo * q, self.ehi * q)
        return Aff({s: v * q for s, v in self.c.items()}, self.k * q, min(e), max(e))

    def plus(self, o):
        c = dict(self.c)
        for s, v in o.c.items():
            c[s] = c.get(s, 0) + v
            if c[s] == 0:
                del c[s]
        return Aff(c, self.k + o.k, self.elo + o.elo, self.ehi + o.ehi)

    def merge(self, o, bit):
        """self where bit = 1, o where bit = 0; main parts may differ by a constant only"""
        if self.c != o.c:
            raise Unsupported('branches that cannot be merged')
        c = dict(o.c)
        d = self.k - o.k
        if d:
            c[bit] = c.get(bit, 0) + d
        return Aff(c, o.k, min(self.elo, o.elo), max(self.ehi, o.ehi))

    def bounds(self):
        """over bits in {0,1}; no L"""
        if 'L' in self.c:
            raise Unsupported('bound of an open form')
        return (self.k + self.elo + sum(min(v, 0) for v in self.c.values()),
                self.k + self.ehi + sum(max(v, 0) for v in self.c.values()))


class LV(RangeCmp):
    """a positive integer: range and log2 as an affine form (l is None when the input is a single number)"""
    __slots__ = ('l', '_lo', '_hi')

    def __init__(self, l, lo, hi):
        cap(lo, hi)
        self.l, self._lo, self._hi = l, lo, hi

    @property
    def lo(self):
        return max([self._lo] + [r[0] for v, r in Run.cur.assumed.values() if v is self])

    @property
    def hi(self):
        return min([self._hi] + [r[1] for v, r in Run.cur.assumed.values() if v is self])

    def _dec(self, f, o):
        Run.cur.op()
        if not isint(o):
            raise Unsupported('comparison')
        lo, hi = self.lo, self.hi
        a, b = f(lo, o), f(hi, o)
        if a == b:
            Run.cur.trace.append(a)
            return a
        # threshold: smallest value on the upper side
        t = o if f(o, o) == b else o + 1
        up, down = (t, hi), (lo, t - 1)
        return Cond(self, *(up if b else down), *(down if b else up))

    def __ge__(self, o): return self._dec(lambda v, c: v >= c, o)
    def __gt__(self, o): return self._dec(lambda v, c: v > c, o)
    def __le__(self, o): return self._dec(lambda v, c: v <= c, o)
    def __lt__(self, o): return self._dec(lambda v, c: v < c, o)

    def __mul__(self, o):
        Run.cur.op()
        if isint(o):
            if o <= 0:
                raise Unsupported('product')
            if self.l is None:
                return LV(None, self.lo * o, self.hi * o)
            lo, hi = log2_iv(o)
            if o & (o - 1) == 0:
                lo = hi = Q(o.bit_length() - 1)
            return LV(self.l.plus(Aff({}, lo, Q(0), hi - lo)), self.lo * o, self.hi * o)
        if not isinstance(o, LV):
            raise Unsupported('product')
        if self.l is None or o.l is None:
            return LV(None, self.lo * o.lo, self.hi * o.hi)
        return LV(self.l.plus(o.l), self.lo * o.lo, self.hi * o.hi)

    def __floordiv__(self, c):
        Run.cur.op()
        if not isint(c) or c <= 0:
            raise Unsupported('division')
        if c == 1:
            return self
        lo, hi = self.lo // c, self.hi // c
        if lo <= 0:
            # no logarithm: keep the range only
            return RV(lo, hi)
        if self.l is None:
            return LV(None, lo, hi)
        if c & (c - 1) == 0:
            k = Aff({}, Q(-(c.bit_length() - 1)), Q(0), Q(0))
        else:
            a, b = log2_iv(c)
            k = Aff({}, -b, Q(0), b - a)
        # floor(v/c) >= v/c - (c-1)/c, and floor(v/c) >= lo: log2 loses at most log2((lo+1)/lo)
        d = log2_iv(lo * c + c - 1, lo * c)[1]
        return LV(self.l.plus(k).plus(Aff({}, Q(0), -d, Q(0))), lo, hi)

    def __rshift__(self, k):
        if not isint(k) or k < 0:
            raise Unsupported('shift')
        return self // (1 << k)

    def __add__(self, o):
        return RV(self.lo, self.hi) + o

    def __sub__(self, o):
        return RV(self.lo, self.hi) - o


class RV(RangeCmp):
    """range only"""
    __slots__ = ('lo', 'hi')

    def __init__(self, lo, hi):
        cap(lo, hi)
        self.lo, self.hi = lo, hi

    def _r(self, o):
        if isint(o):
            return o, o
        if isinstance(o, (RV, LV, V)):
            return o.lo, o.hi
        raise Unsupported('mixed values')

    def __add__(self, o):
        a, b = self._r(o)
        return RV(self.lo + a, self.hi + b)

    def __sub__(self, o):
        a, b = self._r(o)
        return RV(self.lo - b, self.hi - a)

    def __mul__(self, o):
        return RV(*imul(self.lo, self.hi, *self._r(o)))

    def __floordiv__(self, c):
        if not isint(c) or c <= 0:
            raise Unsupported('division')
        return RV(self.lo // c, self.hi // c)

    def __rshift__(self, k):
        return self // (1 << k)


class A(Abs):
    """affine over bits (integers exactly), plus error interval"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    @staticmethod
    def of(x):
        if isinstance(x, A):
            return x.f
        if isint(x):
            return Aff({}, Q(x), Q(0), Q(0))
        raise Unsupported('mixed values')

    def __add__(self, o):
        Run.cur.op()
        return A(self.f.plus(A.of(o)))

    def __sub__(self, o):
        return A(self.f.plus(A.of(o).scale(-1)))

    def __rsub__(self, o):
        return A(A.of(o).plus(self.f.scale(-1)))

    def __mul__(self, o):
        Run.cur.op()
        if not isint(o):
            raise Unsupported('product')
        return A(self.f.scale(Q(o)))

    def __floordiv__(self, c):
        Run.cur.op()
        if not isint(c) or c <= 0:
            raise Unsupported('division')
        return A(self.f.scale(Q(1, c)).plus(Aff({}, Q(0), Q(-(c - 1), c), Q(0))))

    def __rshift__(self, k):
        return self // (1 << k)

    def __or__(self, o):
        """with a single bit that no value of the form can carry already"""
        f = self.f
        parts = [f.k] + list(f.c.values())
        if not isint(o) or o <= 0 or o & (o - 1) or f.elo or f.ehi or 'L' in f.c \
                or any(q.denominator != 1 for q in parts):
            raise Unsupported('or of an affine form')
        lo, hi = f.bounds()
        if all(q % (2 * o) == 0 for q in parts) or (0 <= lo and hi < o):
            return self + o
        raise Unsupported('or of an affine form')

    __ror__ = __or__

    def _cmp(self, *a):
        raise Unsupported('comparison of an affine form')
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _cmp


# ------------------------------------------------------------------ branch merging (source transformation)
def k_known(c):
    return not isinstance(c, Cond)


def k_enter(c, side):
    Run.cur.assumed[id(c)] = (c.v, c.r[side])


def k_leave(c):
    Run.cur.assumed.pop(id(c), None)


def k_freeze(xs):
    """values as they stand under the present assumptions"""
    return tuple(LV(x.l, x.lo, x.hi) if isinstance(x, LV) else x for x in xs)


def k_merge(c, s1, s0):
    r = Run.cur
    bit = r.nbits
    r.nbits += 1
    out = []
    for x, y in zip(s1, s0):
        if x is y:
            out.append(x)
        elif isinstance(x, LV) and isinstance(y, LV) and x.l is not None and y.l is not None:
            v = LV(x.l.merge(y.l, bit), min(x.lo, y.lo), max(x.hi, y.hi))
            r.constraints.append(v)
            out.append(v)
        elif isinstance(x, (A, int)) and isinstance(y, (A, int)):
            if isint(x) and isint(y) and x == y:
                out.append(x)
            else:
                out.append(A(A.of(x).merge(A.of(y), bit)))
        else:
            raise Unsupported('branches that cannot be merged')
    return tuple(out)


def _simple(body):
    names = set()
    if any(isinstance(n, ast.Call) for s in body for n in ast.walk(s)):
        return None                          # a helper's own branches are decided by splitting the domain
    for s in body:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for e in (t.elts if isinstance(t, ast.Tuple) else [t]):
                    if not isinstance(e, ast.Name):
                        return None
                    names.add(e.id)
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            names.add(s.target.id)
        elif isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            pass
        else:
            return None
    return names


class Merge(ast.NodeTransformer):
    """`if c: <assignments>` runs both sides and merges the assigned locals when c is undecided"""
    n = 0

    def visit_If(self, node):
        self.generic_visit(node)
        a, b = _simple(node.body), _simple(node.orelse)
        if a is None or b is None or not (a | b):
            return node
        import copy
        Merge.n += 1
        c, s0, s1 = (f'dvk_{x}{Merge.n}' for x in 'cst')
        names = sorted(a | b)
        tup = ', '.join(names) + ','
        mod = ast.parse(f'''
{c} = 0
if dvk_known({c}):
    if {c}:
        pass
else:
    {s0} = ({tup})
    dvk_enter({c}, True)
    pass
    {s1} = dvk_freeze(({tup}))
    dvk_leave({c})
    ({tup}) = {s0}
    dvk_enter({c}, False)
    pass
    {s0} = dvk_freeze(({tup}))
    dvk_leave({c})
    ({tup}) = dvk_merge({c}, {s1}, {s0})
''')
        asg, top = mod.body
        asg.value = node.test
        top.body[0].body = node.body
        top.body[0].orelse = node.orelse
        els = top.orelse
        i = [k for k, s in enumerate(els) if isinstance(s, ast.Pass)]
        els[i[1]:i[1] + 1] = copy.deepcopy(node.orelse)
        els[i[0]:i[0] + 1] = copy.deepcopy(node.body)
        return [ast.copy_location(asg, node), ast.copy_location(top, node)]


def load(repo, merge):
    """the real formula class, from source; merge: with branch merging in its methods"""
    import importlib
    import os
    import types
    from . import loader
    loader.setup()
    importlib.import_module('contracts.formula')
    f = os.path.join(repo, 'contracts', 'formula', 'fixed_map_formula.py')
    with open(f) as fh:
        tree = ast.parse(fh.read(), f)
    if merge:
        tree = Merge().visit(tree)
        ast.fix_missing_locations(tree)
    m = types.ModuleType('contracts.formula.dvk')
    m.__package__ = 'contracts.formula'
    m.__file__ = f
    m.__dict__.update(dvk_known=k_known, dvk_enter=k_enter, dvk_leave=k_leave, dvk_freeze=k_freeze, dvk_merge=k_merge)
    exec(compile(tree, f, 'exec', dont_inherit=True), m.__dict__)
    return m.FixedMapFormula


# ------------------------------------------------------------------ driver
def once(fn, a, b, make):
    """run fn on the cell -> (result, Run)"""
    r = Run.cur = Run(a, b)
    try:
        return fn(make(a, b)), r
    except (Split, Unsupported, KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        name = type(e).__name__
        if 'unsupported operand' in str(e) or isinstance(e, (AttributeError, NameError, RecursionError)):
            raise Unsupported(f'{name}: {e}')
        raise Refuted(f'{name}: {e}')


def decision(fn, x, n, make):
    r = None
    try:
        _, r = once(fn, x, x, make)
    except (Split, Refuted):
        r = Run.cur
    return r.trace[n] if n < len(r.trace) else 'gone'


def cells(fn, a, b, make, limit=4000):
    """cover [a, b] by cells on which every decision of fn is constant; yields (a, b, result, run)
    or (a, b, exception, None)"""
    todo = [(a, b)]
    n = 0
    while todo:
        a, b = todo.pop()
        n += 1
        if n > limit:
            yield a, b, Unsupported('too many cells'), None
            return
        try:
            res, run = once(fn, a, b, make)
            yield a, b, res, run
            continue
        except Split as s:
            k = s.n
        except (Unsupported, Refuted) as e:
            yield a, b, e, None
            continue
        if a == b:
            yield a, b, Unsupported('undecided at a single point'), None
            continue
        try:
            d = decision(fn, a, k, make)
            lo, hi = a, b                      # decision(lo) == d, (decision(hi) != d) expected
            if decision(fn, b, k, make) == d:
                m = (a + b) // 2
                todo += [(m + 1, b), (a, m)]
                continue
            while lo + 1 < hi:
                m = (lo + hi) // 2
                if decision(fn, m, k, make) == d:
                    lo = m
                else:
                    hi = m
            todo += [(hi, b), (a, lo)]
        except Unsupported as e:
            yield a, b, e, None
