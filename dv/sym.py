"""Symbolic values.  Anything not modelled raises Unsupported (never silently approximated)."""
import z3

from . import logic


class Unsupported(BaseException):
    """the verifier cannot interpret this operation; obligations become undecided, never 'violated'"""


class Engine:
    cur = None


def E():
    return Engine.cur


CONST_HASH = 0x51B0


def unsupported(what):
    raise Unsupported(what)


class SymBase:
    __slots__ = ()

    def __hash__(self):
        return CONST_HASH

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        unsupported(f'attribute {name} on {type(self).__name__}')

    def __format__(self, spec):
        return E().token(self)

    def __str__(self):
        return E().token(self)

    def __repr__(self):
        return E().token(self)

    def __index__(self):
        unsupported('index')

    def __iter__(self):
        unsupported('iter')

    def __len__(self):
        unsupported('len')

    def __contains__(self, x):
        unsupported('contains')

    def __getitem__(self, x):
        unsupported('getitem')


def _u(name):
    def f(self, *a):
        unsupported(f'{name} on {type(self).__name__}')
    f.__name__ = name
    return f


def ival(x):
    """z3 Int expression of an int-like value, or None"""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    return None


def rval(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, float):
        from fractions import Fraction
        f = Fraction(x)
        return z3.Q(f.numerator, f.denominator)
    i = ival(x)
    return None if i is None else z3.ToReal(i)


def bval(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymInt):
        return x.e != 0
    if isinstance(x, (bool, int)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SymAddr):
        return x.e != 0
    unsupported(f'truth of {type(x).__name__}')


def const_int(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return None


def mkint(e):
    """SymInt, or a plain int when the expression is a literal"""
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def s_and(xs):
    return mkbool(z3.simplify(z3.And(*[bval(x) for x in xs]), flat=True) if False else z3.And(*[bval(x) for x in xs]))


def s_or(xs):
    return SymBool(z3.Or(*[bval(x) for x in xs]))


def s_not(x):
    return SymBool(z3.Not(bval(x)))


def s_iff(a, b):
    return SymBool(bval(a) == bval(b))


def s_ite(c, a, b):
    c = bval(c)
    if isinstance(a, SymAddr) or isinstance(b, SymAddr) or a is None or b is None or \
            isinstance(a, ConcreteAddr) or isinstance(b, ConcreteAddr):
        return SymAddr(z3.If(c, aval(a), aval(b)))
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return SymBool(z3.If(c, bval(a), bval(b)))
    x, y = ival(a), ival(b)
    if x is None or y is None:
        unsupported('ite')
    return SymInt(z3.If(c, x, y))


def s_eq(a, b):
    if isinstance(a, SymAddr) or isinstance(b, SymAddr):
        x, y = aval(a), aval(b)
        if x is None or y is None:
            return False
        return SymBool(x == y)
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        x, y = sval(a), sval(b)
        return False if x is None or y is None else SymBool(x == y)
    if isinstance(a, SymBytes) or isinstance(b, SymBytes):
        x, y = byval(a), byval(b)
        return False if x is None or y is None else SymBool(x == y)
    r = (a == b)
    return r


# ---------------------------------------------------------------- integers
def floordiv(n, d):
    """Python floor division as an SMT term; d is known to be nonzero"""
    c = const_int(d)
    if c is not None:
        if c > 0:
            return n / d
        return (-n) / z3.IntVal(-c)
    if E().proves(d > 0):
        return n / d
    return z3.If(d > 0, n / d, (-n) / (-d))


def pymod(n, d):
    c = const_int(d)
    if c is not None and c > 0:
        return n % d
    return n - floordiv(n, d) * d


def _bitmask_run(m):
    """m = ((1<<k)-1) << s  ->  (s, k) else None"""
    if m <= 0:
        return None
    s = (m & -m).bit_length() - 1
    r = m >> s
    if r & (r + 1):
        return None
    return s, r.bit_length()


class SymInt(SymBase):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _bin(self, o, f, rev=False):
        y = ival(o)
        if y is None:
            if isinstance(o, (float, SymReal)):
                x, y = z3.ToReal(self.e), rval(o)
                return SymReal(f(y, x) if rev else f(x, y))
            raise LegitTypeError('unsupported operand')
        return mkint(f(y, self.e) if rev else f(self.e, y))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            unsupported('sequence repetition')
        return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            unsupported('sequence repetition')
        return self._bin(o, lambda a, b: a * b, True)
    def __neg__(self): return mkint(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.e >= 0, self.e, -self.e))
    def __invert__(self): return mkint(-self.e - 1)

    def _div(self, n, d, mod=False):
        if n is None or d is None:
            unsupported('division of non-int')
        c = const_int(d)
        if c == 0 or (c is None and E().fork(d == 0)):
            raise ZeroDivisionError('integer division or modulo by zero')
        return mkint(pymod(n, d) if mod else floordiv(n, d))

    def __floordiv__(self, o): return self._div(self.e, ival(o))
    def __rfloordiv__(self, o): return self._div(ival(o), self.e)
    def __mod__(self, o): return self._div(self.e, ival(o), True)
    def __rmod__(self, o):
        if isinstance(o, str):
            return E().token(self)
        return self._div(ival(o), self.e, True)
    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self
    __truediv__ = _u('truediv')
    __rtruediv__ = _u('rtruediv')

    def __pow__(self, o, m=None):
        if m is not None:
            unsupported('modular pow')
        n = const_int(ival(o))
        if n is None or n < 0 or n > 8:
            unsupported('pow with symbolic exponent')
        if n == 0:
            return 1
        r = self.e
        for _ in range(n - 1):
            r = r * self.e
        return mkint(r)

    def __rpow__(self, o, m=None):
        b = const_int(ival(o))
        if b is None or m is not None:
            unsupported('pow')
        return E().ipow(b, self.e)

    def __lshift__(self, o): return self._shift(self.e, o, True)
    def __rshift__(self, o): return self._shift(self.e, o, False)
    def __rlshift__(self, o): return self._shift(ival(o), self, True)
    def __rrshift__(self, o): return self._shift(ival(o), self, False)

    def _shift(self, n, s, left):
        k = const_int(ival(s))
        if k is None:
            if E().fork(ival(s) < 0):
                raise ValueError('negative shift count')
            p = ival(E().ipow(2, ival(s)))
        else:
            if k < 0:
                raise ValueError('negative shift count')
            p = z3.IntVal(1 << k)
        return mkint(n * p) if left else mkint(n / p)

    def __and__(self, o):
        m = const_int(ival(o))
        if m == 0:
            return 0
        r = None if m is None else _bitmask_run(m)
        if r is None:
            unsupported('bitand')
        s, k = r
        return mkint(((self.e / z3.IntVal(1 << s)) % z3.IntVal(1 << k)) * z3.IntVal(1 << s))
    __rand__ = __and__

    def __or__(self, o):
        # only when provably disjoint single bit above/below: a | 2^k
        m = const_int(ival(o))
        if m is None or m < 0:
            unsupported('bitor')
        r = self
        out = self
        k = 0
        while m:
            if m & 1:
                bit = 1 << k
                out = out + mkint(z3.If((r.e / z3.IntVal(bit)) % 2 == 0, z3.IntVal(bit), z3.IntVal(0)))
            m >>= 1
            k += 1
        return out
    __ror__ = __or__
    __xor__ = _u('xor')
    __rxor__ = _u('rxor')

    def _cmp(self, o, f):
        y = ival(o)
        if y is None:
            if isinstance(o, (float, SymReal)):
                return SymBool(f(z3.ToReal(self.e), rval(o)))
            return NotImplemented
        return mkbool(f(self.e, y))

    def __lt__(self, o): return _ordered(self._cmp(o, lambda a, b: a < b))
    def __le__(self, o): return _ordered(self._cmp(o, lambda a, b: a <= b))
    def __gt__(self, o): return _ordered(self._cmp(o, lambda a, b: a > b))
    def __ge__(self, o): return _ordered(self._cmp(o, lambda a, b: a >= b))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    __hash__ = SymBase.__hash__

    def __bool__(self):
        return E().fork(self.e != 0)

    def __index__(self):
        v = E().unique_value(self.e)
        if v is None:
            unsupported('symbolic index')
        return v

    def __int__(self):
        unsupported('native int()')

    def __getattr__(self, name):
        if name in ('bit_length', 'to_bytes', 'real', 'imag', 'numerator', 'denominator', 'conjugate'):
            unsupported(f'int.{name}')
        raise LegitAttributeError(f"'int' object has no attribute '{name}'")


def _ordered(r):
    if r is NotImplemented:
        raise LegitTypeError('ordering comparison of unrelated types')
    return r


class LegitTypeError(TypeError):
    """the TypeError CPython would raise on the modelled values (not an engine limitation)"""


class LegitAttributeError(AttributeError):
    pass


class LegitKeyError(KeyError):
    pass


class SymReal(SymBase):
    """a non-integral JSON number; only ordering is modelled"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _cmp(self, o, f):
        y = rval(o)
        if y is None:
            return NotImplemented
        return SymBool(f(self.e, y))

    def __lt__(self, o): return _ordered(self._cmp(o, lambda a, b: a < b))
    def __le__(self, o): return _ordered(self._cmp(o, lambda a, b: a <= b))
    def __gt__(self, o): return _ordered(self._cmp(o, lambda a, b: a > b))
    def __ge__(self, o): return _ordered(self._cmp(o, lambda a, b: a >= b))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    __hash__ = SymBase.__hash__

    def __getattr__(self, name):
        if name in ('is_integer', 'hex', 'as_integer_ratio', 'real', 'imag', 'conjugate') or \
                name.startswith('__') and name.endswith('__'):
            return SymBase.__getattr__(self, name)
        raise LegitAttributeError(f"'float' object has no attribute '{name}'")

    for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'floordiv', 'rfloordiv', 'mod', 'rmod',
               'truediv', 'rtruediv', 'pow', 'rpow', 'neg', 'bool'):
        locals()[f'__{_n}__'] = _u(_n)
    del _n


class SymBool(SymBase):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E().fork(self.e)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.e == bval(o))
        if isinstance(o, (int, SymInt)):
            return SymInt(ival(self)) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return s_not(r) if isinstance(r, SymBase) else not r

    __hash__ = SymBase.__hash__

    def __and__(self, o):
        return s_and([self, o]) if isinstance(o, (bool, SymBool)) else SymInt(ival(self)) & o
    __rand__ = __and__

    def __or__(self, o):
        return s_or([self, o]) if isinstance(o, (bool, SymBool)) else SymInt(ival(self)) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(z3.Xor(self.e, bval(o)))
        unsupported('xor')
    __rxor__ = __xor__

    def __invert__(self):
        return ~SymInt(ival(self))

    def _i(self):
        return SymInt(ival(self))

    def __getattr__(self, name):
        if name in ('bit_length', 'to_bytes', 'real', 'imag', 'numerator', 'denominator', 'conjugate') or \
                name.startswith('__') and name.endswith('__'):
            return SymBase.__getattr__(self, name)
        raise LegitAttributeError(f"'bool' object has no attribute '{name}'")

    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o

    def __index__(self):
        return 1 if bool(self) else 0


# ---------------------------------------------------------------- addresses
class ConcreteAddr:
    """never instantiated in symbolic mode; placeholder for isinstance checks"""


def aval(x):
    if isinstance(x, SymAddr):
        return x.e
    if x is None:
        return z3.IntVal(0)
    return None


class SymAddr(SymBase):
    """an ICON address (or None): code 0 is None, code 1 is the zero SCORE address"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        y = aval(o)
        if y is None:
            return False
        return mkbool(z3.simplify(self.e == y))

    def __ne__(self, o):
        r = self.__eq__(o)
        return s_not(r) if isinstance(r, SymBase) else not r

    __hash__ = SymBase.__hash__

    def _not_none(self, what):
        if E().fork(self.e == 0):
            raise LegitAttributeError(f"'NoneType' object has no attribute '{what}'")

    @property
    def is_contract(self):
        self._not_none('is_contract')
        return SymBool(E().is_contract(self.e))

    @property
    def prefix(self):
        self._not_none('prefix')
        return SymPrefix(E().is_contract(self.e))

    @property
    def body(self):
        self._not_none('body')
        unsupported('address body')

    def to_bytes(self):
        self._not_none('to_bytes')
        return SymCat([('addr', self)])

    def __bool__(self):
        return E().fork(self.e != 0)

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        unsupported(f'attribute {name} on an address')


class SymPrefix(SymBase):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if getattr(o, 'name', None) == 'CONTRACT' or o == 1:
            return SymBool(self.e)
        if getattr(o, 'name', None) == 'EOA' or o == 0:
            return SymBool(z3.Not(self.e))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return s_not(r) if isinstance(r, SymBase) else not r

    __hash__ = SymBase.__hash__


# ---------------------------------------------------------------- byte strings used as db keys
class SymCat(SymBase):
    """concatenation of concrete bytes and address encodings (database prefixes)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, bytes):
                if not p:
                    continue
                if out and isinstance(out[-1], bytes):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = out

    @staticmethod
    def of(x):
        if isinstance(x, SymCat):
            return x
        if isinstance(x, (bytes, bytearray)):
            return SymCat([bytes(x)])
        unsupported('bytes concatenation')

    def __add__(self, o):
        return SymCat(self.parts + SymCat.of(o).parts)

    def __radd__(self, o):
        return SymCat(SymCat.of(o).parts + self.parts)

    def __eq__(self, o):
        unsupported('comparison of encoded bytes')

    __hash__ = SymBase.__hash__


# ---------------------------------------------------------------- strings and bytes (attacker data)
def sval(x):
    if isinstance(x, SymStr):
        return x.e
    if isinstance(x, str):
        return z3.IntVal(E().intern('str', x))
    if x is None:
        return z3.IntVal(0)
    return None


def byval(x):
    if isinstance(x, SymBytes):
        return x.e
    if isinstance(x, (bytes, bytearray)):
        return z3.IntVal(E().intern('bytes', bytes(x)))
    if x is None:
        return z3.IntVal(0)
    return None


def _affix(code, p, which):
    """does the byte string with this code start (end) with p: an uninterpreted predicate, exact on known constants"""
    if isinstance(p, tuple):
        return logic.Or(*[_affix(code, x, which) for x in p]) if p else False
    if not isinstance(p, (bytes, bytearray)):
        unsupported(f'{which} of a symbolic value')
    p = bytes(p)
    en = E()
    if not p:
        return True
    r = en.facet(f'{which}.{p.hex()}', code, z3.BoolSort())
    en.intern('bytes', b'')
    en.intern('bytes', p)
    for b, c in list(en.interned['bytes'].items()):
        en.add(z3.Implies(code == c, r == getattr(b, which)(p)))
    if which == 'startswith':
        h = p.lstrip(b' \t\r\n')[:1]
        if h and h not in b'{["-0123456789tfnNI':
            en.add(z3.Implies(r, z3.Not(en.facet('json', code, z3.BoolSort()))))
        elif h and h != b'{':
            en.add(z3.Implies(r, z3.Not(en.facet('dict', code, z3.BoolSort()))))
    return mkbool(r)


class SymStr(SymBase):
    """an uninterpreted string; equality with other strings is all that is modelled"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        y = sval(o)
        return False if y is None else mkbool(self.e == y)

    def __ne__(self, o):
        r = self.__eq__(o)
        return s_not(r) if isinstance(r, SymBase) else not r

    __hash__ = SymBase.__hash__

    def __lt__(self, o): return _text_order(self, o)
    def __le__(self, o): return _text_order(self, o)
    def __gt__(self, o): return _text_order(self, o)
    def __ge__(self, o): return _text_order(self, o)

    def __bool__(self):
        return E().fork(z3.And(self.e != 0, self.e != E().intern('str', '')))

    def encode(self, *a, **k):
        return SymBytes(E().uf('str_utf8', [z3.IntSort()], z3.IntSort())(self.e))


class SymBytes(SymBase):
    """arbitrary bytes (or None: code 0); decoding and JSON structure are uninterpreted facets"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        y = byval(o)
        return False if y is None else mkbool(self.e == y)

    def __ne__(self, o):
        r = self.__eq__(o)
        return s_not(r) if isinstance(r, SymBase) else not r

    __hash__ = SymBase.__hash__

    def __bool__(self):
        return E().fork(z3.And(self.e != 0, self.e != E().intern('bytes', b'')))

    def _some(self, name):
        if E().fork(self.e == 0):
            raise LegitAttributeError(f"'NoneType' object has no attribute '{name}'")

    def startswith(self, p):
        self._some('startswith')
        return _affix(self.e, p, 'startswith')

    def endswith(self, p):
        self._some('endswith')
        return _affix(self.e, p, 'endswith')

    def __dv_len__(self):
        en = E()
        if en.fork(self.e == 0):
            raise LegitTypeError("object of type 'NoneType' has no len()")
        n = en.facet('len', self.e, z3.IntSort())
        en.add(n >= 0)
        en.add((n == 0) == (self.e == en.intern('bytes', b'')))
        for b, c in list(en.interned['bytes'].items()):
            en.add(z3.Implies(self.e == c, n == len(b)))
        return SymInt(n)

    def decode(self, encoding='utf-8', *a, **k):
        self._some('decode')
        if str(encoding).lower().replace('_', '-') not in ('utf-8', 'utf8'):
            unsupported('decode with another codec')
        E().data_axioms(self.e)
        if not E().fork(E().facet('utf8', self.e, z3.BoolSort())):
            raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid start byte')
        return SymText(self.e)


def _text_order(self, o):
    if isinstance(o, (str, SymStr, SymText, SymAddrText, SymPathText)):
        unsupported('ordering of text')
    raise LegitTypeError("'<' not supported between instances of 'str' and this type")


class TextBase(SymBase):
    __slots__ = ()
    __lt__ = __le__ = __gt__ = __ge__ = _text_order

    def __add__(self, o):
        if isinstance(o, (int, float, SymInt, SymBool, SymReal)) or o is None:
            raise LegitTypeError('can only concatenate str')
        unsupported('concatenation of text')
    __radd__ = __add__

    def __eq__(self, o):
        if o is None or isinstance(o, (int, float, bytes, SymInt, SymBool, SymReal, SymAddr, SymBytes)):
            return False
        unsupported('comparison of text')

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = SymBase.__hash__


class SymText(TextBase):
    """decoded attacker-controlled text, to be parsed as JSON"""
    __slots__ = ('code',)

    def __init__(self, code):
        self.code = code

    __hash__ = SymBase.__hash__

    def __eq__(self, o):
        if isinstance(o, str):
            return mkbool(self.code == E().intern('bytes', o.encode()))
        return TextBase.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return s_not(r) if isinstance(r, SymBase) else not r

    def startswith(self, p):
        return _affix(self.code, tuple(x.encode() for x in p) if isinstance(p, tuple) else p.encode(), 'startswith')

    def endswith(self, p):
        return _affix(self.code, tuple(x.encode() for x in p) if isinstance(p, tuple) else p.encode(), 'endswith')

    def encode(self, encoding='utf-8', *a):
        if str(encoding).lower().replace('_', '-') not in ('utf-8', 'utf8'):
            unsupported('encode with another codec')
        return SymBytes(self.code)

    def strip(self):
        unsupported('strip of JSON text')


class SymJson(SymBase):
    """parsed JSON object (kind dict)"""
    __slots__ = ('code',)

    def __init__(self, code):
        self.code = code

    __hash__ = SymBase.__hash__

    def _has(self, k):
        return E().fork(E().facet(f'has.{k}', self.code, z3.BoolSort()))

    def __contains__(self, k):
        return self._has(k)

    def __getitem__(self, k):
        if not isinstance(k, str):
            raise LegitKeyError(k)
        if not self._has(k):
            raise LegitKeyError(k)
        return E().json_member(self.code, k)

    def get(self, k, d=None):
        return self[k] if self._has(k) else d


class SymJsonOther(SymBase):
    """a JSON value the contracts have no legal use for (list, bool, ...)"""
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what

    __hash__ = SymBase.__hash__

    def __getitem__(self, k):
        raise LegitTypeError('indices must be integers')

    def __contains__(self, k):
        unsupported('membership in a JSON list')

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        raise LegitAttributeError(name)

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    def __lt__(self, o): raise LegitTypeError('<')
    def __le__(self, o): raise LegitTypeError('<=')
    def __gt__(self, o): raise LegitTypeError('>')
    def __ge__(self, o): raise LegitTypeError('>=')
    __bool__ = _u('bool')


class SymAddrText(TextBase):
    """text supposed to denote one address: valid flag, address, surrounding-whitespace flag"""
    __slots__ = ('ok', 'addr', 'ws')

    def __init__(self, ok, addr, ws):
        self.ok, self.addr, self.ws = ok, addr, ws

    __hash__ = SymBase.__hash__

    def strip(self, *a):
        return SymAddrText(self.ok, self.addr, z3.BoolVal(False))

    def split(self, *a):
        return SymPathText([self]).split(*a)

    def __len__(self):
        return 42


class SymPathText(TextBase):
    """comma separated address texts"""
    __slots__ = ('elems',)

    def __init__(self, elems):
        self.elems = elems

    __hash__ = SymBase.__hash__

    def split(self, sep=None, *a):
        if sep != ',' or a:
            unsupported('split of a path by something else')
        return self.elems if isinstance(self.elems, SymSeq) else list(self.elems)

    def strip(self, *a):
        unsupported('strip of a path')

    def __len__(self):
        unsupported('length of path text')


class SymSeq(SymBase):
    """a sequence of symbolic length (>= minlen), element i given by a function"""
    __slots__ = ('n', 'get', 'minlen')

    def __init__(self, n, get, minlen):
        self.n, self.get, self.minlen = n, get, minlen

    __hash__ = SymBase.__hash__

    def map(self, f):
        return SymSeq(self.n, lambda i: f(self.get(i)), self.minlen)

    def __getitem__(self, i):
        if isinstance(i, int) and 0 <= i < self.minlen:
            return self.get(i)
        unsupported('index into a sequence of unknown length')

    def __iter__(self):
        E().bounded('sequence of unknown length cut at %d' % (self.minlen + 1))
        if E().fork(ival(self.n) == self.minlen):
            k = self.minlen
        else:
            E().assume_raw(ival(self.n) == self.minlen + 1)
            k = self.minlen + 1
        return iter([self.get(i) for i in range(k)])

    def __len__(self):
        v = E().unique_value(ival(self.n))
        if v is None:
            unsupported('native len of an unbounded sequence')
        return v


class SymSet(SymBase):
    """set of symbolic elements; cardinality is an arithmetic term (no path explosion)"""
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = list(items)

    __hash__ = SymBase.__hash__

    def add(self, x):
        self.items.append(x)

    def update(self, xs):
        self.items.extend(xs)

    def __contains__(self, x):
        r = logic.Or(*[logic.eq(x, y) for y in self.items]) if self.items else False
        return bool(r)

    def card(self):
        tot = 0
        for i, x in enumerate(self.items):
            fresh = logic.And(*[logic.ne(x, y) for y in self.items[:i]]) if i else True
            tot = tot + logic.If(fresh, 1, 0)
        return tot

    def __len__(self):
        c = self.card()
        return c if isinstance(c, int) else unsupported('native len of symbolic set')

    def __bool__(self):
        return bool(self.items)

    def __eq__(self, o):
        unsupported('set comparison')


logic.SYM = __import__('sys').modules[__name__]
