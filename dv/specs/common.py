"""Shared pieces of the specifications."""
from ..logic import And, If, Iff, Implies, Not, Or, distinct, eq, isin, ne     # noqa: F401
from ..world import CallFailed, Env                                             # noqa: F401
from . import spec                                                              # noqa: F401

IRC = 'irc_token.irc_token:IRCToken'
FT = 'flexible_token.flexible_token:FlexibleToken'
ICX = 'icx_token.icx_token:IcxToken'
OWNED = 'utility.owned:Owned'
MANAGED = 'utility.managed:Managed'
HOLDER = 'utility.token_holder:TokenHolder'
CTRL = 'utility.flexible_token_controller:FlexibleTokenController'
REG = 'score_registry.score_registry:ScoreRegistry'
CONV = 'converter.converter:Converter'
NET = 'network.network:Network'

MILLION = 10 ** 6


def this(w, name='self'):
    """address of the SCORE under proof"""
    return w.addr(name, zero=False, contract=True)


def by_type(w, name, kind, prefix='arg'):
    """an arbitrary argument of the declared type"""
    n = f'{prefix}.{name}'
    if kind == 'int':
        return w.int(n)
    if kind == 'bool':
        return w.bool(n)
    if kind == 'str':
        return w.str(n)
    if kind == 'bytes':
        return w.bytes(n)
    if kind == 'addr':
        return w.addr(n, none=True)         # a transaction may carry null
    w.unsupported(f'argument type of {name}')


def any_args(w, path, method, given=None):
    """arbitrary arguments for every declared parameter -> (args, addresses among them)"""
    args, addrs = [], []
    for n, k, has_default in w.signature(path, method):
        if given and n in given:
            v = given[n]
        elif k == 'bytes' and path in (CONV, NET):
            v = w.data(f'arg.{n}', ('path', 'minReturn', 'for', 'toToken')).raw
        elif k == 'str' and path == NET:
            v = w.path_text(f'arg.{n}').raw
        else:
            v = by_type(w, n, k)
        if k == 'addr':
            addrs.append(v)
        args.append(v)
    return args, addrs


def observe(w, inst, q=None, skip=()):
    """every read-only getter the SCORE offers: no-argument ones, and one-address ones at q"""
    out = {}
    for m in sorted(w.externals(inst.path, readonly=True)):
        if m in skip:
            continue
        sig = w.signature(inst.path, m)
        if not sig:
            out[m] = w.view(inst, m)
        elif len(sig) == 1 and sig[0][1] == 'addr' and q is not None:
            out[m] = w.view(inst, m, q)
    return out


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and And(*[same(a[k], b[k]) for k in a]) if a or b else True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and (And(*[same(x, y) for x, y in zip(a, b)]) if a else True)
    return eq(a, b)


def unchanged(pre, post, but=()):
    return And(*[same(pre[k], post[k]) for k in pre if k not in but]) if pre else True


class Deaf(Env):
    """every other SCORE accepts every call and does nothing"""

    def unknown(self, w, inst, to, name, kw):
        return None


class Choosy(Env):
    """other SCOREs may accept or refuse (arbitrary, recorded) and answer anything"""

    def __init__(self):
        self.refused = False

    def unknown(self, w, inst, to, name, kw):
        w.require(w.fresh('accepts', 'bool'), 'refused')
        return None


class Anything(Env):
    """other SCOREs answer anything of the declared type (they are contracts; calling an account
    that is none dispatches nothing)"""
    assume_contracts = True
    ANSWERS = {'getOwner': 'addr', 'getNewOwner': 'addr', 'getAddress': 'addr', 'balanceOf': 'int',
               'totalSupply': 'int', 'getToken': 'addr'}

    def unknown(self, w, inst, to, name, kw):
        k = self.ANSWERS.get(name)
        if k is not None:
            return w.fresh('answer.' + name, k)
        if name == 'getReturn':
            return {'amount': w.fresh('answer.amount'), 'fee': w.fresh('answer.fee')}
        return None

    def icx(self, w, inst, to, amount):
        pass


SKIPVIEW = {CONV: ('isActive', 'getConnectorBalance')}
LABEL = {IRC: 'tok', FT: 'ft', ICX: 'icx', REG: 'reg', CONV: 'conv', NET: 'net', OWNED: 'owned', MANAGED: 'man',
         HOLDER: 'holder', CTRL: 'ctrl'}


def subject(w, path, env=None, lazy=True):
    if path == CONV:
        w.use_formula()
    inst = w.deploy(path, this(w), label=LABEL[path], lazy=lazy, nonneg=())
    w.env = env or Anything()
    if path == CONV and lazy:
        # set by installation and never unset (C35, C11)
        w.assume(And(ne(w.view(inst, 'getToken'), None), ne(w.view(inst, 'getRegistry'), None)))
    return inst
