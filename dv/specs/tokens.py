from .common import *

SKIP = ()


def token(w, path, label='tok'):
    return w.deploy(path, this(w), label=label, nonneg=('*',))


def distinct_sum(xs, f):
    """sum of f over the distinct members of xs"""
    tot = 0
    for i, x in enumerate(xs):
        tot = tot + (If(And(*[ne(x, y) for y in xs[:i]]), f(x), 0) if i else f(x))
    return tot


class Conserve(Env):
    """checks, at every call out, that the ledger is balanced; then lets the callee re-enter
    arbitrarily (havoc, invariant re-established)"""

    def __init__(self, tok, parties, q):
        self.tok, self.parties, self.q = tok, parties, q
        self.n = 0

    def base(self, w):
        self.s0 = w.view(self.tok, 'totalSupply')
        self.b0 = [w.view(self.tok, 'balanceOf', a) for a in self.parties]
        self.q0 = w.view(self.tok, 'balanceOf', self.q)
        # consequences of: supply is the sum of all balances, no balance is negative
        w.assume(self.s0 >= distinct_sum(self.parties, lambda a: w.view(self.tok, 'balanceOf', a)))
        w.assume(And(*[b >= 0 for b in self.b0], self.q0 >= 0))

    def check(self, w, when):
        s1 = w.view(self.tok, 'totalSupply')
        b1 = [w.view(self.tok, 'balanceOf', a) for a in self.parties]
        q1 = w.view(self.tok, 'balanceOf', self.q)
        delta = 0
        for i, a in enumerate(self.parties):
            d = b1[i] - self.b0[i]
            delta = delta + (If(And(*[ne(a, y) for y in self.parties[:i]]), d, 0) if i else d)
        w.ensure(f'{when}: supply moves with the sum of balances', eq(s1 - self.s0, delta))
        w.ensure(f'{when}: holders not involved keep their balance',
                 Or(isin(self.q, self.parties), eq(q1, self.q0)))
        w.ensure(f'{when}: no balance is negative', And(*[b >= 0 for b in b1], q1 >= 0, s1 >= 0))

    def unknown(self, w, inst, to, name, kw):
        self.check(w, 'at a call out')
        self.n += 1
        w.havoc(self.tok, f'r{self.n}')
        self.base(w)
        w.require(w.fresh('accepts', 'bool'), 'refused')
        return None

    def icx(self, w, inst, to, amount):
        self.unknown(w, inst, to, 'icx', {})


def conservation(w, path, method):
    tok = token(w, path)
    sender = w.addr('sender')
    args, addrs = any_args(w, path, method)
    q = w.addr('q')
    value = w.int('value', 0) if w.is_payable(tok, method) else 0
    # nobody is no holder
    env = w.env = Conserve(tok, [sender, tok.address] + [a for a in addrs if w.branch(ne(a, None))], q)
    env.base(w)
    o = w.call(tok, method, *args, sender=sender, value=value)
    if o.ok:
        w.cover('succeeds')
        env.check(w, 'afterwards')


def _conservation_all(path):
    def run(w):
        ms = [m for m in w.entries(path)]
        m = w.choose('method', ms)
        w.cover('method ' + m)
        conservation(w, path, m)
    return run


for _p, _n in ((IRC, 'IRCToken'), (FT, 'FlexibleToken'), (ICX, 'IcxToken')):
    spec('C01', name=f'conservation by every operation of {_n}', covers=('succeeds',))(_conservation_all(_p))


@spec('C01', name='fallback deposit conserves', covers=('succeeds',))
def fallback_conserves(w):
    tok = token(w, ICX)
    sender, q = w.addr('sender'), w.addr('q')
    env = w.env = Conserve(tok, [sender, tok.address], q)
    env.base(w)
    o = w.call(tok, 'fallback', sender=sender, value=w.int('value', 0), fallback=True)
    if o.ok:
        w.cover('succeeds')
        env.check(w, 'afterwards')


@spec('C01', name='genesis', covers=('installed', 'refused'),
      cases={'IRCToken': {'path': IRC}, 'FlexibleToken': {'path': FT}, 'IcxToken': {'path': ICX, 'covers': ('installed',)}})
def genesis(w, path):
    tok = w.deploy(path, this(w), label='tok', lazy=False)
    sender, q = w.addr('sender'), w.addr('q')
    w.env = Deaf()
    if path == ICX:
        o = w.call(tok, 'on_install', sender=sender, install=True)
        want, supply_ok, dec = 0, True, 18
    else:
        init, dec = w.int('initial', hints=(0, 5, -1, 10 ** 9)), w.int('decimals', -5, 400, hints=(0, 1, 18, -1, 3))
        name, sym = w.str('name'), w.str('symbol')
        o = w.call(tok, 'on_install', sender=sender, install=True,
                   kwargs={'_name': name, '_symbol': sym, '_initialSupply': init, '_decimals': dec})
        supply_ok = And(init >= 0, dec >= 0)
        w.ensure('genesis accepted exactly for a non-negative initial supply and decimals', Iff(o.ok, supply_ok))
        if o.ok:
            want = init * w.pow(10, dec)
            w.ensure('name and symbol recorded', And(eq(w.view(tok, 'name'), name), eq(w.view(tok, 'symbol'), sym)))
    if o.ok:
        w.cover('installed')
        w.ensure('supply is initial * 10^decimals', eq(w.view(tok, 'totalSupply'), want))
        w.ensure('decimals recorded', eq(w.view(tok, 'decimals'), dec))
        w.ensure('the deployer holds the whole supply', eq(w.view(tok, 'balanceOf', sender), want))
        w.ensure('everybody else holds nothing', Or(eq(q, sender), eq(w.view(tok, 'balanceOf', q), 0)))
    else:
        w.cover('refused')


# ------------------------------------------------------------------ C02 transfer
class Receiver(Env):
    """the recipient contract: sees the finished transfer, may re-enter, accept or refuse"""

    def __init__(self, tok, q, expect):
        self.tok, self.q, self.expect = tok, q, expect
        self.hooks = []
        self.mid = None
        self.refused = None

    def x_tokenFallback(self, w, inst, to, _from, _value, _data):
        self.hooks.append((to, _from, _value, _data))
        w.ensure('balances are final before the recipient is called',
                 And(eq(w.view(self.tok, 'balanceOf', self.q), self.expect['bal']),
                     eq(w.view(self.tok, 'totalSupply'), self.expect['supply'])))
        w.havoc(self.tok, f'r{len(self.hooks)}')
        self.mid = observe(w, self.tok, self.q)
        self.refused = Not(w.fresh('accepts', 'bool'))
        w.require(Not(self.refused), 'refused')


def _transfer(w, path, default_data):
    tok = token(w, path)
    s, to, v, q = w.addr('sender'), w.addr('to', none=True), w.int('value'), w.addr('q')
    args = [to, v]
    if not default_data:
        data = w.bytes('data')
        args.append(data)
    else:
        data = b'None'
    pre = observe(w, tok, q)
    bs = w.view(tok, 'balanceOf', s)
    allowed = pre['getTransferPossibility'] if path == FT else ne(to, tok.address) if path == ICX else True
    guard = And(v >= 0, v <= bs, allowed, ne(to, None))
    exp = {'bal': pre['balanceOf'] - If(eq(q, s), v, 0) + If(eq(q, to), v, 0), 'supply': pre['totalSupply']}
    env = w.env = Receiver(tok, q, exp)
    o = w.call(tok, 'transfer', *args, sender=s)
    if not o.ok:
        w.cover('refused', Not(guard))
        w.ensure('a covered transfer is refused only by its recipient',
                 Or(Not(guard), False if env.refused is None else env.refused))
        return
    w.cover('done')
    w.ensure('only a covered, allowed, non-negative transfer goes through', guard)
    post = observe(w, tok, q)
    if env.mid is None:
        w.ensure('exactly the amount moves from sender to recipient', eq(post['balanceOf'], exp['bal']))
        w.ensure('nothing else changes', unchanged(pre, post, ('balanceOf',)))
    else:
        w.cover('done via hook')
        w.ensure('no state is written after the recipient was called', unchanged(env.mid, post))
    w.ensure('the recipient hook runs exactly once for a contract, never otherwise',
             If(w.is_contract(to), eq(len(env.hooks), 1), eq(len(env.hooks), 0)))
    for (t, f, x, d) in env.hooks:
        w.ensure('the hook is told the truth', And(eq(t, to), eq(f, s), eq(x, v), eq(d, data)))
    ev = o.event('Transfer')
    w.ensure('one Transfer event with the true parties, amount and data',
             len(ev) == 1 and And(eq(ev[0].args[0], s), eq(ev[0].args[1], to), eq(ev[0].args[2], v),
                                  eq(ev[0].args[3], data)))
    w.ensure('no other call is made', len(o.calls()) == len(env.hooks) and not o.icx())


for _p, _n in ((IRC, 'IRCToken'), (FT, 'FlexibleToken'), (ICX, 'IcxToken')):
    for _d in (True, False):
        spec('C02', name=f'transfer of {_n}{"" if not _d else " without data"}',
             covers=('done', 'done via hook', 'refused'))(
            lambda w, p=_p, d=_d: _transfer(w, p, d))


# ------------------------------------------------------------------ C03 issue / destroy
@spec('C03', name='issue', covers=('issued', 'refused'))
def issue(w):
    tok = token(w, FT)
    s, to, v, q = w.addr('sender'), w.addr('to', none=True), w.int('value'), w.addr('q')
    pre = observe(w, tok, q)
    w.env = Choosy()
    guard = And(eq(s, pre['getOwner']), v > 0, ne(to, None), ne(to, w.zero()), ne(to, tok.address))
    o = w.call(tok, 'issue', to, v, sender=s)
    w.ensure('issuing succeeds exactly for the owner, a positive amount and a proper recipient', Iff(o.ok, guard))
    if not o.ok:
        w.cover('refused')
        return
    w.cover('issued')
    post = observe(w, tok, q)
    w.ensure('recipient credited exactly', eq(post['balanceOf'], pre['balanceOf'] + If(eq(q, to), v, 0)))
    w.ensure('supply grows exactly', eq(post['totalSupply'], pre['totalSupply'] + v))
    w.ensure('nothing else changes', unchanged(pre, post, ('balanceOf', 'totalSupply')))
    i, t = o.event('Issuance'), o.event('Transfer')
    w.ensure('events tell the issue', len(i) == 1 and len(t) == 1 and And(
        eq(i[0].args[0], v), eq(t[0].args[0], tok.address), eq(t[0].args[1], to), eq(t[0].args[2], v)))
    w.ensure('no call out', not o.calls() and not o.icx())


@spec('C03', name='destroy', covers=('destroyed', 'refused', 'by owner'))
def destroy(w):
    tok = token(w, FT)
    s, frm, v, q = w.addr('sender'), w.addr('from', none=True), w.int('value'), w.addr('q')
    pre = observe(w, tok, q)
    bf = w.view(tok, 'balanceOf', frm) if w.branch(ne(frm, None)) else 0
    w.env = Choosy()
    guard = And(Or(eq(s, frm), eq(s, pre['getOwner'])), v > 0, v <= bf)
    o = w.call(tok, 'destroy', frm, v, sender=s)
    w.ensure('destroying succeeds exactly for the holder or the owner, within the balance', Iff(o.ok, guard))
    if not o.ok:
        w.cover('refused')
        return
    w.cover('destroyed')
    w.cover('by owner', ne(s, frm))
    post = observe(w, tok, q)
    w.ensure('holder debited exactly', eq(post['balanceOf'], pre['balanceOf'] - If(eq(q, frm), v, 0)))
    w.ensure('supply shrinks exactly', eq(post['totalSupply'], pre['totalSupply'] - v))
    w.ensure('nothing else changes', unchanged(pre, post, ('balanceOf', 'totalSupply')))
    i, t = o.event('Destruction'), o.event('Transfer')
    w.ensure('events tell the destruction', len(i) == 1 and len(t) == 1 and And(
        eq(i[0].args[0], v), eq(t[0].args[0], frm), eq(t[0].args[1], tok.address), eq(t[0].args[2], v)))
    w.ensure('no call out', not o.calls() and not o.icx())


def _only_these(w, path, fields, allowed):
    """no operation outside `allowed` changes any of the getters `fields`"""
    ms = [m for m in w.entries(path) if m not in allowed]
    m = w.choose('method', ms)
    inst = w.deploy(path, this(w), label='tok', nonneg=('*',))
    s, q = w.addr('sender'), w.addr('q')
    args, _ = any_args(w, path, m)
    value = w.int('value', 0) if w.is_payable(inst, m) else 0
    w.env = Deaf()
    pre = {f: w.view(inst, f) for f in fields}
    o = w.call(inst, m, *args, sender=s, value=value)
    if o.ok:
        w.cover('succeeds')
        post = {f: w.view(inst, f) for f in fields}
        w.ensure(f'no other operation changes {", ".join(fields)}', unchanged(pre, post))


@spec('C03', name='nothing else mints or burns', covers=('succeeds',))
def supply_frame(w):
    _only_these(w, FT, ['totalSupply'], ('issue', 'destroy'))


@spec('C03', name='nothing else mints or burns (plain token)', covers=('succeeds',))
def supply_frame_irc(w):
    _only_these(w, IRC, ['totalSupply'], ())


# ------------------------------------------------------------------ C04 transfer lock
@spec('C04', name='lock switch', covers=('locked', 'unlocked', 'refused'))
def lock_switch(w):
    tok = token(w, FT)
    s, q, d = w.addr('sender'), w.addr('q'), w.bool('disable')
    pre = observe(w, tok, q)
    w.env = Choosy()
    o = w.call(tok, 'disableTransfer', d, sender=s)
    w.ensure('exactly the owner can switch', Iff(o.ok, eq(s, pre['getOwner'])))
    if not o.ok:
        w.cover('refused')
        return
    post = observe(w, tok, q)
    w.cover('locked', d)
    w.cover('unlocked', Not(d))
    w.ensure('the switch takes effect', Iff(post['getTransferPossibility'], Not(d)))
    w.ensure('nothing else changes', unchanged(pre, post, ('getTransferPossibility',)))


@spec('C04', name='a locked token refuses every transfer', covers=('locked', 'open'))
def locked(w):
    tok = token(w, FT)
    s, to, v, q = w.addr('sender'), w.addr('to', none=True), w.int('value'), w.addr('q')
    w.env = Deaf()
    pre = observe(w, tok, q)
    o = w.call(tok, 'transfer', to, v, sender=s)
    w.cover('locked', Not(pre['getTransferPossibility']))
    if o.ok:
        w.cover('open')
        w.ensure('transfers only go through while allowed', pre['getTransferPossibility'])


@spec('C04', name='only the switch changes the lock', covers=('succeeds',))
def lock_frame(w):
    _only_these(w, FT, ['getTransferPossibility'], ('disableTransfer',))


@spec('C04', name='a locked token still lets the owner issue and holders destroy', covers=('moved',))
def locked_issue(w):
    tok = token(w, FT)
    s, a, v, q = w.addr('sender'), w.addr('to', zero=True), w.int('value'), w.addr('q')
    w.env = Deaf()
    m = w.choose('method', ['issue', 'destroy'])
    pre = observe(w, tok, q)
    b = w.view(tok, 'balanceOf', a)
    w.assume(Not(pre['getTransferPossibility']))
    o = w.call(tok, m, a, v, sender=s)
    w.cover('moved', o.ok)
    w.assume(And(v > 0, eq(s, pre['getOwner']), ne(a, w.zero()), ne(a, tok.address), Or(m == 'issue', b >= v)))
    w.ensure('the lock does not block issue and destroy', o.ok)


@spec('C04', name='a new token is transferable', covers=('new',))
def lock_initial(w):
    tok = w.deploy(FT, this(w), label='tok', lazy=False)
    s = w.addr('sender')
    w.env = Deaf()
    o = w.call(tok, 'on_install', sender=s, install=True,
               kwargs={'_name': w.str('n'), '_symbol': w.str('s'), '_initialSupply': w.int('i', 0, 10 ** 20),
                       '_decimals': w.int('d', 0, 30)})
    if o.ok:
        w.cover('new')
        w.ensure('transfers are allowed at first', w.view(tok, 'getTransferPossibility'))
        w.ensure('the deployer owns it', eq(w.view(tok, 'getOwner'), s))


# ------------------------------------------------------------------ C05 ICX token backing
class Till(Env):
    """ICX held by the SCORE (ghost), debited by its payments; the payee may re-enter"""

    def __init__(self, tok, held):
        self.tok, self.held = tok, held
        self.paid = []

    def icx(self, w, inst, to, amount):
        w.require(And(amount >= 0, amount <= self.held), 'not enough ICX')
        w.require(w.fresh('accepts', 'bool'), 'refused')
        self.held = self.held - amount
        self.paid.append((to, amount))
        w.ensure('fully backed whenever control leaves the token',
                 eq(w.view(self.tok, 'totalSupply') - self.slack, self.held))

    def unknown(self, w, inst, to, name, kw):
        w.require(w.fresh('accepts', 'bool'), 'refused')


def _backing(w, m, fallback=False):
    tok = token(w, ICX)
    s, q = w.addr('sender'), w.addr('q')
    payable = fallback or w.is_payable(tok, m)
    args = [] if fallback else any_args(w, ICX, m)[0]
    value = w.int('value', 0)
    supply = w.view(tok, 'totalSupply')
    # invariant: ICX held equals supply (value has already arrived when the method runs)
    env = w.env = Till(tok, supply + value)
    env.slack = 0
    bs = w.view(tok, 'balanceOf', s)
    w.assume(bs <= supply)
    o = w.call(tok, m, *args, sender=s, value=value, fallback=fallback)
    if not o.ok:
        return
    w.cover('succeeds')
    w.ensure('ICX held equals the supply afterwards', eq(w.view(tok, 'totalSupply'), env.held))
    w.ensure('ICX arrives only through paying operations', payable or eq(value, 0))


@spec('C05', name='ICX held always equals supply', covers=('succeeds',))
def backing(w):
    ms = w.entries(ICX)
    _backing(w, w.choose('method', ms))


@spec('C05', name='plain ICX payment', covers=('succeeds',))
def backing_fallback(w):
    _backing(w, 'fallback', True)


@spec('C05', name='deposit mints exactly the ICX sent',
      cases={'deposit': {'fb': False}, 'plain payment': {'fb': True}}, covers=('minted',))
def deposit(w, fb):
    tok = token(w, ICX)
    s, q, v = w.addr('sender'), w.addr('q'), w.int('value', 0)
    w.env = Choosy()
    pre = observe(w, tok, q)
    o = w.call(tok, 'fallback' if fb else 'deposit', sender=s, value=v, fallback=fb)
    w.ensure('a deposit is always accepted', o.ok)
    if not o.ok:
        return
    w.cover('minted')
    post = observe(w, tok, q)
    w.ensure('the payer is credited exactly', eq(post['balanceOf'], pre['balanceOf'] + If(eq(q, s), v, 0)))
    w.ensure('supply grows exactly', eq(post['totalSupply'], pre['totalSupply'] + v))
    w.ensure('nothing else changes', unchanged(pre, post, ('balanceOf', 'totalSupply')))
    i, t = o.event('Issuance'), o.event('Transfer')
    w.ensure('events tell the deposit', len(i) == 1 and len(t) == 1 and And(
        eq(i[0].args[0], v), eq(t[0].args[0], tok.address), eq(t[0].args[1], s), eq(t[0].args[2], v)))
    w.ensure('no ICX leaves', not o.icx() and not o.calls())


class Payee(Env):
    def __init__(self, tok, q):
        self.tok, self.q = tok, q
        self.paid = []
        self.mid = None
        self.refused = None

    def icx(self, w, inst, to, amount):
        self.paid.append((to, amount))
        self.at = observe(w, self.tok, self.q)
        w.havoc(self.tok, f'r{len(self.paid)}')
        self.mid = observe(w, self.tok, self.q)
        self.refused = Not(w.fresh('accepts', 'bool'))
        w.require(Not(self.refused), 'refused')


@spec('C05', name='withdrawal burns exactly the ICX paid out',
      cases={'withdraw': {'to_other': False}, 'withdrawTo': {'to_other': True}}, covers=('paid', 'refused'))
def withdraw(w, to_other):
    tok = token(w, ICX)
    s, q, v = w.addr('sender'), w.addr('q'), w.int('amount')
    to = w.addr('to', none=True) if to_other else s
    pre = observe(w, tok, q)
    bs = w.view(tok, 'balanceOf', s)
    env = w.env = Payee(tok, q)
    o = w.call(tok, 'withdrawTo' if to_other else 'withdraw', *([v, to] if to_other else [v]), sender=s)
    guard = And(v > 0, v <= bs)
    if not o.ok:
        w.cover('refused', Not(guard))
        w.ensure('a covered withdrawal is refused only by the payee',
                 Or(Not(guard), False if env.refused is None else env.refused))
        return
    w.cover('paid')
    w.ensure('only a covered positive withdrawal goes through', guard)
    w.ensure('a withdrawal the payee refused does not go through', Not(env.refused is not None and env.refused))
    w.ensure('exactly one payment, to the chosen payee, of the amount',
             len(env.paid) == 1 and And(eq(env.paid[0][0], to), eq(env.paid[0][1], v)))
    if len(env.paid) == 1:
        w.ensure('tokens are burned before the ICX leaves', And(
            eq(env.at['balanceOf'], pre['balanceOf'] - If(eq(q, s), v, 0)),
            eq(env.at['totalSupply'], pre['totalSupply'] - v),
            unchanged(pre, env.at, ('balanceOf', 'totalSupply'))))
        w.ensure('nothing is written after the payment', unchanged(env.mid, observe(w, tok, q)))
    i = o.event('Destruction')
    w.ensure('the burn is announced', len(i) == 1 and eq(i[0].args[0], v))
    w.ensure('no other call is made', not o.calls())
