from .common import *
from .converter_admin import after_fee, connector, fees_ok

TRUST = ['tokens held or governed by the converter behave like the tokens of this repository (C02, C03); the registered '
         'network accepts conversion results without calling back (C28)',
         'the pricing formula enters by its contract (result >= 0, a sale never exceeds the reserve and empties it only for '
         'the whole supply, a cross conversion stays below the target reserve), proved separately in C22/C23']


class Ledger(Env):
    """honest tokens (balances, supplies, owners) and an honest registry; payees accept or refuse"""
    assume_contracts = True

    def __init__(self, w):
        self.bal = w.smap('bal', 'int', 2, lo=0)
        self.sup = w.smap('sup', 'int', 1, lo=0)
        self.refused = False
        self.payments = []

    def x_getOwner(self, w, inst, to):
        return w.fn('ft.owner', 'addr', to)

    def x_getAddress(self, w, inst, to, _scoreName):
        return w.fn('registry.entry', 'addr', to, _scoreName)

    def x_balanceOf(self, w, inst, to, _owner):
        return self.bal.get(to, _owner)

    def x_totalSupply(self, w, inst, to):
        return self.sup.get(to)

    def move(self, w, token, a, b, v):
        self.bal.add([token, a], -v)
        self.bal.add([token, b], v)

    def x_transfer(self, w, inst, to, _to, _value, _data):
        me = inst.address
        w.require(And(_value >= 0, self.bal.get(to, me) >= _value), 'out of balance')
        self.move(w, to, me, _to, _value)
        self.refused = Not(w.fn('payee accepts', 'bool', _to))
        self.payments.append((to, _to, _value, _data))
        w.require(Not(self.refused), 'payee refuses')

    def x_issue(self, w, inst, to, _to, _amount):
        w.require(And(_amount > 0, eq(w.fn('ft.owner', 'addr', to), inst.address), ne(_to, None), ne(_to, w.zero()), ne(_to, to)),
                  'issue refused')
        self.bal.add([to, _to], _amount)
        self.sup.add([to], _amount)

    def x_destroy(self, w, inst, to, _from, _amount):
        me = inst.address
        w.require(And(_amount > 0, self.bal.get(to, _from) >= _amount,
                      Or(eq(_from, me), eq(w.fn('ft.owner', 'addr', to), me))), 'destroy refused')
        self.bal.add([to, _from], -_amount)
        self.sup.add([to], -_amount)


class Trade:
    """one deposit into the converter with an arbitrary message, everything observed before and after"""

    def __init__(self, w, kinds=('buy', 'sell', 'cross'), quote=False, request=True, frame=True):
        self.w = w
        self.kind = w.choose('kind', list(kinds))
        inst = self.inst = subject(w, CONV, Ledger(w))
        env = self.env = w.env
        self.fee, _ = fees_ok(w, inst)
        self.ft = w.view(inst, 'getToken')
        self.sender = w.addr('from', avoid=[inst.address])
        if request:
            for k, v in (('facet.type.toToken', 1), ('facet.text.toToken.n', 1), ('is_contract', True),
                         ('facet.utf8', True), ('facet.json', True), ('facet.dict', True), ('facet.has.toToken', True),
                         ('facet.has.minReturn', True), ('facet.text.toToken.ok', True), ('facet.text.toToken.ws', False)):
                w.hint(k, v, 0.98)
        w.hint('*is_virtual_balance_enabled', lambda r: r.random() < 0.5, 1)
        big = lambda r: r.choice([10 ** 3, 10 ** 6, 10 ** 18, 10 ** 24, r.randint(10, 10 ** 9)])
        w.hint('g:fn:ft.owner', inst.address, 1 if request else 0.7)
        w.hint('g:fn:registry.entry', self.sender, 1 if request else 0.8)
        w.hint('g:bal', big)
        w.hint('g:sup', big)
        self.src = self.ft if self.kind == 'sell' else w.addr('fromToken', contract=True, avoid=[self.ft, inst.address])
        if request and hasattr(w, 'enc'):
            ftc, mec = w.enc(self.ft), w.enc(inst.address)
            w.hint('*is_set', lambda r, a: bool(a) and a[0] not in (ftc, mec) and r.random() < 0.95, 1)
            if self.kind != 'buy':
                w.hint('facet.text.toToken.addr', lambda r: r.choice([x for x in range(2, 11) if x not in (ftc, mec)]), 1)
        self.amount = w.int('amount', hints=(1, 10, 100, 999, 10 ** 3, 10 ** 6, 10 ** 18))
        self.data = w.data('data', ('toToken', 'minReturn'))
        d = self.data
        if self.kind == 'buy':
            w.hint('facet.text.toToken.addr', self.ft, 1)
        w.hint('facet.int.minReturn', lambda r: r.choice([1, 1, 2, 5, 100]), 0.7)
        w.hint('facet.real.minReturn', lambda r: [2 * r.choice([0, 1, 2, 50]) + 1, 2], 0.7)
        self.dst = dst = d.addr('toToken')
        self.net = w.fn('registry.entry', 'addr', w.view(inst, 'getRegistry'), 'Network')
        if request:         # C21: nothing else converts
            w.assume(And(self.request_ok(), eq(self.sender, self.net), self.amount > 0,
                         eq(w.fn('ft.owner', 'addr', self.ft), inst.address)))
        self.q_tok, self.q_who = w.addr('q.token'), w.addr('q.holder')
        w.assume(And(ne(self.net, inst.address), ne(self.sender, inst.address), w.is_contract(self.ft)))
        # representation invariant established by C12
        for t in (self.src, dst):
            c = connector(w, inst, t)
            if c is not None:
                w.assume(And(c['weight'] > 0, c['weight'] <= MILLION, ne(t, self.ft), ne(t, inst.address),
                             w.is_contract(t)))
        if self.kind == 'buy':
            w.assume(eq(dst, self.ft))
        elif self.kind == 'sell':
            w.assume(And(eq(self.src, self.ft), ne(dst, self.ft)))
        else:
            w.assume(And(ne(self.src, self.ft), ne(dst, self.ft)))
        self.q = w.addr('q.connector')
        if quote:
            self.quoted = w.call(inst, 'getReturn', self.src, dst, self.amount, view=True)
        # the token has moved the deposit before it tells the converter
        w.assume(Or(self.amount < 0, env.bal.get(self.src, self.sender) >= self.amount))
        env.move(w, self.src, self.sender, inst.address, self.amount)
        w.assume(And(env.bal.get(self.src, inst.address) >= self.amount))
        self.c_src, self.c_dst = connector(w, inst, self.src), connector(w, inst, dst)
        self.c_q = connector(w, inst, self.q) if frame else None
        self.sup0 = env.sup.get(self.ft)
        self.bal0 = env.bal.get(self.q_tok, self.q_who)
        self.supq0 = env.sup.get(self.q_tok)
        self.res0 = self.reserve(dst) if self.c_dst is not None else None
        self.src0 = self.reserve(self.src) if self.c_src is not None else None
        skip = SKIPVIEW[CONV]
        self.pre = observe(w, inst, None, skip)
        self.n0 = len(w.trace)

    def reserve(self, t):
        w = self.w
        c = connector(w, self.inst, t)
        return self.w.view(self.inst, 'getConnectorBalance', t) if c is not None else None

    def request_ok(self):
        d = self.data
        return And(d.well_formed(), d.has('toToken'), d.has('minReturn'), d.addr_ok('toToken'))

    def fire(self):
        w = self.w
        self.o = w.call(self.inst, 'tokenFallback', self.sender, self.amount, self.data.raw, sender=self.src)
        self.converted = self.o.ok and bool([t for t in self.o.trace if t.kind == 'call' and
                                             t.name in ('issue', 'transfer', 'destroy')] or self.o.event('Conversion'))
        return self.o

    def out(self):
        """what was paid, per the announcement"""
        e = self.o.event('Conversion')
        return e[0].args[4] if len(e) == 1 else None

    def expect_ledger(self, deltas, sdeltas):
        w, env = self.w, self.env
        b, s = self.bal0, self.supq0
        for t, h, d in deltas:
            b = b + If(And(eq(self.q_tok, t), eq(self.q_who, h)), d, 0)
        for t, d in sdeltas:
            s = s + If(eq(self.q_tok, t), d, 0)
        w.ensure('exactly these balances move', eq(env.bal.get(self.q_tok, self.q_who), b))
        w.ensure('exactly these supplies move', eq(env.sup.get(self.q_tok), s))

    def expect_connectors(self, deltas):
        """virtual balances move by exactly these deltas where enabled; nothing else of any connector moves"""
        w = self.w
        c1 = connector(w, self.inst, self.q)
        if self.c_q is None or c1 is None:
            w.ensure('the set of connectors stays', self.c_q is None and c1 is None)
            return
        v = self.c_q['virtualBalance']
        for t, d in deltas:
            v = v + If(And(eq(self.q, t), self.c_q['isVirtualBalanceEnabled']), d, 0)
        w.ensure('virtual balances move by exactly the traded amounts, where in use', eq(c1['virtualBalance'], v))
        w.ensure('nothing else of any connector moves',
                 And(*[same(self.c_q[k], c1[k]) for k in c1 if k != 'virtualBalance']))

    def expect_settings(self):
        w = self.w
        w.ensure('no setting of the converter moves',
                 unchanged(self.pre, observe(w, self.inst, None, SKIPVIEW[CONV])))

    def expect_event(self, ret, prices):
        w = self.w
        e = self.o.event('Conversion')
        w.ensure('the conversion is announced exactly once', len(e) == 1)
        if len(e) == 1:
            a = e[0].args
            w.ensure('the announcement names the tokens, the trader and the amounts', And(
                eq(a[0], self.src), eq(a[1], self.dst), eq(a[2], self.net), eq(a[3], self.amount), eq(a[4], ret)))
        p = self.o.event('PriceDataUpdate')
        w.ensure('each connector traded gets one price update', len(p) == len(prices))
        if len(p) == len(prices):
            sup = self.env.sup.get(self.ft)
            w.ensure('price updates carry supply, balance and weight after the trade', And(*[And(
                eq(x.args[0], t), eq(x.args[1], sup), eq(x.args[2], self.reserve(t)),
                eq(x.args[3], connector(w, self.inst, t)['weight'])) for x, t in zip(p, prices)]))

    def expect_price(self, r):
        """the amount paid and the fee announced, from the formula on the state before the deposit arrived"""
        w = self.w
        def before(c, reserve):
            return reserve - If(c['isVirtualBalanceEnabled'], 0, self.amount)
        if self.kind == 'buy':
            a = [self.sup0, before(self.c_src, self.src0), self.c_src['weight'], self.amount]
            _, gross = w.formula_contract('purchase', a)
        elif self.kind == 'sell':
            _, gross = w.formula_contract('sale', [self.sup0, self.res0, self.c_dst['weight'], self.amount])
        else:
            _, gross = w.formula_contract('cross', [before(self.c_src, self.src0), self.c_src['weight'],
                                                    self.res0, self.c_dst['weight'], self.amount])
        w.ensure('the amount is the price on the reserve before the deposit, less the fee',
                 eq(r, after_fee(gross, self.fee, 2 if self.kind == 'cross' else 1)))
        e = self.o.event('Conversion')
        w.ensure('the fee announced is the difference', len(e) == 1 and eq(e[0].args[5], gross - r))

    def paid(self):
        """amount the ledger says was paid out of the converter / issued"""
        return self.out()


# ------------------------------------------------------------------ C15
@spec('C15', name='buying', covers=('bought', 'virtual', 'actual'), budget=300, trusted=TRUST)
def buy(w):
    t = Trade(w, ('buy',))
    o = t.fire()
    if not t.converted:
        return
    w.cover('bought')
    r = t.paid()
    w.ensure('a purchase gives something', And(r is not None, (r if r is not None else 0) > 0))
    w.cover('virtual', t.c_src['isVirtualBalanceEnabled'])
    w.cover('actual', Not(t.c_src['isVirtualBalanceEnabled']))
    t.expect_ledger([(t.ft, t.net, r)], [(t.ft, r)])
    t.expect_connectors([(t.src, t.amount)])
    t.expect_settings()
    t.expect_event(r, [t.src])
    t.expect_price(r)
    w.ensure('no other call reaches a token', len([c for c in o.calls() if c.name in ('issue', 'destroy', 'transfer')]) == 1)
    w.ensure('no ICX moves', not o.icx())


# ------------------------------------------------------------------ C16
@spec('C16', name='selling', covers=('sold', 'virtual', 'actual'), budget=300, trusted=TRUST)
def sell(w):
    t = Trade(w, ('sell',))
    o = t.fire()
    if not t.converted:
        return
    w.cover('sold')
    r = t.paid()
    w.ensure('a sale gives something', And(r is not None, (r if r is not None else 0) > 0))
    w.cover('virtual', t.c_dst['isVirtualBalanceEnabled'])
    w.cover('actual', Not(t.c_dst['isVirtualBalanceEnabled']))
    me = t.inst.address
    t.expect_ledger([(t.ft, me, -t.amount), (t.dst, me, -r), (t.dst, t.net, r)], [(t.ft, -t.amount)])
    t.expect_connectors([(t.dst, -r)])
    t.expect_settings()
    t.expect_event(r, [t.dst])
    t.expect_price(r)
    w.ensure('the payment is marked as a conversion result', len(t.env.payments) == 1 and
             eq(t.env.payments[0][3], b'conversionResult'))
    w.ensure('no ICX moves', not o.icx())


# ------------------------------------------------------------------ C17
@spec('C17', name='converting one connector into another', covers=('converted', 'virtual', 'actual'), budget=400, trusted=TRUST)
def cross(w):
    t = Trade(w, ('cross',))
    o = t.fire()
    if not t.converted:
        return
    w.cover('converted')
    r = t.paid()
    w.ensure('a conversion gives something', And(r is not None, (r if r is not None else 0) > 0))
    w.cover('virtual', And(t.c_dst['isVirtualBalanceEnabled'], t.c_src['isVirtualBalanceEnabled']))
    w.cover('actual', And(Not(t.c_dst['isVirtualBalanceEnabled']), Not(t.c_src['isVirtualBalanceEnabled'])))
    me = t.inst.address
    t.expect_ledger([(t.dst, me, -r), (t.dst, t.net, r)], [])
    t.expect_connectors([(t.src, t.amount), (t.dst, -r)])
    t.expect_settings()
    t.expect_event(r, [t.src, t.dst])
    t.expect_price(r)
    w.ensure('the payment is marked as a conversion result', len(t.env.payments) == 1 and
             eq(t.env.payments[0][3], b'conversionResult'))
    w.ensure('no ICX moves', not o.icx())


# ------------------------------------------------------------------ C18
def minimum(t):
    """(ok, pays(r)) for the minReturn member: a positive number"""
    d = t.data
    isint, isreal, isbool = (d.is_type('minReturn', k) for k in ('int', 'real', 'bool'))
    return (lambda r: Or(And(isint, d.int('minReturn') > 0, r >= d.int('minReturn')),
                         And(isreal, d.real('minReturn') > 0, r >= d.real('minReturn')),
                         And(isbool, d.bool('minReturn'), r >= 1)))


@spec('C18', name='never less than the minimum asked', covers=('buy', 'sell', 'cross', 'fractional'), budget=400, trusted=TRUST)
def min_return(w):
    t = Trade(w, frame=False)
    o = t.fire()
    if not t.converted:
        return
    w.cover(t.kind)
    r = t.paid()
    w.ensure('the request states a positive minimum and the conversion pays at least that', r is not None and minimum(t)(r))
    w.cover('fractional', t.data.is_type('minReturn', 'real'))
    # and what is announced is what the trader really receives
    got = [c.args['_amount'] if c.name == 'issue' else c.args['_value'] for c in o.calls() if c.name in ('issue', 'transfer')]
    w.ensure('the announced amount is what is paid out', len(got) == 1 and eq(got[0], r))


# ------------------------------------------------------------------ C19
@spec('C19', name='a conversion pays exactly the quote', covers=('buy', 'sell', 'cross'), budget=500, trusted=TRUST)
def quote_is_execution(w):
    t = Trade(w, frame=False, quote=True)
    o = t.fire()
    if t.converted:
        w.cover(t.kind)
        w.ensure('a conversion that goes through was quotable just before', t.quoted.ok)
        if t.quoted.ok:
            e = o.event('Conversion')
            w.ensure('it pays exactly the quoted amount and takes exactly the quoted fee', len(e) == 1 and And(
                eq(e[0].args[4], t.quoted.value['amount']), eq(e[0].args[5], t.quoted.value['fee'])))
        return
    if t.quoted.ok and not o.ok:
        r = t.quoted.value['amount']
        fits = True
        if t.kind != 'buy':
            have = t.env.bal.get(t.dst, t.inst.address)
            fits = have >= r
            if t.kind == 'cross':
                v = t.c_dst['isVirtualBalanceEnabled']
                fits = And(fits, If(v, r + r < t.res0, r < t.res0), Or(ne(t.src, t.dst)))
            else:
                fits = And(fits, t.env.bal.get(t.ft, t.inst.address) >= t.amount)
        w.ensure('a valid request at an acceptable quote is honoured', Not(And(
            t.request_ok(), eq(t.sender, t.net), t.amount > 0, minimum(t)(r), r > 0, fits, ne(t.net, w.zero()),
            ne(t.net, t.ft), ne(t.net, None), t.pre['isConversionsEnabled'],
            w.fn('payee accepts', 'bool', t.net))))


# ------------------------------------------------------------------ C20
@spec('C20', name='no trade empties a reserve', covers=('buy', 'sell', 'cross', 'all sold'), budget=400, trusted=TRUST)
def reserve(w):
    w.formula_free = True       # whatever the formula answers
    for k in ('purchase', 'sale', 'cross'):
        w.hint(f'g:fn:formula.any.{k}', lambda r: r.choice([1, 5, 99, 10 ** 3 - 1, 10 ** 3, 10 ** 3 + 1, 10 ** 6 - 1, 10 ** 6, 10 ** 18]), 1)
    t = Trade(w, frame=False)
    if t.c_dst is not None:
        w.assume(t.res0 >= 0)
    o = t.fire()
    if not t.converted:
        return
    w.cover(t.kind)
    r = t.paid()
    if t.kind == 'buy':
        w.ensure('the reserve of the connector paid in counts the deposit, once',
                 eq(t.reserve(t.src), t.src0 + If(t.c_src['isVirtualBalanceEnabled'], t.amount, 0)))
        return
    after = t.reserve(t.dst)
    w.ensure('the reserve is never overdrawn', after >= 0)
    whole = And(t.kind == 'sell', eq(t.amount, t.sup0))
    w.ensure('the reserve is emptied only when the whole supply is sold', Or(after > 0, whole))
    w.ensure('the payment is at most the reserve', And(r <= t.res0, Or(r < t.res0, whole)))
    w.ensure('the payment is backed by tokens really held', t.env.bal.get(t.dst, t.inst.address) >= 0)
    if t.kind == 'sell':
        w.cover('all sold', whole)


# ------------------------------------------------------------------ C21
@spec('C21', name='who may send tokens and what happens', covers=('converted', 'funded', 'refused'), budget=500, trusted=TRUST)
def entry(w):
    t = Trade(w, request=False)
    inst = t.inst
    owner, manager = t.pre['getOwner'], t.pre['getManager']
    act = eq(w.fn('ft.owner', 'addr', t.ft), inst.address)
    funding = And(Or(eq(t.sender, owner), eq(t.sender, manager)), t.c_src is not None, Not(act))
    o = t.fire()
    if not o.ok:
        w.cover('refused')
        w.ensure('owner and manager may always fund an inactive converter with a connector token',
                 Not(And(funding, t.amount > 0)))
        return
    w.ensure('a deposit is positive', t.amount > 0)
    if not t.converted:
        w.cover('funded')
        w.ensure('tokens are only taken without a conversion from owner or manager, for a connector of an inactive converter',
                 funding)
        t.expect_ledger([], [])
        t.expect_connectors([])
        t.expect_settings()
        return
    w.cover('converted')
    w.ensure('only the network of the current registry converts', eq(t.sender, t.net))
    w.ensure('only a well-formed request', t.request_ok())
    w.ensure('only while active', act)
    w.ensure('only between different tokens of this converter', And(
        ne(t.src, t.dst), Or(eq(t.src, t.ft), t.c_src is not None), Or(eq(t.dst, t.ft), t.c_dst is not None)))
    w.ensure('no purchase through a connector closed for purchases', (
        True if t.kind == 'sell' else (t.c_src if t.kind == 'buy' else t.c_dst)['isPurchaseEnabled']))


@spec('C36', name='nothing converts while conversions are disabled', covers=('tried', 'converted'), budget=400, trusted=TRUST)
def disabled(w):
    t = Trade(w, frame=False)
    w.cover('tried')
    t.fire()
    if t.converted:
        w.cover('converted')
        w.ensure('conversions are enabled', t.pre['isConversionsEnabled'])


@spec('C21', name='no other operation trades', covers=('succeeds',), budget=300)
def no_other_trade(w):
    inst = subject(w, CONV)
    m = w.choose('method', [x for x in w.entries(CONV) if x not in ('tokenFallback', 'withdrawTokens')])
    s, q = w.addr('sender'), w.addr('q')
    args, _ = any_args(w, CONV, m)
    c0 = connector(w, inst, q)
    o = w.call(inst, m, *args, sender=s)
    if o.ok:
        w.cover('succeeds')
        w.ensure('no token moves, is issued or destroyed', not [
            c for c in o.calls() if c.name in ('transfer', 'issue', 'destroy', 'withdrawTo')])
        c1 = connector(w, inst, q)
        if c0 is not None and c1 is not None and m != 'updateConnector':
            w.ensure('no virtual balance moves', eq(c0['virtualBalance'], c1['virtualBalance']))
