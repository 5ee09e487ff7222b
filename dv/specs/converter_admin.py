from .common import *
from .access import install_args

W = 'total_connector_weight'


class Ownership(Env):
    """the managed token answers who owns it; everything else accepts"""
    assume_contracts = True

    def x_getOwner(self, w, inst, to):
        return w.fn('ft.owner', 'addr', to)

    def x_getAddress(self, w, inst, to, _scoreName):
        return w.fn('registry.entry', 'addr', to, _scoreName)

    def unknown(self, w, inst, to, name, kw):
        return Anything().unknown(w, inst, to, name, kw)


def conv(w, lazy=True):
    return subject(w, CONV, Ownership(), lazy=lazy)


def view(w, inst, q):
    return observe(w, inst, q, SKIPVIEW[CONV])


def active(w, inst):
    return eq(w.fn('ft.owner', 'addr', w.view(inst, 'getToken')), inst.address)


def connector(w, inst, t):
    if not w.branch(ne(t, None)):
        return None
    c = w.view(inst, 'getConnector', t)
    return c if c else None


def weight(w, inst, t):
    c = connector(w, inst, t)
    return c['weight'] if c else 0


def is_set(w, inst, t):
    return connector(w, inst, t) is not None


def total(w, inst):
    t = w.cell(inst, W, 'int')
    if t is None:
        w.unsupported('the running total of connector weights is kept in another form')
    return t


def wsum(w, inst, toks):
    s = 0
    for i, t in enumerate(toks):
        x = weight(w, inst, t)
        s = s + (If(And(*[ne(t, u) for u in toks[:i]]), x, 0) if i else x)
    return s


def weights_ok(w, inst, toks):
    """representation invariant, restricted to the mentioned tokens: every set weight is in range and the
    kept total covers them"""
    ft = w.view(inst, 'getToken')
    for t in toks:
        c = connector(w, inst, t)
        if c is not None:
            w.assume(And(c['weight'] > 0, c['weight'] <= MILLION, ne(t, ft), ne(t, inst.address), ne(t, w.zero())))
    w.assume(And(total(w, inst) <= MILLION, total(w, inst) >= wsum(w, inst, toks)))


# ------------------------------------------------------------------ C12
@spec('C12', name='defining a connector', covers=('defined', 'refused'), budget=200)
def add_connector(w):
    inst = conv(w)
    s, t, q = w.addr('sender'), w.addr('token', none=True), w.addr('q')
    x, v = w.int('weight', hints=(1, 500000, MILLION, 0, MILLION + 1)), w.bool('virtual')
    weights_ok(w, inst, [t, q])
    w.assume(w.view(inst, 'getConnectorTokenCount') >= 0)
    pre = view(w, inst, q)
    n, k = pre['getConnectorTokenCount'], w.int('k', 0)
    T0 = total(w, inst)
    was = is_set(w, inst, t)
    at = w.view(inst, 'getConnectorAt', k) if w.branch(k < n) else None
    o = w.call(inst, 'addConnector', t, x, v, sender=s)
    w.ensure('accepted exactly from the owner of an inactive converter, for a new proper token within the weight left',
             Iff(o.ok, And(eq(s, pre['getOwner']), Not(active(w, inst)), ne(t, None), ne(t, w.zero()), ne(t, inst.address),
                           ne(t, pre['getToken']), not was, x > 0, x <= MILLION, T0 + x <= MILLION)))
    if not o.ok:
        w.cover('refused')
        return
    w.cover('defined')
    post = view(w, inst, q)
    c = connector(w, inst, t)
    w.ensure('the connector is recorded as requested', c is not None and And(
        eq(c['weight'], x), Iff(c['isVirtualBalanceEnabled'], v), c['isPurchaseEnabled'], eq(c['virtualBalance'], 0)))
    w.ensure('the kept total is still the sum of the weights', eq(total(w, inst), T0 + x))
    w.ensure('the list grows by one', eq(post['getConnectorTokenCount'], n + 1))
    last = w.call(inst, 'getConnectorAt', n, view=True)
    w.ensure('it is appended to the list', last.ok and eq(last.value, t))
    if at is not None:
        w.ensure('listed connectors keep their place', eq(w.view(inst, 'getConnectorAt', k), at))
    w.ensure('other connectors stay', Or(eq(q, t), same(pre['getConnector'], post['getConnector'])))
    w.ensure('nothing else changes', unchanged(pre, post, ('getConnector', 'getConnectorTokenCount')))


@spec('C12', name='changing a connector', covers=('changed', 'refused'), budget=200)
def update_connector(w):
    inst = conv(w)
    s, t, q = w.addr('sender'), w.addr('token', none=True), w.addr('q')
    x, v, b = w.int('weight', hints=(1, 500000, MILLION, 0)), w.bool('virtual'), w.int('balance')
    weights_ok(w, inst, [t, q])
    pre = view(w, inst, q)
    T0, w0, was = total(w, inst), weight(w, inst, t), connector(w, inst, t)
    o = w.call(inst, 'updateConnector', t, x, v, b, sender=s)
    w.ensure('accepted exactly from the owner, for a defined connector, within the weight left',
             Iff(o.ok, And(eq(s, pre['getOwner']), was is not None, x > 0, x <= MILLION, T0 - w0 + x <= MILLION)))
    if not o.ok:
        w.cover('refused')
        return
    w.cover('changed')
    post = view(w, inst, q)
    c = connector(w, inst, t)
    w.ensure('the connector is recorded as requested', c is not None and And(
        eq(c['weight'], x), Iff(c['isVirtualBalanceEnabled'], v), eq(c['virtualBalance'], b),
        Iff(c['isPurchaseEnabled'], was['isPurchaseEnabled'])))
    w.ensure('the kept total is still the sum of the weights', eq(total(w, inst), T0 - w0 + x))
    w.ensure('other connectors stay', Or(eq(q, t), same(pre['getConnector'], post['getConnector'])))
    w.ensure('nothing else changes', unchanged(pre, post, ('getConnector',)))


@spec('C12', name='no other way', covers=('succeeds',), budget=300)
def weights_frame(w):
    inst = conv(w)
    m = w.choose('method', [x for x in w.entries(CONV) if x not in ('addConnector', 'updateConnector')])
    s, q = w.addr('sender'), w.addr('q')
    args, _ = any_args(w, CONV, m)
    c0, T0, n0 = connector(w, inst, q), total(w, inst), w.view(inst, 'getConnectorTokenCount')
    o = w.call(inst, m, *args, sender=s)
    if o.ok:
        w.cover('succeeds')
        c1 = connector(w, inst, q)
        w.ensure('weights, kinds and the set of connectors only change by defining and changing connectors',
                 (c0 is None) == (c1 is None) and And(
                     eq(total(w, inst), T0), eq(w.view(inst, 'getConnectorTokenCount'), n0),
                     True if c0 is None else And(eq(c0['weight'], c1['weight']), Iff(
                         c0['isVirtualBalanceEnabled'], c1['isVirtualBalanceEnabled']))))


@spec('C12', name='a new converter has at most the one connector given', covers=('with', 'without', 'refused'))
def weights_genesis(w):
    inst = conv(w, lazy=False)
    s, q = w.addr('sender'), w.addr('q')
    kw = install_args(w, CONV)
    t, x, ft = kw['_connectorToken'], kw['_connectorWeight'], kw['_token']
    o = w.call(inst, 'on_install', sender=s, install=True, kwargs=kw)
    given = And(ne(t, None), ne(t, w.zero()))
    mx = kw['_maxConversionFee']
    w.ensure('accepted exactly with a token, a registry, a maximum fee in range and an acceptable optional connector',
             Iff(o.ok, And(ne(ft, None), ne(ft, w.zero()), ne(kw['_registry'], None), ne(kw['_registry'], w.zero()), mx >= 0, mx <= MILLION, Or(
                 Not(given), And(ne(t, inst.address), ne(t, ft), x > 0, x <= MILLION,
                                 Not(eq(w.fn('ft.owner', 'addr', ft), inst.address)))))))
    if not o.ok:
        w.cover('refused')
        return
    n = w.view(inst, 'getConnectorTokenCount')
    if w.branch(given):
        w.cover('with')
        w.ensure('exactly the given connector is defined', And(
            eq(n, 1), eq(w.view(inst, 'getConnectorAt', 0), t), eq(weight(w, inst, t), x), eq(total(w, inst), x)))
        w.ensure('no other connector is defined', Or(eq(q, t), not is_set(w, inst, q)))
    else:
        w.cover('without')
        w.ensure('no connector is defined', And(eq(n, 0), eq(total(w, inst), 0), not is_set(w, inst, q)))


@spec('C12', name='histories from installation keep the total weight within 100%', covers=('three',), budget=250,
      bounded='C12 histories: up to 4 administration steps on up to 3 connectors from installation (the unbounded '
              'argument is the inductive one over the kept total)')
def weights_history(w):
    inst = conv(w, lazy=False)
    s = w.addr('sender')
    kw = install_args(w, CONV)
    o = w.call(inst, 'on_install', sender=s, install=True, kwargs=kw)
    if not o.ok:
        return
    toks = [w.addr('t0'), w.addr('t1')]
    w.assume(distinct(*toks))
    w.assume(And(*[And(ne(t, inst.address), ne(t, kw['_token']), ne(t, w.zero()), ne(t, kw['_connectorToken']))
                   for t in toks]))
    w.assume(Not(eq(w.fn('ft.owner', 'addr', kw['_token']), inst.address)))
    hints = (1, 300000, 400000, 500000, MILLION)
    done = 0
    for i, t in enumerate(toks):
        done += w.call(inst, 'addConnector', t, w.int(f'w{i}', hints=hints), False, sender=s).ok
    u = w.choose('which', toks + [kw['_connectorToken']])
    done += w.call(inst, 'updateConnector', u, w.int('w2', hints=hints), False, 0, sender=s).ok
    if done == 3:
        w.cover('three')
    allt = toks + ([kw['_connectorToken']] if w.branch(And(ne(kw['_connectorToken'], None), ne(kw['_connectorToken'], w.zero()))) else [])
    ws = [weight(w, inst, t) for t in allt]
    tot = 0
    for x in ws:
        w.ensure('each weight is in range', And(x >= 0, x <= MILLION))
        tot = tot + x
    w.ensure('the weights sum to at most 100%', tot <= MILLION)


# ------------------------------------------------------------------ C13
def fees_ok(w, inst):
    f, m = w.view(inst, 'getConversionFee'), w.view(inst, 'getMaxConversionFee')
    w.assume(And(0 <= f, f <= m, m <= MILLION))
    return f, m


@spec('C13', name='setting the fee', covers=('set', 'refused'))
def set_fee(w):
    inst = conv(w)
    s, q = w.addr('sender'), w.addr('q')
    f0, mx = fees_ok(w, inst)
    f = w.int('fee', hints=(0, 1, MILLION, 3000, -1))
    pre = view(w, inst, q)
    o = w.call(inst, 'setConversionFee', f, sender=s)
    w.ensure('accepted exactly from owner or manager, between zero and the maximum',
             Iff(o.ok, And(Or(eq(s, pre['getOwner']), eq(s, pre['getManager'])), f >= 0, f <= mx)))
    if not o.ok:
        w.cover('refused')
        return
    w.cover('set')
    post = view(w, inst, q)
    w.ensure('the fee is the one given', eq(post['getConversionFee'], f))
    w.ensure('nothing else changes', unchanged(pre, post, ('getConversionFee',)))
    e = o.event('ConversionFeeUpdate')
    w.ensure('the change is announced with both fees', len(e) == 1 and And(eq(e[0].args[0], f0), eq(e[0].args[1], f)))


@spec('C13', name='no other way', covers=('succeeds',), budget=300)
def fee_frame(w):
    inst = conv(w)
    m = w.choose('method', [x for x in w.entries(CONV) if x != 'setConversionFee'])
    s = w.addr('sender')
    args, _ = any_args(w, CONV, m)
    f0, m0 = w.view(inst, 'getConversionFee'), w.view(inst, 'getMaxConversionFee')
    o = w.call(inst, m, *args, sender=s)
    if o.ok:
        w.cover('succeeds')
        w.ensure('the fee only changes by setting it, the maximum never',
                 And(eq(w.view(inst, 'getConversionFee'), f0), eq(w.view(inst, 'getMaxConversionFee'), m0)))


@spec('C13', name='a new converter', covers=('installed', 'refused'))
def fee_genesis(w):
    inst = conv(w, lazy=False)
    s = w.addr('sender')
    kw = install_args(w, CONV)
    mx = kw['_maxConversionFee']
    o = w.call(inst, 'on_install', sender=s, install=True, kwargs=kw)
    w.ensure('a maximum outside 0..100% is refused', Or(Not(o.ok), And(mx >= 0, mx <= MILLION)))
    proper = And(*[And(ne(kw[k], None), ne(kw[k], w.zero())) for k in ('_token', '_registry')], eq(kw['_connectorToken'], w.zero()))
    w.ensure('any other is accepted', Or(o.ok, mx < 0, mx > MILLION, Not(proper)))
    if not o.ok:
        w.cover('refused')
        return
    w.cover('installed')
    w.ensure('it starts without a fee and with the given maximum',
             And(eq(w.view(inst, 'getConversionFee'), 0), eq(w.view(inst, 'getMaxConversionFee'), mx)))


# ------------------------------------------------------------------ C14
def after_fee(a, f, mag):
    r = MILLION - f
    return a * r // MILLION if mag == 1 else a * (r * r) // (MILLION * MILLION)


@spec('C14', name='amount left after the fee', covers=('one', 'two', 'full', 'none'))
def final_amount(w):
    inst = conv(w)
    f, _ = fees_ok(w, inst)
    a = w.int('amount', 0)
    mag = w.choose('magnitude', [1, 2])
    o = w.call(inst, 'getFinalAmount', a, mag, view=True)
    w.ensure('answers', o.ok)
    if not o.ok:
        return
    w.cover('one' if mag == 1 else 'two')
    w.ensure('exactly the fee rate is taken, once per step, rounded down', eq(o.value, after_fee(a, f, mag)))
    w.ensure('never more than the amount, never negative', And(o.value >= 0, o.value <= a))
    if w.branch(eq(f, 0)):
        w.cover('none')
        w.ensure('no fee, no deduction', eq(o.value, a))
    elif w.branch(eq(f, MILLION)):
        w.cover('full')
        w.ensure('a 100% fee leaves nothing', eq(o.value, 0))


class Market(Ownership):
    """tokens with arbitrary fixed balances and supplies"""

    def x_totalSupply(self, w, inst, to):
        return w.fn('supply', 'int', to, lo=0)

    def x_balanceOf(self, w, inst, to, _owner):
        return w.fn('balance', 'int', to, _owner, lo=0)


@spec('C14', name='quotes deduct exactly the fee and report it', covers=('buy', 'sell', 'cross', 'refused'), budget=200)
def quote_fee(w):
    inst = subject(w, CONV, Market())
    f, _ = fees_ok(w, inst)
    a, b, x = w.addr('from', none=True), w.addr('to', none=True), w.int('amount', 0)
    ft = w.view(inst, 'getToken')
    # at most two connectors are involved; their weights are in range (C12)
    ca, cb = connector(w, inst, a), connector(w, inst, b)
    for c in (ca, cb):
        if c is not None:
            w.assume(And(c['weight'] > 0, c['weight'] <= MILLION))
    w.assume(connector(w, inst, ft) is None)
    o = w.call(inst, 'getReturn', a, b, x, view=True)
    sup = w.fn('supply', 'int', ft, lo=0)

    def bal(t, c):
        if w.branch(c['isVirtualBalanceEnabled']):
            return c['virtualBalance']
        return w.fn('balance', 'int', t, inst.address, lo=0)
    priced, gross, mag, kind = False, 0, 1, None
    if w.branch(And(active(w, inst), ne(a, b))):
        if w.branch(eq(b, ft)):
            if ca is not None and w.branch(ca['isPurchaseEnabled']):
                kind = 'buy'
                priced, gross = w.formula_contract('purchase', [sup, bal(a, ca), ca['weight'], x])
        elif w.branch(eq(a, ft)):
            if cb is not None:
                kind = 'sell'
                priced, gross = w.formula_contract('sale', [sup, bal(b, cb), cb['weight'], x])
        elif ca is not None and cb is not None and w.branch(cb['isPurchaseEnabled']):
            kind, mag = 'cross', 2
            priced, gross = w.formula_contract('cross', [bal(a, ca), ca['weight'], bal(b, cb), cb['weight'], x])
    w.ensure('a quote is given exactly while active, between the token and open connectors of it, where a price is defined',
             Iff(o.ok, priced))
    if not o.ok:
        w.cover('refused')
        return
    if kind is None:
        return
    w.cover(kind)
    w.ensure('the amount is what the pricing formula gives, less the fee', eq(o.value['amount'], after_fee(gross, f, mag)))
    w.ensure('the reported fee is exactly the difference', eq(o.value['fee'], gross - o.value['amount']))


# ------------------------------------------------------------------ C35 activation, purchase switch
@spec('C35', name='active means owning the token', covers=('active', 'inactive'))
def is_active(w):
    inst = conv(w)
    ft = w.view(inst, 'getToken')
    o = w.call(inst, 'isActive', view=True)
    w.ensure('answers', Or(o.ok, eq(ft, None)))
    if o.ok:
        w.ensure('active exactly while the converter owns its token',
                 Iff(o.value, eq(w.fn('ft.owner', 'addr', ft), inst.address)))
        w.cover('active', o.value)
        w.cover('inactive', Not(o.value))


@spec('C35', name='quotes need an active converter and open connectors', covers=('quoted', 'refused'), budget=200)
def quotes_need_active(w):
    inst = subject(w, CONV, Market())
    a, b, x = w.addr('from', none=True), w.addr('to', none=True), w.int('amount', 0)
    ft = w.view(inst, 'getToken')
    ca, cb = connector(w, inst, a), connector(w, inst, b)
    o = w.call(inst, 'getReturn', a, b, x, view=True)
    if not o.ok:
        w.cover('refused')
        return
    w.cover('quoted')
    w.ensure('only an active converter quotes', active(w, inst))
    w.ensure('the tokens differ', ne(a, b))
    w.ensure('only between the token and its connectors, or two connectors',
             And(Or(eq(a, ft), ca is not None), Or(eq(b, ft), cb is not None)))
    w.ensure('no purchase through a connector closed for purchases', Or(
        And(eq(b, ft), ca['isPurchaseEnabled'] if ca else False), eq(a, ft),
        cb['isPurchaseEnabled'] if cb else False))


@spec('C35', name='closing a connector for purchases', covers=('switched', 'refused'))
def purchase_switch(w):
    inst = conv(w)
    s, t, q, d = w.addr('sender'), w.addr('token', none=True), w.addr('q'), w.bool('disable')
    pre, was = view(w, inst, q), connector(w, inst, t)
    o = w.call(inst, 'disableConnectorPurchases', t, d, sender=s)
    w.ensure('exactly the owner, for a defined connector', Iff(o.ok, And(eq(s, pre['getOwner']), was is not None)))
    if not o.ok:
        w.cover('refused')
        return
    w.cover('switched')
    post, c = view(w, inst, q), connector(w, inst, t)
    w.ensure('the switch takes effect', c is not None and Iff(c['isPurchaseEnabled'], Not(d)))
    w.ensure('the rest of the connector stays', And(*[same(was[k], c[k]) for k in was if k != 'isPurchaseEnabled']))
    w.ensure('other connectors stay', Or(eq(q, t), same(pre['getConnector'], post['getConnector'])))
    w.ensure('nothing else changes', unchanged(pre, post, ('getConnector',)))


@spec('C35', name='only the switch opens or closes a connector', covers=('succeeds',), budget=300)
def purchase_frame(w):
    inst = conv(w)
    m = w.choose('method', [x for x in w.entries(CONV) if x not in ('addConnector', 'disableConnectorPurchases')])
    s, q = w.addr('sender'), w.addr('q')
    args, _ = any_args(w, CONV, m)
    c0, t0 = connector(w, inst, q), w.view(inst, 'getToken')
    o = w.call(inst, m, *args, sender=s)
    if o.ok:
        w.cover('succeeds')
        c1 = connector(w, inst, q)
        w.ensure('purchase switches and the managed token stay', (c0 is None) == (c1 is None) and And(
            eq(w.view(inst, 'getToken'), t0),
            True if c0 is None else Iff(c0['isPurchaseEnabled'], c1['isPurchaseEnabled'])))


class Relay(Ownership):
    """records what the managed token is told; it may refuse"""

    def __init__(self):
        self.refused = False

    def unknown(self, w, inst, to, name, kw):
        self.refused = Not(w.fresh('accepts', 'bool'))
        w.require(Not(self.refused), 'refused')


@spec('C35', name='the owner hands the token over and takes it back', covers=('relayed', 'refused'),
      cases={m: {'method': m} for m in ('transferTokenOwnership', 'acceptTokenOwnership', 'disableTokenTransfers')})
def relays(w, method):
    env = Relay()
    inst = subject(w, CONV, env)
    s, q = w.addr('sender'), w.addr('q')
    pre = view(w, inst, q)
    w.assume(ne(pre['getToken'], None))
    args, _ = any_args(w, CONV, method)
    o = w.call(inst, method, *args, sender=s)
    w.ensure('exactly the owner, and only the token can refuse',
             Iff(o.ok, And(eq(s, pre['getOwner']), Not(env.refused))))
    if not o.ok:
        w.cover('refused')
        return
    w.cover('relayed')
    c = o.calls()
    want = {'transferTokenOwnership': 'transferOwnerShip', 'acceptTokenOwnership': 'acceptOwnerShip',
            'disableTokenTransfers': 'disableTransfer'}[method]
    w.ensure('exactly that operation of the managed token is invoked',
             len(c) == 1 and c[0].name == want and And(eq(c[0].to, pre['getToken']),
                                                       *[eq(x, y) for x, y in zip(c[0].args.values(), args)]))
    w.ensure('nothing of the converter changes', unchanged(pre, view(w, inst, q)))


# ------------------------------------------------------------------ C36 conversions switch
@spec('C36', name='the switch', covers=('switched', 'kept', 'refused'))
def conversions_switch(w):
    inst = conv(w)
    s, q, d = w.addr('sender'), w.addr('q'), w.bool('disable')
    pre = view(w, inst, q)
    o = w.call(inst, 'disableConversions', d, sender=s)
    w.ensure('exactly the owner or the manager', Iff(o.ok, Or(eq(s, pre['getOwner']), eq(s, pre['getManager']))))
    if not o.ok:
        w.cover('refused')
        return
    post = view(w, inst, q)
    w.ensure('the switch takes effect', Iff(post['isConversionsEnabled'], Not(d)))
    w.ensure('nothing else changes', unchanged(pre, post, ('isConversionsEnabled',)))
    e = o.event('ConversionsEnable')
    if w.branch(Iff(pre['isConversionsEnabled'], d)):
        w.cover('switched')
        w.ensure('a change is announced once, with the new setting', len(e) == 1 and Iff(e[0].args[0], Not(d)))
    else:
        w.cover('kept')
        w.ensure('no change, no announcement', not e)


@spec('C36', name='no other way', covers=('succeeds',), budget=300)
def conversions_frame(w):
    inst = conv(w)
    m = w.choose('method', [x for x in w.entries(CONV) if x != 'disableConversions'])
    s = w.addr('sender')
    args, _ = any_args(w, CONV, m)
    e0 = w.view(inst, 'isConversionsEnabled')
    o = w.call(inst, m, *args, sender=s)
    if o.ok:
        w.cover('succeeds')
        w.ensure('conversions are only switched by the switch', Iff(w.view(inst, 'isConversionsEnabled'), e0))


@spec('C36', name='a new converter converts', covers=('installed',))
def conversions_genesis(w):
    inst = conv(w, lazy=False)
    o = w.call(inst, 'on_install', sender=w.addr('sender'), install=True, kwargs=install_args(w, CONV))
    if o.ok:
        w.cover('installed')
        w.ensure('conversions are enabled', w.view(inst, 'isConversionsEnabled'))
