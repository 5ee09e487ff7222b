from .common import *

TRUST = ['a converter that accepts a request pays a non-negative amount of the requested token to the network and takes '
         'nothing else from it (C15-C21); tokens move exactly what they are told to (C02); an ICX token credits the ICX it '
         'receives to its sender and pays it out again (C05)']
MAXLEN = 21


class Net(Env):
    """honest tokens, ICX tokens and converters; every one of them may refuse"""
    assume_contracts = True

    def __init__(self, w, hostile=False):
        self.bal = w.smap('bal', 'int', 2, lo=0)
        self.hostile = hostile
        self.hops = []
        self.payouts = []
        self.icx_out = []
        self.quotes = []
        self.refused = False

    def accept(self, w, what, *keys, also=True):
        ok = And(w.fn(what + ' accepts', 'bool', *keys), also)
        self.refused = Not(ok)
        w.require(ok, f'{what} refuses')

    def x_getOwner(self, w, inst, to):
        return w.fn('ft.owner', 'addr', to)

    def x_balanceOf(self, w, inst, to, _owner):
        if self.hostile:
            return w.fresh('answer.balance')
        return self.bal.get(to, _owner)

    def x_getReturn(self, w, inst, to, _fromToken, _toToken, _amount):
        self.quotes.append((to, _fromToken, _toToken, _amount))
        self.accept(w, 'quote', to, _fromToken, _toToken, _amount)
        return {'amount': w.fn('quote', 'int', to, _fromToken, _toToken, _amount),
                'fee': w.fn('quote fee', 'int', to, _fromToken, _toToken, _amount)}

    def x_transfer(self, w, inst, to, _to, _value, _data):
        me = inst.address
        req = w.parse_sent(_data)
        if req is not None and not (isinstance(req, dict) and set(req) == {'toToken', 'minReturn'}):
            req = None
        if not self.hostile:
            self.refused = Not(_value >= 0)         # asking for more than there is, is the network's own fault
            w.require(And(_value >= 0, self.bal.get(to, me) >= _value), 'out of balance')
            self.bal.add([to, me], -_value)
            self.bal.add([to, _to], _value)
        if req is None:
            self.payouts.append(('transfer', to, _to, _value, _data))
            self.accept(w, 'payee', _to, also=ne(_to, me))     # the network refuses plain deposits (C28)
            return
        if self.hostile:
            self.hops.append((to, _to, _value, req, None))
            return
        dst = req['toToken']
        self.accept(w, 'converter', _to, to, dst, _value, also=ne(to, dst))
        g = w.fresh('paid', lo=0)
        self.bal.add([dst, me], g)
        self.bal.add([dst, _to], -g)
        self.hops.append((to, _to, _value, req, g))

    def x_withdrawTo(self, w, inst, to, _amount, _to):
        me = inst.address
        if not self.hostile:
            self.refused = Not(_amount > 0)
            w.require(And(_amount > 0, self.bal.get(to, me) >= _amount), 'out of balance')
            self.bal.add([to, me], -_amount)
        self.payouts.append(('withdrawTo', to, _to, _amount, None))
        self.accept(w, 'payee', _to, also=ne(_to, me))     # the network refuses plain deposits (C28)

    def icx(self, w, inst, to, amount):
        self.icx_out.append((to, amount))
        if not self.hostile:
            self.bal.add([to, inst.address], amount)


def net(w, hostile=False):
    inst = subject(w, NET, Net(w, hostile))
    return inst


class PathView:
    """an address list text whose length is settled first where it is a valid one (cheaper obligations)"""

    def __init__(self, w, t):
        self.t, self.raw = t, t.raw
        self.n = t.n
        for k in range(3, MAXLEN + 1, 2):
            if w.branch(eq(t.n, k)):
                self.n = k
                break
        self.ok, self.ws, self.addr = t.ok, t.ws, t.addr


def each(t, f, start=0, step=1, upto=MAXLEN):
    """conjunction of f(i) over the positions the path has"""
    if isinstance(t.n, int):
        return And(True, *[f(i) for i in range(start, min(upto, t.n), step)])
    return And(True, *[Or(t.n <= i, f(i)) for i in range(start, upto, step)])


def valid_path(t):
    """odd, three to twenty-one addresses, each flexible token once"""
    n = t.n
    if isinstance(n, int):
        if n < 3 or n > MAXLEN or n % 2 == 0:
            return False
        return And(*[t.ok(i) for i in range(n)], *[ne(t.addr(i), t.addr(j)) for i in range(1, n, 2)
                                                   for j in range(i + 2, n, 2)])
    c = And(n >= 3, n <= MAXLEN, Or(*[eq(n, k) for k in range(3, MAXLEN + 1, 2)]))
    c = And(c, *[Or(n <= i, t.ok(i)) for i in range(MAXLEN)])
    for i in range(1, MAXLEN, 2):
        for j in range(i + 2, MAXLEN, 2):
            c = And(c, Or(n <= j, ne(t.addr(i), t.addr(j))))
    return c


def tokens_are_contracts(w, t):
    """interfaces only work with SCOREs"""
    return each(t, lambda i: w.is_contract(t.addr(i)))


class Request:
    """a conversion request through one of the three doors"""

    def __init__(self, w, door=None, hostile=False):
        self.w = w
        self.door = door or w.choose('door', ['tokenFallback', 'convert', 'convertFor'])
        if w.__class__.__name__ != 'SymWorld':
            self.steer()
        inst = self.inst = net(w, hostile)
        self.env = w.env
        self.sender = w.addr('sender', avoid=[inst.address])
        self.q_tok, self.q_who = w.addr('q.token'), w.addr('q.holder')
        self.data = None
        if self.door == 'tokenFallback':
            self.amount = w.int('amount', hints=(0, 1, 100, 10 ** 18))
            self.origin = w.addr('from', avoid=[inst.address])
            d = self.data = w.data('data', ('path', 'minReturn', 'for'))
            self.path = PathView(w, d.text('path'))
            self.token_in = self.sender
            named = And(d.has('for'), Not(d.is_type('for', 'null')))
            self.named = named
            if w.branch(named):
                self.payee = d.addr('for')
                self.payee_ok = And(d.addr_ok('for'), ne(self.payee, w.zero()))
            else:
                self.payee = self.origin
                self.payee_ok = ne(self.payee, w.zero())
            isint, isb = d.is_type('minReturn', 'int'), d.is_type('minReturn', 'bool')
            if w.branch(isb):
                self.min = If(d.bool('minReturn'), 1, 0)
            else:
                self.min = d.int('minReturn')
            self.min_ok = And(Or(isint, isb), self.min > 0)
            self.form = And(d.well_formed(), d.has('path'), d.is_type('path', 'str'), d.has('minReturn'))
            self.accepted_form = And(self.form, valid_path(self.path), self.payee_ok, self.min_ok,
                                     eq(self.path.addr(0), self.token_in))
        else:
            self.amount = w.int('value', 0, hints=(0, 1, 100, 10 ** 18))
            self.path = PathView(w, w.path_text('path'))
            self.min = w.int('minReturn', hints=(1, 2, 0))
            self.origin = self.sender
            self.payee = w.addr('for', none=True) if self.door == 'convertFor' else self.sender
            self.token_in = self.path.addr(0)
            reg = w.view(inst, 'getIcxTokenRegistered', self.token_in) if w.branch(
                And(self.path.n >= 1, self.path.ok(0))) else False
            self.registered = reg
            self.accepted_form = And(valid_path(self.path), self.min > 0, ne(self.payee, None), ne(self.payee, w.zero()),
                                     ne(self.payee, inst.address), reg)

    def steer(self):
        w = self.w
        w.hint('is_contract', True, 0.97)
        w.hint('facet.utf8', True, .99)
        w.hint('facet.json', True, .99)
        w.hint('facet.dict', True, .99)
        w.hint('facet.has.path', True, .99)
        w.hint('facet.has.minReturn', True, .99)
        w.hint('facet.type.path', 1, .98)
        w.hint('facet.type.minReturn', lambda r: r.choice([0] * 9 + [4]), .95)
        w.hint('facet.type.for', lambda r: r.choice([1, 1, 1, 3, 0]), .98)
        w.hint('facet.int.minReturn', lambda r: r.choice([1, 1, 2, 50]), .85)
        w.hint('minReturn', lambda r: r.choice([1, 1, 2, 50]), .85)
        odd = lambda r: r.choice([3, 3, 3, 5, 5, 7, 9, 15, 19, 21])
        w.hint('path.n', odd, .8)
        w.hint('facet.text.path.n', odd, .8)
        # distinct flexible tokens most of the time
        for nm in ('path.addr', 'facet.text.path.addr'):
            w.hint(nm, lambda r, a: 40 + a[-1] if a[-1] % 2 else r.choice([3, 4, 5, 6, 7, 8]), .93)
        for nm in ('path.ok', 'facet.text.path.ok', 'facet.text.for.ok'):
            w.hint(nm, True, .995)
        w.hint('facet.text.for.ws', False, .97)
        w.hint('*accepts', True, .98)
        w.hint('*dict:icx_tokens', lambda r: r.random() < .6, 1)
        w.hint('g:bal', lambda r: r.choice([10 ** 20, 10 ** 20, 0, 50]), .9)

    def honest(self):
        """facts about the environment of a request"""
        w, t, inst = self.w, self.path, self.inst
        w.assume(tokens_are_contracts(w, t))
        w.assume(each(t, lambda i: ne(t.addr(i), inst.address)))
        # an honest converter is not the network, and refuses to convert a token into itself

        def conv(i):
            c = w.fn('ft.owner', 'addr', t.addr(i))
            return And(ne(c, inst.address), ne(c, w.zero()), w.is_contract(c))
        w.assume(each(t, conv, 1, 2))

    def deposit(self):
        """the source token has credited the network before it calls it"""
        w = self.w
        if self.door == 'tokenFallback' and not self.env.hostile:
            w.assume(self.env.bal.get(self.token_in, self.inst.address) >= self.amount)

    def proper(self):
        """C26 and C28 settle what happens to every other message"""
        w, t = self.w, self.path
        if self.data is not None:
            w.assume(And(self.form, Or(self.data.is_type('minReturn', 'int'), self.data.is_type('minReturn', 'bool'))))
        w.assume(each(t, t.ok))

    def fire(self):
        w, inst = self.w, self.inst
        if self.door == 'tokenFallback':
            self.o = w.call(inst, 'tokenFallback', self.origin, self.amount, self.data.raw, sender=self.sender)
        elif self.door == 'convert':
            self.o = w.call(inst, 'convert', self.path.raw, self.min, sender=self.sender, value=self.amount)
        else:
            self.o = w.call(inst, 'convertFor', self.path.raw, self.min, self.payee, sender=self.sender, value=self.amount)
        self.traded = self.o.ok and bool([c for c in self.o.calls() if c.name in ('transfer', 'withdrawTo')])
        return self.o

    def not_result(self):
        """the message is a request, not the marker of a conversion result"""
        if self.data is not None:
            self.w.assume(ne(self.data.raw, b'conversionResult'))

    def length(self):
        """length of the path, once the operation went through (the code must have settled it)"""
        w = self.w
        return self.path.n if isinstance(self.path.n, int) and self.path.n in range(3, MAXLEN + 1, 2) else None


DOORS = {'by token transfer': {'door': 'tokenFallback'}, 'by ICX for oneself': {'door': 'convert'},
         'by ICX for another': {'door': 'convertFor'}}


# ------------------------------------------------------------------ C26
@spec('C26', name='only valid paths are converted', cases=DOORS, covers=('converted', 'rejected', 'longest'), budget=300, trusted=TRUST)
def path_gate(w, door):
    r = Request(w, door)
    r.not_result()
    r.deposit()
    if r.data is not None:
        w.assume(And(r.form, r.data.is_type('minReturn', 'int')))
    o = r.fire()
    if not r.traded:
        w.cover('rejected')
        return
    w.cover('converted')
    w.ensure('the path has three to twenty-one valid addresses, an odd number, no flexible token twice', valid_path(r.path))
    w.cover('longest', eq(r.path.n, MAXLEN))


@spec('C26', name='only valid paths are quoted, and those always', covers=('quoted', 'rejected', 'longest'), budget=300, trusted=TRUST)
def quote_gate(w):
    inst = net(w)
    if w.__class__.__name__ != 'SymWorld':
        Request.steer(type('S', (), {'w': w})())
    t = PathView(w, w.path_text('path'))
    a = w.int('amount')
    w.assume(And(tokens_are_contracts(w, t), each(t, lambda i: w.is_contract(w.fn('ft.owner', 'addr', t.addr(i))), 1, 2)))
    o = w.call(inst, 'getExpectedReturnByPath', t.raw, a, view=True)
    if o.ok:
        w.cover('quoted')
        w.cover('longest', eq(t.n, MAXLEN))
        w.ensure('the path is valid and the amount positive', And(valid_path(t), a > 0))
        return
    w.cover('rejected')
    w.ensure('a valid path with willing converters is quoted', Or(w.env.refused, Not(And(valid_path(t), a > 0))))


@spec('C26', name='a valid request is not rejected', cases=DOORS, covers=('converted', 'rejected'), budget=300, trusted=TRUST)
def path_live(w, door):
    r = Request(w, door)
    r.not_result()
    r.honest()
    r.deposit()
    if r.data is not None:
        w.assume(And(r.form, r.data.is_type('minReturn', 'int')))
    o = r.fire()
    if o.ok:
        w.cover('converted')
        return
    w.cover('rejected')
    last = r.env.hops[-1][4] if r.env.hops else None
    short = last is not None and (last < r.min)
    w.ensure('a valid request is honoured unless a token, a converter or the payee refuses or the result is too small',
             Or(r.env.refused, short, Not(r.accepted_form)))


# ------------------------------------------------------------------ C27
@spec('C27', name='exact pass-through', cases=DOORS, covers=('converted', 'three hops', 'longest', 'paid in ICX', 'paid in tokens'), budget=400,
      trusted=TRUST)
def pass_through(w, door):
    r = Request(w, door)
    r.not_result()
    r.honest()
    r.deposit()
    env, inst, t = r.env, r.inst, r.path
    me = inst.address
    bal0 = env.bal.get(r.q_tok, me)
    r.proper()
    o = r.fire()
    if not r.traded:
        return
    w.cover('converted')
    n = r.length()
    if n is None:
        w.ensure('the path has a valid length', False)
        return
    w.cover('three hops', n == 7)
    w.cover('longest', n == MAXLEN)
    k = n // 2
    w.ensure('one conversion per flexible token', len(env.hops) == k)
    w.ensure('one payout', len(env.payouts) == 1)
    if len(env.hops) != k or len(env.payouts) != 1:
        return
    carry = r.amount
    for i, (tok, conv, value, req, g) in enumerate(env.hops):
        w.ensure('each hop spends the token it should', eq(tok, t.addr(2 * i)))
        w.ensure('each hop goes to the converter of its flexible token',
                 eq(conv, w.fn('ft.owner', 'addr', t.addr(2 * i + 1))))
        w.ensure('each hop asks for the next token of the path', eq(req['toToken'], t.addr(2 * i + 2)))
        w.ensure('each hop converts exactly what the previous one paid', eq(value, carry))
        m = req['minReturn']
        w.ensure('the last hop asks for at least the minimum, no hop asks for more than that or for nothing',
                 And(m >= 1, m <= r.min) if i < k - 1 else eq(m, r.min))
        carry = g
    how, tok, to, amount, _ = env.payouts[0]
    w.ensure('exactly the result of the last hop is paid out', eq(amount, carry))
    w.ensure('in the last token of the path', eq(tok, t.addr(n - 1)))
    w.ensure('to the payee', eq(to, r.payee))
    if door != 'tokenFallback':
        w.ensure('the caller is told the amount paid out', ne(o.value, None) and eq(o.value, amount))
    reg = w.view(inst, 'getIcxTokenRegistered', t.addr(n - 1))
    w.ensure('as ICX exactly when the last token is a registered ICX token', Iff(reg, how == 'withdrawTo'))
    w.cover('paid in ICX' if how == 'withdrawTo' else 'paid in tokens')
    w.ensure('the network keeps and loses nothing', eq(env.bal.get(r.q_tok, me), bal0 - (
        If(eq(r.q_tok, t.addr(0)), r.amount, 0) if door == 'tokenFallback' else 0)))
    if door == 'tokenFallback':
        w.ensure('no ICX moves', not o.icx())
    else:
        w.ensure('exactly the ICX received goes to the ICX token', len(env.icx_out) == 1 and And(
            eq(env.icx_out[0][0], t.addr(0)), eq(env.icx_out[0][1], r.amount)))


# ------------------------------------------------------------------ C28
@spec('C28', name='what a token transfer to the network does', covers=('result taken', 'converted', 'refused'), budget=400, trusted=TRUST)
def entry(w):
    r = Request(w, 'tokenFallback')
    r.deposit()
    o = r.fire()
    marker = eq(r.data.raw, b'conversionResult')
    if not o.ok:
        w.cover('refused')
        w.ensure('a conversion result is always taken', Not(marker))
        return
    if not r.traded:
        w.cover('result taken')
        w.ensure('tokens are only kept when marked as a conversion result', marker)
        w.ensure('a conversion result has no effect', not o.trace or not [x for x in o.trace if x.kind != 'call'])
        return
    w.cover('converted')
    w.ensure('a conversion result starts no conversion', Not(marker))
    w.ensure('the message is a JSON object with path and minReturn', r.form)
    w.ensure('the token received is the first of the path', eq(r.path.addr(0), r.token_in))
    w.ensure('the minimum is a positive integer', r.min_ok)
    w.ensure('the payee is named correctly or is the sender', r.payee_ok)
    if len(r.env.payouts) == 1:
        w.ensure('the payout goes to the payee', eq(r.env.payouts[0][2], r.payee))


# ------------------------------------------------------------------ C29
@spec('C29', name='the trader gets the minimum whatever the others do', cases=DOORS, covers=('converted',), budget=400)
def end_to_end(w, door):
    r = Request(w, door, hostile=True)
    r.not_result()
    r.proper()
    o = r.fire()
    if not r.traded:
        return
    w.cover('converted')
    pays = [p for p in r.env.payouts]
    w.ensure('the request states a positive minimum', r.min > 0)
    w.ensure('exactly one payout is made, of at least the minimum, to the payee', len(pays) == 1 and And(
        pays[0][3] >= r.min, eq(pays[0][2], r.payee)))


# ------------------------------------------------------------------ C30
@spec('C30', name='the expected return composes the quotes', covers=('quoted', 'three hops', 'longest'), budget=300, trusted=TRUST)
def expected(w):
    inst = net(w)
    if w.__class__.__name__ != 'SymWorld':
        Request.steer(type('S', (), {'w': w})())
    t = PathView(w, w.path_text('path'))
    a = w.int('amount', hints=(1, 100, 10 ** 18))
    o = w.call(inst, 'getExpectedReturnByPath', t.raw, a, view=True)
    if not o.ok:
        return
    w.cover('quoted')
    n = t.n if isinstance(t.n, int) and t.n in range(3, MAXLEN + 1, 2) else None
    if n is None:
        w.ensure('the path has a valid length', False)
        return
    w.cover('three hops', n == 7)
    w.cover('longest', n == MAXLEN)
    x = a
    for i in range(0, n - 2, 2):
        x = w.fn('quote', 'int', w.fn('ft.owner', 'addr', t.addr(i + 1)), t.addr(i), t.addr(i + 2), x)
    w.ensure('the result is the last quote, each quote priced on the previous one', eq(o.value, x))
    w.ensure('nothing moves', not [c for c in o.trace if c.kind != 'call' or c.name not in ('getOwner', 'getReturn')])


# ------------------------------------------------------------------ C31
@spec('C31', name='registering ICX tokens', covers=('registered', 'refused'))
def register(w):
    inst = net(w)
    s, x, q = w.addr('sender'), w.addr('icxToken', none=True), w.addr('q')
    on = w.bool('register')
    pre = observe(w, inst, q)
    o = w.call(inst, 'registerIcxToken', x, on, sender=s)
    w.ensure('accepted exactly from the owner, for another address than zero and the network itself',
             Iff(o.ok, And(eq(s, pre['getOwner']), ne(x, None), ne(x, w.zero()), ne(x, inst.address))))
    if not o.ok:
        w.cover('refused')
        return
    w.cover('registered')
    post = observe(w, inst, q)
    w.ensure('exactly this registration changes', eq(post['getIcxTokenRegistered'],
                                                     If(eq(q, x), on, pre['getIcxTokenRegistered'])))
    w.ensure('nothing else changes', unchanged(pre, post, ('getIcxTokenRegistered',)))


@spec('C31', name='no other way', covers=('succeeds',), budget=300)
def register_frame(w):
    inst = subject(w, NET)
    m = w.choose('method', [x for x in w.entries(NET) if x != 'registerIcxToken'])
    s, q = w.addr('sender'), w.addr('q')
    args, _ = any_args(w, NET, m)
    value = w.int('value', 0) if w.is_payable(inst, m) else 0
    pre = w.view(inst, 'getIcxTokenRegistered', q)
    o = w.call(inst, m, *args, sender=s, value=value)
    if o.ok:
        w.cover('succeeds')
        w.ensure('registrations change only through registerIcxToken',
                 eq(w.view(inst, 'getIcxTokenRegistered', q), pre))


@spec('C31', name='converting ICX', cases={k: v for k, v in DOORS.items() if v['door'] != 'tokenFallback'},
      covers=('converted', 'refused'), budget=300, trusted=TRUST)
def icx_gate(w, door):
    r = Request(w, door)
    r.proper()
    o = r.fire()
    if not o.ok:
        w.cover('refused')
        return
    w.cover('converted')
    w.ensure('the first token of the path is a registered ICX token', r.registered)
    w.ensure('all the ICX sent, and nothing more, goes to that token',
             len(r.env.icx_out) == 1 and And(eq(r.env.icx_out[0][0], r.path.addr(0)), eq(r.env.icx_out[0][1], r.amount)))
    w.ensure('the minimum is positive, the payee is neither nobody nor the network', And(
        r.min > 0, ne(r.payee, None), ne(r.payee, w.zero()), ne(r.payee, r.inst.address) if door == 'convertFor' else True))
    if r.env.hops:
        w.ensure('exactly this amount is converted', eq(r.env.hops[0][2], r.amount))
    w.ensure('the payout goes to the payee', len(r.env.payouts) == 1 and eq(r.env.payouts[0][2], r.payee))
