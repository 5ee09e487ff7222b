from .common import *

OWNERS = {'FlexibleToken': FT, 'IcxToken': ICX, 'ScoreRegistry': REG, 'Network': NET, 'Converter': CONV}


def cases(d):
    return {k: {'path': v} for k, v in d.items()}


def view(w, inst, q):
    return observe(w, inst, q, SKIPVIEW.get(inst.path, ()))


# ------------------------------------------------------------------ C06
@spec('C06', name='nominate', cases=cases(OWNERS), covers=('nominated', 'refused'))
def nominate(w, path):
    inst = subject(w, path)
    s, n, q = w.addr('sender'), w.addr('nominee', none=True), w.addr('q')
    pre = view(w, inst, q)
    o = w.call(inst, 'transferOwnerShip', n, sender=s)
    w.ensure('exactly the owner can nominate somebody else', Iff(o.ok, And(eq(s, pre['getOwner']), ne(n, None), ne(n, pre['getOwner']))))
    if not o.ok:
        w.cover('refused')
        return
    w.cover('nominated')
    post = view(w, inst, q)
    w.ensure('the nominee is recorded', eq(post['getNewOwner'], n))
    w.ensure('ownership itself and everything else stay', unchanged(pre, post, ('getNewOwner',)))


@spec('C06', name='accept', cases=cases(OWNERS), covers=('accepted', 'refused'))
def accept(w, path):
    inst = subject(w, path)
    s, q = w.addr('sender'), w.addr('q')
    pre = view(w, inst, q)
    w.assume(And(ne(pre['getOwner'], None), ne(pre['getNewOwner'], None)))
    o = w.call(inst, 'acceptOwnerShip', sender=s)
    w.ensure('exactly the nominee can accept', Iff(o.ok, eq(s, pre['getNewOwner'])))
    if not o.ok:
        w.cover('refused')
        return
    w.cover('accepted')
    post = view(w, inst, q)
    w.ensure('the nominee is now owner, no nomination is left', And(eq(post['getOwner'], s), eq(post['getNewOwner'], w.zero())))
    w.ensure('nothing else changes', unchanged(pre, post, ('getNewOwner', 'getOwner')))
    e = o.event('OwnerUpdate')
    w.ensure('the handover is announced', len(e) == 1 and And(eq(e[0].args[0], pre['getOwner']), eq(e[0].args[1], s)))


def _field_frame(w, path, fields, allowed):
    inst = subject(w, path)
    m = w.choose('method', [x for x in w.entries(path) if x not in allowed])
    s = w.addr('sender')
    args, _ = any_args(w, path, m)
    value = w.int('value', 0) if w.is_payable(inst, m) else 0
    pre = {f: w.view(inst, f) for f in fields}
    o = w.call(inst, m, *args, sender=s, value=value)
    if o.ok:
        w.cover('succeeds')
        w.ensure(f'{", ".join(fields)} only change through the two-step handover',
                 unchanged(pre, {f: w.view(inst, f) for f in fields}))


@spec('C06', name='no other way', cases=cases(OWNERS), covers=('succeeds',), budget=200)
def owner_frame(w, path):
    _field_frame(w, path, ['getOwner', 'getNewOwner'], ('transferOwnerShip', 'acceptOwnerShip'))


def install_args(w, path):
    """arbitrary installation arguments, acceptable or not"""
    if path == FT:
        w.hint('d', lambda r: r.choice([0, 1, 18, 18, 60, -1]), 1)
        return {'_name': w.str('n'), '_symbol': w.str('s'),
                '_initialSupply': w.int('i', hints=(0, 1, -1, 10 ** 20)), '_decimals': w.int('d', hints=(0, 18, -1))}
    if path == CONV:
        return {'_token': w.addr('ft', none=True), '_registry': w.addr('registry', none=True),
                '_maxConversionFee': w.int('maxfee', hints=(0, 1, MILLION, MILLION + 1, -1)),
                '_connectorToken': w.addr('ct', none=True),
                '_connectorWeight': w.int('cw', hints=(1, 500000, MILLION))}
    return {}


@spec('C06', name='the deployer is the first owner', cases=cases(OWNERS), covers=('installed',))
def first_owner(w, path):
    inst = subject(w, path, lazy=False)
    s = w.addr('sender')
    o = w.call(inst, 'on_install', sender=s, install=True, kwargs=install_args(w, path))
    if o.ok:
        w.cover('installed')
        w.ensure('owner is the deployer, nobody is nominated',
                 And(eq(w.view(inst, 'getOwner'), s), eq(w.view(inst, 'getNewOwner'), w.zero())))


# ------------------------------------------------------------------ C07
MAN = {'Converter': CONV}


@spec('C07', name='nominate', covers=('nominated', 'refused'))
def m_nominate(w):
    inst = subject(w, CONV)
    s, n, q = w.addr('sender'), w.addr('nominee', none=True), w.addr('q')
    pre = view(w, inst, q)
    o = w.call(inst, 'transferManagement', n, sender=s)
    w.ensure('exactly the owner or the manager can nominate somebody else',
             Iff(o.ok, And(Or(eq(s, pre['getOwner']), eq(s, pre['getManager'])), ne(n, None), ne(n, pre['getManager']))))
    if not o.ok:
        w.cover('refused')
        return
    w.cover('nominated')
    post = view(w, inst, q)
    w.ensure('the nominee is recorded', eq(post['getNewManager'], n))
    w.ensure('management itself and everything else stay', unchanged(pre, post, ('getNewManager',)))


@spec('C07', name='accept', covers=('accepted', 'refused'))
def m_accept(w):
    inst = subject(w, CONV)
    s, q = w.addr('sender'), w.addr('q')
    pre = view(w, inst, q)
    o = w.call(inst, 'acceptManagement', sender=s)
    w.ensure('exactly the nominee can accept', Iff(o.ok, eq(s, pre['getNewManager'])))
    if not o.ok:
        w.cover('refused')
        return
    w.cover('accepted')
    post = view(w, inst, q)
    w.ensure('the nominee is now manager, no nomination is left',
             And(eq(post['getManager'], s), eq(post['getNewManager'], w.zero())))
    w.ensure('nothing else changes', unchanged(pre, post, ('getNewManager', 'getManager')))
    e = o.event('ManagerUpdate')
    w.ensure('the handover is announced', len(e) == 1 and And(eq(e[0].args[0], pre['getManager']), eq(e[0].args[1], s)))


@spec('C07', name='no other way', covers=('succeeds',))
def m_frame(w):
    _field_frame(w, CONV, ['getManager', 'getNewManager'], ('transferManagement', 'acceptManagement'))


@spec('C07', name='the deployer is the first manager', covers=('installed',))
def first_manager(w):
    inst = subject(w, CONV, lazy=False)
    s = w.addr('sender')
    o = w.call(inst, 'on_install', sender=s, install=True, kwargs=install_args(w, CONV))
    if o.ok:
        w.cover('installed')
        w.ensure('manager is the deployer, nobody is nominated',
                 And(eq(w.view(inst, 'getManager'), s), eq(w.view(inst, 'getNewManager'), w.zero())))


# ------------------------------------------------------------------ C08
OWNER_ONLY = {
    FT: ['disableTransfer', 'issue', 'withdrawTokens', 'transferOwnerShip'],
    ICX: ['withdrawTokens', 'transferOwnerShip'],
    REG: ['registerAddress', 'unregisterAddress', 'transferOwnerShip'],
    NET: ['registerIcxToken', 'withdrawTokens', 'transferOwnerShip'],
    CONV: ['addConnector', 'updateConnector', 'disableConnectorPurchases', 'withdrawTokens', 'transferOwnerShip',
           'transferTokenOwnership', 'acceptTokenOwnership', 'disableTokenTransfers', 'withdrawFromToken'],
}
OWNER_OR_MANAGER = {CONV: ['transferManagement', 'restoreRegistry', 'disableRegistryUpdate', 'disableConversions',
                           'setConversionFee']}


@spec('C08', name='privileged operations refuse everybody else', cases=cases(OWNERS), covers=('tried',))
def privileged(w, path):
    inst = subject(w, path)
    s = w.addr('sender')
    oo, om = OWNER_ONLY[path], OWNER_OR_MANAGER.get(path, [])
    m = w.choose('method', oo + om)
    args, _ = any_args(w, path, m)
    owner = w.view(inst, 'getOwner')
    entitled = eq(s, owner)
    if m in om:
        entitled = Or(entitled, eq(s, w.view(inst, 'getManager')))
    w.cover('tried')
    o = w.call(inst, m, *args, sender=s)
    if o.ok:
        w.ensure(f'{m} is refused to anybody not entitled', entitled)


# settings a stranger must not be able to move, per SCORE (balances, supply and curve state are not settings)
NOT_SETTINGS = {
    FT: ('totalSupply', 'balanceOf'), ICX: ('totalSupply', 'balanceOf'), REG: (), NET: (),
    CONV: ('getRegistry', 'getPreviousRegistry', 'isActive', 'getConnectorBalance', 'getConnector'),
}
PRIVILEGED_CALLS = ('transferOwnerShip', 'acceptOwnerShip', 'disableTransfer', 'withdrawTokens')


@spec('C08', name='a stranger changes no setting', covers=('tried', 'succeeds'), budget=300, may_be_empty=True,
      cases={k: dict(path=v, **({'covers': ('tried',)} if v == REG else {})) for k, v in OWNERS.items()})
def stranger(w, path):
    inst = subject(w, path)
    m = w.choose('method', w.entries(path))
    s, q = w.addr('sender'), w.addr('q')
    args, _ = any_args(w, path, m)
    value = w.int('value', 0) if w.is_payable(inst, m) else 0
    pre = observe(w, inst, q, NOT_SETTINGS[path])
    entitled = [pre['getOwner'], pre['getNewOwner']]
    if path == CONV:
        entitled += [pre['getManager'], pre['getNewManager']]
        pre['connector'] = settings_of(w, inst, q)
    w.assume(Not(isin(s, entitled)))
    w.cover('tried')
    o = w.call(inst, m, *args, sender=s, value=value)
    if o.ok:
        w.cover('succeeds')
        post = observe(w, inst, q, NOT_SETTINGS[path])
        if path == CONV:
            post['connector'] = settings_of(w, inst, q)
        w.ensure('no setting changed', unchanged(pre, post))
        w.ensure('no privileged operation of another SCORE was triggered',
                 not [c for c in o.calls() if c.name in PRIVILEGED_CALLS])


def settings_of(w, inst, q):
    c = w.view(inst, 'getConnector', q)
    return {k: v for k, v in c.items() if k != 'virtualBalance'}


# ------------------------------------------------------------------ C09
class Bank(Env):
    def __init__(self, ftowner=None):
        self.ftowner = ftowner
        self.refused = None

    def x_getOwner(self, w, inst, to):
        return w.fn('ft.owner', 'addr', to)

    def x_transfer(self, w, inst, to, _to, _value, _data):
        self.refused = Not(w.fresh('accepts', 'bool'))
        w.require(Not(self.refused), 'refused')

    def x_withdrawTokens(self, w, inst, to, **kw):
        self.refused = Not(w.fresh('accepts', 'bool'))
        w.require(Not(self.refused), 'refused')


HOLDERS = {'FlexibleToken': FT, 'IcxToken': ICX, 'Network': NET, 'Converter': CONV}


@spec('C09', name='withdrawal of held tokens', cases=cases(HOLDERS), covers=('paid', 'refused'))
def withdraw_tokens(w, path):
    env = Bank()
    inst = subject(w, path, env)
    s, t, to, v, q = w.addr('sender'), w.addr('token', contract=True), w.addr('to', none=True), w.int('amount'), w.addr('q')
    pre = observe(w, inst, q, SKIPVIEW.get(path, ()))
    guard = And(eq(s, pre['getOwner']), v > 0, ne(to, None), ne(to, inst.address), ne(to, w.zero()))
    if path == CONV:
        ft = pre['getToken']
        w.assume(w.is_contract(ft))
        c = w.view(inst, 'getConnector', t)
        active = eq(w.fn('ft.owner', 'addr', ft), inst.address)
        guard = And(guard, Not(And(active, c.get('isSet', False))))
    o = w.call(inst, 'withdrawTokens', t, to, v, sender=s)
    if not o.ok:
        w.cover('refused', Not(guard))
        w.ensure('a rightful withdrawal is refused only by the token',
                 Or(Not(guard), False if env.refused is None else env.refused))
        return
    w.cover('paid')
    w.ensure('only the owner withdraws, a positive amount, to a proper third party; never a connector token of an active converter', guard)
    c = [x for x in o.calls() if x.name != 'getOwner']
    w.ensure('exactly the requested tokens are sent to the requested account', len(c) == 1 and c[0].name == 'transfer' and And(
        eq(c[0].to, t), eq(c[0].args['_to'], to), eq(c[0].args['_value'], v)))
    w.ensure('no state changes', unchanged(pre, observe(w, inst, q, SKIPVIEW.get(path, ()))))
    w.ensure('no ICX moves', not o.icx())


@spec('C09', name='withdrawal from the managed token', covers=('paid', 'refused'))
def withdraw_from_token(w):
    env = Bank()
    inst = subject(w, CONV, env)
    s, t, to, v, q = w.addr('sender'), w.addr('token', none=True), w.addr('to', none=True), w.int('amount'), w.addr('q')
    pre = observe(w, inst, q, SKIPVIEW[CONV])
    w.assume(w.is_contract(pre['getToken']))
    o = w.call(inst, 'withdrawFromToken', t, to, v, sender=s)
    if not o.ok:
        w.cover('refused', ne(s, pre['getOwner']))
        w.ensure('the owner is refused only by the managed token',
                 Or(ne(s, pre['getOwner']), False if env.refused is None else env.refused))
        return
    w.cover('paid')
    w.ensure('only the owner', eq(s, pre['getOwner']))
    c = o.calls()
    w.ensure('exactly the request is passed to the managed token', len(c) == 1 and c[0].name == 'withdrawTokens' and And(
        eq(c[0].to, pre['getToken']), eq(c[0].args['_token'], t), eq(c[0].args['_to'], to), eq(c[0].args['_amount'], v)))
    w.ensure('no state changes', unchanged(pre, observe(w, inst, q, SKIPVIEW[CONV])))


@spec('C09', name='nobody else moves held tokens out', cases={k: {'path': v} for k, v in OWNERS.items() if v in (FT, ICX)},
      covers=('succeeds',))
def no_other_payout(w, path):
    inst = subject(w, path)
    m = w.choose('method', [x for x in w.entries(path) if x != 'withdrawTokens'])
    s = w.addr('sender')
    args, _ = any_args(w, path, m)
    value = w.int('value', 0) if w.is_payable(inst, m) else 0
    o = w.call(inst, m, *args, sender=s, value=value)
    if o.ok:
        w.cover('succeeds')
        w.ensure('no other operation moves foreign tokens', not o.calls('transfer'))
