from .common import *

NAMES = ('ScoreRegistry', 'Network', 'ScoreRegistry', 'Network', 'Score', 'Net', 'work', '', 'network')


def reg(w, lazy=True):
    return subject(w, REG, lazy=lazy)


@spec('C10', name='registering a name', covers=('registered', 'refused'))
def register(w):
    inst = reg(w)
    s, name, a, other = w.addr('sender'), w.str('name', hints=NAMES), w.addr('address', none=True), w.str('other', hints=NAMES)
    ids = w.view(inst, 'getScoreIds')
    owner, new_owner = w.view(inst, 'getOwner'), w.view(inst, 'getNewOwner')
    before = w.view(inst, 'getAddress', other)
    o = w.call(inst, 'registerAddress', name, a, sender=s)
    w.ensure('accepted exactly from the owner, for a listed name and a SCORE address',
             Iff(o.ok, And(eq(s, owner), isin(name, ids), w.is_contract(a), ne(a, w.zero()))))
    if not o.ok:
        w.cover('refused')
        return
    w.cover('registered')
    w.ensure('look-up returns the registered address', eq(w.view(inst, 'getAddress', name), a))
    w.ensure('other names keep their address', Or(eq(other, name), eq(w.view(inst, 'getAddress', other), before)))
    w.ensure('ownership stays', And(eq(w.view(inst, 'getOwner'), owner), eq(w.view(inst, 'getNewOwner'), new_owner)))
    w.ensure('the list of names stays', same(w.view(inst, 'getScoreIds'), ids))
    e = o.event('AddressUpdate')
    w.ensure('the change is announced', len(e) == 1 and And(eq(e[0].args[0], name), eq(e[0].args[1], a)))


@spec('C10', name='unregistering a name', covers=('unregistered', 'refused'))
def unregister(w):
    inst = reg(w)
    s, name, other = w.addr('sender'), w.str('name', hints=NAMES), w.str('other', hints=NAMES)
    owner = w.view(inst, 'getOwner')
    was, before = w.view(inst, 'getAddress', name), w.view(inst, 'getAddress', other)
    w.assume(Or(eq(was, w.zero()), w.is_contract(was)))
    o = w.call(inst, 'unregisterAddress', name, sender=s)
    if not o.ok:
        w.cover('refused')
        w.ensure('the owner can always unregister a registered name', Or(ne(s, owner), eq(was, w.zero())))
        return
    w.cover('unregistered')
    w.ensure('only the owner unregisters', eq(s, owner))
    w.ensure('look-up returns the zero address afterwards', eq(w.view(inst, 'getAddress', name), w.zero()))
    w.ensure('other names keep their address', Or(eq(other, name), eq(w.view(inst, 'getAddress', other), before)))
    w.ensure('ownership stays', eq(w.view(inst, 'getOwner'), owner))
    e = o.event('AddressUpdate')
    w.ensure('the change is announced', len(e) == 1 and And(eq(e[0].args[0], name), eq(e[0].args[1], w.zero())))


@spec('C10', name='look-up never fails and only ever answers SCORE addresses', covers=('known', 'unknown'))
def lookup(w):
    inst = reg(w)
    name = w.str('name', hints=NAMES)
    o = w.call(inst, 'getAddress', name, view=True)
    w.ensure('look-up answers for every name', o.ok)
    if o.ok:
        w.ensure('the answer is an address', ne(o.value, None))
        w.cover('known', ne(o.value, w.zero()))
        w.cover('unknown', eq(o.value, w.zero()))


@spec('C10', name='nothing else moves an entry', covers=('succeeds',))
def frame(w):
    inst = reg(w)
    m = w.choose('method', [x for x in w.entries(REG) if x not in ('registerAddress', 'unregisterAddress')])
    s, q = w.addr('sender'), w.str('q', hints=NAMES)
    args, _ = any_args(w, REG, m)
    pre = w.view(inst, 'getAddress', q)
    o = w.call(inst, m, *args, sender=s)
    if o.ok:
        w.cover('succeeds')
        w.ensure('entries only change by registering and unregistering', eq(w.view(inst, 'getAddress', q), pre))


@spec('C10', name='a new registry lists only itself', covers=('installed',))
def genesis(w):
    inst = reg(w, lazy=False)
    s, q = w.addr('sender'), w.str('q', hints=NAMES)
    o = w.call(inst, 'on_install', sender=s, install=True)
    w.ensure('installation succeeds', o.ok)
    if not o.ok:
        return
    w.cover('installed')
    ids = w.view(inst, 'getScoreIds')
    w.ensure('names are distinct', len(set(ids)) == len(ids))
    w.ensure('the registry and the network have names', 'ScoreRegistry' in ids and 'Network' in ids)
    w.ensure('the registry lists itself', eq(w.view(inst, 'getAddress', 'ScoreRegistry'), inst.address))
    w.ensure('every other name is free', Or(eq(q, 'ScoreRegistry'), eq(w.view(inst, 'getAddress', q), w.zero())))


# ------------------------------------------------------------------ C11: the converter's registry pointer
class Directory(Env):
    """registries answer the names they are asked for"""
    assume_contracts = True

    def __init__(self):
        self.asked = []

    def x_getAddress(self, w, inst, to, _scoreName):
        self.asked.append((to, _scoreName))
        return w.fn('registry.entry', 'addr', to, _scoreName)

    def x_getOwner(self, w, inst, to):
        return w.fn('ft.owner', 'addr', to)


REGVIEW = ('getRegistry', 'getPreviousRegistry', 'isAllowRegistryUpdate')


def conv(w):
    inst = subject(w, CONV, Directory())
    return inst


def view(w, inst, q):
    return observe(w, inst, q, SKIPVIEW[CONV])


@spec('C11', name='moving to the registry the current one names', covers=('moved', 'refused'))
def update_registry(w):
    inst = conv(w)
    s, q = w.addr('sender'), w.addr('q')
    pre = view(w, inst, q)
    w.assume(ne(pre['getRegistry'], None))
    o = w.call(inst, 'updateRegistry', sender=s)
    new = w.fn('registry.entry', 'addr', pre['getRegistry'], 'ScoreRegistry')
    w.ensure('happens exactly when updates are open or the owner asks, and a different proper registry is named',
             Iff(o.ok, And(Or(pre['isAllowRegistryUpdate'], eq(s, pre['getOwner'])), ne(new, None), ne(new, w.zero()),
                           ne(new, pre['getRegistry']))))
    if not o.ok:
        w.cover('refused')
        return
    w.cover('moved')
    post = view(w, inst, q)
    w.ensure('the new registry is the one the old registry names', eq(post['getRegistry'], new))
    w.ensure('the old registry is remembered', eq(post['getPreviousRegistry'], pre['getRegistry']))
    w.ensure('nothing else changes', unchanged(pre, post, ('getRegistry', 'getPreviousRegistry')))


@spec('C11', name='going back to the previous registry', covers=('restored', 'refused'))
def restore_registry(w):
    inst = conv(w)
    s, q = w.addr('sender'), w.addr('q')
    pre = view(w, inst, q)
    w.assume(ne(pre['getPreviousRegistry'], None))
    o = w.call(inst, 'restoreRegistry', sender=s)
    w.ensure('exactly the owner or the manager', Iff(o.ok, Or(eq(s, pre['getOwner']), eq(s, pre['getManager']))))
    if not o.ok:
        w.cover('refused')
        return
    w.cover('restored')
    post = view(w, inst, q)
    w.ensure('the previous registry is back', eq(post['getRegistry'], pre['getPreviousRegistry']))
    w.ensure('updates are closed to the public', Not(post['isAllowRegistryUpdate']))
    w.ensure('nothing else changes', unchanged(pre, post, ('getRegistry', 'isAllowRegistryUpdate')))


@spec('C11', name='opening and closing registry updates', covers=('switched', 'refused'))
def switch(w):
    inst = conv(w)
    s, q, d = w.addr('sender'), w.addr('q'), w.bool('disable')
    pre = view(w, inst, q)
    o = w.call(inst, 'disableRegistryUpdate', d, sender=s)
    w.ensure('exactly the owner or the manager', Iff(o.ok, Or(eq(s, pre['getOwner']), eq(s, pre['getManager']))))
    if not o.ok:
        w.cover('refused')
        return
    w.cover('switched')
    post = view(w, inst, q)
    w.ensure('the switch takes effect', Iff(post['isAllowRegistryUpdate'], Not(d)))
    w.ensure('nothing else changes', unchanged(pre, post, ('isAllowRegistryUpdate',)))


@spec('C11', name='update then restore is the identity on the pointer', covers=('both',))
def roundtrip(w):
    inst = conv(w)
    s, t = w.addr('sender'), w.addr('restorer')
    old = w.view(inst, 'getRegistry')
    w.assume(ne(old, None))
    if w.call(inst, 'updateRegistry', sender=s).ok and w.call(inst, 'restoreRegistry', sender=t).ok:
        w.cover('both')
        w.ensure('the converter is back on its old registry', eq(w.view(inst, 'getRegistry'), old))
        u = w.addr('anybody')
        again = w.call(inst, 'updateRegistry', sender=u)
        w.ensure('nobody but the owner can move it again', Or(Not(again.ok), eq(u, w.view(inst, 'getOwner'))))


@spec('C11', name='no other way', covers=('succeeds',))
def conv_frame(w):
    inst = subject(w, CONV)
    m = w.choose('method', [x for x in w.entries(CONV) if x not in
                            ('updateRegistry', 'restoreRegistry', 'disableRegistryUpdate')])
    s = w.addr('sender')
    args, _ = any_args(w, CONV, m)
    pre = {f: w.view(inst, f) for f in REGVIEW}
    o = w.call(inst, m, *args, sender=s)
    if o.ok:
        w.cover('succeeds')
        w.ensure('the registry pointers only change by update, restore and the switch',
                 unchanged(pre, {f: w.view(inst, f) for f in REGVIEW}))


@spec('C11', name='a new converter starts on the given registry', covers=('installed', 'refused'))
def conv_genesis(w):
    from .access import install_args
    inst = subject(w, CONV, lazy=False)
    s = w.addr('sender')
    kw = install_args(w, CONV)
    r = kw['_registry']
    o = w.call(inst, 'on_install', sender=s, install=True, kwargs=kw)
    if not o.ok:
        w.cover('refused')
        return
    w.cover('installed')
    w.ensure('the given registry is a proper one and in use, with itself as fallback, updates open',
             And(ne(r, None), ne(r, w.zero()), eq(w.view(inst, 'getRegistry'), r), eq(w.view(inst, 'getPreviousRegistry'), r),
                 w.view(inst, 'isAllowRegistryUpdate')))
