"""The whole exchange at once, real side: registry, network, two converters, their tokens and an ICX token, deployed
from the real contracts on the real iconservice over an in-memory ledger; random histories, every property watched
on the observable state.  Used to confirm failed link obligations (dv/specs/links.py) and as a cross-check of the
composition; bounded, never counted as proof.   usage: e2e.py PROPERTY SECONDS SEED | e2e.py PROPERTY replay SEED"""
import json
import os
import random
import sys
import time
from collections import namedtuple

REPO = os.environ.get('DV_REPO', '/repo')
Msg = namedtuple('Msg', 'sender value')
M = 10 ** 6
ZERO = None


def boot():
    global Address, IconScoreBase, IconScoreDatabase, CONST_BIT_FLAG, ConstBitFlag, json_dumps, ZERO
    global Converter, FlexibleToken, IRCToken, IcxToken, Network, ScoreRegistry, FORMULA
    sys.path.insert(0, REPO)
    from iconservice import Address, IconScoreBase, IconScoreDatabase, ZERO_SCORE_ADDRESS
    from iconservice.iconscore.icon_score_constant import CONST_BIT_FLAG, ConstBitFlag
    ZERO = ZERO_SCORE_ADDRESS
    IconScoreBase.msg = property(lambda self: STACK[-1])
    IconScoreBase.icx = property(Icx)
    IconScoreBase.create_interface_score = lambda self, a, c: Handle(self.address, a)
    IconScoreBase.get_owner = lambda *a: None
    IconScoreBase.owner = property(lambda self: None)
    from contracts.converter.converter import Converter
    from contracts.flexible_token.flexible_token import FlexibleToken
    from contracts.formula.fixed_map_formula import FixedMapFormula
    from contracts.icx_token.icx_token import IcxToken
    from contracts.irc_token.irc_token import IRCToken
    from contracts.network.network import Network
    from contracts.score_registry.score_registry import ScoreRegistry
    FORMULA = FixedMapFormula()


SCORES, COINS, STACK, EVENTS = {}, {}, [], []


def eoa(n):
    return Address.from_string('hx' + '%040x' % n)


def cx(n):
    return Address.from_string('cx' + '%040x' % n)


class Mem:
    def __init__(self):
        self.d = {}
        self.is_root = True

    def get(self, ctx, k):
        return self.d.get(k)

    def put(self, ctx, k, v):
        self.d[k] = v

    def delete(self, ctx, k):
        self.d.pop(k, None)


def run(score, f, sender, value, args, kw):
    STACK.append(Msg(sender, value))
    try:
        return f(*args, **kw)
    finally:
        STACK.pop()


class Handle:
    def __init__(self, caller, to):
        self.__dict__.update(caller=caller, to=to)

    def __getattr__(self, name):
        def call(*a, **k):
            s = SCORES[self.to]
            return run(s, getattr(s, name), self.caller, 0, a, k)
        return call


class Icx:
    def __init__(self, score):
        self.s = score

    def get_balance(self, a):
        return COINS.get(a, 0)

    def transfer(self, to, amount):
        move(self.s.address, to, amount)
        if to in SCORES:
            s = SCORES[to]
            f = getattr(s, 'fallback')
            if not getattr(f, CONST_BIT_FLAG, 0) & ConstBitFlag.Payable:
                raise RuntimeError('not payable')
            run(s, f, self.s.address, amount, (), {})


def move(a, b, n):
    if n < 0 or COINS.get(a, 0) < n:
        raise RuntimeError('not enough ICX')
    COINS[a] = COINS.get(a, 0) - n
    COINS[b] = COINS.get(b, 0) + n


def deploy(cls, n, sender, *args):
    for c in cls.__mro__:
        for k, f in list(vars(c).items()):
            if getattr(f, CONST_BIT_FLAG, 0) & ConstBitFlag.EventLog:
                setattr(c, k, lambda self, *a, _k=k, **kw: EVENTS.append((self.address, _k, a)))
    a = cx(n)
    m = Mem()
    s = cls(IconScoreDatabase(a, m))
    s.mem = m
    SCORES[a] = s
    run(s, s.on_install, sender, 0, args, {})
    return s


def tx(sender, score, name, *args, value=0, **kw):
    """-> (succeeded, result); a failed transaction leaves nothing behind"""
    keep = {a: (s, dict(s.mem.d)) for a, s in SCORES.items()}
    coins, nev = dict(COINS), len(EVENTS)
    try:
        if value:
            f = getattr(score, name)
            if not getattr(f, CONST_BIT_FLAG, 0) & ConstBitFlag.Payable:
                raise RuntimeError('not payable')
            move(sender, score.address, value)
        return True, run(score, getattr(score, name), sender, value, args, kw)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        for s, d in keep.values():
            s.mem.d.clear()
            s.mem.d.update(d)
        COINS.clear()
        COINS.update(coins)
        del EVENTS[nev:]
        return False, f'{type(e).__name__}: {e}'


def quote(score, name, *args):
    """-> (answered, value); nothing stays behind"""
    keep = {a: (s, dict(s.mem.d)) for a, s in SCORES.items()}
    coins, nev = dict(COINS), len(EVENTS)
    try:
        return True, run(score, getattr(score, name), eoa(0xfff), 0, args, {})
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return False, f'{type(e).__name__}: {e}'
    finally:
        for s, d in keep.values():
            s.mem.d.clear()
            s.mem.d.update(d)
        COINS.clear()
        COINS.update(coins)
        del EVENTS[nev:]


def view(score, name, *args):
    ok, r = quote(score, name, *args)
    if not ok:
        raise Skip(r)
    return r


class Skip(Exception):
    pass


class Broken(Exception):
    pass


def size(r):
    return r.choice((1, 2, 10, 1000, 10 ** 6, 10 ** 12, 10 ** 18, 10 ** 24, 3 * 10 ** 20 + 7, r.randrange(1, 10 ** r.randrange(1, 30))))


class World:
    def __init__(self, r, prop):
        self.r, self.prop = r, prop
        SCORES.clear()
        COINS.clear()
        EVENTS.clear()
        o = self.owner = eoa(1)
        self.users = [eoa(i) for i in (2, 3, 4)]
        self.fresh = 0x1000
        self.log = []
        self.reg = deploy(ScoreRegistry, 0x10, o)
        self.net = deploy(Network, 0x11, o)
        self.must(o, self.reg, 'registerAddress', 'Network', self.net.address)
        self.plain = [deploy(IRCToken, 0x20 + i, o, f't{i}', f'T{i}', 10 ** 36, 0) for i in range(3)]
        self.icxt = deploy(IcxToken, 0x28, o)
        for u in self.users + [o]:
            COINS[u] = 10 ** 30
            self.must(u, self.icxt, 'deposit', value=10 ** 27)
        for t in self.plain:
            for u in self.users:
                self.must(o, t, 'transfer', u, 10 ** 32)
        if r.random() < .8:
            self.must(o, self.net, 'registerIcxToken', self.icxt.address, True)
        self.flex, self.conv, self.conns = [], [], []
        for i in range(2):
            self.converter(i)
        self.tokens = self.plain + [self.icxt] + self.flex

    def must(self, s, c, n, *a, **k):
        ok, e = tx(s, c, n, *a, **k)
        if not ok:
            raise Skip(e)

    def converter(self, i):
        r, o = self.r, self.owner
        f = deploy(FlexibleToken, 0x40 + i, o, f'f{i}', f'F{i}', size(r), 0)
        pool = self.plain + [self.icxt] + self.flex
        ts = r.sample(pool, r.choice((1, 2, 2, 2, 3)))
        n = len(ts)
        cap = M // n
        ws = [r.choice((cap, cap, M // 10 if n < 9 else 1, r.randint(1, cap), 1)) for _ in ts]
        mx = r.choice((0, 30000, M, M))
        c = deploy(Converter, 0x50 + i, o, f.address, self.reg.address, mx, ts[0].address, ws[0])
        for t, w in list(zip(ts, ws))[1:]:
            self.must(o, c, 'addConnector', t.address, w, False)
        sup = view(f, 'totalSupply')
        holder = r.choice(self.users)
        self.must(o, f, 'transfer', holder, sup if r.random() < .6 else r.randint(0, sup))
        for t, w in zip(ts, ws):
            have = view(t, 'balanceOf', o)
            self.must(o, t, 'transfer', c.address, min(size(r), max(0, have)))
            if r.random() < .35:
                self.must(o, c, 'updateConnector', t.address, w, True, size(r))
        if mx and r.random() < .6:
            self.must(o, c, 'setConversionFee', min(mx, r.choice((1, 1000, 30000, M - 1, M, r.randint(0, M)))))
        if r.random() < .93:
            self.must(o, f, 'transferOwnerShip', c.address)
            self.must(o, c, 'acceptTokenOwnership')
        self.flex.append(f)
        self.conv.append(c)
        self.conns.append(ts)

    # ---------------------------------------------------------------- observation
    def accounts(self):
        return [self.owner] + self.users + list(SCORES) + [eoa(n) for n in range(0x1000, self.fresh)]

    def snap(self):
        acc = self.accounts()
        s = {}
        for t in self.tokens:
            for a in acc:
                v = t._balances[a]
                if v:
                    s['bal', t.address, a] = v
            s['sup', t.address] = t._total_supply.get()
        for a in acc:
            if COINS.get(a):
                s['icx', a] = COINS[a]
        for c, ts in zip(self.conv, self.conns):
            for t in ts:
                k = view(c, 'getConnector', t.address)
                for n, v in k.items():
                    s['conn', c.address, t.address, n] = v
            for g in ('getConversionFee', 'isConversionsEnabled', 'getOwner', 'getManager', 'getRegistry'):
                s['set', c.address, g] = view(c, g)
        return s

    def diff(self, a, b):
        """numeric changes and others"""
        num, oth = {}, {}
        for k in set(a) | set(b):
            if k[0] in ('bal', 'sup', 'icx') or k[0] == 'conn' and k[3] == 'virtualBalance':
                d = b.get(k, 0) - a.get(k, 0)
                if d:
                    num[k] = d
            elif a.get(k) != b.get(k):
                oth[k] = (a.get(k), b.get(k))
        return num, oth

    def check(self, props, cond, what):
        if (self.prop in props or self.prop == 'ALL') and not cond:
            raise Broken(what)

    def always(self):
        for t in self.tokens:
            tot = sum(t._balances[a] for a in self.accounts())
            self.check(('C01',), tot == t._total_supply.get(), f'supply is the sum of balances ({t.address})')
        self.check(('C05',), COINS.get(self.icxt.address, 0) == self.icxt._total_supply.get(), 'the ICX token is backed')

    # ---------------------------------------------------------------- steps
    def payee(self):
        if self.r.random() < .75:
            self.fresh += 1
            return eoa(self.fresh - 1)
        return self.r.choice(self.users + [self.owner])

    def amount(self, have, t):
        r = self.r
        have = max(have, 1)
        m = r.random()
        if m < .3:
            return have
        if m < .5:
            return max(1, have - r.choice((1, 2, 10, have >> r.randrange(1, 80))))
        if m < .7:
            return max(1, min(have, size(r)))
        return r.randint(1, have)

    def a_path(self):
        """mostly valid, 1 to 3 hops"""
        r = self.r
        cur, used = None, []
        k = r.choice((1, 1, 1, 1, 2, 2, 3))
        p = []
        for _ in range(k):
            opts = []
            for i, (f, ts) in enumerate(zip(self.flex, self.conns)):
                if i in used and r.random() < .9:
                    continue
                inside = ts + [f]
                if cur is None or cur in inside:
                    opts.append((i, f, inside))
            if not opts:
                break
            i, f, inside = r.choice(opts)
            if cur is None:
                cur = r.choice(inside)
                p.append(cur)
            nxt = r.choice([t for t in inside if t is not cur])
            p += [f, nxt]
            used.append(i)
            cur = nxt
        if r.random() < .03 and p:
            p = p[:-1]
        return p

    def price(self, S, c, src, dst, x):
        """reference for one conversion on the state S -> (gross, net, fee)"""
        f = self.flex[self.conv.index(c)]
        fee = S['set', c.address, 'getConversionFee']

        def res(t):
            g = lambda n: S['conn', c.address, t.address, n]
            return g('virtualBalance') if g('isVirtualBalanceEnabled') else S.get(('bal', t.address, c.address), 0)
        w = lambda t: S['conn', c.address, t.address, 'weight']
        sup = S['sup', f.address]
        if dst is f:
            g, n = FORMULA.calculate_purchase_return(sup, res(src), w(src), x), 1
        elif src is f:
            g, n = FORMULA.calculate_sale_return(sup, res(dst), w(dst), x), 1
        else:
            g, n = FORMULA.calculate_cross_connector_return(res(src), w(src), res(dst), w(dst), x), 2
        net = g * (M - fee) ** n // M ** n
        return g, net, g - net

    def convert(self):
        r = self.r
        p = self.a_path()
        if len(p) < 2:
            return
        addrs = [t.address for t in p]
        text = ','.join(str(a) for a in addrs)
        icx = p[0] is self.icxt and r.random() < .6
        y = self.payee()
        S0 = self.snap()
        if icx:
            s = r.choice(self.users)
            x = self.amount(min(COINS.get(s, 0), size(r)), None)
        else:
            hs = [u for u in self.users + [self.owner] if p[0]._balances[u] > 0]
            if not hs:
                return
            s = max(hs, key=lambda u: p[0]._balances[u]) if r.random() < .7 else r.choice(hs)
            x = self.amount(p[0]._balances[s] if p[0] in self.flex else min(p[0]._balances[s], size(r)), p[0])
        okq, q = quote(self.net, 'getExpectedReturnByPath', text, x)
        self.check(('C30',), self.diff(S0, self.snap()) == ({}, {}), 'a quote changes nothing')
        hops = []
        good = True
        v = x
        for i in range(1, len(p) - 1, 2):
            f = p[i]
            if f not in self.flex:
                good = False
                break
            own = f._owner.get()
            c = SCORES.get(own)
            if c not in self.conv:
                good = False
                break
            o1, q1 = quote(c, 'getReturn', p[i - 1].address, p[i + 1].address, v)
            hops.append((c, p[i - 1], p[i + 1], v, q1 if o1 else None))
            if not o1:
                good = False
                break
            v = q1['amount']
        valid = 3 <= len(p) <= 21 and len(p) % 2 == 1 and len({id(t) for t in p[1::2]}) == len(p) // 2
        if okq:
            self.check(('C26',), valid, 'only valid paths are quoted')
            self.check(('C30',), good and q == v, f'the expected return composes the quotes: {q} {v}')
        m = r.choice((1, 1, 1, q, q, q + 1, max(1, q // 2))) if okq and q > 0 else r.choice((1, 1, 5))
        ev = len(EVENTS)
        if icx:
            who = y
            if y == s:
                ok, res = tx(s, self.net, 'convert', text, m, value=x)
            else:
                ok, res = tx(s, self.net, 'convertFor', text, m, y, value=x)
        else:
            d = {'path': text, 'minReturn': m}
            if y != s or r.random() < .5:
                d['for'] = str(y)
            ok, res = tx(s, p[0], 'transfer', self.net.address, x, json.dumps(d).encode())
            who = y
        self.log.append(f'convert {[hex(int(str(a)[2:], 16)) for a in addrs]} amount {x} min {m} icx {icx} sender {s} payee {who} -> {ok} {res if not ok else ""}')
        if not ok:
            return
        S1 = self.snap()
        num, oth = self.diff(S0, S1)
        self.check(('C26',), valid, 'only valid paths are converted')
        self.check(('C08', 'C15', 'C16', 'C17', 'C27', 'C21'), not oth, f'no setting moves {oth}')
        last = p[-1]
        reg = bool(self.net._icx_tokens[last.address])
        pay = ('icx', who) if reg else ('bal', last.address, who)
        got = num.get(pay, 0)
        spent = ('icx', s) if icx else ('bal', p[0].address, s)
        if pay == spent:
            got += x
        self.check(('C18', 'C29'), got >= m, f'the beneficiary gets at least the minimum: {got} {m}')
        self.check(('C27',), not [k for k in num if k[-1] == self.net.address], 'the network keeps nothing')
        if icx:
            self.check(('C31',), bool(self.net._icx_tokens[p[0].address]), 'only registered ICX tokens')
        self.check(('C27', 'C28', 'C31'), pay == spent or num.get(spent, 0) == -x, 'exactly the amount is spent by the sender')
        events = [(a, n, e) for a, n, e in EVENTS[ev:] if n == 'Conversion']
        self.check(('C27',), [(a, e[0], e[1]) for a, n, e in events] == [(c.address, a.address, b.address) for c, a, b, _, _ in hops],
                   'conversions in the order of the path')
        if events:
            self.check(('C27',), all(e2[3] == e1[4] for (_, _, e1), (_, _, e2) in zip(events, events[1:])) and events[0][2][3] == x
                       and events[-1][2][4] == got, f'amounts are passed through exactly')
        for c, a, b, _, _ in hops:
            self.check(('C36',), S0['set', c.address, 'isConversionsEnabled'], 'conversions enabled')
            f = self.flex[self.conv.index(c)]
            closed = a if b is f else None if a is f else b
            if closed is not None:
                self.check(('C35',), S0['conn', c.address, closed.address, 'isPurchaseEnabled'], 'open for purchases')
            if b is not f:
                bal = view(c, 'getConnectorBalance', b.address)
                self.check(('C20',), bal > 0 or a is f and S1['sup', f.address] == 0 or a is f and len(hops) > 1, f'reserve not emptied {bal}')
                self.check(('C20',), bal >= 0, 'reserve not negative')
        if len(hops) == 1:
            c, a, b, _, q1 = hops[0]
            f = self.flex[self.conv.index(c)]
            self.check(('C19',), q1 is not None and events and events[0][2][4] == q1['amount'] and events[0][2][5] == q1['fee']
                       and got == q1['amount'], f'pays the quote: {got} {q1}')
            kind = 'C15' if b is f else 'C16' if a is f else 'C17'
            if self.prop in (kind, 'ALL'):
                g, net, fee = self.price(S0, c, a, b, x)
                exp = {}

                def add(k, n):
                    exp[k] = exp.get(k, 0) + n
                add(spent, -x)
                if icx:
                    add(('icx', a.address), x)
                    add(('sup', a.address), x)
                add(('bal', a.address, c.address), x)
                if a is f:
                    add(('bal', a.address, c.address), -x)
                    add(('sup', f.address), -x)
                if b is f:
                    add(('sup', f.address), net)
                else:
                    add(('bal', b.address, c.address), -net)
                if reg:
                    add(('icx', b.address), -net)
                    add(('sup', b.address), -net)
                add(pay, net)
                for t, d in ((a, x), (b, -net)):
                    if t is not f and S0['conn', c.address, t.address, 'isVirtualBalanceEnabled']:
                        add(('conn', c.address, t.address, 'virtualBalance'), d)
                exp = {k: n for k, n in exp.items() if n}
                self.check((kind,), exp == num, f'exactly these amounts move: {exp} {num}')
                e = events[0][2] if events else None
                self.check((kind,), e is not None and tuple(e) == (a.address, b.address, self.net.address, x, net, fee), f'announced {e}')

    def admin(self):
        r, o = self.r, self.owner
        i = r.randrange(2)
        c, ts = self.conv[i], self.conns[i]
        t = r.choice(ts)
        m = r.randrange(6)
        w = view(c, 'getConnector', t.address)['weight']
        op = ('setConversionFee', r.choice((0, 1, 1000, 30000, M))) if m == 0 else \
            ('updateConnector', t.address, w, r.random() < .5, size(r)) if m == 1 else \
            ('disableConnectorPurchases', t.address, r.random() < .3) if m == 2 else \
            ('disableConversions', r.random() < .3) if m == 3 else None
        if op:
            s = r.choice((o, o, o, self.users[0]))
            ok, e = tx(s, c, *op)
        elif m == 4:
            op = 'registerIcxToken'
            s = o
            ok, e = tx(o, self.net, op, self.icxt.address, r.random() < .7)
        else:
            op = 'withdrawTo'
            s = r.choice(self.users)
            ok, e = tx(s, self.icxt, op, r.randint(1, 10 ** 20), r.choice(self.users))
        self.log.append(f'{s} {op} -> {ok}')

    def send(self):
        """tokens straight to a converter or the network"""
        r = self.r
        s = r.choice(self.users + [self.owner])
        t = r.choice(self.tokens)
        have = t._balances[s]
        if have <= 0:
            return
        x = self.amount(min(have, size(r)), t)
        S0 = self.snap()
        to = r.choice(self.conv + [self.net])
        f = r.choice(self.flex)
        d = r.choice((None, b'conversionResult', b'', json.dumps({'toToken': str(f.address), 'minReturn': 1}).encode()))
        ok, e = tx(s, t, 'transfer', to.address, x, *([] if d is None else [d]))
        self.log.append(f'send {t.address} {x} {s} -> {to.address} {d} {ok} {e}')
        if not ok:
            return
        num, oth = self.diff(S0, self.snap())
        plain = num == {('bal', t.address, s): -x, ('bal', t.address, to.address): x} and not oth
        if to is self.net:
            self.check(('C28',), d == b'conversionResult' and plain, 'tokens are taken silently only as a conversion result')
        else:
            f = self.flex[self.conv.index(to)]
            self.check(('C21',), s == self.owner and t in self.conns[self.conv.index(to)] and f._owner.get() != to.address and plain,
                       'a converter takes tokens only as funding while inactive')

    def go(self, steps):
        n = 0
        for _ in range(steps):
            m = self.r.random()
            (self.convert if m < .75 else self.admin if m < .9 else self.send)()
            self.always()
            n += 1
        return n


def one(prop, seed):
    """-> (steps, label or None, log)"""
    r = random.Random(seed)
    w = None
    try:
        w = World(r, prop)
        return w.go(r.choice((3, 6, 12))), None, w.log
    except Skip:
        return 0, None, []
    except Broken as e:
        return len(w.log), str(e), w.log


def main():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    boot()
    prop = sys.argv[1]
    out = {'runs': 0, 'histories': 0, 'violation': None}
    if sys.argv[2] == 'replay':
        seeds, end = iter([int(sys.argv[3])]), None
    else:
        base = int(sys.argv[3]) * 10 ** 7
        seeds, end = iter(range(base, base + 10 ** 7)), time.time() + float(sys.argv[2])
    for s in seeds:
        if end and time.time() > end:
            break
        n, lab, log = one(prop, s)
        out['runs'] += n
        out['histories'] += 1
        if lab:
            out['violation'] = {'seed': s, 'label': lab, 'history': log[-6:]}
            break
    print(json.dumps(out, default=str))
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
