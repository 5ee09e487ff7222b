"""Links: where a property is proved against the contract of another part of this repository (the tokens a converter
trades, the pricing formula, the converters behind the network), the real code of that part is proved to meet the
contract, under the same property.  A link that fails is reported only with a failing history of the whole real system
(dv/e2e.py): the contract may be stronger than the property needs."""
import json
import os
import subprocess
import sys

from . import by_id, spec
from .common import *

E2E = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'e2e.py')


# ------------------------------------------------------------------ the whole real system
def e2e(prop, *args, timeout):
    try:
        p = subprocess.run([sys.executable, E2E, prop] + [str(a) for a in args], capture_output=True, text=True,
                           timeout=timeout, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'))
        return json.loads(p.stdout.strip().splitlines()[-1])
    except (subprocess.TimeoutExpired, IndexError, ValueError) as e:
        return {'runs': 0, 'histories': 0, 'violation': None, 'error': repr(e)}


def make_search(prop, sid):
    def search(o, seconds, seed):
        r = e2e(prop, seconds, seed, timeout=seconds + 40)
        o['runs'] += r['runs']
        o['nontrivial'] += r['runs']
        o['error'] = r.get('error')
        v = r['violation']
        if v:
            o['violations'].append({'spec': sid, 'kind': 'random', 'label': v['label'], 'formula': 'real',
                                    'scenario': v})
    return search


def make_replay(prop):
    def replay(rec):
        sc = rec.get('scenario') or {}
        if rec.get('kind') == 'random' and 'seed' in sc:
            r = e2e(prop, 'replay', sc['seed'], timeout=120)
        else:
            r = e2e(prop, 15, 7 + os.getpid() % 1000, timeout=60)
        v = r['violation']
        if v:
            return {'status': 'violation', 'label': v['label'], 'formula': 'real', 'history': v}
        return {'status': 'ok', 'label': f'{r["histories"]} histories of the whole real system satisfy the property', 'formula': None}
    return replay


HOST = {}


def link(prop, source):
    """the specification `source` of another property, as an obligation of this one"""
    s = by_id(source)
    name = f'link: {source}'
    sid = f'{prop}:{name}'
    if prop in HOST:
        via = {'search_with': HOST[prop]}
    else:
        HOST[prop] = sid
        via = {'search': make_search(prop, sid)}
    opts = {k: s.opts[k] for k in ('budget', 'covers', 'run', 'parts', 'trusted', 'bounded') if k in s.opts}
    spec(prop, name=name, confirm=True, replay=make_replay(prop), **via, **opts)(s.fn)


@spec('C28', name='a conversion result is taken silently', covers=('taken',))
def result_taken(w):
    """what the converters rely on: paying the network starts nothing"""
    inst = subject(w, NET)
    s, f, v, q = w.addr('sender'), w.addr('from'), w.int('value'), w.addr('q')
    pre = observe(w, inst, q)
    o = w.call(inst, 'tokenFallback', f, v, b'conversionResult', sender=s)
    w.ensure('accepted from everybody', o.ok)
    if o.ok:
        w.cover('taken')
        w.ensure('nothing is called, announced or paid', not o.trace)
        w.ensure('nothing changes', unchanged(pre, observe(w, inst, q)))


TOKENS = [f'C02:transfer of {t}{d}' for t in ('IRCToken', 'FlexibleToken', 'IcxToken') for d in ('', ' without data')]
SUPPLY = ['C03:issue', 'C03:destroy']
SILENT = ['C28:a conversion result is taken silently']
ICXTOK = ['C05:deposit mints exactly the ICX sent[deposit]', 'C05:deposit mints exactly the ICX sent[plain payment]',
          'C05:withdrawal burns exactly the ICX paid out[withdraw]', 'C05:withdrawal burns exactly the ICX paid out[withdrawTo]']
TRADES = ['C15:buying', 'C16:selling', 'C17:converting one connector into another']
RANGE = [f'C22:{x}' for x in ('purchase return', 'sale return', 'cross return', 'power')]
KERNELS = [f'C22:{x}' for x in ('logarithm below e', 'general logarithm', 'exponential below e^16', 'general exponential',
                                'precision search')]

LINKS = {
    'C15': TOKENS + SUPPLY[:1] + SILENT + RANGE[:1],
    'C16': TOKENS + SUPPLY[1:] + SILENT + RANGE[1:2],
    'C17': TOKENS + SILENT + RANGE[2:3],
    'C18': TOKENS + SUPPLY,
    'C19': TOKENS + SUPPLY + SILENT + RANGE[:3],
    'C20': TOKENS + SUPPLY + SILENT,
    'C21': TOKENS + SUPPLY,
    'C36': TOKENS,
    'C27': TOKENS + ICXTOK + TRADES,
    'C28': TOKENS,
    'C29': TOKENS + ICXTOK[2:],
    'C31': ICXTOK,
}
for _p, _ids in LINKS.items():
    for _i in _ids:
        link(_p, _i)
