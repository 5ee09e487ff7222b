#!/usr/bin/env python3-vt
"""check.py PROPERTY [PROPERTY...]   decide properties of /repo's current source.

Exit 0: every obligation held (or, where one is undecided, the bounded stand-in found nothing and an
UNDECIDED line says so); exit 1: a VIOLATION line per broken property."""
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REALPY = '/opt/venv/bin/python'
sys.setrecursionlimit(20000)


def env_int(n, d):
    try:
        return int(os.environ.get(n, d))
    except ValueError:
        return d


SEED = env_int('VERIF_SEED', 1)
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'

TRUSTED = [
    'z3 4.x (python3-vt) and cvc5 1.1.2 as solvers',
    'CPython semantics of the contract code (the real source is executed, on symbolic values)',
    'dv/hooks.py: redirection of `is`, set/list displays, join and some builtins to value-aware versions',
    'dv/icstub.py: assumed contracts of the ICON platform (VarDB/DictDB/ArrayDB, Address, decorators, icx, '
    'interface calls, transaction revert); cross-checked on every run against the real iconservice 1.1.2',
    'integers are mathematical in both Python and the verifier (no machine arithmetic)',
]


def real(job, timeout):
    from dv import proc
    with tempfile.TemporaryDirectory(prefix='dvreal') as d:
        a, b = os.path.join(d, 'in'), os.path.join(d, 'out')
        with open(a, 'w') as f:
            json.dump(job, f)
        try:
            p = proc.run([REALPY, os.path.join(HERE, 'dv', 'realmain.py'), a, b], timeout=timeout,
                         env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'))
        except subprocess.TimeoutExpired:
            return None, 'timeout'
        if not os.path.exists(b):
            return None, (p.stderr or p.stdout)[-800:]
        with open(b) as f:
            return json.load(f), None


def known():
    out = []
    p = os.path.join(HERE, 'known-findings')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) obligation=(.+?) :: (.*)', line.strip())
            if m:
                out.append(m.groups())
    return out


def slug(s):
    return re.sub(r'[^A-Za-z0-9]+', '-', s)[:60].strip('-')


def save_replay(prop, rec, i):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{prop}-{slug(rec.get("label") or "x")}-{i}.json')
    with open(p, 'w') as f:
        json.dump(rec, f, indent=1, default=str)
    return p


def spread(fails):
    """one failure of every obligation first"""
    seen, a, b = set(), [], []
    for f in fails:
        k = (f['spec'], f['label'])
        (b if k in seen else a).append(f)
        seen.add(k)
    return a + b


def decide(prop):
    from dv import runner, specs
    from dv.engine import Stats
    t0 = time.time()
    ss = specs.of(prop)
    if not ss:
        print(f'no specification for {prop}')
        return 0
    load_err = None
    try:
        from dv import loader
        loader.setup()
    except BaseException as e:
        load_err = repr(e)
    scale = 6.0 if TIER == 'thorough' else 1.0
    cap = time.time() + (420 if TIER == 'quick' else 3000)
    res = runner.run(ss, seed=SEED, tier=TIER, budget_scale=scale, deadline=cap)
    t_sym = time.time() - t0

    tot = Stats()
    undec = []
    fails = []
    never = []             # outcomes the code provably never has
    alive = set()          # specifications whose calls leave something in the objects
    for s in ss:
        st = res[s.id]
        runner.merge(tot, st)
        for u in st.undecided:
            undec.append((s.id,) + tuple(u))
        if not st.failures and not st.undecided:
            for c in s.opts.get('covers', ()):
                if not st.covers.get(c):
                    undec.append((s.id, 'cover', f'"{c}" is not reachable: the specification is vacuous there'))
                    if not st.covers.get('?' + c) and load_err is None and not st.heap:
                        never.append((s.id, c))
            if st.obligations == st.frames and not s.opts.get('may_be_empty'):
                undec.append((s.id, 'cover', 'no obligation was generated'))
        if st.heap:
            alive.add(s.id)
            undec.append((s.id, 'frame of the live object', 'calls leave state behind in ' + ', '.join(sorted(st.heap)[:6]) +
                          ': later transactions are not covered by the proof'))
        seen = set()
        for lab, sc in st.failures:
            if lab not in seen or sum(1 for f in fails if f['spec'] == s.id and f['label'] == lab) < 4:
                fails.append({'spec': s.id, 'label': lab, 'scenario': sc, 'property': prop})
            seen.add(lab)

    # 1. counter-models are replayed on the real code
    reported = {}          # label -> (record, found?)
    confirm = {s.id for s in ss if s.opts.get('confirm')}
    if fails:
        fails = spread(fails)[:24]
        rs, err = real({'job': 'replay', 'records': fails, 'jobs': runner.NPROC}, 240)
        for f, r in zip(fails, rs or [None] * len(fails)):
            key = (f['spec'], f['label'])
            f['replay'] = r if r is not None else {'status': 'error', 'label': err}
            hit = bool(r) and r.get('status') == 'violation'
            if hit:
                f['formula'] = r.get('formula')
            if key not in reported or (hit and not reported[key][1]):
                reported[key] = (f, hit)
    # contracts stronger than the property: a failure counts only with a failing call of the real code
    for k, (f, hit) in list(reported.items()):
        if k[0] in confirm and not hit:
            undec.append((k[0], k[1], f'obligation not discharged; {(f.get("replay") or {}).get("label")}'))
            del reported[k]
    # 2. bounded random search on the real code: cross-checks the platform contracts, and stands in where undecided
    unresolved = {f['spec'] for (f, hit) in reported.values() if not hit} | {u[0] for u in undec}
    quick_s = float(os.environ.get('DV_CROSS', 4 if TIER == 'quick' else 120))
    via = {s.id: s.opts.get('search_with', s.id) for s in ss}
    ids = sorted(set(via.values()))
    search_out, err = real({'job': 'search', 'specs': ids, 'seconds': quick_s, 'seed': SEED, 'jobs': runner.NPROC}, quick_s * 4 + 120)
    serr = err
    runs = nontriv = 0
    randviol = []

    def absorb(so):
        nonlocal runs, nontriv
        for sid, o in (so or {}).items():
            runs += o['runs']
            nontriv += o['nontrivial']
            randviol.extend(o['violations'][:1])
    absorb(search_out)
    for sid, c in never:
        o = (search_out or {}).get(via[sid])
        if not fails and o and not o['error'] and c not in o['covers'] and sid not in confirm:
            lab = f'the outcome "{c}" is possible'
            reported[(sid, lab)] = ({'spec': sid, 'label': lab, 'property': prop, 'scenario': {}, 'kind': 'unreachable',
                                     'note': 'every path was explored and none has this outcome: the operation '
                                             'specified can no longer come to it'}, False)
    have = {v['spec'] for v in randviol} | {via[f['spec']] for (f, hit) in reported.values() if hit}
    need = sorted({via[x] for x in unresolved} - have)
    if alive and any(hit for f, hit in reported.values()) or have:
        need = sorted({via[x] for x in unresolved - alive} - have)
    elif alive and need:
        # what one call leaves behind shows in another: every specification of the property, on live objects
        so, err = real({'job': 'search', 'specs': ids, 'seconds': min(140, 30 + 10 * len(ids)) if TIER == 'quick' else 400,
                        'seed': SEED + 78, 'jobs': runner.NPROC, 'history': True}, 280 if TIER == 'quick' else 900)
        absorb(so)
        if so and any(o['violations'] for o in so.values()):
            need = []
        else:
            need = sorted({via[x] for x in unresolved - alive} - have)
    if need:
        so, err = real({'job': 'search', 'specs': need, 'seconds': min(90, 25 + 5 * len(need)) if TIER == 'quick' else 300,
                        'seed': SEED + 77, 'jobs': runner.NPROC}, 200 if TIER == 'quick' else 900)
        absorb(so)
    for v in randviol:
        key = (v['spec'], v['label'])
        if key not in reported or not reported[key][1]:
            v['property'] = prop
            reported[key] = (v, True)
    # an unreproduced counter-model of a spec that has a reproduced one is not reported separately
    hitspecs = {k[0] for k, (f, hit) in reported.items() if hit}
    final = [(k, f, hit) for k, (f, hit) in reported.items() if hit or k[0] not in hitspecs]

    code = 0
    nviol = 0
    kn = known()
    for i, (k, f, hit) in enumerate(final):
        ob = f'{k[0]} / {k[1]}'
        kf = [x for x in kn if x[0] == prop and x[1] == ob]
        if kf and hit:
            print(f'KNOWN-FINDING: property={prop} {kf[0][2]}')
            continue
        p = save_replay(prop, dict(f, obligation=ob, how=f'{HERE}/replay.sh <this file>',
                                   verifier='sat: the negated obligation has a model' if f.get('kind') != 'random' else
                                   'found by the real-code search'), i)
        nviol += 1
        code = 1
        print(f'  failed obligation: {ob}')
        print(f'VIOLATION property={prop} replay={p}' + ('' if hit else ' no-failing-input-found'))
    undec = list(dict.fromkeys(undec))
    for u in undec[:12]:
        print(f'UNDECIDED property={prop} {u[0]}: {u[1]}: {u[2]}')
    if serr:
        print(f'UNDECIDED property={prop} real-code cross-check did not run: {serr[-300:]}')

    bounded = sorted(tot.bounded)
    partial = [s.opts['bounded'] for s in ss if s.opts.get('bounded')]
    trusted = TRUSTED + sorted({t for s in ss for t in s.opts.get('trusted', ())})
    level = 'proof'
    cov = {
        'obligations': tot.obligations, 'discharged': tot.discharged,
        'checker_cmd': f'VERIF_TIER={TIER} VERIF_SEED={SEED} python3-vt check.py {prop}',
        'trusted_base': trusted,
        'back_ends': {'path evaluation / simplification': tot.trivial, 'z3': tot.z3, 'cvc5': tot.cvc5,
                      'other': getattr(tot, 'other', 0)},
        'solver_s': round(tot.solver_s, 2), 'paths': tot.paths,
        'functions_under_contract': sorted(tot.functions),
        'specifications': {s.id: {'obligations': res[s.id].obligations, 'discharged': res[s.id].discharged,
                                  'paths': res[s.id].paths, 'cpu_s': round(res[s.id].elapsed, 2),
                                  'reachable': sorted(k for k, v in res[s.id].covers.items() if v)} for s in ss},
        'undecided': [f'{a}: {b}: {c}' for a, b, c in undec][:40],
        'bounded_parts': bounded + partial,
        'notes': getattr(tot, 'notes', {}),
        'cross_check': {'what': 'the same specifications run on the unmodified contracts under the real iconservice with '
                                'random inputs; validates the assumed platform contracts, never counted as proof',
                        'runs': runs, 'with_obligations_checked': nontriv, 'violations': len(randviol)},
    }
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov,
          'assumptions': trusted + bounded + partial, 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{prop}: {tot.discharged}/{tot.obligations} obligations discharged over {tot.paths} paths '
          f'({len(ss)} specifications, {len(undec)} undecided), cross-check {nontriv}/{runs} runs, '
          f'{t_sym:.1f}s proving, {time.time() - t0:.1f}s in all')
    return code


def main():
    code = 0
    for p in sys.argv[1:]:
        code = max(code, decide(p))
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
