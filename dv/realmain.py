"""Real-mode driver, run with /opt/venv/bin/python: replays of counter-models and bounded random search,
on the unmodified contracts and the real iconservice."""
import json
import multiprocessing as mp
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def replay(rec):
    """does this recorded scenario violate its obligation on the real code? -> dict"""
    from dv import real, specs
    s = specs.by_id(rec['spec'])
    if 'replay' in s.opts:
        return s.opts['replay'](rec)
    last = None
    for formula in ([rec['formula']] if rec.get('formula') else ['real', 'table']):
        p = real.ReplayProvider(rec['scenario']) if rec.get('kind') != 'random' else real.RandomProvider(rec['seed'])
        st, lab, w = real.run_one(s.fn, p, formula, bool(rec.get('history')))
        last = {'status': st, 'label': lab, 'formula': formula}
        if st == 'violation':
            return last
    return last


def _replay(rec):
    try:
        return replay(rec)
    except BaseException as e:
        return {'status': 'error', 'label': f'{type(e).__name__}: {e}'}


def _search(a):
    ids, seconds, seed, k, n, only = a
    from dv import real, specs
    out = {}
    per = seconds / max(1, len(ids))
    for sid in ids:
        s = specs.by_id(sid)
        o = out[sid] = {'runs': 0, 'nontrivial': 0, 'skipped': 0, 'violations': [], 'covers': set(), 'error': None}
        if 'run' in s.opts or 'search' in s.opts:
            f = s.opts.get('search')
            if f:
                try:
                    f(o, per, seed * 1000 + k)
                except BaseException as e:
                    o['error'] = f'{type(e).__name__}: {e}'
            continue
        t0 = time.time()
        i = k
        turn = 0
        while time.time() - t0 < per or i < k + 3 * n:
            sd = seed * 10 ** 7 + i
            i += n
            turn += 1
            hist = only or bool(turn % 2)
            for formula in ('table', 'real'):
                try:
                    st, lab, w = real.run_one(s.fn, real.RandomProvider(sd), formula, hist)
                except BaseException as e:
                    o['error'] = f'{type(e).__name__}: {e}'
                    st, w = 'skip', None
                o['runs'] += 1
                if w is not None:
                    o['covers'] |= w.covers
                    if w.checked:
                        o['nontrivial'] += 1
                if st == 'skip':
                    o['skipped'] += 1
                if st == 'violation':
                    o['violations'].append({'spec': sid, 'kind': 'random', 'seed': sd, 'formula': formula, 'history': hist,
                                            'label': lab, 'scenario': w.p.sc})
                    break
                if w is not None and not w.used_formula:
                    break
            if o['violations']:
                break
        o['covers'] = sorted(o['covers'])
    return out


def search(ids, seconds, seed, jobs, only=False):
    """seconds: wall time for the whole search"""
    with mp.get_context('fork').Pool(jobs) as pool:
        rs = pool.map(_search, [(ids, seconds, seed, k, jobs, only) for k in range(jobs)])
    tot = {}
    for r in rs:
        for sid, o in r.items():
            t = tot.setdefault(sid, {'runs': 0, 'nontrivial': 0, 'skipped': 0, 'violations': [], 'covers': [], 'error': None})
            for f in ('runs', 'nontrivial', 'skipped'):
                t[f] += o[f]
            t['violations'] += o['violations']
            t['covers'] = sorted(set(t['covers']) | set(o['covers']))
            t['error'] = t['error'] or o['error']
    return tot


def main():
    job = json.load(open(sys.argv[1]))
    if job['job'] == 'replay':
        with mp.get_context('fork').Pool(job.get('jobs', 1), maxtasksperchild=1) as pool:
            out = pool.map(_replay, job['records'], chunksize=1)
    else:
        out = search(job['specs'], job['seconds'], job['seed'], job['jobs'], job.get('history', False))
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f, default=lambda o: sorted(o) if isinstance(o, set) else repr(o))


if __name__ == '__main__':
    main()
