"""Parallel path exploration: paths are re-executed from decision prefixes, so pending prefixes can
be handed to any worker."""
import multiprocessing as mp
import os
import time

from . import engine

SLICE = 1.2
STUCK = 240
NPROC = int(os.environ.get('DV_JOBS', str(min(8, os.cpu_count() or 1))))


def merge(a, b):
    for f in ('paths', 'obligations', 'discharged', 'trivial', 'z3', 'cvc5', 'solver_s', 'other', 'frames'):
        setattr(a, f, getattr(a, f, 0) + getattr(b, f, 0))
    for k, v in b.covers.items():
        a.covers[k] = a.covers.get(k, False) or v
    a.bounded |= b.bounded
    a.functions |= b.functions
    a.undecided += [u for u in b.undecided if u not in a.undecided]
    a.failures += b.failures
    for k, v in b.labels.items():
        a.labels[k] = a.labels.get(k, 0) + v
    for k, v in b.heap.items():
        a.heap[k] = a.heap.get(k, 0) + v
    for k, v in getattr(b, 'notes', {}).items():
        a.__dict__.setdefault('notes', {})[k] = v


def _task(args):
    sid, prefixes, seed, tier, sl = args
    from . import specs, world
    t0 = time.process_time()
    try:
        s = specs.by_id(sid)
        if 'run' in s.opts:
            st = engine.Stats()
            s.opts['run'](st, tier, prefixes)
            return sid, st, [], time.process_time() - t0
        st, rest = engine.explore_slice(s.fn, world.SymWorld, prefixes, sl, seed)
        return sid, st, rest, time.process_time() - t0
    except BaseException as e:
        import traceback
        st = engine.Stats()
        st.undecided.append(('harness', f'{type(e).__name__}: {e}: {traceback.format_exc()[-600:]}'))
        return sid, st, [], time.process_time() - t0


def _init():
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import loader, specs
    try:
        loader.setup()
        specs.load()
    except BaseException:
        pass


def run(specs_, seed=1, tier='quick', budget_scale=1.0, deadline=None, verbose=None):
    """-> {spec id: Stats}"""
    out = {s.id: engine.Stats() for s in specs_}
    used = {s.id: 0.0 for s in specs_}
    budget = {s.id: 3 * s.opts.get('budget', 150) * budget_scale for s in specs_}
    pending = []
    for s in specs_:
        if 'run' in s.opts:
            for part in s.opts.get('parts', [None]):
                pending.append((s.id, part))
        else:
            pending.append((s.id, [[]]))
    pool = mp.get_context('fork').Pool(NPROC, initializer=_init, maxtasksperchild=None)
    live = []
    since, stuck = {}, 0
    try:
        while pending or live:
            while pending and len(live) < NPROC + 2:
                sid, pf = pending.pop(0)
                sl = SLICE
                if isinstance(pf, list) and pf and isinstance(pf[0], list) and len(pending) < NPROC:
                    sl = 0.3
                r = pool.apply_async(_task, ((sid, pf, seed, tier, sl),))
                live.append(r)
                since[r] = (time.time(), sid)
            late = [r for r in live if time.time() - since[r][0] > STUCK and not r.ready()]
            for r in late:                       # the code under proof does not end: never wait for it
                live.remove(r)
                out[since[r][1]].undecided.append(('exploration', f'no answer within {STUCK} s'))
                stuck += 1
            if stuck >= NPROC:
                for sid, _ in pending:
                    out[sid].undecided.append(('exploration', 'not explored'))
                pending, live = [], []
                break
            done = [r for r in live if r.ready()]
            if not done:
                time.sleep(0.01)
                continue
            for r in done:
                live.remove(r)
                sid, st, rest, t = r.get()
                merge(out[sid], st)
                used[sid] += t
                if rest:
                    late = deadline is not None and time.time() > deadline
                    if len(out[sid].failures) >= 6:
                        continue
                    if used[sid] > budget[sid] or late:
                        out[sid].undecided.append(('exploration', f'budget exhausted after {out[sid].paths} paths'))
                        continue
                    # oldest prefixes are the biggest subtrees: spread them
                    k = max(1, min(len(rest), NPROC * 2 if len(pending) < NPROC else 2))
                    for i in range(k):
                        pending.append((sid, rest[i::k]))
    finally:
        pool.terminate()
        pool.join()
    for s in specs_:
        out[s.id].elapsed = used[s.id]
    return out
