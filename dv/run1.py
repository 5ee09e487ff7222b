"""development helper: run the specs of properties / spec ids symbolically and (with -r N) at random"""
import sys
import time


def main():
    from dv import specs
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    hist = '--hist' in sys.argv
    rnd = [int(a[2:]) for a in sys.argv[1:] if a.startswith('-r')]
    for s in specs.load():
        if args and not any(s.prop == a or a in s.id for a in args):
            continue
        t = time.time()
        if rnd:
            from dv import real
            c, cov, v = {}, set(), []
            for i in range(rnd[0]):
                st, lab, w = real.run_one(s.fn, real.RandomProvider(i), 'table', hist)
                c[st] = c.get(st, 0) + 1
                cov |= w.covers
                if st == 'violation':
                    v.append((i, lab))
                if w.undecided:
                    c[w.undecided[0]] = c.get(w.undecided[0], 0) + 1
            miss = [x for x in s.opts.get('covers', ()) if x not in cov]
            print(f'{s.id}: {c} {"MISS " + str(miss) if miss else ""} {v[:3]} {time.time() - t:.1f}s', flush=True)
        else:
            from dv import runner
            st = runner.run([s])[s.id]
            miss = [x for x in s.opts.get('covers', ()) if not st.covers.get(x)]
            print(f'{s.id}: paths {st.paths} obl {st.obligations} ok {st.discharged} fail {len(st.failures)} '
                  f'und {len(st.undecided)} {"MISS " + str(miss) if miss else ""} {sorted(st.bounded) or ""} {time.time() - t:.1f}s', flush=True)
            for l, sc in st.failures[:3]:
                print('   FAIL', l, str({k: v for k, v in sc['consts'].items()})[:600], str({k: v[:4] for k, v in sc['fns'].items()})[:600 if '-v' not in sys.argv else 9999])
            for u in sorted(set(st.undecided))[:4]:
                print('   UND', u)


sys.path.insert(0, '/verif')
main()
