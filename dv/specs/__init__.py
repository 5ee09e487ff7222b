"""Registry of specifications.  Importable by both interpreters (no solver import here)."""
import importlib

SPECS = []
MODULES = ['tokens', 'access', 'registry', 'converter_admin', 'converter', 'network', 'infra', 'formula', 'links']


class Spec:
    def __init__(self, prop, name, fn, opts):
        self.prop, self.name, self.fn, self.opts = prop, name, fn, opts
        self.id = f'{prop}:{name}'


def spec(*props, name=None, **opts):
    """register a specification for one or more properties.
    opts: budget (s, symbolic exploration), covers (labels that must be reachable), bounded (str),
    trusted (list of str), cases (dict name -> kwargs)"""
    def deco(fn):
        for p in props:
            cases = opts.get('cases')
            if cases:
                for cn, kw in cases.items():
                    o = dict(opts)
                    o['covers'] = kw.get('covers', opts.get('covers', ()))
                    k = {a: b for a, b in kw.items() if a != 'covers'}

                    def f(w, _k=k):
                        return fn(w, **_k)
                    SPECS.append(Spec(p, f'{name or fn.__name__}[{cn}]', f, o))
            else:
                SPECS.append(Spec(p, name or fn.__name__, fn, opts))
        return fn
    return deco


_done = False


def load():
    global _done
    if not _done:
        _done = True
        import os
        here = os.path.dirname(__file__)
        for m in MODULES:
            if os.path.exists(os.path.join(here, m + '.py')):
                importlib.import_module('dv.specs.' + m)
    return SPECS


def of(prop):
    return [s for s in load() if s.prop == prop]


def by_id(i):
    for s in load():
        if s.id == i:
            return s
    raise KeyError(i)
