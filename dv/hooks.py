"""Semantics-preserving source instrumentation, applied to every contract module on load.

Only operations CPython does not let a value object intercept are redirected: `is`, native
builtins that insist on concrete types, set building, literal-receiver method calls.  On concrete
values each hook does exactly what the original expression does.  Nothing is dropped or rewritten
beyond that; line numbers are kept.
"""
import ast
import builtins

import z3

from . import sym
from .sym import (SymAddr, SymAddrText, SymBase, SymBool, SymBytes, SymCat, SymInt, SymJson, SymPathText, SymSeq,
                  SymSet, SymStr, SymText, Unsupported)

CALL_HOOKS = ('isinstance', 'len', 'str', 'int', 'bool', 'set', 'frozenset', 'map', 'type', 'range', 'repr',
              'list', 'tuple', 'iter', 'enumerate', 'zip')


DICT_METHODS = ('get', 'setdefault', 'pop')
MISSING = object()


class Transformer(ast.NodeTransformer):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            call = ast.Call(ast.Name('dvh_is', ast.Load()), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.IsNot):
                call = ast.UnaryOp(ast.Not(), call)
            return ast.copy_location(call, node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.Call(ast.Name('dvh_in', ast.Load()), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                call = ast.UnaryOp(ast.Not(), call)
            return ast.copy_location(call, node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in CALL_HOOKS:
            if f.id == 'type' and len(node.args) != 1:
                return node
            node.func = ast.copy_location(ast.Name('dvh_' + f.id, ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr in DICT_METHODS and not node.keywords and \
                not any(isinstance(a, ast.Starred) for a in node.args):
            return ast.copy_location(ast.Call(ast.Name('dvh_method', ast.Load()),
                                              [f.value, ast.Constant(f.attr)] + node.args, []), node)
        elif isinstance(f, ast.Attribute) and f.attr == 'join':
            return ast.copy_location(ast.Call(ast.Name('dvh_join', ast.Load()), [f.value] + node.args,
                                              node.keywords), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Tuple)):
            return ast.copy_location(ast.Call(ast.Name('dvh_item', ast.Load()), [node.value, node.slice], []), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
            # CPython evaluates the value first, then the container and the key
            call = ast.Call(ast.Name('dvh_store', ast.Load()), [node.value, t.value, t.slice], [])
            return ast.copy_location(ast.Expr(ast.copy_location(call, node)), node)
        return node

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(node.elt, node.generators)
        return ast.copy_location(ast.Call(ast.Name('dvh_set', ast.Load()), [ast.copy_location(lc, node)], []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('dvh_set', ast.Load()),
                                          [ast.copy_location(ast.List(node.elts, ast.Load()), node)], []), node)

    def visit_ListComp(self, node):
        self.generic_visit(node)
        g = node.generators
        if len(g) == 1 and not g[0].ifs and not g[0].is_async and isinstance(g[0].target, ast.Name):
            lam = ast.Lambda(ast.arguments([], [ast.arg(g[0].target.id)], None, [], [], None, []), node.elt)
            return ast.copy_location(ast.Call(ast.Name('dvh_listcomp', ast.Load()),
                                              [ast.copy_location(lam, node), g[0].iter], []), node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        chk = ast.Expr(ast.Call(ast.Name('dvh_caught', ast.Load()), [], []))
        node.body.insert(0, ast.copy_location(chk, node))
        return node


def h_is(a, b):
    if isinstance(a, SymBase) or isinstance(b, SymBase):
        if a is b:
            return True
        if a is None or b is None:
            v = a if b is None else b
            if isinstance(v, (SymAddr, SymStr, SymBytes)):
                return sym.E().fork(v.e == 0)
            return False
        if isinstance(a, SymBool) and isinstance(b, bool) or isinstance(b, SymBool) and isinstance(a, bool):
            return bool(a == b)
        raise Unsupported('identity of symbolic values')
    return a is b


def h_in(a, b):
    if isinstance(b, str) and isinstance(a, SymBase):
        if isinstance(a, SymStr):
            en = sym.E()
            if en.fork(a.e == 0):
                raise sym.LegitTypeError("'in <string>' requires string as left operand, not NoneType")
            r = en.app('substring of:' + b, 'bool', [a.e])
            en.add(z3.Implies(a.e == en.intern('str', b), r))
            en.add(z3.Implies(a.e == en.intern('str', ''), r))
            for s, c in list(en.interned['str'].items()):
                en.add(z3.Implies(a.e == c, r == (s in b)))
            return en.fork(r)
        raise Unsupported('substring test on a symbolic value')
    if symbolic_dict(b, a):
        return dict_find(b, a) is not MISSING
    return a in b


def symbolic_dict(d, key):
    """a plain dict whose look-up of `key` depends on symbolic equality"""
    return type(d) is dict and (isinstance(key, SymBase) or any(isinstance(k, SymBase) for k in d))


def dict_find(d, key):
    """the dict's own key equal to `key`, as CPython's look-up would find it (hashes of equal values agree)"""
    for k in d:
        if k is key or k == key:
            return k
    return MISSING


def h_item(d, key):
    if symbolic_dict(d, key):
        k = dict_find(d, key)
        if k is MISSING:
            raise sym.LegitKeyError(key)
        return dict.__getitem__(d, k)
    return d[key]


def h_store(value, d, key):
    if symbolic_dict(d, key):
        k = dict_find(d, key)
        dict.__setitem__(d, key if k is MISSING else k, value)
    else:
        d[key] = value


def h_method(recv, name, *a):
    if a and symbolic_dict(recv, a[0]):
        k = dict_find(recv, a[0])
        if k is not MISSING:
            return dict.pop(recv, k) if name == 'pop' else dict.__getitem__(recv, k)
        if name == 'pop' and len(a) == 1:
            raise sym.LegitKeyError(a[0])
        default = a[1] if len(a) > 1 else None
        if name == 'setdefault':
            dict.__setitem__(recv, a[0], default)
        return default
    return getattr(recv, name)(*a)


def h_isinstance(x, t):
    if isinstance(x, SymBase):
        ts = t if isinstance(t, tuple) else (t,)
        r = False
        for c in ts:
            if c is object:
                r = True
            elif isinstance(x, SymBool):
                r = r or c in (bool, int)
            elif isinstance(x, SymInt):
                r = r or c is int
            elif isinstance(x, SymAddr):
                if getattr(c, '__dv_address__', False):
                    r = r or sym.E().fork(x.e != 0)
            elif isinstance(x, (SymStr, SymPathText, SymAddrText, SymText)):
                r = r or c is str
            elif isinstance(x, SymBytes):
                if c is bytes:
                    r = r or sym.E().fork(x.e != 0)
            elif isinstance(x, SymCat):
                r = r or c is bytes
            elif isinstance(x, sym.SymReal):
                r = r or c is float
            elif isinstance(x, SymJson):
                r = r or c is dict
            elif isinstance(x, SymSet):
                r = r or c is set
            elif isinstance(x, sym.SymJsonOther):
                r = r or c is list
            else:
                raise Unsupported(f'isinstance of {type(x).__name__}')
        return r
    return isinstance(x, t)


def h_type(x):
    if isinstance(x, SymBase):
        for k, t in ((SymBool, bool), (SymInt, int), (SymBytes, bytes), (SymStr, str), (SymPathText, str),
                     (sym.SymReal, float), (SymJson, dict), (sym.SymJsonOther, list)):
            if isinstance(x, k):
                return t
        raise Unsupported('type() of a symbolic value')
    return type(x)


def h_len(x):
    if isinstance(x, SymSeq):
        return x.n
    if isinstance(x, SymSet):
        return x.card()
    if hasattr(x, '__dv_len__'):
        return x.__dv_len__()
    return len(x)


def h_str(*a, **k):
    if a and isinstance(a[0], SymBase):
        return a[0] if isinstance(a[0], (SymStr, SymPathText, SymAddrText)) else sym.E().token(a[0])
    return str(*a, **k)


def h_repr(x):
    return sym.E().token(x) if isinstance(x, SymBase) else repr(x)


def h_int(*a, **k):
    if a and isinstance(a[0], (SymInt, SymBool)) and len(a) == 1:
        return sym.mkint(sym.ival(a[0]))
    if len(a) == 1 and isinstance(a[0], sym.SymReal):
        e = a[0].e
        return SymInt(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    if len(a) == 1 and (a[0] is None or isinstance(a[0], sym.SymJsonOther)):
        raise sym.LegitTypeError('int() of a non-number')
    if a and isinstance(a[0], SymBase):
        raise Unsupported('int() of a symbolic value')
    return int(*a, **k)


def h_bool(*a):
    if a and isinstance(a[0], (SymInt, SymBool, SymAddr)):
        return SymBool(sym.bval(a[0]))
    if a and isinstance(a[0], SymBase):
        return True if a[0] else False
    return bool(*a)


def h_set(*a):
    if not a:
        return SymSet()
    src = a[0]
    if isinstance(src, SymSeq):
        raise Unsupported('set of an unbounded sequence')
    if isinstance(src, SymSet):
        return SymSet(src.items)
    items = list(src)
    if any(isinstance(x, SymBase) for x in items):
        return SymSet(items)
    return set(items)


def h_map(f, *its):
    if len(its) == 1 and isinstance(its[0], SymSeq):
        return its[0].map(f)
    return map(f, *its)


def h_listcomp(f, it):
    if isinstance(it, SymSeq):
        # the body runs on every element: either it raises on some element, or on none
        en = sym.E()
        raises = sym.SymBool(en.const(en.fresh_name('comprehension raises'), 'bool'))
        if raises:
            k = en.const(en.fresh_name('comprehension index'), 'int')
            en.assume_raw(z3.And(k >= 0, k < sym.ival(it.n)))
            f(it.get(k))
            raise PathEndType('the body did not raise')

        def get(i):
            try:
                return f(it.get(i))
            except (Unsupported, PathEndType):
                raise
            except Exception:
                raise PathEndType('the body raised')
        return SymSeq(it.n, get, it.minlen)
    return [f(x) for x in it]


def h_list(*a):
    if a and isinstance(a[0], SymSeq):
        return a[0]
    if a and isinstance(a[0], SymSet):
        raise Unsupported('list of a symbolic set')
    return list(*a)


def h_range(*a):
    return range(*[x.__index__() if isinstance(x, SymBase) else x for x in a])


def h_join(recv, *a, **k):
    if len(a) == 1 and not k and isinstance(recv, (bytes, bytearray, SymCat)):
        items = list(a[0])
        if isinstance(recv, SymCat) or any(isinstance(x, SymBase) for x in items):
            out = []
            for i, x in enumerate(items):
                if i:
                    out += SymCat.of(recv).parts
                out += SymCat.of(x).parts
            return SymCat(out)
        return recv.join(items)
    if isinstance(recv, str) and len(a) == 1:
        items = list(a[0])
        if any(isinstance(x, SymBase) for x in items):
            raise Unsupported('joining symbolic text')
        return recv.join(items)
    return recv.join(*a, **k)


def h_caught():
    """an except clause of the contract caught something: make sure it is not an engine artefact"""
    import sys
    e = sys.exc_info()[1]
    if isinstance(e, (Unsupported, PathEndType)):
        raise e
    if native_artefact(e):
        raise Unsupported(f'native {type(e).__name__}: {e}')


PathEndType = ()


ENGINE_NAMES = None


def _engine_names():
    global ENGINE_NAMES
    if ENGINE_NAMES is None:
        from . import engine, icstub
        ENGINE_NAMES = {n for m in (sym, engine, icstub) for n, v in vars(m).items()
                        if isinstance(v, type) and v.__module__.startswith('dv.')}
    return ENGINE_NAMES


def native_artefact(e):
    """a native error that is due to the symbolic representation and would not occur in CPython on
    the modelled values.  Errors about built-in types only are genuine."""
    if isinstance(e, (sym.LegitTypeError, sym.LegitAttributeError, sym.LegitKeyError)):
        return False
    if isinstance(e, (NameError, ImportError, NotImplementedError, RecursionError, AssertionError)):
        return True
    if not isinstance(e, (TypeError, AttributeError, ValueError, LookupError, ArithmeticError)):
        return False
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    here = tb is not None and '/dv/' in tb.tb_frame.f_code.co_filename
    if isinstance(e, (TypeError, AttributeError)):
        msg = str(e)
        if any(n in msg for n in _engine_names()) or 'argument' in msg or "has no attribute '_dv" in msg:
            return True
        return here
    if isinstance(e, (ValueError, LookupError)) and not isinstance(e, UnicodeDecodeError):
        # raised by a native operation on a formatted symbolic value?
        return '\u27e6' in str(e)
    return False


def namespace():
    ns = {'dvh_is': h_is, 'dvh_in': h_in, 'dvh_join': h_join, 'dvh_caught': h_caught, 'dvh_listcomp': h_listcomp,
          'dvh_item': h_item, 'dvh_store': h_store, 'dvh_method': h_method}
    g = globals()
    for n in CALL_HOOKS:
        ns['dvh_' + n] = g.get('h_' + n, getattr(builtins, n))
    ns['dvh_frozenset'] = h_set
    ns['dvh_tuple'] = h_list if False else tuple
    return ns


def instrument(src, filename):
    tree = ast.parse(src, filename)
    tree = Transformer().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)
