"""Abstract semantics of the builtin types, builtin functions, the `rels`
relations and the few standard modules the analysed project can use."""

import builtins
import inspect
import re as host_re
import sys

from .domain import *
from .world import is_pua, PUA, WS, ALPHABET

_host_getattr = getattr


class LenT(object):
    """len() of a string which still has opaque parts"""
    __slots__ = ('enc',)

    def __init__(self, enc):
        self.enc = enc


EXCEPTIONS = {
    'BaseException': 'object', 'Exception': 'BaseException', 'ArithmeticError': 'Exception',
    'LookupError': 'Exception', 'KeyError': 'LookupError', 'IndexError': 'LookupError', 'ValueError': 'Exception',
    'TypeError': 'Exception', 'AttributeError': 'Exception', 'NameError': 'Exception', 'UnboundLocalError': 'NameError',
    'StopIteration': 'Exception', 'AssertionError': 'Exception', 'RuntimeError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError', 'ZeroDivisionError': 'ArithmeticError',
    'OverflowError': 'ArithmeticError', 'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError',
    'UnicodeError': 'ValueError', 'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError',
    'OSError': 'Exception', 'Warning': 'Exception', 'DeprecationWarning': 'Warning',
    'RelsException': 'Exception', 'ColumnException': 'RelsException', 'RecordException': 'RelsException',
    'RelationException': 'RelsException', 'NotExternalValueError': 'RelationException',
    'DuplicateValueError': 'ColumnException', 'SingleTypeError': 'ColumnException',
    'ColumnsNumberError': 'RecordException', 'IndexDuplicatesRelationAttributeError': 'RelationException',
    'PrimaryDuplicatesRelationAttributeError': 'RelationException',
}
TYPES = ('object', 'type', 'int', 'str', 'float', 'list', 'dict', 'set', 'frozenset', 'tuple', 'bytes', 'NoneType', 'range',
         'generator', 'function', 'property', 'classmethod', 'staticmethod', 'super', 'module', 'Pattern', 'Match', 'slice')
CONSTRUCTORS = {}
HOST_TYPES = {'str': str, 'int': int, 'list': list, 'dict': dict, 'set': set, 'frozenset': frozenset, 'tuple': tuple,
              'float': float, 'bool': bool, 'NoneType': type(None), 'bytes': bytes, 'range': range}


def install(I):
    b = I.builtins = {}
    obj = AClass('object', [], {}, native=True)
    b['object'] = obj
    for t in TYPES[1:]:
        b[t] = AClass(t, [obj], {}, native=True)
    b['bool'] = AClass('bool', [b['int']], {}, native=True)
    for name, base in EXCEPTIONS.items():
        b[name] = AClass(name, [b[base]], {}, native=True)
    b['BaseException'].env['__init__'] = Native('__init__', exc_init)
    b['BaseException'].env['__str__'] = Native('__str__', exc_str)
    for name, fn in list(globals().items()):
        if name.startswith('b_'):
            b[name[2:]] = Native(name[2:], fn)
        elif name.startswith('new_'):
            CONSTRUCTORS[name[4:]] = fn
    b['True'], b['False'], b['None'] = True, False, None
    b['NotImplemented'] = NOTIMPL
    b['IOError'] = b['OSError']


def exc_init(I, args, kw):
    args[0].touch()
    args[0].attrs['args'] = tuple(args[1:])
    return None


def exc_str(I, args, kw):
    a = args[0].attrs.get('args', ())
    if len(a) == 0:
        return ''
    if len(a) == 1:
        return repr_(I, a[0]) if args[0].cls.subclass_of(I.builtins['KeyError']) else str_(I, a[0])
    return str_(I, a)


# ---------------------------------------------------------------------------
# types and identity

def type_of(I, v):
    b = I.builtins
    if v is None:
        return b['NoneType']
    t = type(v)
    if t is bool:
        return b['bool']
    if t is int or t in (IntT, DivT, LenT):
        return b['int']
    if t is OrdT:
        if v.kind == 'int':
            return b['int']
        if v.kind == 'list':
            return b['list']
        raise Unsupported('type of an opaque value')
    if t is float:
        return b['float']
    if t in (str, AStr):
        return b['str']
    if t in (bytes, ABytes):
        return b['bytes']
    if t is tuple:
        return b['tuple']
    if t is AList:
        return b['list']
    if t is LazyMap:
        return b[v.kind if v.kind != 'gen' else 'generator']
    if t in (ADict, LazyDict):
        return b['dict']
    if t is ASet:
        return b['frozenset' if v.frozen else 'set']
    if t is SetT:
        return b['frozenset']
    if t is AInst:
        return v.cls
    if t is RelClass or t is AClass:
        return b['type']
    if t is Rec:
        return REC_CLASS(I)
    if t is ARange:
        return b['range']
    if t is ASlice:
        return b['slice']
    if t is AGen:
        return b['generator']
    if t in (AFunc, BoundMethod, Native, BoundNative):
        return b['function']
    if t is AModule:
        return b['module']
    if t is HashT:
        return b['int']
    raise Unsupported('type of %s' % t.__name__)


def REC_CLASS(I):
    c = I.builtins.get('<Record>')
    if c is None:
        c = I.builtins['<Record>'] = AClass('Record', [I.builtins['object']], {}, native=True)
    return c


PAYLOAD = '<base>'


def base_of(v):
    """the builtin value inside an instance of a subclass of dict, list, tuple or set"""
    if type(v) is AInst:
        return v.attrs.get(PAYLOAD, MISSING)
    return MISSING


def unwrap(v):
    b = base_of(v)
    return v if b is MISSING else b


def dunder(I, v, name, *args):
    """call a special method defined by the class of v; MISSING when there is none"""
    m = v.cls.lookup(name)
    if m is MISSING:
        return MISSING
    if m is None:
        raise I.exc('TypeError', '%s is not supported' % name)
    return I.call(I.bind_attr(m, v, v.cls), list(args), {})


def isinstance_(I, v, cls):
    if isinstance(v, Fin):
        return I.world.fin_apply(lambda x: isinstance_(I, x, cls), [v])
    if isinstance(cls, tuple):
        return any(isinstance_(I, v, c) for c in cls)
    if not isinstance(cls, AClass):
        raise I.exc('TypeError', 'isinstance() arg 2 must be a type')
    if isinstance(v, Opq):
        raise Unsupported('isinstance of an opaque object')
    if '<members>' in cls.env:
        t = type_of(I, v)
        if any(t.subclass_of(c) for c in cls.env['<members>']) or t.subclass_of(cls):
            return True
        if type(v) is AInst:
            raise Unsupported('isinstance of %s' % cls.name)
        return False
    return type_of(I, v).subclass_of(cls)


def is_(I, a, b):
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Fin):
            return I.world.fin_apply(lambda p, q: is_(I, p, q), [a, b])
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, str)) and type(a) is type(b):
        return a == b
    if isinstance(a, Opq) and isinstance(b, Opq):
        return a.name == b.name
    if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
        raise Unsupported('identity of strings')
    if isinstance(a, tuple) and isinstance(b, tuple):
        raise Unsupported('identity of tuples')
    return False


# ---------------------------------------------------------------------------
# truth, equality, order

def truth(I, v):
    t = type(v)
    if t is bool:
        return v
    if v is None:
        return False
    w = I.world
    if t is Fin:
        vals = {}
        for k, x in v.table.items():
            try:
                vals[k] = truth(I, x)
            except NeedSplit:
                # which value it is comes first: one question less per value
                w.split_fins([v])
        s = set(vals.values())
        if len(s) == 1:
            return s.pop()
        w.split_on(Fin(v.syms, vals))
    if t in (int, float, str, bytes):
        return bool(v)
    if t is tuple:
        return bool(v)
    if t is AList:
        return bool(v.items)
    if t in (ADict, ASet):
        return bool(v.d)
    if t is AStr:
        return not w.str_empty(v.enc)
    if t is LenT:
        return not w.str_empty(v.enc)
    if t is IntT:
        return not w.int_cmp(v, '==', 0)
    if t is OrdT:
        if v.kind == 'int':
            return not I.world.decide(eq(I, v, 0))
        raise Unsupported('truth of %s' % v.name)
    if t is SetT:
        return not w.set_empty(v.expr)
    if t is LazyMap:
        return len(v.rng) > 0 if v.kind != 'gen' else True
    if t is LazyDict:
        return len(v.rng) > 0
    if t is ARange:
        return len(v) > 0
    if t is AInst:
        for name in ('__bool__', '__len__'):
            m = v.cls.lookup(name)
            if m is not MISSING:
                return truth(I, I.call(I.bind_attr(m, v, v.cls), [], {}))
        return truth(I, unwrap(v)) if PAYLOAD in v.attrs else True
    if v is NOTIMPL:
        return True
    return True


def conj(I, pairs):
    """all(eq(a, b)): False as soon as one is surely False."""
    w = I.world
    held, fins = None, []
    for a, b in pairs:
        try:
            e = eq(I, a, b)
        except NeedSplit as s:
            held = held or s
            continue
        if isinstance(e, Fin):
            fins.append(e)
        elif not e:
            return False
    if fins:
        size = 1
        for s in set(s for f in fins for s in f.syms):
            size *= len(w.fin_region[s])
        if size > 4096:
            if held is None:
                for f in fins:
                    if not w.decide(f):
                        return False
                return True
        else:
            r = fins[0]
            for f in fins[1:]:
                r = w.fin_apply(lambda x, y: x and y, [r, f])
            if r is False:
                return False
            if held is None:
                return r
    if held is not None:
        raise held
    return True


def eq(I, a, b):
    if a is b:
        return True
    w = I.world
    ta, tb = type(a), type(b)
    simple = (str, int, bool, float, type(None), bytes)
    if ta in simple and tb in simple:
        return a == b
    if ta is Fin or tb is Fin:
        others = [x for x in (a, b) if type(x) is not Fin]
        if all(type(x) in simple or isinstance(x, (Rec, AClass)) for x in others):
            return w.fin_apply(lambda x, y: eq(I, x, y), [a, b])
        if others and isinstance(others[0], AStr):
            f = a if ta is Fin else b
            if all(isinstance(x, str) for x in f.table.values()):
                return w.eq_str(w.enc_of(a), w.enc_of(b))
        return w.fin_apply(lambda x, y: eq(I, x, y), [a, b])
    if ta in (str, AStr) and tb in (str, AStr):
        return w.eq_str(w.enc_of(a), w.enc_of(b))
    if ta is DivT or tb is DivT:
        a, b = (a, b) if ta is DivT else (b, a)
        if type(b) is int:
            return not w.decide(less(I, a, b)) and w.decide(less(I, a, b + 1))
        raise Unsupported('equality of quotients')
    if ta is IntT or tb is IntT:
        a, b = w.int_norm(a) if ta is IntT else a, w.int_norm(b) if tb is IntT else b
        if not isinstance(a, IntT):
            a, b = b, a
        if not isinstance(a, IntT):
            return a == b
        if isinstance(b, (int, float)):
            return w.int_cmp(a, '==', b)
        if isinstance(b, IntT):
            if a.sym == b.sym:
                if a.sgn == b.sgn:
                    return a.off == b.off
                # n + a.off == -n + b.off
                d = (b.off - a.off) * a.sgn
                return False if d % 2 else w.int_cmp(IntT(a.sym, 1, 0), '==', d // 2)
            if a.sym in w.mod_of or b.sym in w.mod_of:
                raise Unsupported('equality with a remainder')
            if a.sgn == b.sgn == 1 and a.off == b.off:
                key = ('inteq',) + tuple(sorted((a.sym, b.sym)))
                if key in w.preds and not w.preds[key]:
                    return False
                raise NeedSplit([(('intsame', b.sym, a.sym),), (('pred', key, False),)])
            raise Unsupported('comparison of two integers')
        return False
    if ta is LenT or tb is LenT:
        x, c = (a, b) if ta is LenT else (b, a)
        if isinstance(c, int):
            return len_cmp(I, x, 'eq', c)
        raise Unsupported('length comparison')
    if ta is OrdT or tb is OrdT:
        return ord_rel(I, a, b) == 0
    if ta is tuple and tb is tuple:
        if len(a) != len(b):
            return False
        return conj(I, zip(a, b))
    if ta is AList and tb is AList:
        if len(a.items) != len(b.items):
            return False
        return conj(I, list(zip(a.items, b.items)))
    if ta is ADict and tb is ADict:
        return eq_dict(I, a, b)
    if ta is ASet and tb is ASet:
        if len(a.d) != len(b.d):
            return False
        return all(I.world.decide(contains(I, b, x)) for x in list(a.d.values()))
    if ta is SetT or tb is SetT:
        ea, eb = set_expr(I, a), set_expr(I, b)
        if ea is None or eb is None:
            return False
        return w.set_eq(ea, eb)
    if ta is HashT and tb is HashT:
        return eq_hash(I, a.term, b.term)
    if ta is AInst or tb is AInst:
        for x, y in ((a, b), (b, a)):
            if isinstance(x, AInst):
                m = x.cls.lookup('__eq__')
                if m is not MISSING:
                    r = I.call(I.bind_attr(m, x, x.cls), [y], {})
                    if r is not NOTIMPL:
                        return r
        if PAYLOAD in getattr(a, 'attrs', ()) or PAYLOAD in getattr(b, 'attrs', ()):
            return eq(I, unwrap(a), unwrap(b))
        return False
    if ta is Opq and tb is Opq:
        if a.name == b.name:
            return True
        return w.pred(('same',) + tuple(sorted((a.name, b.name))))
    if ta is Opq or tb is Opq:
        raise Unsupported('equality with an opaque object')
    if ta in (LazyMap, LazyDict) or tb in (LazyMap, LazyDict):
        raise Unsupported('equality of lazy sequences')
    if ta is ABytes and tb is ABytes:
        return w.eq_str(a.enc, b.enc)
    if ta is BoundMethod and tb is BoundMethod:
        return a.func is b.func and a.self is b.self
    if ta is ARange and tb is ARange:
        return range(a.start, a.stop, a.step) == range(b.start, b.stop, b.step)
    return False


def eq_dict(I, a, b):
    if len(a.d) != len(b.d):
        return False
    pairs = []
    for k, v in list(a.d.values()):
        h = dict_find(I, b, k)
        if h is None:
            return False
        pairs.append((v, b.d[h][1]))
    return conj(I, pairs)


def ord_name(I, v):
    if isinstance(v, OrdT):
        return v.name
    if isinstance(v, (int, float)):
        name = '#%s' % v
        consts = getattr(I.world, 'ord_consts', None)
        if consts is None:
            consts = I.world.ord_consts = {}
        if v not in consts:
            for c, n in consts.items():
                I.world.less.add((name, n) if v < c else (n, name))
            consts[v] = name
        return name
    raise Unsupported('order of an opaque value with %s' % type(v).__name__)


def ord_rel(I, a, b):
    """-1, 0, 1"""
    for x, y, s in ((a, b, 1), (b, a, -1)):
        if isinstance(x, OrdT) and isinstance(y, (int, float)) and not isinstance(y, bool):
            if x.lb is not None and x.lb > y:
                return s
            if x.ub is not None and x.ub < y:
                return -s
        elif isinstance(x, OrdT) and not isinstance(y, OrdT):
            if x.kind == 'list' and isinstance(y, AList):
                raise Unsupported('order of an opaque list')
            raise Unsupported('order with %s' % type(y).__name__)
    na, nb = ord_name(I, a), ord_name(I, b)
    w = I.world
    if w.ord_root(na) == w.ord_root(nb):
        return 0
    r = w.ord_less(na, nb)
    if r is True:
        return -1
    if w.ord_less(nb, na) is True:
        return 1
    # integer lower bound reached: a <= lb is equality
    w.ord_split(na, nb)


def len_cmp(I, x, op, c):
    """length of an open string against a small constant"""
    w = I.world
    if c < 0:
        return op == 'gt'
    if c > 8:
        raise Unsupported('length comparison')
    enc = x.enc
    for i in range(c):
        r = w.first_char(enc)
        if r is None:
            return op == 'lt'
        enc = r[1]
    rest_empty = w.str_empty(enc)
    if op == 'eq':
        return rest_empty
    if op == 'lt':
        return False
    return not rest_empty


def less(I, a, b):
    w = I.world
    ta, tb = type(a), type(b)
    simple = (int, float, bool)
    if ta in simple and tb in simple:
        return a < b
    if ta is str and tb is str:
        return a < b
    if ta is Fin or tb is Fin:
        return w.fin_apply(lambda x, y: less(I, x, y), [a, b])
    if ta is DivT and type(b) is int:
        return less(I, a.base, b * a.div)
    if tb is DivT and type(a) is int:
        return not w.decide(less(I, b.base, (a + 1) * b.div))
    if ta is IntT or tb is IntT:
        a, b = w.int_norm(a) if ta is IntT else a, w.int_norm(b) if tb is IntT else b
        if isinstance(a, IntT) and isinstance(b, (int, float)):
            return w.int_cmp(a, '<', b)
        if isinstance(b, IntT) and isinstance(a, (int, float)):
            # a < b  <=>  -b < -a
            return w.int_cmp(IntT(b.sym, -b.sgn, -b.off), '<', -a)
        if not isinstance(a, IntT) and not isinstance(b, IntT):
            return less(I, a, b)
        if isinstance(a, IntT) and isinstance(b, IntT) and a.sym == b.sym:
            if a.sgn == b.sgn:
                return a.off < b.off
            # s*n + a.off < -s*n + b.off <=> 2 s n < d
            d = b.off - a.off
            return w.int_cmp(IntT(a.sym, a.sgn, 0), '<', -((-d) // 2))
        raise Unsupported('order of two integers')
    if ta is LenT and isinstance(b, int):
        return len_cmp(I, a, 'lt', b)
    if tb is LenT and isinstance(a, int):
        return len_cmp(I, b, 'gt', a)
    if ta is OrdT or tb is OrdT:
        return ord_rel(I, a, b) < 0
    if (ta is tuple and tb is tuple) or (ta is AList and tb is AList):
        xs = a if ta is tuple else a.items
        ys = b if tb is tuple else b.items
        for x, y in zip(xs, ys):
            if not w.decide(eq(I, x, y)):
                return less(I, x, y)
        return len(xs) < len(ys)
    if ta in (str, AStr) and tb in (str, AStr):
        ea, eb = w.resolve(w.enc_of(a)), w.resolve(w.enc_of(b))
        if w.decide(w.eq_str(ea, eb)):
            return False
        ka, kb = 's:' + w.show_enc(w.resolve(ea)), 's:' + w.show_enc(w.resolve(eb))
        r = w.ord_less(ka, kb)
        if r is None:
            raise NeedSplit([(('lt', ka, kb),), (('lt', kb, ka),)])
        return r
    if ta in (ASet, SetT) and tb in (ASet, SetT):
        return w.decide(subset(I, a, b)) and not w.decide(eq(I, a, b))
    for x, y, name in ((a, b, '__lt__'), (b, a, '__gt__')):
        if type(x) is AInst and x.cls.lookup(name) is not MISSING:
            r = dunder(I, x, name, y)
            if r is not NOTIMPL:
                return r
    if PAYLOAD in _host_getattr(a, 'attrs', ()) or PAYLOAD in _host_getattr(b, 'attrs', ()):
        return less(I, unwrap(a), unwrap(b))
    if isinstance(a, (LenT, DivT)) or isinstance(b, (LenT, DivT)):
        raise Unsupported('order')
    if not exact(a, b):
        raise Unsupported('order of %s and %s' % (ta.__name__, tb.__name__))
    raise I.exc('TypeError', "'<' not supported between instances")


def compare(I, op, a, b):
    w = I.world

    def neg(v):
        if isinstance(v, Fin):
            return w.fin_apply(lambda x: not x, [v])
        return not truth(I, v)
    if op == 'Eq':
        return eq(I, a, b)
    if op == 'NotEq':
        if isinstance(a, AInst):
            m = a.cls.lookup('__ne__')
            if m is not MISSING:
                r = I.call(I.bind_attr(m, a, a.cls), [b], {})
                if r is not NOTIMPL:
                    return r
        return neg(eq(I, a, b))
    if op == 'Is':
        return is_(I, a, b)
    if op == 'IsNot':
        return neg(is_(I, a, b))
    if op == 'In':
        return contains(I, b, a)
    if op == 'NotIn':
        return neg(contains(I, b, a))
    if op in ('Lt', 'LtE', 'Gt', 'GtE') and (type(a) is AList and is_view(a) or type(b) is AList and is_view(b)):
        return compare(I, op, as_set(I, a), as_set(I, b))
    if isinstance(a, (ASet, SetT)) and isinstance(b, (ASet, SetT)) and op in ('LtE', 'GtE'):
        return subset(I, a, b) if op == 'LtE' else subset(I, b, a)
    if isinstance(a, AInst) or isinstance(b, AInst):
        names = {'Lt': ('__lt__', '__gt__'), 'LtE': ('__le__', '__ge__'), 'Gt': ('__gt__', '__lt__'), 'GtE': ('__ge__', '__le__')}[op]
        for x, y, name in ((a, b, names[0]), (b, a, names[1])):
            if type(x) is AInst and x.cls.lookup(name) is not MISSING:
                r = dunder(I, x, name, y)
                if r is not NOTIMPL:
                    return r
        if PAYLOAD in _host_getattr(a, 'attrs', ()) or PAYLOAD in _host_getattr(b, 'attrs', ()):
            return compare(I, op, unwrap(a), unwrap(b))
        if _host_getattr(a, 'partial', False) or _host_getattr(b, 'partial', False):
            raise Unsupported('order of partial objects')
        raise I.exc('TypeError', "'%s' not supported between instances" % op)
    if op == 'Lt':
        return less(I, a, b)
    if op == 'Gt':
        return less(I, b, a)
    if op == 'LtE':
        return neg(less(I, b, a))
    if op == 'GtE':
        return neg(less(I, a, b))
    raise Unsupported('comparison %s' % op)


# ---------------------------------------------------------------------------
# sets / dicts

def set_expr(I, v):
    if isinstance(v, SetT):
        return v.expr
    if isinstance(v, ASet):
        if not v.d:
            return ('empty',)
        return None
    if isinstance(v, (tuple, AList)) and not (v if isinstance(v, tuple) else v.items):
        return ('empty',)
    return None


def subset(I, a, b):
    w = I.world
    if isinstance(a, Fin) or isinstance(b, Fin):
        return w.fin_apply(lambda x, y: subset(I, x, y), [a, b])
    if isinstance(a, SetT) or isinstance(b, SetT):
        ea, eb = set_expr(I, a), set_expr(I, b)
        if ea is None or eb is None:
            raise Unsupported('subset of a symbolic and a concrete set')
        return w.set_subset(ea, eb)
    other = b if isinstance(b, ASet) else new_set(I, [b], {})
    return all(w.decide(contains(I, other, x)) for x in list(a.d.values()))


def hk(I, v):
    """Host key of a rigid hashable value, None when symbolic."""
    t = type(v)
    if t in (str, int, bool, float, type(None), bytes):
        return v
    if t is Rec or t is AClass or t is RelClass or t in (AFunc, Native, AModule):
        return v
    if t is tuple:
        out = []
        for x in v:
            h = hk(I, x)
            if h is None and x is not None:
                return None
            out.append(h)
        return ('t',) + tuple(out)
    if t is ASet:
        if not v.frozen:
            raise I.exc('TypeError', "unhashable type: 'set'")
        if v.symbolic:
            return None
        return ('fs', frozenset(v.d.keys()))
    if t in (AList, ADict, LazyDict) or (t is LazyMap and v.kind == 'list'):
        raise I.exc('TypeError', "unhashable type: '%s'" % type_of(I, v).name)
    if t is AInst:
        cls = v.cls
        has_eq = cls.lookup('__eq__') is not MISSING
        if not has_eq:
            if PAYLOAD in v.attrs:
                if isinstance(v.attrs[PAYLOAD], tuple):
                    return hk(I, v.attrs[PAYLOAD])
                raise I.exc('TypeError', "unhashable type: '%s'" % cls.name)
            return ('inst', id(v))
        owner_eq = [c for c in cls.mro if '__eq__' in c.env][0]
        owner_hash = [c for c in cls.mro if '__hash__' in c.env]
        if not owner_hash or cls.mro.index(owner_hash[0]) > cls.mro.index(owner_eq):
            raise I.exc('TypeError', "unhashable type: '%s'" % cls.name)
        return None
    if t in (BoundMethod, BoundNative):
        return ('m', id(v))
    return None


class _NoneKey(object):
    pass


NONE_KEY = _NoneKey()


def key_of(I, v):
    """(host key, is_symbolic)"""
    if v is None:
        return NONE_KEY, False
    h = hk(I, v)
    if h is None and PAYLOAD in _host_getattr(v, 'attrs', ()):
        v = v.attrs[PAYLOAD]
    if h is not None:
        return h, False
    if isinstance(v, Fin):
        I.world.concretize(v)
    if isinstance(v, AInst):
        return ('sym', 'inst', id(v)), True
    return ('sym', I.world.struct(v)), True


def find_key(I, table, symbolic, v):
    """Host key under which v is stored in table, or None."""
    h, sym = key_of(I, v)
    if h in table:
        return h
    if not sym and not symbolic:
        return None
    for k, entry in list(table.items()):
        ksym = isinstance(k, tuple) and k and k[0] == 'sym'
        if not sym and not ksym:
            continue
        key = entry[0] if isinstance(entry, tuple) and len(entry) == 2 and entry[0] is not MISSING and entry[1] is not _SETMARK else entry[0]
        if isinstance(unwrap(v), AInst) != isinstance(unwrap(key), AInst):
            continue
        if I.world.decide(truthy_eq(I, key, v)):
            return k
    return None


_SETMARK = object()


def truthy_eq(I, a, b):
    e = eq(I, a, b)
    if isinstance(e, (bool, Fin)):
        return e
    return truth(I, e)


def dict_find(I, d, k):
    return find_key(I, d.d, d.symbolic, k)


def dict_set(I, d, k, v):
    if isinstance(k, Fin):
        I.world.concretize(k)
    h = dict_find(I, d, k)
    d.touch()
    if d.owner is not None:
        if not isinstance(k, str):
            raise Unsupported('attribute dictionary with an opaque key')
        d.owner.touch()
        d.owner.attrs[k] = v
    if h is not None:
        d.d[h] = (d.d[h][0], v)
        return
    h, sym = key_of(I, k)
    d.d[h] = (k, v)
    if sym:
        d.symbolic += 1


def dict_get(I, d, k, default=MISSING):
    w = I.world
    if has_fin(k) and not d.symbolic:
        # pointwise lookup, when the coordinates span a small product
        fins = fins_of(k)
        size = 1
        for s in set(s for f in fins for s in f.syms):
            size *= len(w.fin_region[s])
        if size <= 1024:
            def look(*parts):
                kk = rebuild(k, list(parts))
                h = dict_find(I, d, kk)
                if h is None:
                    if default is MISSING:
                        raise I.exc('KeyError', kk)
                    return default
                return d.d[h][1]
            return w.fin_apply(look, fins)
    h = dict_find(I, d, k)
    if h is None:
        if default is not MISSING:
            return default
        if d.factory is not None:
            v = I.call(d.factory, [], {})
            dict_set(I, d, k, v)
            return v
        raise I.exc('KeyError', k)
    return d.d[h][1]


def has_fin(v):
    if isinstance(v, Fin):
        return True
    if isinstance(v, tuple):
        return any(has_fin(x) for x in v)
    return False


def fins_of(v):
    if isinstance(v, Fin):
        return [v]
    if isinstance(v, tuple):
        return [f for x in v for f in fins_of(x)]
    return []


def rebuild(v, parts):
    if isinstance(v, Fin):
        return parts.pop(0)
    if isinstance(v, tuple):
        return tuple(rebuild(x, parts) for x in v)
    return v


def dict_has(I, d, k):
    w = I.world
    if has_fin(k) and not d.symbolic:
        fins = fins_of(k)
        size = 1
        for s in set(s for f in fins for s in f.syms):
            size *= len(w.fin_region[s])
        if size <= 1024:
            return w.fin_apply(lambda *p: dict_find(I, d, rebuild(k, list(p))) is not None, fins)
    return dict_find(I, d, k) is not None


def set_add(I, s, v):
    if isinstance(v, Fin):
        I.world.concretize(v)
    h = find_key(I, SetView(s), s.symbolic, v)
    if h is not None:
        return
    h, sym = key_of(I, v)
    s.touch()
    s.d[h] = v
    if sym:
        s.symbolic += 1


class SetView(object):
    """Presents a set table as {key: (value, mark)} for find_key."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __contains__(self, h):
        return h in self.s.d

    def items(self):
        return [(k, (v, _SETMARK)) for k, v in self.s.d.items()]


def contains(I, container, v):
    w = I.world
    t = type(container)
    if t is Fin:
        vals = container.values()
        if all(isinstance(x, (str, tuple, ASet)) for x in vals):
            return w.fin_apply(lambda c, x: contains(I, c, x), [container, v]) if isinstance(v, (Fin, str, int, Rec)) else contains(I, w.concretize(container), v)
        w.concretize(container)
    if t is ADict:
        return dict_has(I, container, v)
    if t is ASet:
        if isinstance(v, Fin) and not container.symbolic:
            return w.fin_apply(lambda x: find_key(I, SetView(container), 0, x) is not None, [v])
        return find_key(I, SetView(container), container.symbolic, v) is not None
    if t in (tuple, AList):
        items = container if t is tuple else container.items
        fins, held = [], None
        for x in items:
            try:
                e = eq(I, x, v)
            except NeedSplit as s:
                held = held or s
                continue
            if isinstance(e, Fin):
                fins.append(e)
            elif truth(I, e):
                return True
        if held is not None:
            raise held
        if not fins:
            return False
        r = fins[0]
        for f in fins[1:]:
            r = w.fin_apply(lambda x, y: x or y, [r, f])
        return r
    if t in (str, AStr):
        return str_contains(I, container, v)
    if t is AGen:
        for x in iterator(I, container):
            if w.decide(truthy_eq(I, x, v)):
                return True
        return False
    if t is ARange:
        if isinstance(v, int):
            return v in range(container.start, container.stop, container.step)
        if isinstance(v, IntT) and container.step == 1:
            return not w.decide(less(I, v, container.start)) and w.decide(less(I, v, container.stop))
        if isinstance(v, Fin):
            return w.fin_apply(lambda x: contains(I, container, x), [v])
        return False
    if t is LazyDict:
        return contains(I, container.rng, v)
    if t is AInst:
        m = container.cls.lookup('__contains__')
        if m is not MISSING:
            return I.call(I.bind_attr(m, container, container.cls), [v], {})
        if container.cls.lookup('__iter__') is not MISSING:
            return contains(I, tuple(iterator(I, container)), v)
        if PAYLOAD in container.attrs:
            return contains(I, container.attrs[PAYLOAD], v)
        if container.cls.lookup('__getitem__') is not MISSING:
            return contains(I, tuple(iterator(I, container)), v)
        if container.partial:
            raise Unsupported('membership in a partial object')
        raise I.exc('TypeError', 'argument of type %r is not iterable' % container.cls.name)
    if t is SetT:
        if container.expr == ('empty',):
            return False
        return w.pred(('in', w.struct(v), container.expr))
    if t in (OrdT, Opq, LazyMap):
        raise Unsupported('membership in an opaque value')
    if t is AClass and '<enum members>' in container.env:
        members = [x for _, x in container.env['<enum members>'].d.values()]
        if isinstance(v, AInst) and v.cls is container:
            return any(x is v for x in members)
        return any(w.decide(truthy_eq(I, x.attrs['_value_'], v)) for x in members)
    if not exact(container):
        raise Unsupported('membership in %s' % t.__name__)
    raise I.exc('TypeError', 'argument is not iterable')


# ---------------------------------------------------------------------------
# items, slices, iteration

def getitem(I, obj, idx):
    w = I.world
    t = type(obj)
    if type(idx) is ASlice and t is not AInst and t not in (ADict, LazyDict):
        return getslice(I, obj, idx.start, idx.stop, idx.step)
    if t is ADict:
        return dict_get(I, obj, idx)
    if t in (tuple, AList):
        items = obj if t is tuple else obj.items
        if isinstance(idx, IntT):
            idx = w.int_norm(idx)
        if isinstance(idx, (int,)):
            if -len(items) <= idx < len(items):
                return items[idx]
            raise I.exc('IndexError', 'index out of range')
        if isinstance(idx, Fin):
            return w.fin_apply(lambda i: getitem(I, obj, i), [idx])
        if isinstance(idx, IntT):
            if w.decide(less(I, idx, -len(items))) or not w.decide(less(I, idx, len(items))):
                raise I.exc('IndexError', 'index out of range')
            for n in range(-len(items), len(items)):
                if w.decide(eq(I, idx, n)):
                    return items[n]
        if isinstance(idx, tuple) or isinstance(idx, (str, AStr)) or idx is None:
            raise I.exc('TypeError', 'list indices must be integers')
        raise Unsupported('index %s' % type(idx).__name__)
    if t in (str, AStr):
        return str_index(I, obj, idx)
    if t is Fin:
        vals = obj.values()
        if all(isinstance(x, (str, tuple)) for x in vals):
            if isinstance(idx, (int, Fin)):
                return w.fin_apply(lambda o, i: getitem(I, o, i), [obj, idx])
        w.concretize(obj)
    if t is LazyMap:
        if obj.kind == 'gen':
            raise I.exc('TypeError', 'generator object is not subscriptable')
        n = len(obj.rng)
        if isinstance(idx, IntT):
            idx = w.int_norm(idx)
        if w.decide(less(I, idx, 0)):
            idx = binop(I, 'Add', idx, n)
            if w.decide(less(I, idx, 0)):
                raise I.exc('IndexError', 'index out of range')
        if not w.decide(less(I, idx, n)):
            raise I.exc('IndexError', 'index out of range')
        return obj.fn(binop(I, 'Add', binop(I, 'Mult', idx, obj.rng.step), obj.rng.start))
    if t is LazyDict:
        if not w.decide(contains(I, obj.rng, idx)):
            raise I.exc('KeyError', idx)
        return obj.fn(idx)
    if t is ARange:
        if isinstance(idx, int):
            try:
                return range(obj.start, obj.stop, obj.step)[idx]
            except IndexError:
                raise I.exc('IndexError', 'range index')
        if isinstance(idx, Fin):
            return w.fin_apply(lambda i: getitem(I, obj, i), [idx])
    if t is AInst:
        m = obj.cls.lookup('__getitem__')
        if m is not MISSING:
            return I.call(I.bind_attr(m, obj, obj.cls), [idx], {})
        if PAYLOAD in obj.attrs:
            return payload_item(I, obj, idx)
        if obj.partial:
            raise Unsupported('subscript of a partial object')
        raise I.exc('TypeError', '%s object is not subscriptable' % obj.cls.name)
    if t is AMatch:
        return call_method(I, obj, 'group', [idx], {})
    if t is AClass and '<enum members>' in obj.env:
        return dict_get(I, obj.env['<enum members>'], idx)
    if t is AClass and (obj.native or obj.cls_getitem()):
        return obj                      # list[int], a generic class
    if obj is None or t in (int, bool, ASet, AGen, AFunc, Rec, AClass, RelClass):
        raise I.exc('TypeError', 'object is not subscriptable')
    if t is OrdT and obj.kind == 'list':
        raise Unsupported('item of an opaque list')
    raise Unsupported('subscript of %s' % t.__name__)


def payload_item(I, obj, idx):
    base = obj.attrs[PAYLOAD]
    if isinstance(base, ADict) and obj.cls.lookup('__missing__') is not MISSING:
        if isinstance(idx, Fin):
            I.world.concretize(idx)
        h = dict_find(I, base, idx)
        return dunder(I, obj, '__missing__', idx) if h is None else base.d[h][1]
    return getitem(I, base, idx)


def setitem(I, obj, idx, value):
    w = I.world
    if isinstance(obj, Fin):
        w.concretize(obj)
    if isinstance(obj, ADict):
        dict_set(I, obj, idx, value)
        return
    if isinstance(obj, AList):
        if isinstance(idx, Fin):
            w.concretize(idx)
        if isinstance(idx, IntT):
            idx = w.int_norm(idx)
        if not isinstance(idx, int):
            if isinstance(idx, (IntT, DivT)):
                raise Unsupported('symbolic list index')
            raise I.exc('TypeError', 'list indices must be integers')
        if not -len(obj.items) <= idx < len(obj.items):
            raise I.exc('IndexError', 'list assignment index out of range')
        obj.touch()
        obj.items[idx] = value
        return
    if isinstance(obj, AInst):
        m = obj.cls.lookup('__setitem__')
        if m is not MISSING:
            I.call(I.bind_attr(m, obj, obj.cls), [idx, value], {})
            return
        if PAYLOAD in obj.attrs:
            setitem(I, obj.attrs[PAYLOAD], idx, value)
            return
    if isinstance(obj, (tuple, str, AStr, AInst)) or obj is None:
        raise I.exc('TypeError', 'object does not support item assignment')
    raise Unsupported('item assignment on %s' % type(obj).__name__)


def delitem(I, obj, idx):
    if isinstance(obj, ADict):
        if isinstance(idx, Fin):
            I.world.concretize(idx)
        h = dict_find(I, obj, idx)
        if h is None:
            raise I.exc('KeyError', idx)
        obj.touch()
        if isinstance(h, tuple) and h and h[0] == 'sym':
            obj.symbolic -= 1
        del obj.d[h]
        if obj.owner is not None:
            obj.owner.touch()
            obj.owner.attrs.pop(h, None)
        return
    if isinstance(obj, AList) and isinstance(idx, int):
        if not -len(obj.items) <= idx < len(obj.items):
            raise I.exc('IndexError', 'index')
        obj.touch()
        del obj.items[idx]
        return
    if isinstance(obj, AInst):
        if obj.cls.lookup('__delitem__') is not MISSING:
            dunder(I, obj, '__delitem__', idx)
            return
        if PAYLOAD in obj.attrs:
            delitem(I, obj.attrs[PAYLOAD], idx)
            return
    if obj is None or isinstance(obj, (tuple, str, AStr, int)):
        raise I.exc('TypeError', 'object does not support item deletion')
    raise Unsupported('del item')


def getslice(I, obj, lo, hi, st):
    w = I.world
    for x in (lo, hi, st):
        if isinstance(x, Fin):
            w.concretize(x)
    if isinstance(obj, Fin):
        if all(isinstance(x, (str, tuple)) for x in obj.values()):
            return w.fin_apply(lambda o: getslice(I, o, lo, hi, st), [obj])
        w.concretize(obj)
    lo, hi = [w.int_norm(x) if isinstance(x, IntT) else x for x in (lo, hi)]
    if isinstance(hi, LenT) and isinstance(obj, AStr) and w.resolve(hi.enc) == w.resolve(obj.enc):
        hi = None               # x[n:len(x)]
    if any(x is not None and not isinstance(x, int) for x in (lo, hi, st)):
        raise Unsupported('symbolic slice')
    if isinstance(obj, AList):
        return AList(obj.items[slice(lo, hi, st)])
    if isinstance(obj, (tuple, str, bytes)):
        return obj[slice(lo, hi, st)]
    if isinstance(obj, AStr):
        return str_slice(I, obj, lo, hi, st)
    if isinstance(obj, ARange):
        r = range(obj.start, obj.stop, obj.step)[slice(lo, hi, st)]
        return ARange(r.start, r.stop, r.step)
    if obj is None or isinstance(obj, (int, ADict, ASet, AGen)):
        raise I.exc('TypeError', 'object is not subscriptable')
    raise Unsupported('slice of %s' % type(obj).__name__)


def iterator(I, v):
    w = I.world
    t = type(v)
    if t is AList:
        i = 0
        src = v.src
        n = len(src.d) if src is not None else 0
        while i < len(v.items):
            if src is not None and len(src.d) != n:
                raise I.exc('RuntimeError', 'dictionary changed size during iteration')
            yield v.items[i]
            i += 1
        return
    if t is tuple:
        for x in v:
            yield x
        return
    if t is ADict:
        n = len(v.d)
        for k, _ in list(v.d.values()):
            if len(v.d) != n:
                raise I.exc('RuntimeError', 'dictionary changed size during iteration')
            yield k
        return
    if t is ASet:
        if v.src is not None:
            n = len(v.d)
            for x in list(v.d.values()):
                if len(v.src.d) != n:
                    raise I.exc('RuntimeError', 'dictionary changed size during iteration')
                yield x
            return
        for x in set_order(I, v):
            yield x
        return
    if t is AGen:
        while True:
            try:
                x = v.advance()
            except StopIteration:
                return
            yield x
    if t is ARange:
        for x in range(v.start, v.stop, v.step):
            yield x
        return
    if t is LazyMap:
        if len(v.rng) > 20000:
            raise Unsupported('iteration over a large lazy sequence')
        if v.kind == 'gen':
            v = v.take('tuple')
        for x in range(v.rng.start, v.rng.stop, v.rng.step):
            yield v.fn(x)
        return
    if t is str:
        for c in v:
            yield c
        return
    if t is AStr:
        enc = w.resolve(v.enc)
        for ch in enc:
            if is_pua(ch):
                p = w.piece_of(ch)
                if isinstance(p, Fin):
                    if not w.is_char_piece(ch):
                        w.concretize(p)
                    yield p
                    continue
                if isinstance(p, Atom) and p.name.startswith('tok:'):
                    w.measure(ch)
                    yield AStr(ch)
                    continue
                raise Unsupported('iteration over an opaque string')
            yield ch
        return
    if t is Fin:
        w.concretize(v)
    if t is AInst:
        m = v.cls.lookup('__iter__')
        if m is not MISSING:
            r = I.call(I.bind_attr(m, v, v.cls), [], {})
            if r is v:
                nx = I.bind_attr(v.cls.lookup('__next__'), v, v.cls)
                for _ in range(20000):
                    try:
                        x = I.call(nx, [], {})
                    except PyExc as e:
                        if e.value.cls.name == 'StopIteration':
                            return
                        raise
                    yield x
                raise Unsupported('iterator bound')
            for x in iterator(I, r):
                yield x
            return
        if PAYLOAD in v.attrs:
            for x in iterator(I, v.attrs[PAYLOAD]):
                yield x
            return
        if v.cls.lookup('__getitem__') is not MISSING:
            for i in range(20000):
                try:
                    x = dunder(I, v, '__getitem__', i)
                except PyExc as e:
                    if e.value.cls.subclass_of(I.builtins['IndexError']):
                        return
                    raise
                yield x
            raise Unsupported('iterator bound')
        if v.partial:
            raise Unsupported('iteration over a partial object')
        raise I.exc('TypeError', '%s object is not iterable' % v.cls.name)
    if v is None or t in (int, bool, float, Rec, AFunc, IntT):
        raise I.exc('TypeError', 'object is not iterable')
    if t is AClass and '<enum members>' in v.env:
        seen = []
        for _, x in list(v.env['<enum members>'].d.values()):
            if x not in seen:
                seen.append(x)
                yield x
        return
    if t is RelClass or t is AClass:
        raise I.exc('TypeError', 'type object is not iterable')
    if t is LazyDict:
        for x in range(v.rng.start, v.rng.stop, v.rng.step):
            yield x
        return
    raise Unsupported('iteration over %s' % t.__name__)


def set_order(I, s):
    """Iteration order of a set is unspecified: explore the orders (bounded)."""
    items = list(s.d.values())
    if len(items) < 2 or not I.explore_set_orders:
        return items[::-1] if I.reverse_sets else items
    if all(isinstance(x, int) for x in items):
        return sorted(items)
    import itertools
    key = 'order of {%s}' % ','.join(sorted(repr(I.world.struct(x)) if not isinstance(x, AInst) else 'inst%d' % i for i, x in enumerate(items)))[:120]
    if len(items) <= 3:
        orders = list(itertools.permutations(range(len(items))))
    else:
        orders = [tuple(range(len(items))), tuple(reversed(range(len(items))))]
    order = I.world.symbol(key, orders)
    if isinstance(order, Fin):
        I.world.concretize(order)
    return [items[i] for i in order]


# ---------------------------------------------------------------------------
# arithmetic

def binop(I, op, a, b):
    w = I.world
    ta, tb = type(a), type(b)
    num = (int, float, bool)
    if ta in num and tb in num:
        return arith(I, op, a, b)
    if op == 'Mod' and ta in (str, AStr):
        return percent(I, a, b)
    if op == 'Add' and ta in (str, AStr, Fin) and tb in (str, AStr, Fin):
        if ta is Fin and tb is Fin or (ta is Fin and tb is str) or (ta is str and tb is Fin):
            if ta is str or tb is str or (all(isinstance(x, (int, float)) for x in a.table.values()) and all(isinstance(x, (int, float)) for x in b.table.values())):
                if ta is Fin and not all(isinstance(x, str) for x in a.table.values()) and tb is str:
                    return w.fin_apply(lambda x, y: binop(I, op, x, y), [a, b])
                if ta is Fin and tb is Fin:
                    return w.fin_apply(lambda x, y: x + y, [a, b])
                return w.mkstr(w.enc_of(a) + w.enc_of(b))
        if all(is_strlike(x) for x in (a, b)):
            return w.mkstr(w.enc_of(a) + w.enc_of(b))
        return w.fin_apply(lambda x, y: binop(I, op, x, y), [a, b])
    if ta is IntT or tb is IntT or ta is DivT or tb is DivT:
        return int_arith(I, op, a, b)
    if ta is Fin or tb is Fin:
        if op == 'Mod' and ta is Fin and all(isinstance(x, str) for x in a.table.values()):
            w.concretize(a)
        if (ta is Fin or ta in num or ta in (ASet, str, tuple)) and (tb is Fin or tb in num or tb in (ASet, str, tuple)):
            return w.fin_apply(lambda x, y: binop(I, op, x, y), [a, b])
        w.concretize(a if ta is Fin else b)
    if op == 'Add':
        if ta is AList and tb is AList:
            return AList(a.items + b.items)
        if ta is tuple and tb is tuple:
            return a + b
        if ta is LazyMap or tb is LazyMap:
            raise Unsupported('concatenation of lazy sequences')
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int):
                if isinstance(x, AList):
                    return AList(x.items * y)
                if isinstance(x, (tuple, str)):
                    return x * y
                if isinstance(x, AStr):
                    return w.mkstr(x.enc * y)
    if op in ('BitAnd', 'BitOr', 'Sub', 'BitXor') and (is_view(a) or is_view(b)):
        # views of dictionaries take any other collection
        return set_binop(I, op, as_set(I, a), as_set(I, b))
    if op in ('BitAnd', 'BitOr', 'Sub', 'BitXor') and ta in (ASet, SetT) and tb in (ASet, SetT):
        return set_binop(I, op, a, b)
    if op == 'BitOr' and ta is ADict and tb is ADict:
        d = ADict()
        for x in (a, b):
            for k, v in list(x.d.values()):
                dict_set(I, d, k, v)
        return d
    if ta is AInst or tb is AInst:
        stem = OPERATOR_METHODS.get(op, '?')
        for x, y, name in ((a, b, '__%s__' % stem), (b, a, '__r%s__' % stem)):
            if type(x) is AInst and x.cls.lookup(name) is not MISSING:
                r = dunder(I, x, name, y)
                if r is not NOTIMPL:
                    return r
        if PAYLOAD in _host_getattr(a, 'attrs', ()) or PAYLOAD in _host_getattr(b, 'attrs', ()):
            return binop(I, op, unwrap(a), unwrap(b))
    if ta in (OrdT, LenT, Opq, HashT) or tb in (OrdT, LenT, Opq, HashT):
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                # a uniform number of [0, 1) stretched over n values
                if type(x) is OrdT and x.kind == 'float' and x.name.startswith('random#') and '*' not in x.name and type(y) is int and y > 0:
                    return OrdT('%s*%d' % (x.name, y), 'float', 0)
        if ta is HashT or tb is HashT:
            return HashT(('arith', op, hash_term(a), hash_term(b)))
        raise Unsupported('%s of opaque values' % op)
    if not exact(a, b):
        raise Unsupported('%s of %s and %s' % (op, ta.__name__, tb.__name__))
    raise I.exc('TypeError', 'unsupported operand type(s) for %s' % op)


def exact(*values):
    """values whose supported operations are all modelled, so that any other is an error of the program"""
    for v in values:
        if v is None or type(v) in (bool, int, float, str, bytes, tuple, AStr, ADict, Rec, AFunc, IntT, LenT):
            continue
        if type(v) in (AList, ASet) and v.src is None:
            continue
        if type(v) is AInst and not v.partial and PAYLOAD not in v.attrs:
            continue
        return False
    return True


def is_view(v):
    return type(v) in (AList, ASet) and v.src is not None


def as_set(I, v):
    if type(v) in (ASet, SetT) and not is_view(v):
        return v
    s = ASet()
    for x in I.iterate(v):
        set_add(I, s, x)
    return s


OPERATOR_METHODS = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'BitOr': 'or', 'BitAnd': 'and', 'BitXor': 'xor', 'Mod': 'mod', 'Div': 'truediv',
                    'FloorDiv': 'floordiv', 'Pow': 'pow', 'LShift': 'lshift', 'RShift': 'rshift', 'MatMult': 'matmul'}


def hash_term(v):
    return v.term if isinstance(v, HashT) else ('c', v)


def is_strlike(v):
    return isinstance(v, (str, AStr)) or (isinstance(v, Fin) and all(isinstance(x, (str, AStr)) for x in v.table.values()))


def arith(I, op, a, b):
    try:
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mult':
            return a * b
        if op == 'Mod':
            return a % b
        if op == 'FloorDiv':
            return a // b
        if op == 'Div':
            return a / b
        if op == 'Pow':
            if isinstance(b, int) and b > 64:
                raise Unsupported('pow')
            return a ** b
        if op == 'BitAnd':
            return a & b
        if op == 'BitOr':
            return a | b
        if op == 'BitXor':
            return a ^ b
        if op == 'LShift':
            return a << b
        if op == 'RShift':
            return a >> b
    except ZeroDivisionError:
        raise I.exc('ZeroDivisionError', 'division by zero')
    except TypeError:
        raise I.exc('TypeError', 'arith')
    raise Unsupported('operator %s' % op)


def int_arith(I, op, a, b):
    w = I.world
    if isinstance(a, IntT):
        a = w.int_norm(a)
    if isinstance(b, IntT):
        b = w.int_norm(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return arith(I, op, a, b)
    if op == 'Add':
        if isinstance(a, IntT) and isinstance(b, int):
            return IntT(a.sym, a.sgn, a.off + b)
        if isinstance(b, IntT) and isinstance(a, int):
            return IntT(b.sym, b.sgn, b.off + a)
    if op == 'Sub':
        if isinstance(a, IntT) and isinstance(b, int):
            return IntT(a.sym, a.sgn, a.off - b)
        if isinstance(b, IntT) and isinstance(a, int):
            return IntT(b.sym, -b.sgn, a - b.off)
        if isinstance(a, IntT) and isinstance(b, IntT) and a.sym == b.sym and a.sgn == b.sgn:
            return a.off - b.off
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, IntT) and isinstance(y, int):
                if y == 1:
                    return x
                if y == -1:
                    return IntT(x.sym, -x.sgn, -x.off)
                if y == 0:
                    return 0
    if op == 'Mod' and isinstance(b, int):
        if b == 0:
            raise I.exc('ZeroDivisionError', 'modulo by zero')
        return w.int_mod(a, b)
    if op == 'FloorDiv' and isinstance(a, IntT) and isinstance(b, int) and b > 0:
        return DivT(a, b)
    if isinstance(a, Fin) or isinstance(b, Fin):
        w.concretize(a if isinstance(a, Fin) else b)
    raise Unsupported('integer arithmetic %s' % op)


def set_binop(I, op, a, b):
    w = I.world
    if isinstance(a, SetT) or isinstance(b, SetT):
        ea, eb = set_expr(I, a), set_expr(I, b)
        if ea is None or eb is None:
            raise Unsupported('set operation on symbolic and concrete sets')
        kind = {'BitAnd': 'and', 'BitOr': 'or', 'Sub': 'sub'}.get(op)
        if kind is None:
            raise Unsupported('set operation')
        return SetT(w.set_op(kind, ea, eb))
    s = ASet(frozen=a.frozen)
    if op in ('BitAnd', 'Sub', 'BitXor'):
        for x in list(a.d.values()):
            inb = w.decide(contains(I, b, x))
            if inb == (op == 'BitAnd'):
                set_add(I, s, x)
        if op == 'BitXor':
            for x in list(b.d.values()):
                if not w.decide(contains(I, a, x)):
                    set_add(I, s, x)
    else:
        for x in list(a.d.values()) + list(b.d.values()):
            set_add(I, s, x)
    return s


# ---------------------------------------------------------------------------
# strings

def percent(I, fmt, args):
    w = I.world
    enc = w.resolve(w.enc_of(fmt))
    if not w.excludes(enc, '%'):
        raise Unsupported('format string with an opaque %')
    out = []
    i, n = 0, 0
    seq = args if isinstance(args, tuple) else (args,)
    used_map = False
    while i < len(enc):
        ch = enc[i]
        if ch != '%':
            out.append(ch)
            i += 1
            continue
        i += 1
        if i >= len(enc):
            raise I.exc('ValueError', 'incomplete format')
        if enc[i] == '%':
            out.append('%')
            i += 1
            continue
        key = MISSING
        if enc[i] == '(':
            j = enc.find(')', i)
            if j < 0:
                raise I.exc('ValueError', 'incomplete format key')
            if not isinstance(args, (ADict, AInst)):
                raise I.exc('TypeError', 'format requires a mapping')
            key = w.mkstr(enc[i + 1:j])
            i = j + 1
            used_map = True
        m = host_re.match(r'[-+ #0]*\d*(\.\d+)?', enc[i:])
        flags = m.group(0)
        i += len(flags)
        if i >= len(enc):
            raise I.exc('ValueError', 'incomplete format')
        conv = enc[i]
        i += 1
        if conv not in 'srdixfgauocX':
            if is_pua(conv) or conv:
                raise I.exc('ValueError', 'unsupported format character')
        if key is not MISSING:
            v = getitem(I, args, key)
        else:
            if n >= len(seq):
                raise I.exc('TypeError', 'not enough arguments for format string')
            v = seq[n]
            n += 1
        if conv == 's':
            s = str_(I, v)
        elif conv in 'ra':
            s = repr_(I, v)
        elif conv in 'di' and isinstance(v, (IntT, Fin)) and not flags:
            s = str_(I, v)
        elif isinstance(v, (int, float)):
            s = ('%' + flags + conv) % v
            flags = ''
        elif isinstance(v, (str, AStr)) or v is None:
            raise I.exc('TypeError', '%%%s format: a number is required' % conv)
        else:
            raise Unsupported('format %s' % conv)
        if flags:
            if isinstance(s, str):
                s = ('%' + flags + 's') % s
            else:
                raise Unsupported('format flags')
        out.append(w.enc_of(s))
    if not used_map and n < len(seq) and not isinstance(args, (ADict, AInst)):
        raise I.exc('TypeError', 'not all arguments converted during string formatting')
    return w.mkstr(''.join(out))


def str_(I, v):
    w = I.world
    t = type(v)
    if t is str or t is AStr:
        return v
    if t in (int, float, bool, type(None)):
        return str(v)
    if t is Fin:
        return w.fin_apply(lambda x: str_(I, x), [v])
    if t is IntT:
        v = w.int_norm(v)
        if not isinstance(v, IntT):
            return str(v)
        return AStr(w.piece(v, ('str', v.sym, v.sgn, v.off)))
    if t is AInst:
        m = v.cls.lookup('__str__')
        if m is MISSING:
            m = v.cls.lookup('__repr__')
        if m is not MISSING:
            r = I.call(I.bind_attr(m, v, v.cls), [], {})
            if not is_strlike(r):
                raise I.exc('TypeError', '__str__ returned non-string (type %s)' % type_of(I, r).name)
            return r
        if PAYLOAD in v.attrs:
            return repr_(I, v.attrs[PAYLOAD])
        return opaque_text(I, 'str', v)
    if t is Rec:
        return '%s.%s' % (v.rel.name, v.name)
    if t is AClass or t is RelClass:
        return "<class '%s'>" % v.name
    return repr_(I, v)


def repr_(I, v):
    t = type(v)
    if t in (str, int, float, bool, type(None)):
        return repr(v)
    if t is Fin:
        return I.world.fin_apply(lambda x: repr_(I, x), [v])
    if t is IntT:
        return str_(I, v)
    if t is Rec:
        return '%s.%s' % (v.rel.name, v.name)
    if t in (tuple, AList):
        items = [repr_(I, x) for x in (v if t is tuple else v.items)]
        w = I.world
        body = ', '.join(w.enc_of(x) for x in items)
        if t is tuple:
            return w.mkstr('(' + body + (',)' if len(items) == 1 else ')'))
        return w.mkstr('[' + body + ']')
    if t is ASet:
        w = I.world
        body = ', '.join(w.enc_of(repr_(I, x)) for x in set_order(I, v))
        if not v.d:
            body = 'frozenset()' if v.frozen else 'set()'
        else:
            body = 'frozenset({' + body + '})' if v.frozen else '{' + body + '}'
        return w.mkstr(body)
    if t is ADict:
        w = I.world
        return w.mkstr('{' + ', '.join(w.enc_of(repr_(I, k)) + ': ' + w.enc_of(repr_(I, x)) for k, x in v.d.values()) + '}')
    if t is AInst:
        m = v.cls.lookup('__repr__')
        if m is not MISSING:
            return I.call(I.bind_attr(m, v, v.cls), [], {})
        if PAYLOAD in v.attrs:
            return repr_(I, v.attrs[PAYLOAD])
    return opaque_text(I, 'repr', v)


def opaque_text(I, kind, v):
    name = '~%s(%s)' % (kind, I.world.show(v, 2))
    a = I.world.atom(name)
    I.world.nonempty.add(name)
    return AStr(I.world.atom_enc(a))


def format_(I, v, spec):
    if isinstance(v, AInst) and v.cls.lookup('__format__') is not MISSING:
        return dunder(I, v, '__format__', spec)
    if spec in ('', None):
        return str_(I, v)
    if isinstance(v, (int, float, str)) and isinstance(spec, str):
        try:
            return format(v, spec)
        except ValueError:
            raise I.exc('ValueError', 'format')
    if spec == 's' or (spec == 'd' and isinstance(v, IntT)):
        return str_(I, v)
    raise Unsupported('format spec')


def str_index(I, s, idx):
    w = I.world
    if isinstance(idx, IntT):
        idx = w.int_norm(idx)
    if isinstance(s, str) and isinstance(idx, int):
        if -len(s) <= idx < len(s):
            return s[idx]
        raise I.exc('IndexError', 'string index out of range')
    if isinstance(idx, Fin):
        w.concretize(idx)
    if not isinstance(idx, int):
        if isinstance(idx, (IntT, DivT, LenT)):
            raise Unsupported('symbolic string index')
        raise I.exc('TypeError', 'string indices must be integers')
    enc = s.enc
    n = idx if idx >= 0 else -idx - 1
    if n > 8:
        enc = w.resolve(enc)
        if all(w.is_char_piece(c) for c in enc):
            if -len(enc) <= idx < len(enc):
                return w.mkstr(enc[idx])
            raise I.exc('IndexError', 'string index out of range')
        raise Unsupported('deep string index')
    c = None
    for _ in range(n + 1):
        r = w.first_char(enc) if idx >= 0 else w.last_char(enc)
        if r is None:
            raise I.exc('IndexError', 'string index out of range')
        c, enc = r
    if isinstance(c, Atom):
        return AStr(w.atom_enc(c))
    return c


def str_slice(I, s, lo, hi, st):
    w = I.world
    enc = w.resolve(s.enc)
    if all(w.is_char_piece(c) for c in enc):
        return w.mkstr(enc[slice(lo, hi, st)])
    if all(is_tok(I, c) for c in enc) and any(is_pua(c) and getattr(w.piece_of(c), 'name', None) in w.measured for c in enc):
        w.measure(enc)
        return w.mkstr(enc[slice(lo, hi, st)])
    if st not in (None, 1):
        raise Unsupported('string stride')
    if any(x is not None and abs(x) > 8 for x in (lo, hi)):
        raise Unsupported('deep string slice')
    lo = lo or 0
    if lo >= 0 and hi is not None and hi >= 0:
        out = ''
        for i in range(hi):
            r = w.first_char(enc)
            if r is None:
                break
            c, enc = r
            if i >= lo:
                out += w.enc_of(c)
        return w.mkstr(out)
    if lo >= 0:
        for i in range(lo):
            r = w.first_char(enc)
            if r is None:
                return ''
            enc = r[1]
        if hi is not None:
            for i in range(-hi):
                r = w.last_char(enc)
                if r is None:
                    return ''
                enc = r[1]
        return w.mkstr(enc)
    # lo < 0
    if hi is None:
        out = ''
        for i in range(-lo):
            r = w.last_char(enc)
            if r is None:
                break
            c, enc = r
            out = w.enc_of(c) + out
        return w.mkstr(out)
    if hi < 0:
        for i in range(-hi):
            r = w.last_char(enc)
            if r is None:
                return ''
            enc = r[1]
        out = ''
        for i in range(hi - lo):
            r = w.last_char(enc)
            if r is None:
                break
            c, enc = r
            out = w.enc_of(c) + out
        return w.mkstr(out)
    raise Unsupported('string slice')


def str_contains(I, s, v):
    w = I.world
    if isinstance(v, Fin) and isinstance(s, str):
        return w.fin_apply(lambda x: str_contains(I, s, x), [v])
    if not is_strlike(v):
        raise I.exc('TypeError', "'in <string>' requires string as left operand")
    es, ev = w.resolve(w.enc_of(s)), w.resolve(w.enc_of(v))
    if ev == '' or ev in es:
        return True
    if not any(is_pua(c) for c in es + ev):
        return ev in es
    if not any(is_pua(c) for c in ev):
        if w.excludes(es, ev):
            return ev in es
        if len(ev) == 1:
            fins = []
            for c in es:
                if is_pua(c):
                    p = w.piece_of(c)
                    if isinstance(p, Fin):
                        fins.append(w.fin_apply(lambda x: ev in x, [p]))
                    elif isinstance(p, Atom):
                        if w.occurs(p, ev):
                            return True
                    else:
                        raise Unsupported('substring test')
            r = False
            for f in fins:
                r = f if r is False else w.fin_apply(lambda x, y: x or y, [r, f])
            return r
    elif len(ev) == 1 and isinstance(w.piece_of(ev), Fin) and not any(is_pua(c) for c in es):
        return w.fin_apply(lambda x: x in es, [w.piece_of(ev)])
    elif all(w.is_char_piece(c) for c in ev) and len(ev) == 1:
        for c in es:
            if not w.is_char_piece(c):
                raise Unsupported('substring test')
        return contains(I, tuple(w.mkstr(c) for c in es), w.mkstr(ev))
    if not any(is_pua(c) for c in es) and len(ev) == 1 and isinstance(w.piece_of(ev), Atom):
        # opaque text inside a constant: enumerate the substrings
        subs = set(es[i:j] for i in range(len(es)) for j in range(i + 1, len(es) + 1))
        if w.str_empty(ev):
            return True
        for sub in sorted(subs):
            if w.decide(w.eq_str(ev, sub)):
                return True
        return False
    raise Unsupported('substring test')


CASE_METHODS = ('upper', 'lower', 'casefold', 'title', 'capitalize', 'swapcase')
IS_METHODS = ('isupper', 'islower', 'isdigit', 'isalpha', 'isspace', 'isalnum', 'istitle', 'isdecimal', 'isnumeric', 'isidentifier', 'isprintable')
LIST_METHODS = ('split', 'rsplit', 'partition', 'rpartition', 'splitlines')


def to_host(I, v):
    if isinstance(v, (str, int, bool, float, type(None), bytes)):
        return v
    if isinstance(v, tuple):
        return tuple(to_host(I, x) for x in v)
    raise Unsupported('host conversion')


def from_host(v):
    if isinstance(v, list):
        return AList([from_host(x) for x in v])
    if isinstance(v, tuple):
        return tuple(from_host(x) for x in v)
    return v


def is_rigid(v):
    return isinstance(v, (str, int, bool, float, type(None), bytes)) or (isinstance(v, tuple) and all(is_rigid(x) for x in v))


def str_method(I, s, name, args, kw):
    w = I.world
    if name == 'join':
        items = I.iterate(args[0])
        encs = []
        for x in items:
            if not is_strlike(x):
                if isinstance(x, (int, type(None), AInst, tuple, AList, Rec, IntT)):
                    raise I.exc('TypeError', 'sequence item: expected str instance')
                raise Unsupported('join')
            encs.append(w.enc_of(x))
        return w.mkstr(w.enc_of(s).join(encs))
    if name == 'format':
        return str_format(I, s, args, kw)
    if name == '__len__':
        return b_len(I, [s], {})
    if name == '__contains__':
        return str_contains(I, s, args[0])
    if name == 'translate':
        table = args[0]
        if not isinstance(table, ADict) or table.symbolic or not all(isinstance(k, int) and (v is None or isinstance(v, (int, str))) for k, v in table.d.values()):
            raise Unsupported('str.translate')
        table = {k: v for k, v in table.d.values()}
        enc = w.enc_of(s)
        for k in sorted(table):
            enc = w.locate(enc, chr(k))
        out = []
        for ch in enc:
            if is_pua(ch) and isinstance(w.piece_of(ch), Fin):
                out.append(w.enc_of(w.fin_apply(lambda x: x.translate(table), [w.piece_of(ch)])))
            else:
                out.append(ch if is_pua(ch) else ch.translate(table))
        if not w.excludes(''.join(c for c in enc if is_pua(c) and not isinstance(w.piece_of(c), Fin)), frozenset(chr(k) for k in table)):
            raise Unsupported('str.translate of an opaque string')
        return w.mkstr(''.join(out))
    if isinstance(s, str) and all(is_rigid(a) for a in args) and all(is_rigid(a) for a in kw.values()):
        if name == 'encode':
            return ABytes(s)
        try:
            return from_host(_host_getattr(s, name)(*[to_host(I, a) for a in args], **{k: to_host(I, v) for k, v in kw.items()}))
        except TypeError:
            raise I.exc('TypeError', 'str.%s' % name)
        except ValueError:
            raise I.exc('ValueError', 'str.%s' % name)
        except LookupError:
            raise I.exc('LookupError', 'str.%s' % name)
    if name == 'count' and isinstance(s, str) and len(args) == 1 and isinstance(args[0], Fin):
        return w.fin_apply(lambda c: s.count(c), [args[0]])
    if (isinstance(s, Fin) or isinstance(s, str)) and all(is_rigid(a) or (isinstance(a, Fin)) for a in args) and not kw:
        if isinstance(s, Fin) and all(isinstance(x, str) for x in s.table.values()):
            if name in LIST_METHODS:
                w.concretize(s)
            if name in CASE_METHODS + IS_METHODS + ('strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'replace', 'find', 'count', 'index'):
                return w.fin_apply(lambda x, *a: str_method(I, x, name, list(a), kw), [s] + list(args))
        if isinstance(s, str) and name in ('startswith', 'endswith', 'count', 'find', 'replace', 'strip', 'lstrip', 'rstrip'):
            return w.fin_apply(lambda x, *a: str_method(I, x, name, list(a), kw), [s] + list(args))
    if isinstance(s, Fin):
        if not all(isinstance(x, str) for x in s.table.values()):
            w.concretize(s)
    enc = w.resolve(w.enc_of(s))
    if name == 'encode':
        return ABytes(enc)
    if name in ('upper', 'lower', 'casefold', 'swapcase'):
        return w.mkstr(''.join(case_piece(I, ch, name) for ch in enc))
    if name == 'capitalize':
        r = w.first_char(enc)
        if r is None:
            return ''
        c, rest = r
        return w.mkstr(w.enc_of(w.fin_apply(lambda x: x.capitalize(), [c])) + ''.join(case_piece(I, ch, 'lower') for ch in rest))
    if name == 'title':
        r = w.first_char(enc)
        if r is None:
            return ''
        c, rest = r
        return w.mkstr(w.enc_of(w.fin_apply(lambda x: x.title(), [c])) + ''.join(case_piece(I, ch, 'title-rest') for ch in rest))
    if name in ('strip', 'lstrip', 'rstrip'):
        chars = WS if not args or args[0] is None else frozenset(to_host(I, args[0]))
        return str_strip(I, enc, name, chars)
    if name in ('split', 'rsplit', 'partition', 'rpartition'):
        if not args and 'sep' not in kw:
            sep = None
            if not w.excludes(enc, WS):
                raise Unsupported('split of an opaque string')
        else:
            sep = args[0] if args else kw['sep']
        mx = to_host(I, args[1] if len(args) > 1 else kw.get('maxsplit', -1)) if name in ('split', 'rsplit') else -1
        if sep is not None:
            if not isinstance(sep, str):
                raise Unsupported('symbolic separator')
            if len(sep) == 1:
                enc = w.locate(enc, sep)
            if not w.excludes(enc, sep):
                raise Unsupported('split of an opaque string')
        fn = _host_getattr(enc, name)
        parts = fn(sep, mx) if name in ('split', 'rsplit') else fn(sep)
        parts = [w.mkstr(p) for p in parts]
        return AList(parts) if name in ('split', 'rsplit') else tuple(parts)
    if name == 'replace':
        return str_replace(I, enc, args)
    if name in ('startswith', 'endswith'):
        if isinstance(args[0], tuple):
            return any(I.world.decide(str_method(I, s, name, [a], {})) for a in args[0])
        if len(args) > 1:
            raise Unsupported('startswith range')
        return str_startswith(I, enc, w.resolve(w.enc_of(args[0])), name == 'startswith')
    if name == 'removeprefix' or name == 'removesuffix':
        pre = name == 'removeprefix'
        if w.decide(str_method(I, s, 'startswith' if pre else 'endswith', args, {})):
            n = len(w.resolve(w.enc_of(args[0])))
            return str_slice(I, AStr(enc), n, None, None) if pre else (str_slice(I, AStr(enc), None, -n, None) if n else s)
        return s
    if name in IS_METHODS:
        if len(enc) == 1 and is_pua(enc) and isinstance(w.piece_of(enc), Fin):
            return w.fin_apply(lambda x: _host_getattr(x, name)(), [w.piece_of(enc)])
        if enc == '':
            return False
        if name in ('isdigit', 'isalpha', 'isspace', 'isalnum', 'isdecimal') and all(w.is_char_piece(c) for c in enc):
            return all(w.decide(w.fin_apply(lambda x: _host_getattr(x, name)(), [w.char_value(c)])) for c in enc)
        return w.pred((name, w.struct_key(enc)))
    if name == 'count':
        c = args[0]
        if isinstance(c, str) and len(c) == 1:
            enc = w.locate(enc, c)
        if isinstance(c, str) and len(c) == 1 or isinstance(c, Fin):
            total = 0
            for ch in enc:
                v = w.char_value(ch) if w.is_char_piece(ch) else w.piece_of(ch)
                if isinstance(v, Atom):
                    vals = [c] if isinstance(c, str) else list(c.table.values())
                    if not all(x in v.forbids for x in vals):
                        raise Unsupported('count in an opaque string')
                    continue
                if isinstance(v, IntT):
                    raise Unsupported('count')
                total = binop(I, 'Add', total, w.fin_apply(lambda x, y: x.count(y), [v, c]))
            return total
    if name in ('find', 'index', 'rfind', 'rindex'):
        sub = args[0]
        if isinstance(sub, str) and len(sub) == 1:
            enc = w.locate(enc, sub)
        if isinstance(sub, str) and all(w.is_char_piece(c) or isinstance(w.piece_of(c), Atom) and w.piece_of(c).name.startswith('tok:') for c in enc) and w.excludes(enc, sub):
            w.measure(enc)
            r = _host_getattr(enc, 'find' if name.endswith('find') or name == 'index' else 'rfind')(sub, *[to_host(I, a) for a in args[1:]])
            if name.startswith('r'):
                r = enc.rfind(sub, *[to_host(I, a) for a in args[1:]])
            if r < 0 and name.endswith('index'):
                raise I.exc('ValueError', 'substring not found')
            return r
        raise Unsupported('position in an opaque string')
    raise Unsupported('str.%s on an opaque string' % name)


def case_piece(I, ch, name):
    if name != 'title-rest':
        return I.world.case_piece(ch, name)
    w = I.world
    if not is_pua(ch):
        return ch.lower()
    p = w.piece_of(ch)
    if isinstance(p, Fin):
        return w.enc_of(w.fin_apply(lambda x: x.lower(), [p]))
    if isinstance(p, IntT):
        return ch
    if isinstance(p, Atom):
        if w.atom_nonempty(p) is None:
            w.split_empty(p)
        elif not w.atom_nonempty(p):
            return ''
        a = w.atom('title-rest(%s)' % p.name, forbids=frozenset(c for c in p.forbids if not c.isalpha()), stripped=p.stripped)
        w.nonempty.add(a.name)
        return w.atom_enc(a)
    raise Unsupported('case of %s' % type(p).__name__)


def str_strip(I, enc, name, chars):
    w = I.world

    def left(enc):
        while enc:
            ch = enc[0]
            if not is_pua(ch):
                if ch in chars:
                    enc = enc[1:]
                    continue
                return enc
            p = w.piece_of(ch)
            if isinstance(p, Fin):
                flags = {k: (v[:1] in chars and v != '') for k, v in p.table.items()}
                if not any(flags.values()):
                    return enc
                w.concretize(p)
            if isinstance(p, IntT):
                return enc
            if isinstance(p, Atom):
                if chars <= p.forbids or (p.stripped and chars <= WS):
                    if w.atom_nonempty(p) or len(enc) == 1:
                        return enc
                    w.split_empty(p)
                if chars == WS and p.name.startswith('strip('):
                    return enc
                return None
        return enc

    def rev(e):
        return e[::-1]
    out = enc
    if name in ('strip', 'lstrip'):
        r = left(out)
        if r is None:
            return strip_atom(I, enc, name, chars)
        out = r
    if name in ('strip', 'rstrip'):
        r = left(rev(out))
        if r is None:
            return strip_atom(I, enc, name, chars)
        out = rev(r)
    return w.mkstr(out)


def strip_atom(I, enc, name, chars):
    w = I.world
    if len(enc) == 1 and name == 'strip' and chars == WS:
        p = w.piece_of(enc)
        a = w.atom('strip(%s)' % p.name, forbids=p.forbids, lower=p.lower, stripped=True)
        return AStr(w.atom_enc(a))
    raise Unsupported('strip of an opaque string')


def str_replace(I, enc, args):
    w = I.world
    old, new = w.resolve(w.enc_of(args[0])), w.resolve(w.enc_of(args[1]))
    count = to_host(I, args[2]) if len(args) > 2 else -1
    if not any(is_pua(c) for c in old):
        if old and w.excludes(enc, old):
            return w.mkstr(enc.replace(old, new, count))
        if old:
            return replace_literal(I, enc, old, new, count)
        raise Unsupported('replace in an opaque string')
    first, last = old[0], old[-1]
    if not is_pua(first) and not is_pua(last) and len(old) > 1 and first != last and w.excludes(enc, first + last) \
            and old.count(first) == 1 and old.count(last) == 1 and w.excludes(old, first + last):
        out, i = [], 0
        while i < len(enc):
            if enc[i] == first and count != 0:
                j = enc.find(last, i)
                if j > 0 and w.decide(w.eq_str(enc[i:j + 1], old)):
                    out.append(new)
                    i = j + 1
                    count -= 1
                    continue
            out.append(enc[i])
            i += 1
        return w.mkstr(''.join(out))
    raise Unsupported('replace of an opaque string')


class Expanded(Exception):
    pass


def replace_literal(I, enc, old, new, count):
    """occurrences of a literal text in a text with opaque pieces"""
    w = I.world
    if count == 0:
        return w.mkstr(enc)
    while True:
        enc = w.locate(enc, old[0])
        try:
            return replace_located(I, enc, old, new, count)
        except Expanded:
            continue


def replace_located(I, enc, old, new, count):
    w = I.world

    def without(ch, c):
        p = w.piece_of(ch)
        if isinstance(p, Atom):
            return c in p.forbids or (p.alphabet and c not in p.alphabet) or (p.lower and c.lower() != c)
        return isinstance(p, IntT) and c not in '-0123456789'

    def match(i):
        j = i
        for c in old:
            while j < len(enc) and not w.is_char_piece(enc[j]):
                p = w.piece_of(enc[j])
                if isinstance(p, Fin):
                    w.concretize(p)
                if not without(enc[j], c) and not (j == i and isinstance(p, Atom)):
                    if not isinstance(p, Atom) or '(' in p.name or p.name.count('.rest') > 8:
                        raise Unsupported('replace in an opaque string')
                    if not w.str_empty(enc[j]):
                        w.expand_first(p)
                    raise Expanded()
                if j == i or not w.str_empty(enc[j]):
                    return None
                j += 1
            if j == len(enc):
                return None
            if not w.decide(w.fin_apply(lambda x, y: x == y, [w.char_value(enc[j]), c])):
                return None
            j += 1
        return j
    out, i = [], 0
    while i < len(enc):
        j = match(i) if count != 0 else None
        if j is None:
            out.append(enc[i])
            i += 1
        else:
            out.append(new)
            i = j
            count -= 1
    return w.mkstr(''.join(out))


def str_startswith(I, enc, prefix, front):
    w = I.world
    if not front:
        enc, prefix = enc[::-1], prefix[::-1]
    # work on prefixes; for suffixes on the mirrored sequence of pieces
    while prefix:
        if enc and enc[0] == prefix[0]:
            enc, prefix = enc[1:], prefix[1:]
            continue
        if not w.is_char_piece(prefix[0]):
            p = w.piece_of(prefix[0])
            if isinstance(p, Fin):
                w.concretize(p)
            if w.str_empty(prefix[0]):
                prefix = w.resolve(prefix)
                continue
            if not enc:
                return False
            raise Unsupported('startswith an opaque string')
        if front:
            r = w.first_char(enc)
        else:
            r = w.last_char(enc[::-1])
        if r is None:
            return False
        c, rest = r
        if not front:
            rest = rest[::-1]
        e = w.fin_apply(lambda x, y: x == y, [c, w.char_value(prefix[0])])
        if len(prefix) == 1:
            return e
        if not w.decide(e):
            return False
        enc, prefix = rest, prefix[1:]
    return True


def str_format(I, s, args, kw):
    w = I.world
    enc = w.resolve(w.enc_of(s))
    if not w.excludes(enc, '{}'):
        raise Unsupported('format of an opaque string')
    out, i, n = [], 0, 0
    while i < len(enc):
        ch = enc[i]
        if ch == '{':
            if enc[i + 1:i + 2] == '{':
                out.append('{')
                i += 2
                continue
            j = enc.find('}', i)
            if j < 0:
                raise I.exc('ValueError', "expected '}'")
            field = enc[i + 1:j]
            i = j + 1
            name, spec, conv = field, '', None
            if ':' in name:
                name, spec = name.split(':', 1)
            if '!' in name:
                name, conv = name.split('!', 1)
            if name == '':
                key = n
                n += 1
            elif name.isdigit():
                key = int(name)
            else:
                key = name
            if isinstance(key, int):
                if key >= len(args):
                    raise I.exc('IndexError', 'Replacement index out of range')
                v = args[key]
            else:
                head = host_re.match(r'[^.\[]*', key).group(0)
                if head == '':
                    v, n = n, n + 1
                else:
                    v = int(head) if head.isdigit() else head
                if isinstance(v, int):
                    if v >= len(args):
                        raise I.exc('IndexError', 'Replacement index out of range')
                    v = args[v]
                else:
                    if v not in kw:
                        raise I.exc('KeyError', v)
                    v = kw[v]
                rest = key[len(head):]
                for m in host_re.finditer(r'\.([^.\[]+)|\[([^\]]+)\]', rest):
                    if m.group(1) is not None:
                        v = I.getattr(v, m.group(1))
                    else:
                        v = getitem(I, v, int(m.group(2)) if m.group(2).isdigit() else m.group(2))
            if conv == 'r':
                v = repr_(I, v)
            elif conv == 's':
                v = str_(I, v)
            elif conv is not None:
                raise Unsupported('format conversion')
            if '{' in spec:
                raise Unsupported('nested format')
            out.append(w.enc_of(format_(I, v, spec)))
            continue
        if ch == '}':
            if enc[i + 1:i + 2] == '}':
                out.append('}')
                i += 2
                continue
            raise I.exc('ValueError', "Single '}'")
        out.append(ch)
        i += 1
    return w.mkstr(''.join(out))


# ---------------------------------------------------------------------------
# methods of builtin types

def check_method(I, obj, name):
    """AttributeError when the builtin type has no such attribute."""
    t = type(obj)
    if t in (OrdT, Opq, HashT, ABytes, LazyDict):
        if t in (ABytes,) and hasattr(bytes, name):
            return
        if t is LazyDict and hasattr(dict, name):
            return
        if t is OrdT and obj.kind == 'int' and not hasattr(int, name):
            raise I.exc('AttributeError', name)
        raise Unsupported('attribute %s of an opaque value' % name)
    host = None
    if t in (str, AStr):
        host = str
    elif t in (int, bool, IntT, DivT, LenT):
        host = int
    elif t is float:
        host = float
    elif obj is None:
        host = type(None)
    elif t is tuple:
        host = tuple
    elif t is AList or t is LazyMap:
        host = list
    elif t is ADict:
        host = dict
    elif t is ASet or t is SetT:
        host = frozenset if (t is SetT or obj.frozen) else set
    elif t is ARange:
        host = range
    elif t is AGen:
        host = type((i for i in ()))
    if host is None:
        raise Unsupported('attribute %s of %s' % (name, t.__name__))
    if host is list and name in ('appendleft', 'popleft', 'extendleft', 'rotate') or host is dict and name == 'move_to_end':
        return
    if not hasattr(host, name):
        raise I.exc('AttributeError', '%r object has no attribute %r' % (host.__name__, name))


SPECIAL = {
    '__getitem__': lambda I, o, a: getitem(I, o, a[0]), '__setitem__': lambda I, o, a: setitem(I, o, a[0], a[1]),
    '__delitem__': lambda I, o, a: delitem(I, o, a[0]), '__contains__': lambda I, o, a: contains(I, o, a[0]),
    '__len__': lambda I, o, a: b_len(I, [o], {}), '__iter__': lambda I, o, a: b_iter(I, [o], {}),
    '__eq__': lambda I, o, a: compare(I, 'Eq', o, a[0]), '__ne__': lambda I, o, a: compare(I, 'NotEq', o, a[0]),
    '__lt__': lambda I, o, a: compare(I, 'Lt', o, a[0]), '__le__': lambda I, o, a: compare(I, 'LtE', o, a[0]),
    '__gt__': lambda I, o, a: compare(I, 'Gt', o, a[0]), '__ge__': lambda I, o, a: compare(I, 'GtE', o, a[0]),
    '__hash__': lambda I, o, a: hash_of(I, o), '__bool__': lambda I, o, a: truth(I, o), '__str__': lambda I, o, a: str_(I, o),
    '__repr__': lambda I, o, a: repr_(I, o), '__format__': lambda I, o, a: format_(I, o, a[0]),
    '__reversed__': lambda I, o, a: b_reversed(I, [o], {}),
}
for _op, _stem in OPERATOR_METHODS.items():
    SPECIAL['__%s__' % _stem] = lambda I, o, a, op=_op: binop(I, op, o, a[0])
    SPECIAL['__r%s__' % _stem] = lambda I, o, a, op=_op: binop(I, op, a[0], o)


_FITS = {}


def fits(host, number, names):
    """does the host's own function accept so many arguments?"""
    key = (id(host), number, names)
    if key not in _FITS:
        try:
            inspect.signature(host).bind(*[None] * number, **dict.fromkeys(names))
            _FITS[key] = True
        except ValueError:
            _FITS[key] = True           # no signature known
        except TypeError:
            _FITS[key] = False
    return _FITS[key]


def call_builtin(I, fn, args, kw):
    host = getattr(builtins, fn.name, None)
    if host is not None and not fits(host, len(args), tuple(sorted(kw))):
        raise I.exc('TypeError', '%s() does not take these arguments' % fn.name)
    return fn.fn(I, args, kw)


METHOD_HOSTS = {str: str, AStr: str, int: int, IntT: int, float: float, tuple: tuple, AList: list, ADict: dict, ASet: set, SetT: set}


def call_method(I, obj, name, args, kw):
    t = type(obj)
    w = I.world
    host = getattr(METHOD_HOSTS.get(t), name, None)
    if host is not None and name != 'popitem' and callable(host) and not fits(host, len(args) + (name not in ('fromkeys', 'maketrans', 'from_bytes')), tuple(sorted(kw))):
        raise I.exc('TypeError', '%s() does not take these arguments' % name)
    if name in SPECIAL and t is not AGen and not (t is AInst or t is Fin):
        return SPECIAL[name](I, obj, args)
    if t in (str, AStr):
        return str_method(I, obj, name, args, kw)
    if t is Fin:
        vals = obj.values()
        if all(isinstance(x, str) for x in vals):
            return str_method(I, obj, name, args, kw)
        return w.fin_apply(lambda o, *a: call_method(I, o, name, list(a), kw), [obj] + list(args))
    if t is AList:
        return list_method(I, obj, name, args, kw)
    if t is LazyMap:
        if name == '__len__':
            return len(obj.rng)
        raise Unsupported('%s of a lazy list' % name)
    if t is tuple:
        if name == 'index':
            for i, x in enumerate(obj):
                if w.decide(truthy_eq(I, x, args[0])):
                    return i
            raise I.exc('ValueError', 'not in tuple')
        if name == 'count':
            return sum(1 for x in obj if w.decide(truthy_eq(I, x, args[0])))
        if name == '__len__':
            return len(obj)
        if name == '__contains__':
            return contains(I, obj, args[0])
    if t is ADict:
        return dict_method(I, obj, name, args, kw)
    if t is LazyDict:
        if name == 'get':
            if w.decide(contains(I, obj.rng, args[0])):
                return obj.fn(args[0])
            return args[1] if len(args) > 1 else None
        raise Unsupported('%s of a lazy dict' % name)
    if t in (ASet, SetT):
        return set_method(I, obj, name, args, kw)
    if t in (ARegex, AMatch):
        return regex_method(I, obj, name, args, kw)
    if t is AGen:
        if name == '__next__':
            return b_next(I, [obj], {})
        if name == '__iter__':
            return obj
        if name == 'send':
            try:
                return obj.advance(args[0])
            except StopIteration:
                raise I.exc('StopIteration', *([] if obj.ret is None else [obj.ret]))
        if name == 'close':
            if obj.it is not None and hasattr(obj.it, 'gi_frame'):
                I.closing = True
                try:
                    obj.it.close()
                finally:
                    I.closing = False
            obj.touch()
            obj.closed = True
            return None
        if name == 'throw':
            v = args[0] if len(args) == 1 else (args[1] if args[1] is not None else args[0])
            if isinstance(v, AClass):
                v = I.call(v, [], {})
            try:
                return obj.throw(PyExc(v))
            except StopIteration:
                raise I.exc('StopIteration', *([] if obj.ret is None else [obj.ret]))
        raise Unsupported('generator.%s' % name)
    if t is ABytes and name == 'decode':
        return w.mkstr(obj.enc)
    if t in (int, IntT) and name in ('bit_length', 'conjugate'):
        if isinstance(obj, int):
            return _host_getattr(obj, name)()
    raise Unsupported('method %s of %s' % (name, t.__name__))


def list_method(I, obj, name, args, kw):
    w = I.world
    if name == 'append':
        obj.touch()
        obj.items.append(args[0])
        return None
    if name == 'extend':
        items = I.iterate(args[0])
        obj.touch()
        obj.items.extend(items)
        return None
    if name == 'insert':
        i = to_host(I, args[0])
        obj.touch()
        obj.items.insert(i, args[1])
        return None
    if name == 'pop':
        i = to_host(I, args[0]) if args else -1
        if not -len(obj.items) <= i < len(obj.items):
            raise I.exc('IndexError', 'pop')
        obj.touch()
        return obj.items.pop(i)
    if name in ('index', 'remove'):
        for i, x in enumerate(obj.items):
            if w.decide(truthy_eq(I, x, args[0])):
                if name == 'index':
                    return i
                obj.touch()
                del obj.items[i]
                return None
        raise I.exc('ValueError', 'not in list')
    if name == 'count':
        return sum(1 for x in obj.items if w.decide(truthy_eq(I, x, args[0])))
    if name == 'copy':
        return AList(list(obj.items))
    if name == 'clear':
        obj.touch()
        obj.items = []
        return None
    if name == 'reverse':
        obj.touch()
        obj.items = obj.items[::-1]
        return None
    if name == 'sort':
        items = sort_(I, obj.items, kw.get('key'), kw.get('reverse', False))
        obj.touch()
        obj.items = items
        return None
    if name == 'appendleft':
        obj.touch()
        obj.items.insert(0, args[0])
        return None
    if name == 'popleft':
        return list_method(I, obj, 'pop', [0], {})
    if name == 'extendleft':
        for x in I.iterate(args[0]):
            list_method(I, obj, 'insert', [0, x], {})
        return None
    if name == 'rotate':
        n = to_host(I, args[0]) if args else 1
        obj.touch()
        if obj.items:
            n %= len(obj.items)
            obj.items = obj.items[len(obj.items) - n:] + obj.items[:len(obj.items) - n]
        return None
    raise Unsupported('list.%s' % name)


def sort_(I, items, key, reverse):
    keys = [x if key is None else I.call(key, [x], {}) for x in items]
    if truth(I, reverse):
        items, keys = list(items)[::-1], keys[::-1]
    out = []
    for k, x in zip(keys, items):
        i = len(out)
        while i > 0 and I.world.decide(less(I, k, out[i - 1][0])):
            i -= 1
        out.insert(i, (k, x))
    r = [x for _, x in out]
    return r[::-1] if truth(I, reverse) else r


def dict_method(I, obj, name, args, kw):
    if name == 'get':
        return dict_get(I, obj, args[0], args[1] if len(args) > 1 else kw.get('default', None))
    if name == 'items':
        return AList([(k, v) for k, v in obj.d.values()], obj)
    if name == 'keys':
        s = ASet(src=obj)
        s.d = {h: e[0] for h, e in obj.d.items()}
        s.symbolic = obj.symbolic
        return s
    if name == 'values':
        return AList([v for k, v in obj.d.values()], obj)
    if name == 'setdefault':
        h = dict_find(I, obj, args[0])
        if h is not None:
            return obj.d[h][1]
        v = args[1] if len(args) > 1 else None
        dict_set(I, obj, args[0], v)
        return v
    if name == 'pop':
        k = args[0]
        if isinstance(k, Fin):
            I.world.concretize(k)
        h = dict_find(I, obj, k)
        if h is None:
            if len(args) > 1:
                return args[1]
            raise I.exc('KeyError', k)
        v = obj.d[h][1]
        delitem(I, obj, k)
        return v
    if name == 'update':
        dict_update(I, obj, args[0] if args else None, kw)
        return None
    if name == 'copy':
        d = ADict()
        d.d, d.symbolic, d.factory = dict(obj.d), obj.symbolic, obj.factory
        return d
    if name == 'clear':
        obj.touch()
        obj.d, obj.symbolic = {}, 0
        if obj.owner is not None:
            obj.owner.touch()
            obj.owner.attrs.clear()
        return None
    if name == '__len__':
        return len(obj.d)
    if name == 'popitem':
        if args or kw:
            last = truth(I, args[0] if args else kw['last'])
        else:
            last = True
        if not obj.d:
            raise I.exc('KeyError', 'popitem')
        k, v = list(obj.d.values())[-1 if last else 0]
        delitem(I, obj, k)
        return (k, v)
    if name == 'move_to_end':
        k = args[0]
        last = truth(I, args[1] if len(args) > 1 else kw.get('last', True))
        h = dict_find(I, obj, k)
        if h is None:
            raise I.exc('KeyError', k)
        obj.touch()
        e = obj.d.pop(h)
        obj.d = dict(list(obj.d.items()) + [(h, e)] if last else [(h, e)] + list(obj.d.items()))
        return None
    if name == 'fromkeys':
        raise Unsupported('fromkeys')
    raise Unsupported('dict.%s' % name)


def dict_update(I, d, src, kw):
    if src is not None:
        if isinstance(src, ADict):
            for k, v in list(src.d.values()):
                dict_set(I, d, k, v)
        elif isinstance(src, AInst) and PAYLOAD in src.attrs and isinstance(src.attrs[PAYLOAD], ADict):
            dict_update(I, d, src.attrs[PAYLOAD], {})
        elif isinstance(src, AInst) and src.cls.lookup('keys') is not MISSING:
            for k in I.iterate(I.call(I.getattr(src, 'keys'), [], {})):
                dict_set(I, d, k, getitem(I, src, k))
        elif isinstance(src, (Fin, LazyDict)) or (isinstance(src, AInst) and src.partial):
            raise Unsupported('update from an opaque mapping')
        else:
            for pair in I.iterate(src):
                k, v = I.iterate(pair)
                dict_set(I, d, k, v)
    for k, v in kw.items():
        dict_set(I, d, k, v)


def set_method(I, obj, name, args, kw):
    w = I.world

    def as_set(v):
        if isinstance(v, (ASet, SetT)):
            return v
        return new_set(I, [v], {})
    if name == 'issubset':
        return subset(I, obj, as_set(args[0]) if isinstance(obj, SetT) or not isinstance(args[0], Fin) else args[0])
    if name == 'issuperset':
        return subset(I, as_set(args[0]), obj)
    if name == 'isdisjoint':
        return not truth(I, set_binop(I, 'BitAnd', obj, as_set(args[0])))
    if name in ('intersection', 'union', 'difference', 'symmetric_difference'):
        op = {'intersection': 'BitAnd', 'union': 'BitOr', 'difference': 'Sub', 'symmetric_difference': 'BitXor'}[name]
        r = obj
        for a in args:
            r = set_binop(I, op, r, as_set(a))
        return r
    if name == 'copy':
        if isinstance(obj, SetT):
            return obj
        return new_set(I, [obj], {})
    if name == '__contains__':
        return contains(I, obj, args[0])
    if isinstance(obj, ASet) and not obj.frozen:
        if name == 'add':
            set_add(I, obj, args[0])
            return None
        if name == 'update':
            for a in args:
                for x in I.iterate(a):
                    set_add(I, obj, x)
            return None
        if name in ('remove', 'discard'):
            h = find_key(I, SetView(obj), obj.symbolic, args[0])
            if h is None:
                if name == 'remove':
                    raise I.exc('KeyError', args[0])
                return None
            obj.touch()
            del obj.d[h]
            return None
        if name == 'clear':
            obj.touch()
            obj.d, obj.symbolic = {}, 0
            return None
        if name == 'pop':
            items = set_order(I, obj)
            if not items:
                raise I.exc('KeyError', 'pop')
            set_method(I, obj, 'remove', [items[0]], {})
            return items[0]
    raise Unsupported('set.%s' % name)


# ---------------------------------------------------------------------------
# constructors

def new_object(I, args, kw):
    return AInst(I.builtins['object'])


def new_int(I, args, kw):
    if not args:
        return 0
    v = args[0]
    w = I.world
    if isinstance(v, (int, IntT)) and not isinstance(v, bool):
        return v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Fin):
        return w.fin_apply(lambda x: new_int(I, [x], kw), [v])
    if len(args) > 1 or kw:
        if not isinstance(v, str):
            raise Unsupported('int() with a base')
        try:
            return int(v, args[1] if len(args) > 1 else kw['base'])
        except ValueError:
            raise I.exc('ValueError', 'invalid literal for int()')
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise I.exc('ValueError', 'invalid literal for int()')
    if isinstance(v, float):
        return int(v)
    if isinstance(v, AStr):
        enc = w.resolve(v.enc)
        if len(enc) == 1 and isinstance(w.piece_of(enc), IntT):
            return w.piece_of(enc)
        raise Unsupported('int() of an opaque string')
    if v is None or isinstance(v, (AList, ADict, tuple, Rec)):
        raise I.exc('TypeError', 'int() argument')
    if isinstance(v, OrdT) and v.kind == 'float' and v.name.startswith('random#') and '*' in v.name:
        return w.symbol('choice#%s' % v.name, list(range(int(v.name.split('*')[1]))))
    raise Unsupported('int()')


def new_float(I, args, kw):
    if not args:
        return 0.0
    if isinstance(args[0], (int, float)):
        return float(args[0])
    if isinstance(args[0], str):
        try:
            return float(args[0])
        except ValueError:
            raise I.exc('ValueError', 'could not convert string to float')
    raise Unsupported('float()')


def new_bool(I, args, kw):
    if not args:
        return False
    if isinstance(args[0], Fin):
        return I.world.fin_apply(lambda x: truth(I, x), [args[0]])
    return truth(I, args[0])


def new_str(I, args, kw):
    if not args:
        return ''
    if len(args) > 1 and isinstance(args[0], ABytes):
        return I.world.mkstr(args[0].enc)
    return str_(I, args[0])


def new_list(I, args, kw):
    if not args:
        return AList([])
    if isinstance(args[0], LazyMap):
        return args[0].take('list')
    return AList(I.iterate(args[0]))


def new_tuple(I, args, kw):
    if not args:
        return ()
    if isinstance(args[0], LazyMap):
        return args[0].take('tuple')
    if isinstance(args[0], Fin) and all(isinstance(x, tuple) for x in args[0].table.values()):
        return args[0]
    return tuple(I.iterate(args[0]))


def new_dict(I, args, kw):
    if args and not kw and isinstance(args[0], LazyMap) and args[0].keyed:
        source = args[0].take('tuple')
        return LazyDict(source.rng, lambda i: source.fn(i)[1])
    d = ADict()
    dict_update(I, d, args[0] if args else None, kw)
    return d


def new_set(I, args, kw):
    if args and isinstance(args[0], SetT):
        return args[0]
    s = ASet()
    if args:
        src = args[0]
        items = list(src.d.values()) if isinstance(src, ASet) else I.iterate(src)
        for x in items:
            set_add(I, s, x)
    return s


def new_frozenset(I, args, kw):
    if args and isinstance(args[0], SetT):
        return args[0]
    if args and isinstance(args[0], ASet) and args[0].frozen:
        return args[0]
    if args and isinstance(args[0], Fin) and all(isinstance(x, ASet) and x.frozen for x in args[0].values()):
        return args[0]
    s = new_set(I, args, kw)
    s.frozen = True
    return s


def new_range(I, args, kw):
    a = []
    for x in args:
        if isinstance(x, IntT):
            x = I.world.int_norm(x)
        if isinstance(x, Fin):
            I.world.concretize(x)
        if isinstance(x, bool) or not isinstance(x, int):
            if isinstance(x, (IntT, LenT, OrdT)):
                raise Unsupported('symbolic range')
            if not isinstance(x, bool):
                raise I.exc('TypeError', 'range() argument must be an integer')
        a.append(x)
    r = range(*a)
    return ARange(r.start, r.stop, r.step)


def new_slice(I, args, kw):
    if kw or not 1 <= len(args) <= 3:
        raise I.exc('TypeError', 'slice expects from 1 to 3 arguments')
    return ASlice(*([None, args[0], None] if len(args) == 1 else list(args) + [None])[:3])


def new_property(I, args, kw):
    a = list(args) + [None] * 4
    return AProperty(kw.get('fget', a[0]), kw.get('fset', a[1]), kw.get('fdel', a[2]))


def new_classmethod(I, args, kw):
    return AClassMethod(args[0])


def new_staticmethod(I, args, kw):
    return AStaticMethod(args[0])


def new_super(I, args, kw):
    return ASuper(args[0], args[1])


def new_type(I, args, kw):
    if len(args) == 1:
        if isinstance(args[0], Fin):
            return I.world.fin_apply(lambda x: type_of(I, x), [args[0]])
        return type_of(I, args[0])
    if len(args) == 3:
        env = {k: v for k, v in args[2].d.values()}
        return AClass(args[0], list(args[1]) or [I.builtins['object']], env)
    raise Unsupported('type()')


def new_bytes(I, args, kw):
    raise Unsupported('bytes()')


# ---------------------------------------------------------------------------
# builtin functions

def b_len(I, args, kw):
    v = args[0]
    w = I.world
    t = type(v)
    if t is Fin:
        return w.fin_apply(lambda x: b_len(I, [x], {}), [v])
    if t in (str, tuple, bytes):
        return len(v)
    if t is AList:
        return len(v.items)
    if t in (ADict, ASet):
        return len(v.d)
    if t is ARange:
        return len(v)
    if t is LazyMap and v.kind != 'gen':
        return len(v.rng)
    if t is LazyDict:
        return len(v.rng)
    if t is AStr:
        enc = w.resolve(v.enc)
        n, total = 0, 0
        for c in enc:
            if not is_pua(c):
                n += 1
                continue
            p = w.piece_of(c)
            if isinstance(p, Fin):
                total = binop(I, 'Add', total, w.fin_apply(lambda x: len(x), [p]))
            elif isinstance(p, Atom) and p.name.startswith('tok:'):
                w.measure(c)
                n += 1
            else:
                return LenT(enc)
        return binop(I, 'Add', total, n)
    if t is SetT:
        if v.expr == ('empty',):
            return 0
        if w.set_is_empty_known(v.expr):
            return 0
        lb = 1 if w.preds.get(('empty', v.expr)) is False else 0
        return OrdT('len(%s)' % set_name(v.expr), 'int', lb)
    if t is AInst:
        m = v.cls.lookup('__len__')
        if m is not MISSING:
            return I.call(I.bind_attr(m, v, v.cls), [], {})
        if PAYLOAD in v.attrs:
            return b_len(I, [v.attrs[PAYLOAD]], {})
        if v.partial:
            raise Unsupported('len of a partial object')
        raise I.exc('TypeError', 'object has no len()')
    if t is OrdT and v.kind == 'list':
        raise Unsupported('len of an opaque list')
    if t is AClass and '<enum members>' in v.env:
        return len({id(x) for _, x in v.env['<enum members>'].d.values()})
    if t is RelClass or t is AClass or v is None or t in (int, bool, AGen, Rec, AFunc):
        raise I.exc('TypeError', 'object has no len()')
    raise Unsupported('len of %s' % t.__name__)


def set_name(e):
    if e[0] == 'v':
        return e[1]
    return '%s(%s)' % (e[0], ','.join(set_name(x) for x in e[1:]))


def b_isinstance(I, args, kw):
    return isinstance_(I, args[0], args[1])


def b_issubclass(I, args, kw):
    if isinstance(args[1], tuple):
        return any(args[0].subclass_of(c) for c in args[1])
    if not isinstance(args[0], AClass):
        raise I.exc('TypeError', 'issubclass() arg 1 must be a class')
    return args[0].subclass_of(args[1])


def b_hasattr(I, args, kw):
    obj, name = args
    if isinstance(obj, Fin):
        return I.world.fin_apply(lambda x: b_hasattr(I, [x, name], {}), [obj])
    try:
        I.getattr(obj, name)
    except PyExc as e:
        if e.value.cls.subclass_of(I.builtins['AttributeError']):
            return False
        raise
    return True


def b_getattr(I, args, kw):
    name = args[1]
    if isinstance(name, Fin):
        I.world.concretize(name)
    if not isinstance(name, str):
        raise Unsupported('symbolic attribute name')
    if len(args) > 2:
        obj = args[0]
        try:
            return I.getattr(obj, name)
        except PyExc as e:
            if e.value.cls.subclass_of(I.builtins['AttributeError']):
                return args[2]
            raise
    return I.getattr(args[0], name)


def b_setattr(I, args, kw):
    if not isinstance(args[1], str):
        raise Unsupported('symbolic attribute name')
    I.setattr(args[0], args[1], args[2])


def b_delattr(I, args, kw):
    if isinstance(args[1], AInst) and not args[1].partial and PAYLOAD not in args[1].attrs:
        raise I.exc('TypeError', 'attribute name must be string')
    I.delattr(args[0], args[1])


def b_abs(I, args, kw):
    v = args[0]
    w = I.world
    if isinstance(v, IntT):
        v = w.int_norm(v)
        if isinstance(v, IntT):
            if w.decide(less(I, v, 0)):
                return w.int_norm(IntT(v.sym, -v.sgn, -v.off))
            return v
    if isinstance(v, Fin):
        return w.fin_apply(abs, [v])
    if isinstance(v, (int, float)):
        return abs(v)
    raise I.exc('TypeError', 'bad operand type for abs()')


def b_sum(I, args, kw):
    total = args[1] if len(args) > 1 else kw.get('start', 0)
    for x in I.iterator(args[0]):
        total = binop(I, 'Add', total, x)
    return total


def minmax(I, args, kw, sign):
    items = I.iterate(args[0]) if len(args) == 1 else list(args)
    if not items:
        if 'default' in kw:
            return kw['default']
        raise I.exc('ValueError', 'empty sequence')
    key = kw.get('key')
    keys = [x if key is None else I.call(key, [x], {}) for x in items]
    if all(isinstance(k, (int, float, Fin)) for k in keys) and all(keys[i] is items[i] for i in range(len(items))):
        fn = max if sign > 0 else min
        if all(isinstance(x, (int, float)) for k in keys if isinstance(k, Fin) for x in k.table.values()):
            r = keys[0]
            for k in keys[1:]:
                r = I.world.fin_apply(lambda x, y: fn(x, y), [r, k])
            return r
    best = 0
    for i in range(1, len(items)):
        better = less(I, keys[best], keys[i]) if sign > 0 else less(I, keys[i], keys[best])
        if I.world.decide(better):
            best = i
    return items[best]


def b_max(I, args, kw):
    return minmax(I, args, kw, 1)


def b_min(I, args, kw):
    return minmax(I, args, kw, -1)


def b_any(I, args, kw):
    for x in I.iterator(args[0]):
        if truth(I, x):
            return True
    return False


def b_all(I, args, kw):
    for x in I.iterator(args[0]):
        if not truth(I, x):
            return False
    return True


def b_sorted(I, args, kw):
    items = list(args[0].d.values()) if isinstance(args[0], ASet) else I.iterate(args[0])
    return AList(sort_(I, items, kw.get('key'), kw.get('reverse', False)))


def lazily(*sources):
    """the elements of big ranges (or of sequences over them) of one length as
    functions of the number, or None"""
    if not sources or not all(isinstance(v, LazyMap) or (isinstance(v, ARange) and len(v) > BIG_RANGE) for v in sources):
        return None
    rngs = [v.rng if isinstance(v, LazyMap) else v for v in sources]
    if any((r.start, r.stop, r.step) != (rngs[0].start, rngs[0].stop, rngs[0].step) for r in rngs):
        return None
    for v in sources:
        if isinstance(v, LazyMap) and v.kind == 'gen':
            v.take('tuple')
    return rngs[0], [(lambda i: i) if isinstance(v, ARange) else v.fn for v in sources], isinstance(sources[0], ARange)


def b_enumerate(I, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    source = args[0] if args else kw['iterable']
    if isinstance(source, (ARange, LazyMap)):
        rng = source.rng if isinstance(source, LazyMap) else source
        lazy = lazily(source) if isinstance(start, int) and rng.step == 1 else None
        if lazy:
            shift = start - rng.start
            return LazyMap(ARange(start, rng.stop + shift, 1), lambda i: (i, lazy[1][0](binop(I, 'Sub', i, shift))), 'gen', keyed=True)
    src = I.iterator(args[0] if args else kw['iterable'])

    def thunk():
        n = start
        for x in src:
            yield (n, x)
            n = binop(I, 'Add', n, 1)
    return AGen(thunk)


def columns(I, args, strict=False):
    """the tuples of zip(*args)"""
    its = [I.iterator(a) for a in args]
    while its:
        row = []
        for it in its:
            try:
                row.append(next(it))
            except StopIteration:
                if strict:
                    if row:
                        raise I.exc('ValueError', 'zip() argument is shorter')
                    for other in its[1:]:
                        for _ in other:
                            raise I.exc('ValueError', 'zip() argument is longer')
                return
        yield tuple(row)


def b_zip(I, args, kw):
    strict = bool(kw.get('strict', False))
    lazy = lazily(*args)
    if lazy:
        return LazyMap(lazy[0], lambda i: tuple(f(i) for f in lazy[1]), 'gen', keyed=lazy[2] and len(args) == 2)
    return AGen(lambda: columns(I, args, strict))


def b_map(I, args, kw):
    lazy = lazily(*args[1:])
    if lazy:
        return LazyMap(lazy[0], lambda i: I.call(args[0], [f(i) for f in lazy[1]], {}), 'gen')
    if len(args) == 2:
        src = I.iterator(args[1])
        return AGen(lambda: (I.call(args[0], [x], {}) for x in src))
    return AGen(lambda: (I.call(args[0], list(t), {}) for t in columns(I, args[1:])))


def b_filter(I, args, kw):
    src = I.iterator(args[1])
    return AGen(lambda: (x for x in src if truth(I, x if args[0] is None else I.call(args[0], [x], {}))))


def b_reversed(I, args, kw):
    v = args[0]
    if isinstance(v, (AList, tuple, ARange, str, ADict)):
        return AGen(lambda: I.iterate(v)[::-1])
    if isinstance(v, AInst):
        m = v.cls.lookup('__reversed__')
        if m is not MISSING:
            return I.call(I.bind_attr(m, v, v.cls), [], {})
    if isinstance(v, ASet) and v.src is not None:
        return AGen(lambda: I.iterate(v)[::-1])
    if isinstance(v, (AGen, ASet)):
        raise I.exc('TypeError', 'object is not reversible')
    raise Unsupported('reversed')


def b_iter(I, args, kw):
    v = args[0]
    if isinstance(v, AGen):
        return v
    if len(args) > 1:
        def until():
            while True:
                x = I.call(v, [], {})
                if I.world.decide(truthy_eq(I, x, args[1])):
                    return
                yield x
        return AGen(until)
    if isinstance(v, AInst):
        m = v.cls.lookup('__iter__')
        if m is not MISSING:
            return I.call(I.bind_attr(m, v, v.cls), [], {})
        if v.partial and PAYLOAD not in v.attrs:
            raise Unsupported('iteration over a partial object')
    if v is None or isinstance(v, (int, float, AFunc, IntT)):
        raise I.exc('TypeError', 'object is not iterable')
    return AGen(lambda: I.iterator(v))


def b_next(I, args, kw):
    v = args[0]
    if isinstance(v, AInst):
        m = v.cls.lookup('__next__')
        if m is not MISSING:
            if len(args) == 1:
                return I.call(I.bind_attr(m, v, v.cls), [], {})
            try:
                return I.call(I.bind_attr(m, v, v.cls), [], {})
            except PyExc as e:
                if e.value.cls.name == 'StopIteration':
                    return args[1]
                raise
    if isinstance(v, LazyMap) and v.kind == 'gen':
        raise Unsupported('next() of a large lazy sequence')
    if not isinstance(v, AGen):
        raise I.exc('TypeError', 'object is not an iterator')
    try:
        return v.advance()
    except StopIteration:
        pass
    if len(args) > 1:
        return args[1]
    raise I.exc('StopIteration', *([] if v.ret is None else [v.ret]))


def b_hash(I, args, kw):
    v = args[0]
    return hash_of(I, v)


def hash_of(I, v):
    if isinstance(v, AInst):
        m = v.cls.lookup('__hash__')
        hk(I, v)
        if m is MISSING and PAYLOAD in v.attrs:
            return hash_of(I, v.attrs[PAYLOAD])
        if m is not MISSING:
            if m is None:
                raise I.exc('TypeError', 'unhashable')
            r = I.call(I.bind_attr(m, v, v.cls), [], {})
            return r if isinstance(r, HashT) else HashT(('h', r))
        return HashT(('id', id(v)))
    if isinstance(v, tuple):
        return HashT(('t',) + tuple(hash_of(I, x).term for x in v))
    if isinstance(v, Fin) or isinstance(v, (AStr, IntT, OrdT, Opq, str, int, float, Rec, AClass, type(None), SetT)):
        return HashT(('h', v))
    hk(I, v)
    if isinstance(v, ASet):
        return HashT(('fs', v))
    return HashT(('id', id(v)))


def eq_hash(I, a, b):
    if a[0] != b[0] or len(a) != len(b):
        return False
    if a[0] in ('h', 'c'):
        return eq(I, a[1], b[1])
    if a[0] == 'fs':
        return eq(I, a[1], b[1])
    if a[0] == 'id':
        return a[1] == b[1]
    if a[0] == 't':
        return all(I.world.decide(eq_hash(I, x, y)) for x, y in zip(a[1:], b[1:]))
    if a[0] == 'arith':
        return a[1] == b[1] and I.world.decide(eq_hash(I, a[2], b[2])) and I.world.decide(eq_hash(I, a[3], b[3]))
    return False


def b_repr(I, args, kw):
    return repr_(I, args[0])


def b_print(I, args, kw):
    return None


def b_callable(I, args, kw):
    if isinstance(args[0], AInst):
        return args[0].cls.lookup('__call__') is not MISSING
    if isinstance(args[0], Fin):
        return I.world.fin_apply(lambda x: b_callable(I, [x], {}), [args[0]])
    return isinstance(args[0], (AFunc, BoundMethod, Native, BoundNative, AClass, RelClass))


def b_id(I, args, kw):
    return HashT(('id', id(args[0])))


def b_divmod(I, args, kw):
    return (binop(I, 'FloorDiv', args[0], args[1]), binop(I, 'Mod', args[0], args[1]))


def b_round(I, args, kw):
    if all(isinstance(a, (int, float)) for a in args):
        return round(*args)
    raise Unsupported('round')


def b_pow(I, args, kw):
    if len(args) > 2:
        return concrete_builtin(pow)(I, args, kw)
    return binop(I, 'Pow', args[0], args[1])


def concrete_builtin(fn):
    def call(I, args, kw):
        if any(isinstance(a, Fin) for a in args):
            return I.world.fin_apply(lambda *a: fn(*a), list(args))
        if not all(is_rigid(a) for a in args):
            raise Unsupported(fn.__name__)
        try:
            return fn(*args)
        except (TypeError, ValueError) as e:
            raise I.exc(type(e).__name__, str(e))
    return call


b_bin, b_hex, b_oct, b_ascii = [concrete_builtin(f) for f in (bin, hex, oct, ascii)]


def b_globals(I, args, kw):
    raise Unsupported('globals()')


def b_ord(I, args, kw):
    v = args[0]
    if isinstance(v, str) and len(v) == 1:
        return ord(v)
    if isinstance(v, Fin):
        return I.world.fin_apply(ord, [v])
    raise Unsupported('ord')


def b_chr(I, args, kw):
    if isinstance(args[0], int):
        return chr(args[0])
    raise Unsupported('chr')


def b_vars(I, args, kw):
    v = args[0]
    if isinstance(v, AModule):
        return module_dict(I, v)
    if isinstance(v, AInst):
        return instance_dict(I, v)
    raise Unsupported('vars')


def b_dir(I, args, kw):
    v = args[0]
    if isinstance(v, AModule):
        return AList(sorted(v.env.keys()))
    raise Unsupported('dir')


def b_format(I, args, kw):
    return format_(I, args[0], args[1] if len(args) > 1 else '')


# ---------------------------------------------------------------------------
# attributes of special objects

def slots_of(I, cls):
    """Allowed instance attributes, or None when instances have a __dict__."""
    out = set()
    for c in cls.mro:
        if c.native:
            if c.name != 'object':
                return None
            continue
        s = c.env.get('__slots__', MISSING)
        if s is MISSING:
            return None
        names = (s,) if isinstance(s, str) else I.iterate(s)
        if '__dict__' in names:
            return None
        out.update(names)
    return out


def instance_dict(I, obj):
    if slots_of(I, obj.cls) is not None:
        raise I.exc('AttributeError', '__dict__')
    d = ADict()
    for k, v in obj.attrs.items():
        if not k.startswith('<'):
            dict_set(I, d, k, v)
    d.owner = obj
    return d


def module_dict(I, m):
    d = ADict()
    for k, v in m.env.items():
        dict_set(I, d, k, v)
    return d


BUILTIN_BASES = ('dict', 'list', 'tuple', 'set')


def builtin_base(cls):
    for c in cls.mro:
        if c.native and c.name in CONSTRUCTORS and c.name != 'object':
            return c.name
    return None


def maketrans(I, a):
    d = ADict()
    if len(a) == 1:
        for k, v in list(a[0].d.values()):
            dict_set(I, d, ord(k) if isinstance(k, str) and len(k) == 1 else k, v)
        return d
    for k, v in str.maketrans(*[to_host(I, x) for x in a]).items():
        dict_set(I, d, k, v)
    return d


def raw_new(I, cls, args, kw):
    """the object made by the native __new__ of a user defined class"""
    inst = AInst(cls)
    base = builtin_base(cls)
    if base is not None:
        if base not in BUILTIN_BASES:
            raise Unsupported('subclass of %s' % base)
        inst.attrs[PAYLOAD] = {'dict': ADict, 'list': lambda: AList([]), 'set': ASet, 'tuple': lambda: new_tuple(I, args, {})}[base]()
    return inst


def fill_payload(I, obj, args, kw):
    base = obj.attrs[PAYLOAD]
    if isinstance(base, ADict):
        dict_update(I, base, args[0] if args else None, kw)
    elif isinstance(base, AList):
        base.touch()
        base.items = I.iterate(args[0]) if args else []
    elif isinstance(base, ASet) and args:
        for x in I.iterate(args[0]):
            set_add(I, base, x)


def object_attr(I, obj, name):
    if isinstance(obj, AInst) and PAYLOAD in obj.attrs:
        base = obj.attrs[PAYLOAD]
        if name == '__init__':
            return Native('__init__', lambda I, a, k: fill_payload(I, obj, a, k))
        host = {AList: list, ADict: dict, ASet: set}.get(type(base), tuple)
        if hasattr(host, name) and name not in ('__new__', '__class__', '__setattr__', '__delattr__', '__getattribute__', '__init_subclass__', '__doc__', '__module__'):
            if name == '__getitem__' and host is dict:
                return Native(name, lambda I, a, k: payload_item(I, obj, a[0]))
            return BoundNative(base, name)
    if name == '__new__':
        return Native('__new__', lambda I, a, k: raw_new(I, a[0], a[1:], k))
    if name == '__init_subclass__':
        return Native('__init_subclass__', lambda I, a, k: None)
    if name == '__init__':
        return Native('__init__', lambda I, a, k: None)
    if name == '__delattr__':
        return Native('__delattr__', lambda I, a, k: I.raw_delattr(obj, a[0]))
    if name == '__getattribute__':
        return Native(name, lambda I, a, k: I.getattr(obj, a[0]))
    if name == '__setattr__':
        return Native('__setattr__', lambda I, a, k: I.raw_setattr(obj, a[0], a[1]))
    if name == '__eq__':
        return Native('__eq__', lambda I, a, k: obj is a[0] or NOTIMPL)
    if name == '__hash__':
        return Native('__hash__', lambda I, a, k: HashT(('id', id(obj))))
    if name == '__str__' or name == '__repr__':
        return Native(name, lambda I, a, k: opaque_text(I, name, obj))
    if isinstance(obj, AInst) and name in ('__cause__', '__context__', '__traceback__', '__suppress_context__', '__notes__') \
            and obj.cls.subclass_of(I.builtins['BaseException']):
        return obj.attrs.get('<cause>', None) if name == '__cause__' else None
    if isinstance(obj, AInst) and name in ('with_traceback', 'add_note') and obj.cls.subclass_of(I.builtins['BaseException']):
        return Native(name, lambda I, a, k: obj if name == 'with_traceback' else None)
    if isinstance(obj, AInst) and name == 'value' and obj.cls.subclass_of(I.builtins['StopIteration']):
        a = obj.attrs.get('args', ())
        return a[0] if a else None
    if isinstance(obj, AInst) and name == 'args':
        return obj.attrs.get('args', MISSING)
    if name == '__doc__' or name == '__module__':
        return None
    return MISSING


def class_attr(I, cls, name):
    if name == '__name__' or name == '__qualname__':
        return cls.name
    if name == '__mro__':
        return tuple(cls.mro)
    if name == '__bases__':
        return tuple(cls.bases)
    if name == '__dict__':
        d = ADict()
        for k, v in cls.env.items():
            dict_set(I, d, k, v)
        return d
    if name == '__doc__':
        return None
    if name == '__module__':
        return cls.module.name if cls.module else 'builtins'
    if cls.native:
        host = HOST_TYPES.get(cls.name)
        if host is not None and hasattr(host, name):
            if name == 'fromkeys':
                def fromkeys(I, a, k):
                    d = ADict()
                    for x in I.iterate(a[0]):
                        dict_set(I, d, x, a[1] if len(a) > 1 else None)
                    return d
                return Native('fromkeys', fromkeys)
            if name == '__new__':
                return Native('__new__', lambda I, a, k: raw_new(I, a[0], a[1:], k) if not a[0].native else I.call(a[0], a[1:], k))
            if name == '__init__':
                return Native('__init__', lambda I, a, k: fill_payload(I, a[0], a[1:], k) if PAYLOAD in _host_getattr(a[0], 'attrs', ()) else None)
            if name == '__setattr__':
                return Native(name, lambda I, a, k: I.raw_setattr(*a))
            if name == 'maketrans':
                return Native(name, lambda I, a, k: maketrans(I, a))

            def method(I, a, k):
                if name == '__getitem__' and isinstance(a[0], AInst) and PAYLOAD in a[0].attrs:
                    return payload_item(I, a[0], a[1])
                return call_method(I, unwrap(a[0]), name, list(a[1:]), k)
            return Native(name, method)
        if host is None and name.startswith('__') and cls.name != 'object':
            raise Unsupported('%s.%s' % (cls.name, name))
    if isinstance(cls, RelClass) and name in ('select', 'random', 'get_from_name'):
        raise Unsupported('relation.%s' % name)
    if name in ('__setattr__', '__new__', '__init__', '__getattribute__', '__eq__', '__hash__', '__str__', '__repr__'):
        if name == '__setattr__':
            return Native(name, lambda I, a, k: I.raw_setattr(*a))
        if name == '__init__':
            return Native(name, lambda I, a, k: None)
        if name == '__new__':
            return Native(name, lambda I, a, k: raw_new(I, a[0], a[1:], k))
        if name == '__getattribute__':
            return Native(name, lambda I, a, k: I.getattr(a[0], a[1]))
        if name in ('__eq__', '__hash__', '__str__', '__repr__'):
            return Native(name, lambda I, a, k: I.call(object_attr(I, a[0], name), a[1:], k))
        raise Unsupported('object.%s' % name)
    if name == '__delattr__':
        return Native(name, lambda I, a, k: I.raw_delattr(a[0], a[1]))
    if name == '__init_subclass__':
        return Native(name, lambda I, a, k: None)
    if name in ('__annotations__', '__slots__', '__subclasses__', '__abstractmethods__') and name != '__slots__':
        raise Unsupported('class attribute %s' % name)
    raise I.exc('AttributeError', 'type object %r has no attribute %r' % (cls.name, name))


def func_attr(I, f, name):
    if name in ('__name__', '__qualname__'):
        return f.attrs.get(name, f.name)
    if name in f.attrs:
        return f.attrs[name]
    if name == '__doc__':
        return None
    if name == '__module__':
        return f.module.name
    if name == '__annotations__':
        d = ADict()
        a = f.node.args
        pairs = [(x.arg, x.annotation) for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg] if x is not None]
        for k, note in pairs + [('return', getattr(f.node, 'returns', None))]:
            if note is not None:
                dict_set(I, d, k, I.eval(note, f.frame))
        f.attrs[name] = d
        return d
    if name == '__wrapped__' and f.memo is not None:
        raise Unsupported('__wrapped__')
    if name == 'cache_clear' and f.memo is not None:
        def clear(I, a, k):
            f.memo.touch()
            f.memo.d, f.memo.symbolic = {}, 0
        return Native('cache_clear', clear)
    raise I.exc('AttributeError', 'function has no attribute %r' % name)


def call_memo(I, f, args, kw):
    key = tuple(args) + tuple(x for k in sorted(kw) for x in (k, kw[k]))
    h = dict_find(I, f.memo, key)
    if h is not None:
        return f.memo.d[h][1]
    v = I.call_plain(f, args, kw)
    dict_set(I, f.memo, key, v)
    return v


# ---------------------------------------------------------------------------
# rels

def rec_attr(I, rec, name):
    if name in rec.cols:
        return rec.cols[name]
    if name == '_relation':
        return rec.rel
    if name.startswith('is_'):
        other = rec.rel.lookup(name[3:])
        if isinstance(other, Rec) or (other is not MISSING and name[3:] in rec.rel.env):
            return other is rec
        raise I.exc('AttributeError', 'type object %r has no attribute %r' % (rec.rel.name, name[3:]))
    if name == '__class__':
        return REC_CLASS(I)
    if name in ('_primaries', 'set_related_name', '__dict__'):
        raise Unsupported('record.%s' % name)
    if name in ('__hash__', '__eq__', '__str__', '__repr__'):
        raise Unsupported('record.%s' % name)
    raise I.exc('AttributeError', name)


def relation_lookup(I, rel, value, *rest):
    w = I.world
    if isinstance(value, Fin):
        return w.fin_apply(lambda v: relation_lookup(I, rel, v), [value])
    index = rel.env['_external_index']
    h = dict_find(I, index, value)
    if h is None:
        raise I.exc('NotExternalValueError', value)
    return index.d[h][1]


def build_relation(I, name, bases, env, module):
    columns = {}
    raw = []
    attrs = {}
    for k, v in env.items():
        if k == 'records':
            raw = I.iterate(v)
        elif isinstance(v, AColumn):
            v.name = k
            columns[k] = v
        else:
            attrs[k] = v
    for b in bases:
        if isinstance(b, RelClass):
            for c in b.columns:
                if c.name not in columns:
                    columns[c.name] = c
            raw = list(b.raw) + raw
    rel = RelClass(name, bases, attrs, module)
    rel.columns = sorted(columns.values(), key=lambda c: c.order)
    rel.raw = raw
    records = []
    for n, row in enumerate(raw):
        cells = I.iterate(row)
        if len(cells) != len(rel.columns):
            raise I.exc('ColumnsNumberError', name)
        records.append(Rec(rel, {c.name: v for c, v in zip(rel.columns, cells)}, n))
    for c in rel.columns:
        if c.kw.get('unique', True):
            seen = ASet()
            for rec in records:
                if I.world.decide(contains(I, seen, rec.cols[c.name])):
                    raise I.exc('DuplicateValueError', c.name, rec.cols[c.name])
                set_add(I, seen, rec.cols[c.name])
        if c.kw.get('single_type', True) and records:
            kinds = set(kind_name(I, rec.cols[c.name]) for rec in records)
            if len(kinds) > 1:
                raise I.exc('SingleTypeError', c.name)
    rel.records = tuple(records)
    rel.env['records'] = rel.records
    rel.env['_external_index'] = ADict()
    for c in rel.columns:
        if c.kw.get('primary'):
            for rec in records:
                rel.env[rec.cols[c.name]] = rec
    for c in rel.columns:
        if not c.kw.get('no_index', True) or c.kw.get('external'):
            index = ADict()
            for rec in records:
                if c.kw.get('unique', True):
                    dict_set(I, index, rec.cols[c.name], rec)
                else:
                    old = dict_get(I, index, rec.cols[c.name], ())
                    dict_set(I, index, rec.cols[c.name], old + (rec,))
            index_name = c.kw.get('index_name') or 'index_%s' % c.name
            if index_name in rel.env:
                raise I.exc('IndexDuplicatesRelationAttributeError', c.name)
            rel.env[index_name] = index
            if c.kw.get('external'):
                rel.env['_external_index'] = index
    return rel


def kind_name(I, v):
    if isinstance(v, RelClass):
        return 'relation'
    return type_of(I, v).name


def mod_rels(I, m):
    def column(I, args, kw):
        kw = dict(kw)
        if args:
            raise Unsupported('positional Column arguments')
        return AColumn(**kw)
    base = RelClass('Relation', [I.builtins['object']], {}, m)
    base.columns, base.raw, base.records = [], [], ()
    enum = RelClass('Enum', [base], {}, m)
    n, v = AColumn(primary=True), AColumn(external=True)
    n.name, v.name = 'name', 'value'
    enum.columns, enum.raw, enum.records = [n, v], [], ()
    ewt = RelClass('EnumWithText', [base], {}, m)
    n, v, t = AColumn(primary=True), AColumn(external=True), AColumn()
    n.name, v.name, t.name = 'name', 'value', 'text'
    ewt.columns, ewt.raw, ewt.records = [n, v, t], [], ()
    for c in (base, enum, ewt):
        c.env['records'] = ()
        c.env['_external_index'] = ADict()
    return {'Column': Native('Column', column), 'Relation': base, 'Enum': enum, 'EnumWithText': ewt,
            'Record': REC_CLASS(I)}


# ---------------------------------------------------------------------------
# standard modules

def native_module(I, name):
    if name.split('.')[0] in ('utg', 'specs'):
        return None
    maker = {'rels': mod_rels, 'random': mod_random, 're': mod_re, 'functools': mod_functools, 'itertools': mod_itertools,
             'collections': mod_collections, 'operator': mod_operator, 'copy': mod_copy, 'pprint': mod_pprint,
             'numbers': None, 'threading': mod_threading}.get(name)
    if maker is None and (name in sys.stdlib_module_names or name.split('.')[0] in sys.stdlib_module_names or name == 'rels.exceptions'):
        m = AModule(name)
        m.native = True
        m.loaded = True
        m.env['__name__'] = name
        if name in ('abc', 'collections.abc'):
            m.env.update(mod_abc(I, m))
        if name == 'enum':
            m.env.update(mod_enum(I, m))
        if name == 'json':
            m.env['loads'] = Native('loads', json_loads)
            m.env['dumps'] = Native('dumps', json_dumps)
        if name == 'string':
            import string
            for k in ('ascii_letters', 'ascii_lowercase', 'ascii_uppercase', 'digits', 'hexdigits', 'octdigits', 'punctuation', 'printable', 'whitespace'):
                m.env[k] = getattr(string, k)
        if name == 'unicodedata':
            import unicodedata

            def on_text(fn):
                def call(I, a, k):
                    if any(isinstance(x, Fin) for x in a):
                        return I.world.fin_apply(lambda *xs: call(I, xs, k), list(a))
                    host = [x if isinstance(x, str) else I.world.concretize(x) for x in a]
                    if k or not all(isinstance(x, str) and not any(is_pua(c) for c in x) for x in host):
                        raise Unsupported('unicodedata.%s of an opaque text' % fn.__name__)
                    try:
                        return fn(*host)
                    except (TypeError, ValueError) as e:
                        raise I.exc(type(e).__name__, str(e))
                return Native(fn.__name__, call)
            for k in ('normalize', 'is_normalized', 'category', 'combining', 'bidirectional', 'east_asian_width', 'name'):
                m.env[k] = on_text(getattr(unicodedata, k))
        if name == 'types':
            for k in ('FunctionType', 'LambdaType', 'MethodType', 'BuiltinFunctionType'):
                m.env[k] = I.builtins['function']
            m.env['GeneratorType'] = I.builtins['generator']
            m.env['ModuleType'] = I.builtins['module']
            m.env['NoneType'] = I.builtins['NoneType']
        if name == 'sys':
            m.env.update({'maxsize': sys.maxsize, 'intern': Native('intern', lambda I, a, k: a[0]), 'version_info': tuple(sys.version_info),
                          'getrecursionlimit': Native('getrecursionlimit', lambda I, a, k: 1000)})
        if name == '__future__':
            for f in ('annotations', 'division', 'print_function', 'unicode_literals', 'absolute_import'):
                m.env[f] = None
        if name in ('typing', 'typing_extensions'):
            m.env.update(mod_typing(I, m))
        if name == 'rels.exceptions':
            for k, v in I.builtins.items():
                if isinstance(v, AClass) and k in EXCEPTIONS:
                    m.env[k] = v
        if name == 'math':
            import math

            def numeric(fn):
                def call(I, a, k):
                    if any(isinstance(x, Fin) for x in a):
                        return I.world.fin_apply(lambda *xs: call(I, xs, k), list(a))
                    if not all(isinstance(x, (int, float)) for x in a):
                        raise Unsupported('math.%s of an opaque value' % fn.__name__)
                    try:
                        return fn(*a)
                    except ValueError:
                        raise I.exc('ValueError', 'math domain error')
                return Native(fn.__name__, call)
            for k, v in vars(math).items():
                if isinstance(v, float):
                    m.env[k] = v
                elif callable(v) and k not in ('prod', 'fsum', 'dist', 'sumprod'):
                    m.env[k] = numeric(v)
        if name == 'logging':
            def get_logger(I, a, k):
                o = AInst(AClass('Logger', [I.builtins['object']], {f: Native(f, lambda I, a, k: None) for f in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log', 'setLevel', 'addHandler')}))
                return o
            m.env['getLogger'] = Native('getLogger', get_logger)
            for f in ('debug', 'info', 'warning', 'error'):
                m.env[f] = Native(f, lambda I, a, k: None)
        if name == 'warnings':
            m.env['warn'] = Native('warn', lambda I, a, k: None)
        pylib(I, m)
        return m
    if maker is None:
        return None
    m = AModule(name)
    m.native = True
    m.loaded = True
    m.env['__name__'] = name
    m.env.update(maker(I, m))
    pylib(I, m)
    return m


def pylib(I, m):
    """definitions of the standard module which are written in Python (interpreted like the analysed source)"""
    import ast
    import os
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pylib', m.name + '.py')
    if not os.path.exists(path):
        return
    lib = AModule(m.name, path, is_spec=True)
    with open(path, encoding='utf-8') as f:
        lib.tree = ast.parse(f.read(), path)
    I.run_module(lib)
    for k, v in lib.env.items():
        m.env.setdefault(k, v)


def unmodelled(name):
    """a name of the standard library which is not modelled: no verdict when it is used"""
    def call(I, a, k):
        raise Unsupported(name)
    return Native(name, call)


def still_abstract(cls):
    if not any('<abstract>' in c.env for c in cls.mro):
        return False
    seen = set()
    for c in cls.mro:
        for k, v in c.env.items():
            if k in seen:
                continue
            seen.add(k)
            for x in ((v,) if isinstance(v, AFunc) else (v.func,) if isinstance(v, (AClassMethod, AStaticMethod)) else
                      (v.fget, v.fset, v.fdel) if isinstance(v, AProperty) else ()):
                if isinstance(x, AFunc) and x.attrs.get('__isabstractmethod__'):
                    return True
    return False


def mod_abc(I, m):
    obj = I.builtins['object']
    def abstract(I, a, k):
        f = a[0]
        for x in ((f,) if isinstance(f, AFunc) else (f.func,) if isinstance(f, (AClassMethod, AStaticMethod)) else
                  (f.fget, f.fset, f.fdel) if isinstance(f, AProperty) else ()):
            if isinstance(x, AFunc):
                x.attrs['__isabstractmethod__'] = True
        return f

    env = {'ABC': AClass('ABC', [obj], {'<abstract>': True}, m), 'ABCMeta': AClass('ABCMeta', [I.builtins['type']], {}, m),
           'abstractmethod': Native('abstractmethod', abstract),
           'abstractproperty': Native('abstractproperty', lambda I, a, k: new_property(I, [abstract(I, a, k)], {}))}
    if m.name == 'collections.abc':
        env = {}
        b = I.builtins
        for k, members in (('Hashable', None), ('Callable', None), ('Sequence', ('list', 'tuple', 'str', 'range', 'bytes')), ('MutableSequence', ('list',)),
                           ('Mapping', ('dict',)), ('MutableMapping', ('dict',)), ('Set', ('set', 'frozenset')), ('MutableSet', ('set',)),
                           ('Iterable', ('list', 'tuple', 'str', 'range', 'bytes', 'dict', 'set', 'frozenset', 'generator')),
                           ('Iterator', ('generator',)), ('Generator', ('generator',)), ('Sized', ('list', 'tuple', 'str', 'range', 'bytes', 'dict', 'set', 'frozenset')),
                           ('Container', ('list', 'tuple', 'str', 'range', 'bytes', 'dict', 'set', 'frozenset')),
                           ('Collection', ('list', 'tuple', 'str', 'range', 'bytes', 'dict', 'set', 'frozenset'))):
            if members is None:
                env[k] = unmodelled('collections.abc.%s' % k)
            else:
                env[k] = AClass(k, [obj], {'<members>': tuple(b[x] for x in members)}, m)
    return env


def mod_typing(I, m):
    env = {}
    special = AClass('typing', [I.builtins['object']], {}, m)
    special.env['__getitem__'] = Native('__getitem__', lambda I, a, k: a[0])
    special.env['__or__'] = special.env['__ror__'] = Native('__or__', lambda I, a, k: a[0])
    special.env['__call__'] = Native('__call__', lambda I, a, k: a[0])
    for f in ('Any', 'List', 'Dict', 'Tuple', 'Optional', 'Set', 'FrozenSet', 'Iterable', 'Callable', 'Union', 'Sequence', 'Iterator', 'Generator', 'Type',
              'Mapping', 'MutableMapping', 'MutableSequence', 'Hashable', 'Sized', 'Collection', 'ClassVar', 'Final', 'Literal', 'AnyStr', 'Text', 'NoReturn',
              'Annotated', 'Self', 'DefaultDict', 'Counter', 'Deque', 'Pattern', 'Match', 'TypeAlias', 'Concatenate', 'ParamSpec'):
        env[f] = AInst(special)
    env['TYPE_CHECKING'] = False
    env['TypeVar'] = env['NewType'] = Native('TypeVar', lambda I, a, k: a[1] if len(a) > 1 else AInst(special))
    env['cast'] = Native('cast', lambda I, a, k: a[1])
    for f in ('overload', 'final', 'no_type_check', 'runtime_checkable'):
        env[f] = Native(f, lambda I, a, k: a[0])
    generic = AClass('Generic', [I.builtins['object']], {}, m)
    env['Generic'] = generic
    env['Protocol'] = AClass('Protocol', [I.builtins['object']], {}, m)
    env['NamedTuple'] = AClass('NamedTuple', [I.builtins['object']], {}, m)
    return env


def mod_enum(I, m):
    base = AClass('Enum', [I.builtins['object']], {}, m)
    base.env['name'] = AProperty(Native('name', lambda I, a, k: a[0].attrs['_name_']))
    base.env['value'] = AProperty(Native('value', lambda I, a, k: a[0].attrs['_value_']))
    base.env['__repr__'] = Native('__repr__', lambda I, a, k: '<%s.%s>' % (a[0].cls.name, a[0].attrs['_name_']))
    base.env['__str__'] = Native('__str__', lambda I, a, k: '%s.%s' % (a[0].cls.name, a[0].attrs['_name_']))
    base.env['<enum>'] = True
    return {'Enum': base, 'unique': Native('unique', lambda I, a, k: a[0]), 'auto': Native('auto', lambda I, a, k: AUTO)}


AUTO = Opq('enum.auto')


def enum_members(I, cls):
    """turn the plain attributes of a class derived from Enum into its members"""
    members = ADict()
    last = 0
    for k, v in list(cls.env.items()):
        if k.startswith('_') or isinstance(v, (AFunc, AProperty, AClassMethod, AStaticMethod, AClass, Native)) or k == '<enum>':
            continue
        if v is AUTO:
            v = last + 1
        if isinstance(v, int):
            last = v
        inst = None
        for _, other in members.d.values():
            if I.world.decide(truthy_eq(I, other.attrs['_value_'], v)):
                inst = other
        if inst is None:
            inst = AInst(cls)
            inst.attrs.update({'_name_': k, '_value_': v})
            init = cls.lookup('__init__')
            if init is not MISSING:
                I.call(I.bind_attr(init, inst, cls), list(v) if isinstance(v, tuple) else [v], {})
            dict_set(I, members, k, inst)
        cls.env[k] = inst
    cls.env['<enum members>'] = members
    cls.env['__members__'] = members


def json_loads(I, a, k):
    import json
    if not isinstance(a[0], str):
        raise Unsupported('json.loads of an opaque text')
    try:
        return host_value(I, json.loads(a[0]))
    except ValueError:
        raise I.exc('ValueError', 'JSONDecodeError')


def host_value(I, v):
    if isinstance(v, list):
        return AList([host_value(I, x) for x in v])
    if isinstance(v, dict):
        d = ADict()
        for k, x in v.items():
            dict_set(I, d, k, host_value(I, x))
        return d
    return v


def json_dumps(I, a, k):
    import json

    def plain(v):
        if isinstance(v, AList):
            return [plain(x) for x in v.items]
        if isinstance(v, tuple):
            return [plain(x) for x in v]
        if isinstance(v, ADict):
            return {plain(x): plain(y) for x, y in v.d.values()}
        if isinstance(v, (str, int, float, bool, type(None))):
            return v
        raise Unsupported('json.dumps of an opaque value')
    if any(not isinstance(x, (str, int, float, bool, type(None), tuple)) for x in k.values()):
        raise Unsupported('json.dumps options')
    return json.dumps(plain(json_value(I, a[0])), **k)


def mod_threading(I, m):
    def lock(I, a, k):
        return AInst(AClass('Lock', [I.builtins['object']], {
            '__enter__': Native('__enter__', lambda I, a, k: True), '__exit__': Native('__exit__', lambda I, a, k: None),
            'acquire': Native('acquire', lambda I, a, k: True), 'release': Native('release', lambda I, a, k: None)}))
    return {'Lock': Native('Lock', lock), 'RLock': Native('RLock', lock), 'local': AClass('local', [I.builtins['object']], {}, m)}


def fresh(I, prefix):
    w = I.world
    n = getattr(w, 'counter', 0) + 1
    w.counter = n
    return '%s#%d' % (prefix, n)


def mod_random(I, m):
    def choice(I, args, kw):
        items = list(I.iterate(args[0])) if not isinstance(args[0], tuple) else list(args[0])
        if not items:
            raise I.exc('IndexError', 'Cannot choose from an empty sequence')
        I.world.choices = getattr(I.world, 'choices', []) + [tuple(items)]
        return I.world.symbol(fresh(I, 'choice'), items)

    def randrange(I, args, kw):
        r = new_range(I, args, {})
        if not len(r):
            raise I.exc('ValueError', 'empty range')
        return I.world.symbol(fresh(I, 'choice'), list(range(r.start, r.stop, r.step)))

    def randint(I, args, kw):
        return randrange(I, [args[0], binop(I, 'Add', args[1], 1)], {})

    def rnd(I, args, kw):
        return OrdT(fresh(I, 'random'), 'float', 0)

    def sample(I, args, kw):
        items = I.iterate(args[0])
        k = args[1] if len(args) > 1 else kw['k']
        if k != 1:
            raise Unsupported('random.sample')
        if not items:
            raise I.exc('ValueError', 'Sample larger than population')
        return AList([I.world.symbol(fresh(I, 'choice'), items)])

    def choices(I, args, kw):
        items = I.iterate(args[0])
        k = kw.get('k', 1)
        weights = args[1] if len(args) > 1 else kw.get('weights')
        if kw.get('cum_weights') is not None:
            raise Unsupported('weighted choice')
        if weights is not None:
            weights = [I.world.concretize(x) if isinstance(x, Fin) else x for x in I.iterate(weights)]
            if not all(isinstance(x, int) for x in weights) or not 0 < sum(weights) < 200 or min(weights) < 0:
                raise Unsupported('weighted choice')
            if len(weights) != len(items):
                raise I.exc('ValueError', 'The number of weights does not match the population')
            items = [x for x, n in zip(items, weights) for _ in range(n)]
        if not items:
            raise I.exc('IndexError', 'empty')
        return AList([I.world.symbol(fresh(I, 'choice'), items) for _ in range(k)])

    def shuffle(I, args, kw):
        import itertools
        items = args[0].items
        if len(items) > 3:
            raise Unsupported('shuffle')
        orders = list(itertools.permutations(range(len(items))))
        o = I.world.symbol(fresh(I, 'shuffle'), orders)
        if isinstance(o, Fin):
            I.world.concretize(o)
        args[0].touch()
        args[0].items = [items[i] for i in o]
    members = {'choice': Native('choice', choice), 'randrange': Native('randrange', randrange), 'randint': Native('randint', randint),
            'random': Native('random', rnd), 'sample': Native('sample', sample), 'choices': Native('choices', choices),
            'shuffle': Native('shuffle', shuffle), 'seed': Native('seed', lambda I, a, k: None)}

    def generator(I, a, k):
        # a source of its own: the same operations
        out = AInst(cls)
        out.attrs.update(members)
        return out
    cls = AClass('Random', [I.builtins['object']], {}, m)
    return dict(members, Random=Native('Random', generator), SystemRandom=Native('SystemRandom', generator))


def mod_functools(I, m):
    def wraps(I, args, kw):
        name = I.getattr(args[0], '__name__') if isinstance(args[0], AFunc) else None
        if kw or len(args) > 1:
            raise Unsupported('wraps with chosen attributes')

        def deco(I, a, k):
            if isinstance(a[0], AFunc):
                if name is not None:
                    a[0].attrs.update(args[0].attrs)
                    a[0].attrs['__name__'] = name
                a[0].attrs['__wrapped__'] = args[0]
            return a[0]
        return Native('wraps', deco)

    def lru_cache(I, args, kw):
        if len(args) == 1 and isinstance(args[0], AFunc) and not kw:
            args[0].memo = ADict()
            return args[0]

        def deco(I, a, k):
            a[0].memo = ADict()
            return a[0]
        return Native('lru_cache', deco)

    def partial(I, args, kw):
        f, pre = args[0], list(args[1:])
        return Native('partial', lambda I, a, k: I.call(f, pre + list(a), dict(kw, **k)))

    def reduce_(I, args, kw):
        items = I.iterate(args[1])
        if len(args) > 2:
            acc = args[2]
        else:
            if not items:
                raise I.exc('TypeError', 'reduce() of empty sequence')
            acc, items = items[0], items[1:]
        for x in items:
            acc = I.call(args[0], [acc, x], {})
        return acc

    def cached_property(I, args, kw):
        return ACached(args[0])
    return {'wraps': Native('wraps', wraps), 'lru_cache': Native('lru_cache', lru_cache), 'cache': Native('cache', lru_cache),
            'partial': Native('partial', partial), 'reduce': Native('reduce', reduce_), 'cached_property': Native('cached_property', cached_property)}


def mod_itertools(I, m):
    import itertools

    def product(I, args, kw):
        lists = [I.iterate(a) for a in args]
        rep = kw.get('repeat', 1)
        return AGen(lambda: (tuple(t) for t in itertools.product(*lists, repeat=rep)))

    def chain(I, args, kw):
        return AGen(lambda: (x for a in args for x in I.iterator(a)))

    def from_iterable(I, args, kw):
        return AGen(lambda: (x for a in I.iterator(args[0]) for x in I.iterator(a)))

    def islice(I, args, kw):
        src = I.iterator(args[0])
        if not all(a is None or isinstance(a, int) for a in args[1:]):
            raise Unsupported('islice with symbolic bounds')
        return AGen(lambda: itertools.islice(src, *args[1:]))

    def zip_longest(I, args, kw):
        lists = [I.iterate(a) for a in args]
        return AGen(lambda: [tuple(t) for t in itertools.zip_longest(*lists, fillvalue=kw.get('fillvalue'))])

    def perm(name):
        def call(I, args, kw):
            items = I.iterate(args[0])
            return AGen(lambda: [tuple(t) for t in getattr(itertools, name)(items, *args[1:])])
        return call
    chain_cls = AClass('chain', [I.builtins['object']], {}, m)
    chain_native = AInst(AClass('chain_type', [I.builtins['object']], {'__call__': AStaticMethod(Native('chain', chain)),
                                                                     'from_iterable': AStaticMethod(Native('from_iterable', from_iterable))}))
    return {'product': Native('product', product), 'chain': chain_native, 'islice': Native('islice', islice),
            'zip_longest': Native('zip_longest', zip_longest), 'permutations': Native('permutations', perm('permutations')),
            'combinations': Native('combinations', perm('combinations'))}


def mod_collections(I, m):
    def defaultdict(I, args, kw):
        d = ADict()
        d.factory = args[0] if args else None
        dict_update(I, d, args[1] if len(args) > 1 else None, kw)
        return d

    def deque(I, args, kw):
        bound = kw.get('maxlen', args[1] if len(args) > 1 else None)
        if bound is not None or len(args) > 1:
            return I.call(m.env['_BoundedDeque'], [args[0] if args else (), bound], {})
        return AList(I.iterate(args[0]) if args else [])

    def namedtuple(I, args, kw):
        names = args[1].replace(',', ' ').split() if isinstance(args[1], str) else I.iterate(args[1])
        if not all(isinstance(n, str) for n in names):
            raise Unsupported('namedtuple with computed fields')
        return namedtuple_class(I, args[0], names, I.iterate(kw['defaults']) if kw.get('defaults') is not None else [], {}, None)
    return {'defaultdict': Native('defaultdict', defaultdict), 'OrderedDict': I.builtins['dict'],
            'deque': Native('deque', deque), 'namedtuple': Native('namedtuple', namedtuple)}


def namedtuple_class(I, name, fields, defaults, env, module):
    fields = tuple(fields)
    cls = AClass(name, [I.builtins['tuple']], {}, module)
    skip = len(fields) - len(defaults)

    def new(I, a, k):
        c, a, k = a[0], list(a[1:]), dict(k)
        if len(a) > len(fields):
            raise I.exc('TypeError', '__new__() takes %d positional arguments' % len(fields))
        for i, f in enumerate(fields[len(a):], len(a)):
            if f in k:
                a.append(k.pop(f))
            elif i >= skip:
                a.append(defaults[i - skip])
            else:
                raise I.exc('TypeError', 'missing required argument: %r' % f)
        if k:
            raise I.exc('TypeError', 'unexpected keyword argument')
        inst = AInst(c)
        inst.attrs[PAYLOAD] = tuple(a)
        return inst

    def replace(I, a, k):
        self = a[0]
        for f in k:
            if f not in fields:
                raise I.exc('ValueError', 'Got unexpected field names')
        return new(I, [self.cls] + [k.get(f, v) for f, v in zip(fields, self.attrs[PAYLOAD])], {})

    def asdict(I, a, k):
        d = ADict()
        for f, v in zip(fields, a[0].attrs[PAYLOAD]):
            dict_set(I, d, f, v)
        return d

    def show(I, a, k):
        w = I.world
        return w.mkstr(a[0].cls.name + '(' + ', '.join(f + '=' + w.enc_of(repr_(I, v)) for f, v in zip(fields, a[0].attrs[PAYLOAD])) + ')')
    cls.env.update({'__new__': AStaticMethod(Native('__new__', new)), '_fields': fields, '_replace': Native('_replace', replace),
                    '_asdict': Native('_asdict', asdict), '__repr__': Native('__repr__', show), '__slots__': (),
                    '_make': AClassMethod(Native('_make', lambda I, a, k: new(I, [a[0]] + I.iterate(a[1]), {})))})
    for i, f in enumerate(fields):
        cls.env[f] = AProperty(Native(f, lambda I, a, k, i=i: a[0].attrs[PAYLOAD][i]))
    cls.env.update(env)
    return cls


def mod_operator(I, m):
    def itemgetter(I, args, kw):
        if len(args) == 1:
            return Native('itemgetter', lambda I, a, k: getitem(I, a[0], args[0]))
        return Native('itemgetter', lambda I, a, k: tuple(getitem(I, a[0], x) for x in args))

    def attrgetter(I, args, kw):
        def get(I, obj, path):
            for p in path.split('.'):
                obj = I.getattr(obj, p)
            return obj
        if len(args) == 1:
            return Native('attrgetter', lambda I, a, k: get(I, a[0], args[0]))
        return Native('attrgetter', lambda I, a, k: tuple(get(I, a[0], x) for x in args))
    ops = {'itemgetter': Native('itemgetter', itemgetter), 'attrgetter': Native('attrgetter', attrgetter)}
    for n, o in (('eq', 'Eq'), ('ne', 'NotEq'), ('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('is_', 'Is')):
        ops[n] = Native(n, lambda I, a, k, o=o: compare(I, o, a[0], a[1]))
    for n, o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('mod', 'Mod'), ('and_', 'BitAnd'), ('or_', 'BitOr')):
        ops[n] = Native(n, lambda I, a, k, o=o: binop(I, o, a[0], a[1]))
    return ops


def copy_value(I, v, deep, memo):
    if isinstance(v, (AList, ADict, ASet, AInst)):
        if id(v) in memo:
            return memo[id(v)]
    if isinstance(v, AList):
        c = AList(list(v.items))
        memo[id(v)] = c
        if deep:
            c.items = [copy_value(I, x, True, memo) for x in v.items]
        return c
    if isinstance(v, ADict):
        c = ADict()
        memo[id(v)] = c
        for k, x in list(v.d.values()):
            dict_set(I, c, k, copy_value(I, x, True, memo) if deep else x)
        c.factory = v.factory
        return c
    if isinstance(v, ASet):
        return new_set(I, [v], {}) if not v.frozen else v
    if isinstance(v, AInst):
        for n in ('__copy__', '__deepcopy__', '__reduce__', '__getstate__'):
            if v.cls.lookup(n) is not MISSING:
                raise Unsupported(n)
        c = AInst(v.cls, v.partial, v.name)
        memo[id(v)] = c
        c.attrs = {k: copy_value(I, x, True, memo) if deep else x for k, x in v.attrs.items()}
        return c
    if isinstance(v, tuple) and deep:
        return tuple(copy_value(I, x, True, memo) for x in v)
    return v


def mod_copy(I, m):
    return {'copy': Native('copy', lambda I, a, k: copy_value(I, a[0], False, {})),
            'deepcopy': Native('deepcopy', lambda I, a, k: copy_value(I, a[0], True, {}))}


def mod_pprint(I, m):
    return {'pformat': Native('pformat', lambda I, a, k: opaque_text(I, 'pformat', a[0]))}


def mod_re(I, m):
    def compile_(I, args, kw):
        if isinstance(args[0], ARegex):
            return args[0]
        flags = 0
        for f in list(args[1:]) + list(kw.values()):
            flags |= f
        if not isinstance(args[0], str):
            raise Unsupported('symbolic pattern')
        try:
            host_re.compile(args[0], flags)
        except host_re.error:
            raise I.exc('ValueError', 're.error')
        return ARegex(args[0], flags)
    env = {'compile': Native('compile', compile_), 'escape': Native('escape', lambda I, a, k: host_re.escape(to_host(I, a[0])))}
    for f in ('UNICODE', 'U', 'IGNORECASE', 'I', 'MULTILINE', 'M', 'DOTALL', 'S', 'VERBOSE', 'X', 'ASCII', 'A'):
        env[f] = int(getattr(host_re, f))
    for n in ('findall', 'finditer', 'sub', 'split', 'match', 'search', 'fullmatch', 'subn'):
        def call(I, args, kw, n=n):
            r = compile_(I, args[:1] if n != 'x' else args, {})
            return regex_method(I, r, n, list(args[1:]), kw)
        env[n] = Native(n, call)
    return env


def pattern_alphabet(pattern, flags):
    """the characters a pattern tells apart.  A run of any other characters matches like a single one of them, because such
    characters are only matched by unbounded repetitions; any other pattern is not supported over opaque texts."""
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            from re import _parser as sre_parse
        except ImportError:
            import sre_parse
        tree = sre_parse.parse(pattern, flags)
    out = set()

    def literal(code):
        c = chr(code)
        out.update((c, c.lower(), c.upper()) if flags & host_re.IGNORECASE else (c,))

    def members(items):
        """characters a class mentions; True if it matches other characters too"""
        others = False
        for op, arg in items:
            op = str(op)
            if op == 'NEGATE':
                others = not others
            elif op == 'LITERAL':
                literal(arg)
            elif op == 'RANGE':
                if arg[1] - arg[0] > 60:
                    raise Unsupported('regular expression over an opaque string (range)')
                for code in range(arg[0], arg[1] + 1):
                    literal(code)
            elif op == 'CATEGORY' and str(arg) in ('CATEGORY_SPACE', 'CATEGORY_DIGIT', 'CATEGORY_NOT_SPACE', 'CATEGORY_NOT_DIGIT'):
                out.update(WS if 'SPACE' in str(arg) else '0123456789')
                if '_NOT_' in str(arg):
                    others = not others
            else:
                raise Unsupported('regular expression over an opaque string (%s)' % op)
        return others

    def walk(items, repeated):
        for op, arg in items:
            op = str(op)
            if op == 'LITERAL':
                literal(arg)
            elif op in ('NOT_LITERAL', 'ANY', 'IN'):
                others = True
                if op == 'NOT_LITERAL':
                    literal(arg)
                elif op == 'ANY':
                    out.update('' if flags & host_re.DOTALL else '\n')
                else:
                    others = members(arg)
                if others and not repeated:
                    raise Unsupported('regular expression over an opaque string (single characters)')
            elif op in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                lo, hi, body = arg
                walk(body, lo <= 1 and hi == sre_parse.MAXREPEAT and len(body) == 1)
            elif op == 'SUBPATTERN':
                walk(arg[-1], False)
            elif op == 'BRANCH':
                for body in arg[1]:
                    walk(body, False)
            elif op in ('ASSERT', 'ASSERT_NOT'):
                walk(arg[1], False)
            elif op == 'AT' and 'BOUNDARY' not in str(arg):
                out.add('\n')
            else:
                raise Unsupported('regular expression over an opaque string (%s)' % op)
    walk(tree, False)
    return out


def regex_method(I, obj, name, args, kw):
    w = I.world
    if isinstance(obj, AMatch):
        if name == 'group' or name == '__getitem__':
            if not args:
                args = [0]
            r = []
            for a in args:
                if a not in obj.groups:
                    raise I.exc('IndexError', 'no such group')
                r.append(obj.groups[a])
            return r[0] if len(r) == 1 else tuple(r)
        if name == 'groups':
            return tuple(obj.groups[i] for i in sorted(k for k in obj.groups if isinstance(k, int) and k > 0))
        if name in ('start', 'end', 'span'):
            s = obj.spans[args[0] if args else 0]
            if any(is_pua(c) for c in obj.text) and not all(is_tok(I, c) for c in obj.text):
                raise Unsupported('match position in an opaque string')
            if w.resolve(obj.text) != obj.text:
                raise Unsupported('match position in a refined string')
            w.measure(obj.text)
            return s if name == 'span' else s[0 if name == 'start' else 1]
        if name == 'groupdict':
            d = ADict()
            for k in obj.groups:
                if isinstance(k, str):
                    v = obj.groups[k]
                    dict_set(I, d, k, v if v is not None or not args else args[0])
            return d
        raise Unsupported('match.%s' % name)
    if name == 'sub' or name == 'subn':
        repl, text = args[0], args[1]
        count = args[2] if len(args) > 2 else kw.get('count', 0)
    else:
        text = args[0]
    if not is_strlike(text):
        raise I.exc('TypeError', 'expected string')
    enc = w.resolve(w.enc_of(text))
    if any(is_pua(c) for c in enc):
        special = pattern_alphabet(obj.pattern, obj.flags)
        if len(special) <= 4:
            for c in sorted(special):
                enc = w.locate(enc, c)
        if not w.excludes(enc, special):
            raise Unsupported('regular expression over an opaque string')
        for c in enc:
            if is_pua(c):
                p = w.piece_of(c)
                if isinstance(p, Atom) and w.atom_nonempty(p) is None:
                    w.split_empty(p)
                if isinstance(p, Fin) and not all(p.table.values()):
                    w.concretize(p)
    rx = host_re.compile(obj.pattern, obj.flags)

    def mk(m):
        groups = {0: w.mkstr(m.group(0))}
        spans = {0: m.span()}
        for i in range(1, (rx.groups or 0) + 1):
            groups[i] = None if m.group(i) is None else w.mkstr(m.group(i))
            spans[i] = m.span(i)
        for n, i in rx.groupindex.items():
            groups[n] = groups[i]
            spans[n] = spans[i]
        return AMatch(groups, spans, enc)
    if name == 'findall':
        out = []
        for x in rx.findall(enc):
            out.append(w.mkstr(x) if isinstance(x, str) else tuple(w.mkstr(y) for y in x))
        return AList(out)
    if name == 'finditer':
        ms = [mk(m) for m in rx.finditer(enc)]
        return AGen(lambda: ms)
    if name in ('match', 'search', 'fullmatch'):
        m = getattr(rx, name)(enc)
        return None if m is None else mk(m)
    if name == 'split':
        return AList([None if x is None else w.mkstr(x) for x in rx.split(enc, *[to_host(I, a) for a in args[1:]])])
    if name in ('sub', 'subn'):
        out, pos, n = [], 0, 0
        if is_strlike(repl):
            r = w.resolve(w.enc_of(repl))
            literal = '\\' not in r
            if any(is_pua(c) for c in r) and not (literal and w.excludes(r, '\\')):
                raise Unsupported('regex replacement template with opaque parts')
        for m in rx.finditer(enc):
            if count and n >= count:
                break
            out.append(enc[pos:m.start()])
            if is_strlike(repl) and not literal:
                try:
                    out.append(m.expand(r))
                except (host_re.error, IndexError):
                    raise Unsupported('invalid regex replacement')
            else:
                out.append(r if is_strlike(repl) else w.enc_of(I.call(repl, [mk(m)], {})))
            pos = m.end()
            n += 1
        out.append(enc[pos:])
        s = w.mkstr(''.join(out))
        return s if name == 'sub' else (s, n)
    raise Unsupported('re.%s' % name)


def is_tok(I, c):
    if not is_pua(c):
        return True
    p = I.world.piece_of(c)
    return I.world.is_char_piece(c) or (isinstance(p, Atom) and p.name.startswith('tok:'))


# ---------------------------------------------------------------------------
# vocabulary of the specification modules

def spec_builtins(I, m):
    def reg(name):
        def deco(fn):
            m.env[name] = Native(name, fn)
            return fn
        return deco

    @reg('sym')
    def sym(I, args, kw):
        return I.world.symbol(I.label(args[0]), I.iterate(args[1]))

    @reg('opt')
    def opt(I, args, kw):
        """None or a record of the relation"""
        return I.world.symbol(I.label(args[0]), [None] + list(args[1].records))

    @reg('rec')
    def rec(I, args, kw):
        return I.world.symbol(I.label(args[0]), list(args[1].records))

    @reg('each')
    def each(I, args, kw):
        name = I.label(args[0])
        v = I.world.symbol(name, I.iterate(args[1]))
        if isinstance(v, Fin):
            raise NeedSplit([(('fin', name, frozenset((i,))),) for i in I.world.region(name)])
        return v

    @reg('text')
    def text(I, args, kw):
        w = I.world
        name = I.label(args[0])
        a = w.atom(name, forbids=frozenset(kw.get('forbid', '')) | (WS if kw.get('nows') else frozenset()),
                   lower=kw.get('lower', False), stripped=kw.get('stripped', False) or kw.get('nows', False))
        if kw.get('nonempty'):
            if name in w.empty:
                raise Infeasible()
            w.nonempty.add(name)
        return w.mkstr(w.atom_enc(a))

    @reg('token')
    def token(I, args, kw):
        w = I.world
        a = w.atom('tok:' + I.label(args[0]), forbids=frozenset(kw.get('forbid', '')) | WS, lower=kw.get('lower', True), stripped=True)
        w.nonempty.add(a.name)
        if a.name in w.expanded:
            w.expand_first(a)
        return w.mkstr(w.atom_enc(a))

    @reg('char')
    def char(I, args, kw):
        return I.world.symbol(I.label(args[0]), list(kw.get('alphabet', ALPHABET) if not len(args) > 1 else I.iterate(args[1])))

    @reg('integer')
    def integer(I, args, kw):
        return I.world.integer(I.label(args[0]), kw.get('lo'), kw.get('hi'))

    @reg('ordered')
    def ordered(I, args, kw):
        return OrdT(I.label(args[0]), args[1] if len(args) > 1 else 'val', kw.get('lb'))

    @reg('opaque')
    def opaque(I, args, kw):
        return Opq(I.label(args[0]))

    @reg('setsym')
    def setsym(I, args, kw):
        return SetT(('v', I.label(args[0])))

    @reg('meanwhile')
    def meanwhile(I, args, kw):
        """runs the first operation; the second one runs at some point of it"""
        I.guest = (args[1], {})
        try:
            return I.call(args[0], [], {})
        finally:
            I.guest = None

    @reg('assume')
    def assume(I, args, kw):
        if not truth(I, args[0]):
            raise Infeasible()

    @reg('check')
    def check(I, args, kw):
        I.explorer.check(I, args[0], args[1], args[2:] if len(args) > 2 else ())

    @reg('fail')
    def fail(I, args, kw):
        I.explorer.check(I, False, args[0], args[1:])

    @reg('raised')
    def raised(I, args, kw):
        """The exception raised by fn(*args), or None."""
        try:
            I.call(args[0], list(args[1:]), kw)
        except PyExc as e:
            return e.value
        return None

    @reg('outcome')
    def outcome(I, args, kw):
        """('value', v) or ('raise', exception)"""
        try:
            return ('value', I.call(args[0], list(args[1:]), kw))
        except PyExc as e:
            return ('raise', e.value)

    @reg('partial_instance')
    def partial_instance(I, args, kw):
        o = AInst(args[0], partial=True)
        for k, v in kw.items():
            o.attrs[k] = v
        return o

    @reg('possible')
    def possible(I, args, kw):
        v = args[0]
        if isinstance(v, Fin):
            out = []
            for x in v.table.values():
                if not any(I.world.same_value(x, y) for y in out):
                    out.append(x)
            return tuple(out)
        return (v,)

    @reg('load_module')
    def load_module(I, args, kw):
        """the module of the analysed project"""
        return I.load(args[0])

    @reg('migration_names')
    def migration_names(I, args, kw):
        import os
        folder = os.path.dirname(I.module_path('utg.migrations'))
        return AList(sorted(n[:-3] for n in os.listdir(folder) if n.startswith('m_') and n.endswith('.py')))

    @reg('choice_refined')
    def choice_refined(I, args, kw):
        """the analysis has already distinguished outcomes of a random choice"""
        return any(f[0] == 'fin' and f[1].split('#')[0] in ('choice', 'shuffle') for f in I.world.facts)

    @reg('fair')
    def fair(I, args, kw):
        """one outcome of a random draw; args: label, the labels (with repetitions) a fair draw is made from"""
        I.explorer.draws.append((args[0], tuple(I.iterate(args[1])), I.explorer.construct()))

    @reg('json_roundtrip')
    def json_roundtrip(I, args, kw):
        return json_value(I, args[0])

    @reg('same_object')
    def same_object(I, args, kw):
        return args[0] is args[1]

    @reg('concrete')
    def concrete(I, args, kw):
        return I.world.concretize(args[0]) if isinstance(args[0], Fin) else args[0]

    @reg('covered')
    def covered(I, args, kw):
        I.explorer.covered.add(args[0])

    @reg('layout_index')
    def layout_index(I, args, kw):
        from . import layout
        table = layout.reference(I, args[0])[1]

        def one(*key):
            return table[key]
        return I.world.fin_apply(one, list(args[1]))

    @reg('layout_keys')
    def layout_keys(I, args, kw):
        from . import layout
        return AList([tuple(k) for k in layout.reference(I, args[0])[0]])

    @reg('thorough')
    def thorough(I, args, kw):
        return I.explorer.thorough

    @reg('is_text')
    def is_text(I, args, kw):
        return is_strlike(args[0])


def json_value(I, v):
    if isinstance(v, (AList, tuple)):
        return AList([json_value(I, x) for x in (v if isinstance(v, tuple) else v.items)])
    if isinstance(v, ADict):
        d = ADict()
        for k, x in list(v.d.values()):
            if isinstance(k, (AInst, tuple, Rec, ASet)):
                raise I.exc('TypeError', 'keys must be str, int, float, bool or None')
            if k is None:
                k = 'null'
            elif isinstance(k, bool):
                k = 'true' if k else 'false'
            elif not is_strlike(k):
                k = str_(I, k)
            dict_set(I, d, k, json_value(I, x))
        return d
    if isinstance(v, (str, AStr, int, float, bool, type(None), IntT)):
        return v
    if isinstance(v, Fin):
        I.world.fin_apply(lambda x: json_value(I, x), [v])
        return v
    if isinstance(v, OrdT):
        return v
    raise I.exc('TypeError', 'Object is not JSON serializable')
