"""Abstract values of the analysis.

Concrete program constants are represented by host values (None, bool, int,
float, str, tuple).  Everything else is one of the classes below:

  Fin    finite function of one or more finite symbols (value-set domain)
  IntT   +/-n + c for an integer symbol n (interval x residue domain)
  DivT   (n // d) waiting for a modulus
  OrdT   opaque value known only through comparisons (order domain)
  AStr   free-monoid word over literal characters and opaque string atoms
  SetT   opaque set, known only through subset/emptiness/equality predicates
  Opq    opaque object known only by identity
  HashT  result of hash()
  heap   AList ADict ASet AInst AGen LazyMap LazyDict (concrete shape)
"""


class Unsupported(Exception):
    """The construct is outside the analysed subset: no verdict."""


class OutOfTime(Unsupported):
    """The clock ran out in the middle of a class."""


class NeedSplit(Exception):
    """The current partition class must be refined before going on."""

    def __init__(self, alternatives):
        Exception.__init__(self, 'split')
        self.alternatives = alternatives


class Infeasible(Exception):
    """The current partition class is empty."""


class Violated(Exception):
    pass


class PyExc(Exception):
    """An exception of the analysed program."""

    def __init__(self, value):
        Exception.__init__(self, 'python exception')
        self.value = value


class Fin(object):
    __slots__ = ('syms', 'table', '_key')

    def __init__(self, syms, table):
        self.syms = syms
        self.table = table
        self._key = None

    def values(self):
        return list(self.table.values())


class IntT(object):
    __slots__ = ('sym', 'sgn', 'off')

    def __init__(self, sym, sgn, off):
        self.sym, self.sgn, self.off = sym, sgn, off


class DivT(object):
    __slots__ = ('base', 'div')

    def __init__(self, base, div):
        self.base, self.div = base, div


class OrdT(object):
    __slots__ = ('name', 'kind', 'lb', 'ub')

    def __init__(self, name, kind='val', lb=None, ub=None):
        self.name, self.kind, self.lb, self.ub = name, kind, lb, ub


class AStr(object):
    __slots__ = ('enc',)

    def __init__(self, enc):
        self.enc = enc


class ABytes(object):
    __slots__ = ('enc',)

    def __init__(self, enc):
        self.enc = enc


class Atom(object):
    """An opaque string: every string over the characters it does not forbid."""
    __slots__ = ('name', 'forbids', 'lower', 'stripped', 'alphabet')

    def __init__(self, name, forbids=frozenset(), lower=False, stripped=False, alphabet=None):
        self.name, self.forbids, self.lower, self.stripped, self.alphabet = name, forbids, lower, stripped, alphabet


class SetT(object):
    __slots__ = ('expr',)

    def __init__(self, expr):
        self.expr = expr


class Opq(object):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class HashT(object):
    __slots__ = ('term',)

    def __init__(self, term):
        self.term = term


class Heap(object):
    """Mutable objects: copy-on-first-write per run so that module-level state
    is restored after every partition class."""
    __slots__ = ('epoch', 'owner')
    FIELDS = ()

    def touch(self):
        rt = Heap.runtime
        if rt is not None and self.epoch != rt.epoch:
            rt.undo.append((self, self.save()))
            self.epoch = rt.epoch


Heap.runtime = None


class AList(Heap):
    __slots__ = ('items', 'src')

    def __init__(self, items, src=None):
        self.items = items
        self.src = src         # the dict whose view this is
        self.epoch = Heap.runtime.epoch if Heap.runtime else 0

    def save(self):
        return list(self.items)

    def restore(self, state):
        self.items = state


class ADict(Heap):
    __slots__ = ('d', 'symbolic', 'factory', 'owner')

    def __init__(self):
        self.owner = None      # the object whose attributes these are
        self.d = {}            # host key -> (key, value)
        self.symbolic = 0      # number of non rigid keys
        self.factory = None
        self.epoch = Heap.runtime.epoch if Heap.runtime else 0

    def save(self):
        return (dict(self.d), self.symbolic)

    def restore(self, state):
        self.d, self.symbolic = state


class ASet(Heap):
    __slots__ = ('d', 'symbolic', 'frozen', 'src')

    def __init__(self, frozen=False, src=None):
        self.src = src         # the dict whose keys these are (in order)
        self.d = {}
        self.symbolic = 0
        self.frozen = frozen
        self.epoch = Heap.runtime.epoch if Heap.runtime else 0

    def save(self):
        return (dict(self.d), self.symbolic)

    def restore(self, state):
        self.d, self.symbolic = state


class AInst(Heap):
    __slots__ = ('cls', 'attrs', 'partial', 'name')

    def __init__(self, cls, partial=False, name=None):
        self.cls = cls
        self.attrs = {}
        self.partial = partial
        self.name = name
        self.epoch = Heap.runtime.epoch if Heap.runtime else 0

    def save(self):
        return dict(self.attrs)

    def restore(self, state):
        self.attrs = state


class AGen(Heap):
    """An iterator: produces its items on demand.  Items already produced are
    kept, so that a partition class which starts from an iterator held by a
    module sees the same items as the previous one."""
    __slots__ = ('thunk', 'items', 'pos', 'it', 'ret', 'closed')

    def __init__(self, thunk=None, items=None):
        self.thunk = thunk
        self.items = [] if items is None else items
        self.it = None
        self.ret = None
        self.closed = False
        self.pos = 0
        self.epoch = Heap.runtime.epoch if Heap.runtime else 0

    def save(self):
        return (self.pos, self.closed)

    def restore(self, state):
        self.pos, self.closed = state

    def advance(self, sent=None):
        """the next item; StopIteration (of the host) at the end"""
        self.touch()
        if self.closed:
            raise StopIteration()
        if self.pos < len(self.items):
            self.pos += 1
            return self.items[self.pos - 1]
        if self.it is None:
            if self.thunk is None:
                raise StopIteration()
            thunk, self.thunk = self.thunk, None
            self.it = iter(thunk())
        if len(self.items) > 20000:
            raise Unsupported('generator bound')
        if getattr(self.it, 'gi_running', False):
            raise Unsupported('generator re-entered')
        try:
            x = self.it.send(sent) if sent is not None else next(self.it)
        except StopIteration as e:
            self.it = iter(())
            self.ret = e.value
            raise StopIteration()
        except PyExc:
            self.it = iter(())
            raise
        except BaseException:
            self.it = broken()
            raise
        self.items.append(x)
        self.pos += 1
        return x


    def throw(self, exc):
        """raise the exception at the point where the iterator stands"""
        self.touch()
        if self.closed:
            raise exc
        if self.pos < len(self.items):
            raise Unsupported('exception thrown into a replayed iterator')
        if self.it is None:
            self.closed = True
            raise exc
        if not hasattr(self.it, 'gi_frame'):
            raise Unsupported('exception thrown into a library iterator')
        try:
            x = self.it.throw(exc)
        except StopIteration as e:
            self.it = iter(())
            self.ret = e.value
            raise
        except PyExc:
            self.it = iter(())
            raise
        except BaseException:
            self.it = broken()
            raise
        self.items.append(x)
        self.pos += 1
        return x


def broken():
    raise Unsupported('generator interrupted by a refinement')
    yield


class ARange(object):
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __len__(self):
        return len(range(self.start, self.stop, self.step))


class ASlice(object):
    """slice(start, stop, step)"""
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


BIG_RANGE = 400


class LazyMap(object):
    """[f(i) for i in range]: elements are computed on demand, also for a
    symbolic index, so the whole (large) range is covered by one evaluation."""
    __slots__ = ('rng', 'fn', 'kind', 'keyed', 'used')

    def __init__(self, rng, fn, kind='list', keyed=False):
        self.rng, self.fn, self.kind = rng, fn, kind
        self.keyed = keyed                  # the elements are pairs (i, ...)
        self.used = False

    def take(self, kind):
        """the elements in another container; a generator gives them once"""
        if self.kind == 'gen':
            if self.used:
                raise Unsupported('second pass over a large lazy sequence')
            self.used = True
        return LazyMap(self.rng, self.fn, kind, self.keyed)


class LazyDict(object):
    """{i: f(i) for i in range}"""
    __slots__ = ('rng', 'fn')

    def __init__(self, rng, fn):
        self.rng, self.fn = rng, fn


class Rec(object):
    """Record of a `rels` relation."""
    __slots__ = ('rel', 'cols', 'index')

    def __init__(self, rel, cols, index):
        self.rel, self.cols, self.index = rel, cols, index

    @property
    def name(self):
        return self.cols.get('name')

    def __repr__(self):
        return '%s.%s' % (self.rel.name, self.cols.get('name'))


class AClass(Heap):
    __slots__ = ('name', 'bases', 'env', 'module', 'native', 'mro', 'node')

    def __init__(self, name, bases, env, module=None, native=False):
        self.name, self.bases, self.env, self.module, self.native = name, bases, env, module, native
        self.node = None
        self.epoch = Heap.runtime.epoch if Heap.runtime else 0
        mro = [self]
        for base in bases:
            for c in base.mro:
                if c in mro:
                    mro.remove(c)
                mro.append(c)
        self.mro = mro

    def lookup(self, name):
        for c in self.mro:
            if name in c.env:
                return c.env[name]
        return MISSING

    def cls_getitem(self):
        return any(c.name == 'Generic' and c.module is not None and c.module.name == 'typing' for c in self.mro)

    def subclass_of(self, other):
        return other in self.mro

    def save(self):
        return dict(self.env)

    def restore(self, state):
        self.env.clear()
        self.env.update(state)

    def __repr__(self):
        return '<class %s>' % self.name


class RelClass(AClass):
    __slots__ = ('columns', 'records', 'raw')


class AColumn(object):
    counter = [0]

    def __init__(self, **kw):
        AColumn.counter[0] += 1
        self.order = AColumn.counter[0]
        self.kw = kw
        self.name = None


class AModule(Heap):
    __slots__ = ('name', 'env', 'path', 'is_spec', 'loaded', 'tree', 'native')

    def __init__(self, name, path=None, is_spec=False):
        self.name, self.path, self.is_spec = name, path, is_spec
        self.env = {}
        self.loaded = False
        self.tree = None
        self.native = False
        self.epoch = Heap.runtime.epoch if Heap.runtime else 0

    def save(self):
        return dict(self.env)

    def restore(self, state):
        self.env.clear()
        self.env.update(state)


class AFunc(object):
    __slots__ = ('node', 'name', 'module', 'frame', 'defaults', 'kwdefaults', 'cls', 'locals', 'is_gen', 'qual', 'memo', 'globals_', 'nonlocals', 'attrs')


class BoundMethod(object):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class Native(object):
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class BoundNative(object):
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class AProperty(object):
    __slots__ = ('fget', 'fset', 'fdel')

    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class ACached(object):
    """functools.cached_property"""
    __slots__ = ('func', 'name')

    def __init__(self, func):
        self.func, self.name = func, getattr(func, 'name', None)


class AClassMethod(object):
    __slots__ = ('func',)

    def __init__(self, func):
        self.func = func


class AStaticMethod(object):
    __slots__ = ('func',)

    def __init__(self, func):
        self.func = func


class ASuper(object):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ARegex(object):
    __slots__ = ('pattern', 'flags')

    def __init__(self, pattern, flags):
        self.pattern, self.flags = pattern, flags


class AMatch(object):
    __slots__ = ('groups', 'spans', 'text')

    def __init__(self, groups, spans, text):
        self.groups, self.spans, self.text = groups, spans, text


class _Missing(object):
    def __repr__(self):
        return '<missing>'


MISSING = _Missing()


class _Ellipsis(object):
    pass


NOTIMPL = _Missing()
