class _Missing(object):
    pass


MISSING = _Missing()


class Field(object):

    def __init__(self, default, default_factory, init, repr, compare):
        self.default = default
        self.default_factory = default_factory
        self.init = init
        self.repr = repr
        self.compare = compare
        self.name = None


class FrozenInstanceError(AttributeError):
    pass


def field(*, default=MISSING, default_factory=MISSING, init=True, repr=True, compare=True, hash=None, metadata=None, kw_only=False):
    return Field(default, default_factory, init, repr, compare)


def fields(cls):
    return tuple(cls.__dataclass_fields__.values() if isinstance(cls, type) else type(cls).__dataclass_fields__.values())


def asdict(obj):
    def convert(v):
        if hasattr(type(v), '__dataclass_fields__'):
            return asdict(v)
        if isinstance(v, (list, tuple)):
            return type(v)(convert(x) for x in v)
        if isinstance(v, dict):
            return {convert(k): convert(x) for k, x in v.items()}
        return v
    return {f.name: convert(getattr(obj, f.name)) for f in fields(obj)}


def astuple(obj):
    return tuple(getattr(obj, f.name) for f in fields(obj))


def replace(obj, **changes):
    values = {f.name: getattr(obj, f.name) for f in fields(obj) if f.init}
    values.update(changes)
    return type(obj)(**values)


def is_dataclass(obj):
    return hasattr(obj, '__dataclass_fields__')


def dataclass(cls=None, *, init=True, repr=True, eq=True, order=False, unsafe_hash=False, frozen=False, slots=False, kw_only=False):
    if cls is None:
        return lambda c: dataclass(c, init=init, repr=repr, eq=eq, order=order, unsafe_hash=unsafe_hash, frozen=frozen, slots=slots, kw_only=kw_only)
    table = {}
    for base in reversed(cls.__mro__[1:]):
        if '__dataclass_fields__' in base.__dict__:
            table.update(base.__dict__['__dataclass_fields__'])
    for name in cls.__dict__.get('__annotations__', {}):
        default = cls.__dict__.get(name, MISSING)
        f = default if isinstance(default, Field) else Field(default, MISSING, True, True, True)
        f.name = name
        table[name] = f
        if isinstance(default, Field):
            if f.default is MISSING:
                delattr(cls, name)
            else:
                setattr(cls, name, f.default)
    cls.__dataclass_fields__ = table
    own = cls.__dict__

    def values(self):
        return tuple(getattr(self, f.name) for f in table.values() if f.compare)

    def __init__(self, *args, **kw):
        parameters = [f for f in table.values() if f.init]
        if len(args) > len(parameters) or (args and kw_only):
            raise TypeError('__init__() takes %d positional arguments' % len(parameters))
        given = dict(zip([f.name for f in parameters], args))
        for k, v in kw.items():
            if k in given or k not in [f.name for f in parameters]:
                raise TypeError('__init__() got an unexpected keyword argument')
            given[k] = v
        for f in table.values():
            if f.init and f.name in given:
                value = given[f.name]
            elif f.default_factory is not MISSING:
                value = f.default_factory()
            elif f.default is not MISSING:
                value = f.default
            elif f.init:
                raise TypeError('__init__() missing a required argument')
            else:
                continue
            object.__setattr__(self, f.name, value)
        if hasattr(self, '__post_init__'):
            self.__post_init__()
    if init and '__init__' not in own:
        cls.__init__ = __init__
    if repr and '__repr__' not in own:
        cls.__repr__ = lambda self: '%s(%s)' % (type(self).__name__, ', '.join('%s=%r' % (f.name, getattr(self, f.name)) for f in table.values() if f.repr))
    if eq and '__eq__' not in own:
        def __eq__(self, other):
            if type(other) is not type(self):
                return NotImplemented
            return values(self) == values(other)
        cls.__eq__ = __eq__
    if order:
        def compared(function):
            def method(self, other):
                if type(other) is not type(self):
                    return NotImplemented
                return function(values(self), values(other))
            return method
        cls.__lt__ = compared(lambda a, b: a < b)
        cls.__le__ = compared(lambda a, b: a <= b)
        cls.__gt__ = compared(lambda a, b: a > b)
        cls.__ge__ = compared(lambda a, b: a >= b)
    if '__hash__' not in own:
        if (eq and frozen) or unsafe_hash:
            cls.__hash__ = lambda self: hash(values(self))
        elif eq:
            cls.__hash__ = None
    if frozen:
        def __setattr__(self, name, value):
            raise FrozenInstanceError(name)

        def __delattr__(self, name):
            raise FrozenInstanceError(name)
        cls.__setattr__ = __setattr__
        cls.__delattr__ = __delattr__
    if slots:
        cls.__slots__ = tuple(table)
    return cls
