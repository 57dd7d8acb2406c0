def cmp_to_key(mycmp):
    class K(object):
        __slots__ = ('obj',)

        def __init__(self, obj):
            self.obj = obj

        def __lt__(self, other):
            return mycmp(self.obj, other.obj) < 0

        def __gt__(self, other):
            return mycmp(self.obj, other.obj) > 0

        def __eq__(self, other):
            return mycmp(self.obj, other.obj) == 0

        def __le__(self, other):
            return mycmp(self.obj, other.obj) <= 0

        def __ge__(self, other):
            return mycmp(self.obj, other.obj) >= 0

        __hash__ = None
    return K


def total_ordering(cls):
    have = set(op for op in ('__lt__', '__le__', '__gt__', '__ge__') if any(op in c.__dict__ for c in cls.__mro__))
    if not have:
        raise ValueError('must define at least one ordering operation: < > <= >=')

    def define(name, function):
        if name not in have:
            setattr(cls, name, function)
    if '__lt__' in have:
        define('__gt__', lambda self, other: not self.__lt__(other) and self != other)
        define('__le__', lambda self, other: self.__lt__(other) or self == other)
        define('__ge__', lambda self, other: not self.__lt__(other))
    elif '__le__' in have:
        define('__ge__', lambda self, other: not self.__le__(other) or self == other)
        define('__lt__', lambda self, other: self.__le__(other) and self != other)
        define('__gt__', lambda self, other: not self.__le__(other))
    elif '__gt__' in have:
        define('__lt__', lambda self, other: not self.__gt__(other) and self != other)
        define('__ge__', lambda self, other: self.__gt__(other) or self == other)
        define('__le__', lambda self, other: not self.__gt__(other))
    else:
        define('__le__', lambda self, other: not self.__ge__(other) or self == other)
        define('__gt__', lambda self, other: self.__ge__(other) and self != other)
        define('__lt__', lambda self, other: not self.__ge__(other))
    return cls


def singledispatch(func):
    registry = {}

    def register(cls, function=None):
        if not isinstance(cls, type):
            return register([note for name, note in cls.__annotations__.items() if name != 'return'][0], cls)
        if function is None:
            return lambda f: register(cls, f)
        registry[cls] = function
        return function

    def wrapper(*args, **kw):
        for c in type(args[0]).__mro__:
            if c in registry:
                return registry[c](*args, **kw)
        return func(*args, **kw)
    wrapper.register = register
    return wrapper


class partialmethod(object):

    def __init__(self, func, *args, **keywords):
        self.func = func
        self.args = args
        self.keywords = keywords

    def __get__(self, obj, cls=None):
        if obj is None:
            return self

        def method(*args, **keywords):
            return self.func(obj, *(self.args + args), **{**self.keywords, **keywords})
        return method
