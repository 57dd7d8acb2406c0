def contains(a, b):
    return b in a


def not_(a):
    return not a


def truth(a):
    return True if a else False


def is_not(a, b):
    return a is not b


def neg(a):
    return -a


def pos(a):
    return a


def inv(a):
    return ~a


invert = inv
abs = abs


def floordiv(a, b):
    return a // b


def truediv(a, b):
    return a / b


def pow(a, b):
    return a ** b


def xor(a, b):
    return a ^ b


def lshift(a, b):
    return a << b


def rshift(a, b):
    return a >> b


def getitem(a, b):
    return a[b]


def setitem(a, b, c):
    a[b] = c


def delitem(a, b):
    del a[b]


def concat(a, b):
    return a + b


def iadd(a, b):
    a += b
    return a


def ior(a, b):
    a |= b
    return a


def countOf(a, b):
    return sum(1 for x in a if x == b)


def indexOf(a, b):
    for i, x in enumerate(a):
        if x == b:
            return i
    raise ValueError('sequence.index(x): x not in sequence')


def length_hint(a, default=0):
    return len(a)


def methodcaller(name, *args, **kw):
    return lambda obj: getattr(obj, name)(*args, **kw)
