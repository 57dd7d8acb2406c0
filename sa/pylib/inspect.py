def isclass(object):
    return isinstance(object, type)


def ismodule(object):
    import types
    return isinstance(object, types.ModuleType)


def isfunction(object):
    import types
    return isinstance(object, types.FunctionType)


def getmembers(object, predicate=None):
    return [(name, getattr(object, name)) for name in sorted(vars(object))
            if predicate is None or predicate(getattr(object, name))]
