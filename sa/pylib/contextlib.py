class suppress(object):

    def __init__(self, *exceptions):
        self.exceptions = exceptions

    def __enter__(self):
        return None

    def __exit__(self, kind, value, trace):
        return kind is not None and issubclass(kind, self.exceptions)


class nullcontext(object):

    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *args):
        return None


class closing(object):

    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *args):
        self.thing.close()


class _GeneratorContextManager(object):

    def __init__(self, gen):
        self.gen = gen

    def __enter__(self):
        return next(self.gen)

    def __exit__(self, kind, value, trace):
        if kind is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            self.gen.throw(value)
        except StopIteration as e:
            return e is not value
        except BaseException as e:
            if e is not value:
                raise
            return False
        raise RuntimeError("generator didn't stop after throw()")

    def __call__(self, func):
        raise NotImplementedError


def contextmanager(func):
    def helper(*args, **kw):
        return _GeneratorContextManager(func(*args, **kw))
    return helper
