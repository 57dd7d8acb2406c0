def count(start=0, step=1):
    while True:
        yield start
        start = start + step


def cycle(iterable):
    saved = list(iterable)
    while saved:
        for x in saved:
            yield x


def repeat(value, times=None):
    while times is None or times > 0:
        yield value
        if times is not None:
            times = times - 1


def accumulate(iterable, func=None, *, initial=None):
    first = True
    total = None
    if initial is not None:
        total, first = initial, False
        yield total
    for x in iterable:
        if first:
            total, first = x, False
        elif func is None:
            total = total + x
        else:
            total = func(total, x)
        yield total


def starmap(func, iterable):
    for args in iterable:
        yield func(*args)


def takewhile(predicate, iterable):
    for x in iterable:
        if not predicate(x):
            return
        yield x


def dropwhile(predicate, iterable):
    dropping = True
    for x in iterable:
        if dropping and predicate(x):
            continue
        dropping = False
        yield x


def filterfalse(predicate, iterable):
    for x in iterable:
        if not (x if predicate is None else predicate(x)):
            yield x


def compress(data, selectors):
    for x, s in zip(data, selectors):
        if s:
            yield x


def pairwise(iterable):
    first = True
    previous = None
    for x in iterable:
        if not first:
            yield (previous, x)
        first = False
        previous = x


def groupby(iterable, key=None):
    # groups are collected before they are handed out
    group, current, started = [], None, False
    for x in iterable:
        k = x if key is None else key(x)
        if started and k == current:
            group.append(x)
            continue
        if started:
            yield (current, iter(group))
        group, current, started = [x], k, True
    if started:
        yield (current, iter(group))


def tee(iterable, n=2):
    items = list(iterable)
    return tuple(iter(items) for _ in range(n))


def batched(iterable, n):
    batch = []
    for x in iterable:
        batch.append(x)
        if len(batch) == n:
            yield tuple(batch)
            batch = []
    if batch:
        yield tuple(batch)
