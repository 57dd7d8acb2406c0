class ChainMap(object):

    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, key):
        for m in self.maps:
            if key in m:
                return m[key]
        raise KeyError(key)

    def get(self, key, default=None):
        return self[key] if key in self else default

    def __contains__(self, key):
        return any(key in m for m in self.maps)

    def __iter__(self):
        d = {}
        for m in reversed(self.maps):
            d.update(dict.fromkeys(m))
        return iter(d)

    def __len__(self):
        return len(list(iter(self)))

    def __bool__(self):
        return any(self.maps)

    def keys(self):
        return list(self)

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def __setitem__(self, key, value):
        self.maps[0][key] = value

    def __delitem__(self, key):
        del self.maps[0][key]

    def new_child(self, m=None):
        return ChainMap({} if m is None else m, *self.maps)


class UserDict(object):

    def __init__(self, data=None, **kw):
        self.data = {}
        if data is not None:
            self.update(data)
        self.update(kw)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, key):
        return self.data[key]

    def __setitem__(self, key, value):
        self.data[key] = value

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, key):
        return key in self.data

    def __eq__(self, other):
        return self.data == (other.data if isinstance(other, UserDict) else other)

    __hash__ = None

    def get(self, key, default=None):
        return self[key] if key in self else default

    def keys(self):
        return self.data.keys()

    def values(self):
        return self.data.values()

    def items(self):
        return self.data.items()

    def update(self, other=(), **kw):
        for k, v in dict(other, **kw).items():
            self[k] = v


class Counter(dict):

    def __init__(self, iterable=None, **kw):
        dict.__init__(self)
        self.update(iterable, **kw)

    def __missing__(self, key):
        return 0

    def update(self, iterable=None, **kw):
        if iterable is not None:
            if isinstance(iterable, dict):
                for k, n in iterable.items():
                    self[k] = self.get(k, 0) + n
            else:
                for k in iterable:
                    self[k] = self.get(k, 0) + 1
        for k, n in kw.items():
            self[k] = self.get(k, 0) + n

    def most_common(self, n=None):
        items = sorted(self.items(), key=lambda pair: pair[1], reverse=True)
        return items if n is None else items[:n]

    def elements(self):
        for k, n in self.items():
            for _ in range(n):
                yield k

    def total(self):
        return sum(self.values())


class defaultdict(dict):

    def __init__(self, default_factory=None, *args, **kw):
        dict.__init__(self, *args, **kw)
        self.default_factory = default_factory

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        value = self[key] = self.default_factory()
        return value

    def copy(self):
        return defaultdict(self.default_factory, self)

    def __copy__(self):
        return self.copy()


class _BoundedDeque(object):

    def __init__(self, items, maxlen):
        self.maxlen = maxlen
        self._items = []
        self.extend(items)

    def append(self, x):
        self._items.append(x)
        if len(self._items) > self.maxlen:
            del self._items[0]

    def appendleft(self, x):
        self._items.insert(0, x)
        if len(self._items) > self.maxlen:
            del self._items[-1]

    def extend(self, items):
        for x in items:
            self.append(x)

    def extendleft(self, items):
        for x in items:
            self.appendleft(x)

    def pop(self):
        return self._items.pop()

    def popleft(self):
        return self._items.pop(0)

    def clear(self):
        del self._items[:]

    def remove(self, x):
        self._items.remove(x)

    def index(self, x):
        return self._items.index(x)

    def count(self, x):
        return self._items.count(x)

    def reverse(self):
        self._items.reverse()

    def rotate(self, n=1):
        for i in range(n):
            self._items.insert(0, self._items.pop())

    def copy(self):
        return _BoundedDeque(self._items, self.maxlen)

    def __iter__(self):
        return iter(self._items)

    def __reversed__(self):
        return reversed(self._items)

    def __len__(self):
        return len(self._items)

    def __contains__(self, x):
        return x in self._items

    def __getitem__(self, i):
        return self._items[i]

    def __setitem__(self, i, x):
        self._items[i] = x

    def __delitem__(self, i):
        del self._items[i]

    def __eq__(self, other):
        return isinstance(other, _BoundedDeque) and self._items == other._items

    __hash__ = None
