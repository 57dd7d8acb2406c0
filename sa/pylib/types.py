class SimpleNamespace(object):

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def __eq__(self, other):
        if not isinstance(other, SimpleNamespace):
            return NotImplemented
        return vars(self) == vars(other)

    __hash__ = None


class MappingProxyType(object):
    __slots__ = ('_mapping',)

    def __init__(self, mapping):
        self._mapping = mapping

    def __getitem__(self, key):
        return self._mapping[key]

    def __contains__(self, key):
        return key in self._mapping

    def __iter__(self):
        return iter(self._mapping)

    def __len__(self):
        return len(self._mapping)

    def __eq__(self, other):
        return self._mapping == (other._mapping if isinstance(other, MappingProxyType) else other)

    __hash__ = None

    def get(self, key, default=None):
        return self._mapping.get(key, default)

    def keys(self):
        return self._mapping.keys()

    def values(self):
        return self._mapping.values()

    def items(self):
        return self._mapping.items()

    def copy(self):
        return self._mapping.copy()
