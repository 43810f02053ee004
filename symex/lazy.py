"""Lists whose contents are decided (forked) only when first looked at."""
from . import hooks


class LazyList(list):
    def __init__(self, thunks):
        super().__init__()
        self._thunks = thunks

    def _force(self):
        if self._thunks is not None:
            t, self._thunks = self._thunks, None
            for f in t:
                list.extend(self, f())

    @property
    def __class__(self):
        return list


def _wrap(name):
    base = getattr(list, name)

    def f(self, *a, **k):
        self._force()
        return base(self, *a, **k)
    f.__name__ = name
    return f


for _n in ("__iter__ __len__ __getitem__ __setitem__ __delitem__ __contains__ __eq__ __ne__ __add__ __iadd__ "
           "__mul__ __reversed__ append extend insert remove pop clear index count sort reverse copy "
           "__repr__ __lt__ __le__ __gt__ __ge__").split():
    setattr(LazyList, _n, _wrap(_n))
LazyList.__hash__ = None
hooks._LAZY.add(LazyList)


def _bool(self):
    self._force()
    return list.__len__(self) > 0


LazyList.__bool__ = _bool


def _copy(self, *a):
    self._force()
    import copy
    return [copy.deepcopy(x) for x in self]


LazyList.__deepcopy__ = _copy
LazyList.__copy__ = lambda self: self[:]


def _slice(self, k):
    self._force()
    return list.__getitem__(self, k)


LazyList.__getitem__ = _slice
