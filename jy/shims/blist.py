"""Stand-in for the blist package (a C extension that is not installed here):
sortedset with blist's documented behaviour - a set by equality, kept in the order of
its key, items with equal keys in the order of insertion."""


class sortedset(object):
  def __init__(self, iterable=(), key=None):
    self._key = key
    self._items = []
    self._keys = []
    for v in iterable:
      self.add(v)

  def _k(self, v):
    return v if self._key is None else self._key(v)

  def _left(self, k):
    lo, hi = 0, len(self._items)
    while lo < hi:
      mid = (lo + hi) // 2
      if self._keys[mid] < k:
        lo = mid + 1
      else:
        hi = mid
    return lo

  def _right(self, k):
    lo, hi = 0, len(self._items)
    while lo < hi:
      mid = (lo + hi) // 2
      if k < self._keys[mid]:
        hi = mid
      else:
        lo = mid + 1
    return lo

  def _find(self, v):
    k = self._k(v)
    i = self._left(k)
    while i < len(self._items):
      if self._items[i] == v:
        return i
      if k < self._keys[i]:
        break
      i += 1
    return -1

  def __contains__(self, v):
    return self._find(v) >= 0

  def add(self, v):
    if v in self:
      return
    k = self._k(v)
    i = self._right(k)
    self._items.insert(i, v)
    self._keys.insert(i, k)

  def update(self, *its):
    for it in its:
      for v in it:
        self.add(v)

  def discard(self, v):
    i = self._find(v)
    if i >= 0:
      del self._items[i]
      del self._keys[i]

  def remove(self, v):
    if self._find(v) < 0:
      raise KeyError(v)
    self.discard(v)

  def pop(self, i=-1):
    v = self._items.pop(i)
    self._keys.pop(i)
    return v

  def index(self, v):
    i = self._find(v)
    if i < 0:
      raise ValueError(v)
    return i

  def clear(self):
    del self._items[:]
    del self._keys[:]

  def copy(self):
    r = sortedset(key=self._key)
    r._items, r._keys = list(self._items), list(self._keys)
    return r

  def __len__(self):
    return len(self._items)

  def __iter__(self):
    return iter(list(self._items))

  def __reversed__(self):
    return reversed(list(self._items))

  def __getitem__(self, i):
    if isinstance(i, slice):
      r = sortedset(key=self._key)
      r._items, r._keys = self._items[i], self._keys[i]
      return r
    return self._items[i]

  def __getslice__(self, i, j):
    return self[slice(i, j)]

  def __delitem__(self, i):
    del self._items[i]
    del self._keys[i]

  def __eq__(self, other):
    return len(self) == len(other) and all(v in self for v in other)

  def __ne__(self, other):
    return not self == other

  def union(self, *its):
    r = self.copy()
    r.update(*its)
    return r

  __or__ = union

  def __repr__(self):
    return 'sortedset(%r)' % (self._items,)


class sortedlist(sortedset):
  def add(self, v):
    k = self._k(v)
    i = self._right(k)
    self._items.insert(i, v)
    self._keys.insert(i, k)


blist = list
