"""A sanitizer for uninitialised memory: np.empty hands out poison.

np.empty and np.empty_like return whatever the allocator had, usually zeros, so
code that reads an entry it never wrote looks right most of the time. Here every
such array is filled with NaN (floats) or an extreme number (integers), so that
a read of an unwritten entry reaches the oracles every time.
"""
import numpy as np

fills = 0


def _fill(a):
  global fills
  try:
    if a.nbytes > 1 << 26:  # a lazily mapped buffer; do not touch its pages
      return a
    k = a.dtype.kind
    if k in 'fc':
      a.fill(np.nan)
    elif k == 'i':
      a.fill(np.iinfo(a.dtype).min + 7)
    elif k == 'u':
      a.fill(np.iinfo(a.dtype).max - 7)
    else:
      return a
    fills += 1
  except (AttributeError, ValueError, TypeError):
    pass
  return a


def install():
  if getattr(np.empty, 'poisoned', False):
    return
  empty, empty_like = np.empty, np.empty_like

  def poisoned_empty(*a, **kw):
    return _fill(empty(*a, **kw))

  def poisoned_empty_like(*a, **kw):
    return _fill(empty_like(*a, **kw))
  poisoned_empty.poisoned = poisoned_empty_like.poisoned = True
  np.empty, np.empty_like = poisoned_empty, poisoned_empty_like
