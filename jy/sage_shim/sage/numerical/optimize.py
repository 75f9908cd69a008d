def minimize(*a, **k):
  raise NotImplementedError('not used by GRF')
