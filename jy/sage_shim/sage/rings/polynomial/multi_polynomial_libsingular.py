from minisage import Poly


class MPolynomial_libsingular(object):
  """the unbound methods GRF calls"""
  resultant = staticmethod(lambda p, q, x: Poly.resultant(p, q, x))
  discriminant = staticmethod(lambda p, x: Poly.discriminant(p, x))
  coefficient = staticmethod(lambda p, d: Poly.coefficient(p, d))
  degree = staticmethod(lambda p, x=None: Poly.degree(p, x))
