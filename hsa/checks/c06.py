"""Value-graph equivalence of tesseroid_gravity with its reference for tesseroids of constant density:
sum over the tesseroids of positive volume and non-null density, adaptive splitting against the
distance-size ratio of the field, Gauss-Legendre quadrature of every piece, units and sign; with the
longitudes of points and tesseroids in any continuous range."""

from .common import GVN, cases, spec_check

__doc__ += " " + GVN
ASSUMES = ["numpy.polynomial.legendre.leggauss is an uninterpreted function"]


def check(ctx):
    spec_check(ctx, cases(ctx, "tesseroid_gravity", select=lambda c: not c.info.get("variable")), ["value"])
