"""Every entry (degree, order) of the tables of associated Legendre functions, and of the tables of
derivatives computed from them, compared with the closed form of the functions (a finite sum of powers
and factorials, another algorithm than the recursions of the package), for the three normalisations. The
tables start filled with a mark, so an entry that is never written differs."""

from .common import GVN, cases, spec_check

__doc__ += " " + GVN


def check(ctx):
    spec_check(ctx, cases(ctx, "legendre"), ["value"], comparer={"want": 112, "tries": 112})
