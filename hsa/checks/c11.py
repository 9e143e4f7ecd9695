"""The gravity and magnetic fields of one and of several ellipsoids (with and without each property) are compared with
a reference in the body's own axes that uses symmetric elliptic integrals and the confocal coordinate as a root of its cubic, so that
no ordering of the semi-axes and no special case of a spheroid or sphere appears in it. Semi-axes are
sampled in every order, equal, nearly equal and different; points inside and outside."""

from .common import GVN, cases, spec_check

__doc__ += " " + GVN


def check(ctx):
    cs = cases(ctx, "ellipsoid", apis=("ellipsoid_gravity", "ellipsoid_magnetic"))
    spec_check(ctx, cs, ["value"], limit=300)
    spec_check(ctx, cs, ["warnings"])
