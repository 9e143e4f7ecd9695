"""Reference of the ellipsoids (read by the analyser, never executed)."""

import warnings
from collections.abc import Iterable, Sequence
from numbers import Real

import numpy as np
from scipy.constants import mu_0
from scipy.special import elliprd

from harmonica.errors import NoPhysicalPropertyWarning


class Ellipsoid:
    def __init__(self, a, b, c, yaw=0.0, pitch=0.0, roll=0.0, center=(0.0, 0.0, 0.0), *, density=None,
                 susceptibility=None, remanent_mag=None):
        self.a = a
        self.b = b
        self.c = c
        self.yaw = yaw
        self.pitch = pitch
        self.roll = roll
        self.center = center
        self.density = density
        self.susceptibility = susceptibility
        self.remanent_mag = remanent_mag

    @property
    def a(self):
        return self.axis1

    @a.setter
    def a(self, value):
        self.axis1 = positive(value)

    @property
    def b(self):
        return self.axis2

    @b.setter
    def b(self, value):
        self.axis2 = positive(value)

    @property
    def c(self):
        return self.axis3

    @c.setter
    def c(self, value):
        self.axis3 = positive(value)

    @property
    def density(self):
        return self.rho

    @density.setter
    def density(self, value):
        if value is not None and not isinstance(value, Real):
            raise TypeError("density")
        self.rho = value

    @property
    def susceptibility(self):
        return self.chi

    @susceptibility.setter
    def susceptibility(self, value):
        if isinstance(value, np.ndarray):
            if value.shape != (3, 3):
                raise ValueError("susceptibility")
        elif value is not None and not isinstance(value, Real):
            raise TypeError("susceptibility")
        self.chi = value

    @property
    def remanent_mag(self):
        return self.remanence

    @remanent_mag.setter
    def remanent_mag(self, value):
        if isinstance(value, (np.ndarray, Sequence)):
            if np.asarray(value).shape != (3,):
                raise ValueError("remanent_mag")
        elif value is not None:
            raise TypeError("remanent_mag")
        self.remanence = value

    @property
    def rotation_matrix(self):
        return get_rotation_matrix(self.yaw, self.pitch, self.roll)


def positive(value):
    if value <= 0:
        raise ValueError("semi-axis")
    return value


def get_rotation_matrix(yaw, pitch, roll):
    # roll about x, then pitch (upwards) about y, then yaw about z: body axes to local ones
    y, q, r = np.radians(yaw), np.radians(-pitch), np.radians(roll)
    about_z = np.array([[np.cos(y), -np.sin(y), 0.0], [np.sin(y), np.cos(y), 0.0], [0.0, 0.0, 1.0]])
    about_y = np.array([[np.cos(q), 0.0, np.sin(q)], [0.0, 1.0, 0.0], [-np.sin(q), 0.0, np.cos(q)]])
    about_x = np.array([[1.0, 0.0, 0.0], [0.0, np.cos(r), -np.sin(r)], [0.0, np.sin(r), np.cos(r)]])
    return about_z @ about_y @ about_x


# harnesses: what reading an attribute gives after construction or assignment


def created_a(cls, value):
    return cls(value, 2.0, 3.0).a


def created_b(cls, value):
    return cls(1.0, value, 3.0).b


def created_c(cls, value):
    return cls(1.0, 2.0, value).c


def created_density(cls, value):
    return cls(1.0, 2.0, 3.0, density=value).density


def created_susceptibility(cls, value):
    return cls(1.0, 2.0, 3.0, susceptibility=value).susceptibility


def created_remanent_mag(cls, value):
    return cls(1.0, 2.0, 3.0, remanent_mag=value).remanent_mag


def created_rotation_matrix(cls, value):
    return cls(1.0, 2.0, 3.0, value[0], value[1], value[2]).rotation_matrix


def created_others(cls, value):
    e = cls(value[0] ** 2 + 1, 2.0, value[1] ** 2 + 1, yaw=value[2], pitch=value[3], roll=value[4],
            center=(value[5], value[6], value[7]), density=value[8])
    return e.a, e.b, e.c, e.yaw, e.pitch, e.roll, e.center, e.density, e.susceptibility, e.remanent_mag


def assigned_a(cls, value):
    e = cls(1.0, 2.0, 3.0)
    e.a = value
    return e.a, e.b, e.c


def assigned_b(cls, value):
    e = cls(1.0, 2.0, 3.0)
    e.b = value
    return e.a, e.b, e.c


def assigned_c(cls, value):
    e = cls(1.0, 2.0, 3.0)
    e.c = value
    return e.a, e.b, e.c


def assigned_density(cls, value):
    e = cls(1.0, 2.0, 3.0, density=7.0)
    e.density = value
    return e.density, e.susceptibility, e.remanent_mag


def assigned_susceptibility(cls, value):
    e = cls(1.0, 2.0, 3.0, susceptibility=7.0)
    e.susceptibility = value
    return e.density, e.susceptibility, e.remanent_mag


def assigned_remanent_mag(cls, value):
    e = cls(1.0, 2.0, 3.0, remanent_mag=(1.0, 2.0, 3.0))
    e.remanent_mag = value
    return e.density, e.susceptibility, e.remanent_mag


# fields

GRAVITATIONAL = 6.6743e-11


def ellipsoid_gravity(coordinates, ellipsoids):
    shape = np.broadcast(*coordinates).shape
    ge = gn = gu = 0.0
    for body in ellipsoids if isinstance(ellipsoids, Iterable) else [ellipsoids]:
        if body.density is None:
            warnings.warn("no density", NoPhysicalPropertyWarning)
            continue
        rot = body.rotation_matrix
        local = into_axes(rot, displacement(coordinates, body.center))
        a, b, c = body.a, body.b, body.c
        lam = np.where(inside(local, a, b, c), 0.0, confocal(local, a, b, c))
        factor = -2 * np.pi * GRAVITATIONAL * body.density * a * b * c
        g1, g2, g3 = integrals(a, b, c, lam)
        field = (factor * local[0] * g1, factor * local[1] * g2, factor * local[2] * g3)
        ge = ge + rot[0, 0] * field[0] + rot[0, 1] * field[1] + rot[0, 2] * field[2]
        gn = gn + rot[1, 0] * field[0] + rot[1, 1] * field[1] + rot[1, 2] * field[2]
        gu = gu + rot[2, 0] * field[0] + rot[2, 1] * field[1] + rot[2, 2] * field[2]
    return tuple((g * 1e5 + np.zeros(shape)).reshape(shape) for g in (ge, gn, -gu))


def ellipsoid_magnetic(coordinates, ellipsoids, inducing_field):
    shape = np.broadcast(*coordinates).shape
    h = [1e-9 * inducing_field[k] / mu_0 for k in range(3)]
    be = bn = bu = 0.0
    for body in ellipsoids if isinstance(ellipsoids, Iterable) else [ellipsoids]:
        chi, remanent = body.susceptibility, body.remanent_mag
        if chi is None and remanent is None:
            warnings.warn("no magnetic property", NoPhysicalPropertyWarning)
            continue
        rot = body.rotation_matrix
        local = into_axes(rot, displacement(coordinates, body.center))
        axes = (body.a, body.b, body.c)
        volume = body.a * body.b * body.c / 2
        n0 = [volume * g for g in integrals(*axes, 0.0)]
        h0 = into_axes(rot, h)
        # susceptibility tensor in the axes of the body
        if chi is None:
            x = [[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]
        elif isinstance(chi, Real):
            x = [[chi, 0.0, 0.0], [0.0, chi, 0.0], [0.0, 0.0, chi]]
        else:
            x = [[chi[i, j] for j in range(3)] for i in range(3)]
        rem = into_axes(rot, remanent) if remanent is not None else (0.0, 0.0, 0.0)
        # magnetization with demagnetization: m = remanent + chi (h0 - N m)
        lhs = [[(1.0 if i == j else 0.0) + x[i][j] * n0[j] for j in range(3)] for i in range(3)]
        rhs = [rem[i] + x[i][0] * h0[0] + x[i][1] * h0[1] + x[i][2] * h0[2] for i in range(3)]
        m = solve(lhs, rhs)
        lam = confocal(local, *axes)
        g = integrals(*axes, lam)
        root = np.sqrt((axes[0] ** 2 + lam) * (axes[1] ** 2 + lam) * (axes[2] ** 2 + lam))
        steep = sum((local[k] / (axes[k] ** 2 + lam)) ** 2 for k in range(3))
        is_in = inside(local, *axes)
        field = []
        for i in range(3):
            grad = 2 * local[i] / (axes[i] ** 2 + lam) / steep
            out = -volume * g[i] * m[i]
            for j in range(3):
                out = out + volume * grad * local[j] / ((axes[j] ** 2 + lam) * root) * m[j]
            field.append(mu_0 * np.where(is_in, m[i] - n0[i] * m[i], out))
        be = be + rot[0, 0] * field[0] + rot[0, 1] * field[1] + rot[0, 2] * field[2]
        bn = bn + rot[1, 0] * field[0] + rot[1, 1] * field[1] + rot[1, 2] * field[2]
        bu = bu + rot[2, 0] * field[0] + rot[2, 1] * field[1] + rot[2, 2] * field[2]
    return tuple((1e9 * f + np.zeros(shape)).reshape(shape) for f in (be, bn, bu))


def displacement(coordinates, center):
    return [coordinates[k] - center[k] for k in range(3)]


def into_axes(rot, v):
    # components along the axes of the body: transposed rotation
    return [rot[0, k] * v[0] + rot[1, k] * v[1] + rot[2, k] * v[2] for k in range(3)]


def inside(p, a, b, c):
    return (p[0] / a) ** 2 + (p[1] / b) ** 2 + (p[2] / c) ** 2 < 1


def confocal(p, a, b, c):
    # largest root of x^2/(a^2+t) + y^2/(b^2+t) + z^2/(c^2+t) = 1
    x, y, z, aa, bb, cc = p[0] ** 2, p[1] ** 2, p[2] ** 2, a**2, b**2, c**2
    k2 = aa + bb + cc - x - y - z
    k1 = aa * bb + bb * cc + cc * aa - x * (bb + cc) - y * (aa + cc) - z * (aa + bb)
    k0 = aa * bb * cc - x * bb * cc - y * aa * cc - z * aa * bb
    return np.roots([1.0, k2, k1, k0])[0]


def integrals(a, b, c, lam):
    # integral of du / ((a^2 + u) sqrt((a^2 + u)(b^2 + u)(c^2 + u))) from lam to infinity, for each axis
    a, b, c = a**2 + lam, b**2 + lam, c**2 + lam
    return 2 / 3 * elliprd(b, c, a), 2 / 3 * elliprd(a, c, b), 2 / 3 * elliprd(a, b, c)


def solve(m, v):
    det = determinant(m)
    return [
        determinant([[v[i] if j == k else m[i][j] for j in range(3)] for i in range(3)]) / det for k in range(3)
    ]


def determinant(m):
    return (
        m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
        - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
    )
