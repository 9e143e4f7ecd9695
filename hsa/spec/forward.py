"""Reference value graphs of the forward models (read by the analyser, never executed).

Written from the documentation and the theory, array expressions over whole coordinate
arrays instead of loops over points: one term of each sum is one source.
"""

import warnings

import numpy as np
from choclo import dipole, point, prism
from choclo.constants import GRAVITATIONAL_CONST as G
from choclo.prism._utils import (
    is_point_on_easting_edge,
    is_point_on_northing_edge,
    is_point_on_upward_edge,
)
from numpy.polynomial.legendre import leggauss

# SI -> mGal, SI -> Eotvos; z points down while choclo's u points up.
POINT_CARTESIAN = {
    "potential": (point.gravity_pot, 1),
    "g_e": (point.gravity_e, 1e5),
    "g_n": (point.gravity_n, 1e5),
    "g_z": (point.gravity_u, -1e5),
    "g_ee": (point.gravity_ee, 1e9),
    "g_nn": (point.gravity_nn, 1e9),
    "g_zz": (point.gravity_uu, 1e9),
    "g_en": (point.gravity_en, 1e9),
    "g_ez": (point.gravity_eu, -1e9),
    "g_nz": (point.gravity_nu, -1e9),
    "g_ne": (point.gravity_en, 1e9),
    "g_ze": (point.gravity_eu, -1e9),
    "g_zn": (point.gravity_nu, -1e9),
}
PRISM = {
    "potential": (prism.gravity_pot, 1),
    "g_e": (prism.gravity_e, 1e5),
    "g_n": (prism.gravity_n, 1e5),
    "g_z": (prism.gravity_u, -1e5),
    "g_ee": (prism.gravity_ee, 1e9),
    "g_nn": (prism.gravity_nn, 1e9),
    "g_zz": (prism.gravity_uu, 1e9),
    "g_en": (prism.gravity_en, 1e9),
    "g_ez": (prism.gravity_eu, -1e9),
    "g_nz": (prism.gravity_nu, -1e9),
}
# Edges of a prism on which a tensor component is singular.
SINGULAR = {
    "g_ee": (is_point_on_northing_edge, is_point_on_upward_edge),
    "g_nn": (is_point_on_easting_edge, is_point_on_upward_edge),
    "g_zz": (is_point_on_easting_edge, is_point_on_northing_edge),
    "g_en": (is_point_on_upward_edge,),
    "g_ez": (is_point_on_northing_edge,),
    "g_nz": (is_point_on_easting_edge,),
}
DIPOLE_MAGNETIC = {"b_e": dipole.magnetic_e, "b_n": dipole.magnetic_n, "b_u": dipole.magnetic_u}
PRISM_MAGNETIC = {"b_e": prism.magnetic_e, "b_n": prism.magnetic_n, "b_u": prism.magnetic_u}


def like(coordinates):
    return np.broadcast(coordinates[0], coordinates[1], coordinates[2]).shape


# ------------------------------------------------------------------ point masses


def point_gravity(coordinates, points, masses, field, coordinate_system="cartesian",
                  parallel=True, dtype="float64"):
    if coordinate_system not in ("cartesian", "spherical"):
        raise ValueError("coordinate system")
    e, n, u = coordinates
    mass = np.ravel(masses)
    pe, pn, pu = np.ravel(points[0]), np.ravel(points[1]), np.ravel(points[2])
    if pe.size != mass.size or pn.size != mass.size or pu.size != mass.size:
        raise ValueError("sizes")
    total = 0.0
    if coordinate_system == "cartesian":
        if field not in POINT_CARTESIAN:
            raise ValueError("field")
        kernel, factor = POINT_CARTESIAN[field]
        for j in range(mass.size):
            total += kernel(e, n, u, pe[j], pn[j], pu[j], mass[j])
        return (total * factor).reshape(like(coordinates))
    if field in ("g_e", "g_n"):
        raise NotImplementedError("field")
    if field not in ("potential", "g_z"):
        raise ValueError("field")
    for j in range(mass.size):
        cospsi, dist = spherical_distance(e, n, u, pe[j], pn[j], pu[j])
        if field == "potential":
            total += G * mass[j] / dist
        else:
            total += 1e5 * G * mass[j] * (u - pu[j] * cospsi) / dist**3
    return total.reshape(like(coordinates))


def spherical_distance(lon, lat, r, lon_p, lat_p, r_p):
    lon, lat, lon_p, lat_p = np.radians(lon), np.radians(lat), np.radians(lon_p), np.radians(lat_p)
    cospsi = np.sin(lat) * np.sin(lat_p) + np.cos(lat) * np.cos(lat_p) * np.cos(lon - lon_p)
    return cospsi, np.sqrt(r**2 + r_p**2 - 2 * r * r_p * cospsi)


# ------------------------------------------------------------------ dipoles


def dipole_magnetic(coordinates, dipoles, magnetic_moments, field, parallel=True, dtype="float64",
                    progressbar=False, disable_checks=False):
    if field not in ("b", "b_e", "b_n", "b_u"):
        raise ValueError("field")
    e, n, u = coordinates
    pe, pn, pu = np.ravel(dipoles[0]), np.ravel(dipoles[1]), np.ravel(dipoles[2])
    me, mn, mu = (np.ravel(m) for m in magnetic_moments)
    if not disable_checks:
        for component in (pn, pu, me, mn, mu):
            if component.size != pe.size:
                raise ValueError("sizes")
    if field != "b":
        kernel = DIPOLE_MAGNETIC[field]
        total = 0.0
        for j in range(pe.size):
            total += 1e9 * kernel(e, n, u, pe[j], pn[j], pu[j], me[j], mn[j], mu[j])
        return total.reshape(like(coordinates))
    be, bn, bu = 0.0, 0.0, 0.0
    for j in range(pe.size):
        b = dipole.magnetic_field(e, n, u, pe[j], pn[j], pu[j], me[j], mn[j], mu[j])
        be += 1e9 * b[0]
        bn += 1e9 * b[1]
        bu += 1e9 * b[2]
    shape = like(coordinates)
    return be.reshape(shape), bn.reshape(shape), bu.reshape(shape)


# ------------------------------------------------------------------ prisms


def invalid_prisms(p):
    return (p[:, 0] > p[:, 1]).any() or (p[:, 2] > p[:, 3]).any() or (p[:, 4] > p[:, 5]).any()


def no_volume(p, j):
    return p[j, 0] == p[j, 1] or p[j, 2] == p[j, 3] or p[j, 4] == p[j, 5]


def any_singular(e, n, u, p, field):
    e, n, u = np.ravel(e), np.ravel(n), np.ravel(u)
    found = False
    for i in range(e.size):
        for j in range(p.shape[0]):
            for edge in SINGULAR[field]:
                if edge(e[i], n[i], u[i], p[j, 0], p[j, 1], p[j, 2], p[j, 3], p[j, 4], p[j, 5]):
                    found = True
    return found


def prism_gravity(coordinates, prisms, density, field, parallel=True, dtype="float64",
                  progressbar=False, disable_checks=False):
    if field not in PRISM:
        raise ValueError("field")
    kernel, factor = PRISM[field]
    e, n, u = np.broadcast_arrays(coordinates[0], coordinates[1], coordinates[2])
    p, rho = np.atleast_2d(prisms), np.ravel(density)
    if not disable_checks:
        if rho.size != p.shape[0]:
            raise ValueError("sizes")
        if invalid_prisms(p):
            raise ValueError("boundaries")
        if field in SINGULAR and any_singular(e, n, u, p, field):
            warnings.warn("singular point", UserWarning)
    total = 0.0
    for j in range(p.shape[0]):
        if not no_volume(p, j) and rho[j] != 0:
            total += factor * kernel(e, n, u, p[j, 0], p[j, 1], p[j, 2], p[j, 3], p[j, 4], p[j, 5], rho[j])
    return total.reshape(like(coordinates))


def prism_magnetic(coordinates, prisms, magnetization, field, parallel=True, dtype="float64",
                   progressbar=False, disable_checks=False):
    if field not in ("b", "b_e", "b_n", "b_u"):
        raise ValueError("field")
    e, n, u = coordinates
    p = np.atleast_2d(prisms)
    me, mn, mu = (np.ravel(m) for m in magnetization)
    if not disable_checks:
        for component in (me, mn, mu):
            if component.size != p.shape[0]:
                raise ValueError("sizes")
        if invalid_prisms(p):
            raise ValueError("boundaries")
    shape = like(coordinates)
    if field != "b":
        kernel = PRISM_MAGNETIC[field]
        total = 0.0
        for j in range(p.shape[0]):
            if not no_volume(p, j) and not (me[j] == 0 and mn[j] == 0 and mu[j] == 0):
                total += 1e9 * kernel(
                    e, n, u, p[j, 0], p[j, 1], p[j, 2], p[j, 3], p[j, 4], p[j, 5], me[j], mn[j], mu[j])
        return total.reshape(shape)
    be, bn, bu = 0.0, 0.0, 0.0
    for j in range(p.shape[0]):
        if not no_volume(p, j) and not (me[j] == 0 and mn[j] == 0 and mu[j] == 0):
            b = prism.magnetic_field(
                e, n, u, p[j, 0], p[j, 1], p[j, 2], p[j, 3], p[j, 4], p[j, 5], me[j], mn[j], mu[j])
            be += 1e9 * b[0]
            bn += 1e9 * b[1]
            bu += 1e9 * b[2]
    return be.reshape(shape), bn.reshape(shape), bu.reshape(shape)


# ------------------------------------------------------------------ tesseroids

RATIO = {"potential": 1, "g_z": 2.5}


def check_tesseroids(t):
    w, e, s, n, bottom, top = (t[:, k] for k in range(6))
    if (s < -90).any() or (s > 90).any() or (n < -90).any() or (n > 90).any():
        raise ValueError("latitude")
    if (s > n).any():
        raise ValueError("south > north")
    if (bottom < 0).any() or (top < 0).any():
        raise ValueError("radius")
    if (bottom > top).any():
        raise ValueError("bottom > top")
    if (w < -180).any() or (w > 360).any() or (e < -180).any() or (e > 360).any():
        raise ValueError("longitude")


def continuous(w, e):
    """Longitudes of a tesseroid that crosses the end of the interval, moved to [-180, 180)."""
    if w > e:
        return (w + 180) % 360 - 180, (e + 180) % 360 - 180
    return w, e


def tesseroid_gravity(coordinates, tesseroids, density, field, parallel=True,
                      radial_adaptive_discretization=False, dtype="float64", progressbar=False,
                      disable_checks=False):
    if field not in RATIO:
        raise ValueError("field")
    lon, lat, r = np.broadcast_arrays(coordinates[0], coordinates[1], coordinates[2])
    t = np.atleast_2d(tesseroids)
    if not disable_checks:
        check_tesseroids(t)
        for j in range(t.shape[0]):
            w, e = continuous(t[j, 0], t[j, 1])
            if w > e or e - w > 360:
                raise ValueError("west > east")
        if any_inside(np.ravel(lon), np.ravel(lat), np.ravel(r), t):
            raise ValueError("point inside a tesseroid")
    rho = np.ravel(density)
    if not disable_checks and rho.size != t.shape[0]:
        raise ValueError("sizes")
    total = 0.0
    for j in range(t.shape[0]):
        s, n, bottom, top = t[j, 2], t[j, 3], t[j, 4], t[j, 5]
        w, e = continuous(t[j, 0], t[j, 1])
        if not (w == e or s == n or bottom == top or rho[j] == 0):
            total += rho[j] * tesseroid(lon, lat, r, w, e, s, n, bottom, top, field,
                                        radial_adaptive_discretization)
    return total.reshape(like(coordinates))


def any_inside(lon, lat, r, t):
    found = False
    for i in range(lon.size):
        for j in range(t.shape[0]):
            w, e = continuous(t[j, 0], t[j, 1])
            a, b = lon[i] % 360, (lon[i] + 180) % 360 - 180
            if (
                ((w < a and a < e) or (w < b and b < e))
                and t[j, 2] < lat[i] and lat[i] < t[j, 3]
                and t[j, 4] < r[i] and r[i] < t[j, 5]
            ):
                found = True
    return found


def tesseroid(lon, lat, r, w, e, s, n, bottom, top, field, radial):
    """Effect of one tesseroid of unit density: bisect until far enough, then quadrature."""
    pending = np.empty((100, 6))
    pending[0, 0] = w
    pending[0, 1] = e
    pending[0, 2] = s
    pending[0, 3] = n
    pending[0, 4] = bottom
    pending[0, 5] = top
    count = 1
    total = 0.0
    ratio = RATIO[field]
    while count > 0:
        count -= 1
        w, e, s, n = pending[count, 0], pending[count, 1], pending[count, 2], pending[count, 3]
        bottom, top = pending[count, 4], pending[count, 5]
        l_lon, l_lat = side_lengths(w, e, s, n, top)
        _, d = spherical_distance(lon, lat, r, (w + e) / 2, (s + n) / 2, (bottom + top) / 2)
        n_lon = 2 if d < ratio * l_lon else 1
        n_lat = 2 if d < ratio * l_lat else 1
        n_rad = 2 if radial and d < ratio * (top - bottom) else 1
        if n_lon + n_lat + n_rad == 3:
            total += quadrature(lon, lat, r, w, e, s, n, bottom, top, field)
        else:
            for i in range(n_lon):
                for j in range(n_lat):
                    for k in range(n_rad):
                        pending[count, 0] = w + (e - w) / n_lon * i
                        pending[count, 1] = w + (e - w) / n_lon * (i + 1)
                        pending[count, 2] = s + (n - s) / n_lat * j
                        pending[count, 3] = s + (n - s) / n_lat * (j + 1)
                        pending[count, 4] = bottom + (top - bottom) / n_rad * k
                        pending[count, 5] = bottom + (top - bottom) / n_rad * (k + 1)
                        count += 1
    return total


def side_lengths(w, e, s, n, top):
    s, n = np.radians(s), np.radians(n)
    mid = (s + n) / 2
    return (
        top * np.arccos(np.sin(mid) ** 2 + np.cos(mid) ** 2 * np.cos(np.radians(e - w))),
        top * np.arccos(np.sin(n) * np.sin(s) + np.cos(n) * np.cos(s)),
    )


def quadrature(lon, lat, r, w, e, s, n, bottom, top, field):
    nodes, weights = leggauss(2)
    total = 0.0
    for i in range(nodes.size):
        lon_p = (e - w) / 2 * nodes[i] + (e + w) / 2
        for j in range(nodes.size):
            lat_p = (n - s) / 2 * nodes[j] + (n + s) / 2
            for k in range(nodes.size):
                r_p = (top - bottom) / 2 * nodes[k] + (top + bottom) / 2
                volume = (
                    np.radians(e - w) * np.radians(n - s) * (top - bottom) / 8
                    * r_p**2 * np.cos(np.radians(lat_p)) * weights[i] * weights[j] * weights[k]
                )
                cospsi, d = spherical_distance(lon, lat, r, lon_p, lat_p, r_p)
                if field == "potential":
                    total += G * volume / d
                else:
                    total += 1e5 * G * volume * (r - r_p * cospsi) / d**3
    return total


# density as a function of radius


def variable_tesseroid(lon, lat, r, w, e, s, n, bottom, top, rho, field, radial):
    """Layers of a tesseroid in which the density is almost linear, then as above."""
    low, high = extremes(rho, bottom, top)
    if np.isclose(low, high):
        return tesseroid_rho(lon, lat, r, w, e, s, n, bottom, top, rho, field, radial)
    size = top - bottom
    pending = [(bottom, top)]
    done = []
    while pending:
        b, t = pending.pop(0)
        split, bend = largest_bend(rho, low, high, b, t)
        if bend * (t - b) / size > 0.1:
            pending.append((split, t))
            pending.append((b, split))
        else:
            done.append((b, t))
    total = 0.0
    for k in range(len(done)):
        total += tesseroid_rho(lon, lat, r, w, e, s, n, done[k][0], done[k][1], rho, field, radial)
    return total
