"""Reference of the IGRF model (read by the analyser, never executed)."""

import datetime

import bordado as bd
import boule
import numpy as np
import verde as vd

from .legendre import derivative, entry, schmidt

DATA = None


def load_igrf():
    return DATA


class IGRF14:
    def __init__(self, date, min_degree=1, max_degree=13, ellipsoid=boule.WGS84):
        self.date = datetime.datetime.fromisoformat(date) if isinstance(date, str) else date
        self.min_degree = min_degree
        self.max_degree = max_degree
        self.ellipsoid = ellipsoid

    def predict(self, coordinates):
        check_date(self.date)
        lon, lat, height = np.broadcast_arrays(coordinates[0], coordinates[1], coordinates[2])
        shape = np.broadcast(coordinates[0], coordinates[1], coordinates[2]).shape
        east, north, up = self.field(lon, lat, height)
        return east.reshape(shape), north.reshape(shape), up.reshape(shape)

    def grid(self, region, height, shape=None, spacing=None, adjust="spacing"):
        check_date(self.date)
        if spacing is None and shape is None:
            spacing = 90 / (self.max_degree + 1)
        lon, lat, height = bd.grid_coordinates(
            region, spacing=spacing, shape=shape, adjust=adjust, non_dimensional_coords=height)
        east, north, up = self.field(lon, lat, height)
        return vd.make_xarray_grid(
            (lon, lat, height), (east, north, up), data_names=("b_east", "b_north", "b_up"),
            dims=("latitude", "longitude"), extra_coords_names="height")

    def field(self, lon, lat, height):
        spherical = self.ellipsoid.geodetic_to_spherical((lon, lat, height))
        theta = np.radians(90 - spherical[1])
        phi = np.radians(spherical[0])
        ratio = 6371.2e3 / spherical[2]
        x, sin = np.cos(theta), np.sin(theta)
        east, north, radial = 0.0, 0.0, 0.0
        for n in range(self.min_degree, self.max_degree + 1):
            for m in range(n + 1):
                g, h = self.coefficient(n, m)
                p = schmidt(n, m) * entry(x, n, m)
                power = ratio ** (n + 2)
                even = g * np.cos(m * phi) + h * np.sin(m * phi)
                odd = m * (g * np.sin(m * phi) - h * np.cos(m * phi))
                east += power * odd * p
                north += power * even * schmidt(n, m) * derivative(x, n, m)
                radial += (n + 1) * power * even * p
        east = np.where(np.abs(sin) < 1e-10, 0.0, east / sin)
        tilt = np.radians(spherical[1] - lat)
        return (
            east,
            np.cos(tilt) * north + np.sin(tilt) * radial,
            np.cos(tilt) * radial - np.sin(tilt) * north,
        )

    def coefficient(self, n, m):
        years, g, h, g_sv, h_sv = load_igrf()
        if n == 0:
            return 0.0, 0.0
        k = 0
        for e in range(1, years.size):
            if self.date.year >= years[e]:
                k = e
        start = datetime.datetime(years[k], 1, 1)
        elapsed = (self.date - start).total_seconds()
        if k == years.size - 1:
            t = elapsed / (365.25 * 86400)
            return g[k, n, m] + t * g_sv[n, m], h[k, n, m] + t * h_sv[n, m]
        t = elapsed / (datetime.datetime(years[k] + 5, 1, 1) - start).total_seconds()
        return (1 - t) * g[k, n, m] + t * g[k + 1, n, m], (1 - t) * h[k, n, m] + t * h[k + 1, n, m]


def check_date(date):
    years = load_igrf()[0]
    if date.year < years[0] or date.year >= years[years.size - 1] + 5:
        raise ValueError("date")
