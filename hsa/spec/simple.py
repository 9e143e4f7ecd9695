"""Reference value graphs of corrections, isostasy, angle conversions and distances (read, never executed)."""

import numpy as np
import xarray as xr

G = 6.6743e-11


def bouguer_correction(topography, density_crust=2670, density_water=1040):
    # rock on land, missing rock filled with water in the oceans; mGal
    density = np.where(topography < 0, density_crust - density_water, density_crust)
    return 2 * np.pi * G * density * topography * 1e5


def isostatic_moho_airy(basement, layers=None, density_crust=2.8e3, density_mantle=3.3e3, reference_depth=30e3):
    # weight of the column above the basement, as a thickness of crust
    equivalent = basement
    if layers is not None:
        for thickness, density in layers.values():
            equivalent = equivalent + thickness * density / density_crust
    moho = reference_depth + equivalent * density_crust / (density_mantle - density_crust)
    if isinstance(moho, xr.DataArray):
        moho.name = "moho_depth"
        moho.attrs["isostasy"] = "Airy"
        moho.attrs["density_crust"] = str(density_crust)
        moho.attrs["density_mantle"] = str(density_mantle)
        if layers is not None:
            for name, (thickness, density) in layers.items():
                moho.attrs[f"density_{name}"] = density
    return moho


def magnetic_angles_to_vec(intensity, inclination, declination):
    # inclination is positive down, declination clockwise from north
    inc, dec = np.pi / 180 * inclination, np.pi / 180 * declination
    horizontal = intensity * np.cos(inc)
    return horizontal * np.sin(dec), horizontal * np.cos(dec), -intensity * np.sin(inc)


def magnetic_vec_to_angles(magnetic_e, magnetic_n, magnetic_u, degrees=True):
    unit = 180 / np.pi if degrees else 1
    horizontal = np.hypot(magnetic_e, magnetic_n)
    return (
        np.hypot(horizontal, magnetic_u),
        unit * np.arctan2(-magnetic_u, horizontal),
        unit * np.arctan2(magnetic_e, magnetic_n),
    )


def total_field_anomaly(magnetic_field, inclination, declination):
    # projection of the anomalous field on the direction of the regional one
    b_e, b_n, b_u = magnetic_field
    inc, dec = np.pi / 180 * inclination, np.pi / 180 * declination
    return (b_e * np.sin(dec) + b_n * np.cos(dec)) * np.cos(inc) - b_u * np.sin(inc)


def position(point, system, ellipsoid):
    """Geocentric Cartesian coordinates."""
    if system == "cartesian":
        return point
    longitude, latitude, height = point
    lon, lat = np.pi / 180 * longitude, np.pi / 180 * latitude
    if system == "spherical":
        equator, axis = height * np.cos(lat), height * np.sin(lat)
    else:
        n = ellipsoid.prime_vertical_radius(np.sin(lat))
        equator = (n + height) * np.cos(lat)
        axis = (n * (1 - ellipsoid.first_eccentricity**2) + height) * np.sin(lat)
    return equator * np.cos(lon), equator * np.sin(lon), axis


def distance(point_p, point_q, coordinate_system="cartesian", ellipsoid=None):
    if coordinate_system not in ("cartesian", "spherical", "geodetic"):
        raise ValueError("coordinate system")
    p = position(point_p, coordinate_system, ellipsoid)
    q = position(point_q, coordinate_system, ellipsoid)
    return np.sqrt((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2 + (p[2] - q[2]) ** 2)
