"""Reference value graphs of the layers of prisms and tesseroids (read, never executed)."""

import warnings

import numpy as np
import verde as vd

from .forward import (
    PRISM, RATIO, any_inside, check_tesseroids, continuous, like, tesseroid,
)


def evenly_spaced(x):
    if not np.allclose(x[1] - x[0], x[1:] - x[:-1]):
        raise ValueError("spacing")


def cell(x):
    return abs(x[1] - x[0])


def names_and_values(properties):
    if properties:
        return tuple(properties), tuple(np.asarray(v) for v in properties.values())
    return None, None


def set_top_bottom(grid, surface, reference, dims, shape):
    surface, reference = np.asarray(surface), np.asarray(reference)
    if surface.shape != shape:
        raise ValueError("surface")
    if reference.ndim != 0 and reference.shape != shape:
        raise ValueError("reference")
    grid.coords["top"] = (dims, np.maximum(surface, reference))
    grid.coords["bottom"] = (dims, np.minimum(surface, reference))


# ------------------------------------------------------------------ prisms

P = ("northing", "easting")


def prism_layer(coordinates, surface, reference, properties=None):
    names, data = names_and_values(properties)
    grid = vd.make_xarray_grid(coordinates, data=data, data_names=names, dims=P)
    evenly_spaced(grid.easting.values)
    evenly_spaced(grid.northing.values)
    grid.attrs = {"coords_units": "meters", "properties_units": "SI"}
    set_top_bottom(grid, surface, reference, P, (grid.northing.size, grid.easting.size))
    return grid


def prism_layer_dims(L):
    return ("northing", "easting")


def prism_layer_spacing(L):
    evenly_spaced(L.easting.values)
    evenly_spaced(L.northing.values)
    return cell(L.northing.values), cell(L.easting.values)


def prism_layer_boundaries(L):
    evenly_spaced(L.easting.values)
    evenly_spaced(L.northing.values)
    e, n = L.easting.values, L.northing.values
    return (e.min() - cell(e) / 2, e.max() + cell(e) / 2, n.min() - cell(n) / 2, n.max() + cell(n) / 2)


def prism_layer_size(L):
    return L.northing.size * L.easting.size


def prism_layer_shape(L):
    return (L.northing.size, L.easting.size)


def prism_layer_update_top_bottom(L, surface, reference):
    set_top_bottom(L, surface, reference, P, (L.northing.size, L.easting.size))


def prism_layer_get_prism(L, indices):
    evenly_spaced(L.easting.values)
    evenly_spaced(L.northing.values)
    i, j = indices
    e, n = L.easting.values, L.northing.values
    layer = L.transpose("northing", "easting", ...)
    return (
        e[j] - cell(e) / 2, e[j] + cell(e) / 2, n[i] - cell(n) / 2, n[i] + cell(n) / 2,
        layer.bottom.values[i, j], layer.top.values[i, j],
    )


def prism_layer_gravity(L, coordinates, field, density_name="density", thickness_threshold=None,
                        parallel=True, progressbar=False):
    if field not in PRISM:
        raise ValueError("field")
    kernel, factor = PRISM[field]
    east, north, up = np.broadcast_arrays(coordinates[0], coordinates[1], coordinates[2])
    evenly_spaced(L.easting.values)
    evenly_spaced(L.northing.values)
    layer = L.transpose("northing", "easting", ...)
    x, y = L.easting.values, L.northing.values
    bottom, top, rho = layer.bottom.values, layer.top.values, layer[density_name].values
    if np.isnan(rho).any():
        warnings.warn("nan density", UserWarning)
    half_e, half_n = cell(x) / 2, cell(y) / 2
    smallest = 0.0 if thickness_threshold is None else thickness_threshold
    total = 0.0
    for i in range(y.size):
        for j in range(x.size):
            r, b, t = rho[i, j], bottom[i, j], top[i, j]
            if not (np.isnan(r) or np.isnan(b) or np.isnan(t) or r == 0 or t - b < smallest):
                total += factor * kernel(east, north, up, x[j] - half_e, x[j] + half_e,
                                         y[i] - half_n, y[i] + half_n, b, t, r)
    return total.reshape(like(coordinates))


# ------------------------------------------------------------------ tesseroids

T = ("latitude", "longitude")


def tesseroid_layer(coordinates, surface, reference, properties=None):
    names, data = names_and_values(properties)
    grid = vd.make_xarray_grid(coordinates, data=data, data_names=names, dims=T)
    evenly_spaced(grid.longitude.values)
    evenly_spaced(grid.latitude.values)
    lon = grid.longitude.values
    if lon.max() - lon.min() >= 360 - cell(lon):
        raise ValueError("overlap")
    grid.attrs = {
        "longitude_units": "degrees", "latitude_units": "degrees", "radius_units": "meters",
        "properties_units": "SI",
    }
    set_top_bottom(grid, surface, reference, T, (grid.latitude.size, grid.longitude.size))
    return grid


def tesseroid_layer_dims(L):
    return ("latitude", "longitude")


def tesseroid_layer_spacing(L):
    evenly_spaced(L.longitude.values)
    evenly_spaced(L.latitude.values)
    return cell(L.latitude.values), cell(L.longitude.values)


def tesseroid_layer_boundaries(L):
    evenly_spaced(L.longitude.values)
    evenly_spaced(L.latitude.values)
    e, n = L.longitude.values, L.latitude.values
    return (e.min() - cell(e) / 2, e.max() + cell(e) / 2, n.min() - cell(n) / 2, n.max() + cell(n) / 2)


def tesseroid_layer_size(L):
    return L.latitude.size * L.longitude.size


def tesseroid_layer_shape(L):
    return (L.latitude.size, L.longitude.size)


def tesseroid_layer_update_top_bottom(L, surface, reference):
    set_top_bottom(L, surface, reference, T, (L.latitude.size, L.longitude.size))


def tesseroid_layer_get_tesseroid(L, indices):
    evenly_spaced(L.longitude.values)
    evenly_spaced(L.latitude.values)
    i, j = indices
    e, n = L.longitude.values, L.latitude.values
    layer = L.transpose("latitude", "longitude", ...)
    return (
        e[j] - cell(e) / 2, e[j] + cell(e) / 2, n[i] - cell(n) / 2, n[i] + cell(n) / 2,
        layer.bottom.values[i, j], layer.top.values[i, j],
    )


def tesseroid_layer_gravity(L, coordinates, field, progressbar=False, density_name="density",
                            thickness_threshold=None, parallel=True,
                            radial_adaptive_discretization=False):
    lon, lat, r = np.broadcast_arrays(coordinates[0], coordinates[1], coordinates[2])
    evenly_spaced(L.longitude.values)
    evenly_spaced(L.latitude.values)
    layer = L.transpose("latitude", "longitude", ...)
    x, y = L.longitude.values, L.latitude.values
    bottom, top, rho = layer.bottom.values, layer.top.values, layer[density_name].values
    if (np.isnan(rho) & ~(np.isnan(bottom) | np.isnan(top))).any():
        warnings.warn("nan density", UserWarning)
    half_e, half_n = cell(x) / 2, cell(y) / 2
    total = 0.0
    for i in range(y.size):
        for j in range(x.size):
            rh, b, t = rho[i, j], bottom[i, j], top[i, j]
            thin = thickness_threshold is not None and t - b < thickness_threshold
            if not (np.isnan(rh) or np.isnan(b) or np.isnan(t) or rh == 0 or b == t or thin):
                total += rh * tesseroid(lon, lat, r, x[j] - half_e, x[j] + half_e, y[i] - half_n,
                                        y[i] + half_n, b, t, field, radial_adaptive_discretization)
    return total.reshape(like(coordinates))
