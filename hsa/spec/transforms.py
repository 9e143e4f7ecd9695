"""Reference value graphs of the grid transformations (read, never executed)."""

import numpy as np
import xrft

from .filters import (
    derivative_easting_kernel,
    derivative_northing_kernel,
    derivative_upward_kernel,
    gaussian_highpass_kernel,
    gaussian_lowpass_kernel,
    reduction_to_pole_kernel,
    upward_continuation_kernel,
)


def check_grid(grid):
    if len(grid.dims) != 2:
        raise ValueError("dimensions")
    if np.isnan(grid).any():
        raise ValueError("missing values")


def filtered(grid, kernel, pad, pad_kwargs, keep=True):
    """Pad, transform, multiply by the filter, transform back, unpad, and put the coordinates back."""
    check_grid(grid)
    north, east = grid.dims
    extra = {c: grid[c] for c in grid.coords if c not in grid.indexes}
    grid = grid.drop_vars(extra.keys())
    work = grid
    if pad:
        how = {} if pad_kwargs is None else dict(pad_kwargs)
        if "pad_width" not in how:
            how["pad_width"] = {d: int(grid[d].size * 0.25) for d in grid.dims}
        if "mode" not in how:
            how["mode"] = "edge"
        if "constant_values" not in how:
            how["constant_values"] = None
        work = xrft.pad(grid, **how)
    spectrum = xrft.fft(work, true_phase=True, true_amplitude=True)
    result = xrft.ifft(
        kernel(spectrum) * spectrum, true_phase=True, true_amplitude=True, lag=(None, None)
    ).real
    if pad:
        result = xrft.unpad(result, how["pad_width"])
    result = result.assign_coords({east: grid[east], north: grid[north]})
    if keep:
        result = result.assign_coords({name: extra[name] for name in extra})
    return result


def derivative_upward(grid, *, order=1, pad=True, pad_kwargs=None):
    return filtered(grid, lambda s: derivative_upward_kernel(s, order), pad, pad_kwargs)


def finite_differences(grid, order, axis):
    dim = grid.dims[axis]
    names = [c for c in grid.coords if grid[c].dims == (dim,)]
    if len(names) > 1:
        raise ValueError("more than one coordinate along the dimension")
    for _ in range(order):
        grid = grid.differentiate(coord=names[0])
    return grid


def derivative_easting(grid, *, order=1, method="finite-diff", pad=True, pad_kwargs=None):
    if method not in ("finite-diff", "fft"):
        raise ValueError("method")
    if method == "fft":
        return filtered(grid, lambda s: derivative_easting_kernel(s, order), pad, pad_kwargs)
    return finite_differences(grid, order, 1)


def derivative_northing(grid, *, order=1, method="finite-diff", pad=True, pad_kwargs=None):
    if method not in ("finite-diff", "fft"):
        raise ValueError("method")
    if method == "fft":
        return filtered(grid, lambda s: derivative_northing_kernel(s, order), pad, pad_kwargs)
    return finite_differences(grid, order, 0)


def upward_continuation(grid, height_displacement, *, pad=True, pad_kwargs=None):
    return filtered(grid, lambda s: upward_continuation_kernel(s, height_displacement), pad, pad_kwargs,
                    keep=False)


def gaussian_lowpass(grid, wavelength, *, pad=True, pad_kwargs=None):
    return filtered(grid, lambda s: gaussian_lowpass_kernel(s, wavelength), pad, pad_kwargs)


def gaussian_highpass(grid, wavelength, *, pad=True, pad_kwargs=None):
    return filtered(grid, lambda s: gaussian_highpass_kernel(s, wavelength), pad, pad_kwargs)


def reduction_to_pole(grid, inclination, declination, magnetization_inclination=None,
                      magnetization_declination=None, *, pad=True, pad_kwargs=None):
    minc = inclination if magnetization_inclination is None else magnetization_inclination
    mdec = declination if magnetization_declination is None else magnetization_declination
    return filtered(grid, lambda s: reduction_to_pole_kernel(s, inclination, declination, minc, mdec),
                    pad, pad_kwargs)


def total_gradient_amplitude(grid, *, pad=True, pad_kwargs=None):
    check_grid(grid)
    e = derivative_easting(grid, order=1, pad=pad, pad_kwargs=pad_kwargs)
    n = derivative_northing(grid, order=1, pad=pad, pad_kwargs=pad_kwargs)
    u = derivative_upward(grid, order=1, pad=pad, pad_kwargs=pad_kwargs)
    return np.sqrt(e**2 + n**2 + u**2)


def tilt_angle(grid, *, pad=True, pad_kwargs=None):
    check_grid(grid)
    e = derivative_easting(grid, order=1, pad=pad, pad_kwargs=pad_kwargs)
    n = derivative_northing(grid, order=1, pad=pad, pad_kwargs=pad_kwargs)
    u = derivative_upward(grid, order=1, pad=pad, pad_kwargs=pad_kwargs)
    return np.arctan2(u, np.sqrt(e**2 + n**2))
