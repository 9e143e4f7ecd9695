"""Reference value graphs of the wavenumber filters (read, never executed)."""

import numpy as np


def wavenumbers(grid):
    """Angular wavenumbers along the second (easting) and first (northing) dimension."""
    north, east = grid.dims
    return 2 * np.pi * grid.coords[east], 2 * np.pi * grid.coords[north]


def derivative_upward_kernel(grid, order=1):
    ke, kn = wavenumbers(grid)
    # the derivative of exp(-|k| z): negative for odd orders
    return (-1) ** order * np.hypot(ke, kn) ** order


def derivative_easting_kernel(grid, order=1):
    ke, kn = wavenumbers(grid)
    return 1j**order * ke**order


def derivative_northing_kernel(grid, order=1):
    ke, kn = wavenumbers(grid)
    return 1j**order * kn**order


def upward_continuation_kernel(grid, height_displacement):
    ke, kn = wavenumbers(grid)
    return np.exp(-height_displacement * np.hypot(ke, kn))


def gaussian_lowpass_kernel(grid, wavelength):
    ke, kn = wavenumbers(grid)
    return np.exp(-0.5 * (ke**2 + kn**2) * (wavelength / (2 * np.pi)) ** 2)


def gaussian_highpass_kernel(grid, wavelength):
    return 1 - gaussian_lowpass_kernel(grid, wavelength)


def direction(inclination, declination):
    """Unit vector: east, north, down."""
    inc, dec = np.pi / 180 * inclination, np.pi / 180 * declination
    return np.cos(inc) * np.sin(dec), np.cos(inc) * np.cos(dec), np.sin(inc)


def along(vector, ke, kn):
    e, n, down = vector
    return down * np.hypot(ke, kn) + 1j * (e * ke + n * kn)


def reduction_to_pole_kernel(grid, inclination, declination, magnetization_inclination,
                             magnetization_declination):
    ke, kn = wavenumbers(grid)
    theta = along(direction(inclination, declination), ke, kn)
    magnetization = along(direction(magnetization_inclination, magnetization_declination), ke, kn)
    return np.where((ke == 0) & (kn == 0), 0, (ke**2 + kn**2) / (theta * magnetization))
