"""Associated Legendre functions from their closed form (read by the analyser, never executed)."""

import numpy as np


def legendre_entry(function, x, n_max, i, j):
    """Entry of the table a function fills in."""
    p = np.full((n_max + 1, n_max + 1), 777.0)
    function(x, n_max, p)
    return p[i, j]


def derivative_entry(function, derivative, x, n_max, i, j):
    p = np.full((n_max + 1, n_max + 1), 777.0)
    dp = np.full((n_max + 1, n_max + 1), 777.0)
    function(x, n_max, p)
    derivative(n_max, p, dp)
    return dp[i, j]


def factorial(n):
    f = 1.0
    for k in range(1, n + 1):
        f *= k
    return f


def coefficient(n, m, k):
    """Coefficient of x**(n - m - 2 k) in the m-th derivative of the Legendre polynomial."""
    return (-1.0) ** k * factorial(2 * n - 2 * k) / (
        2.0**n * factorial(k) * factorial(n - k) * factorial(n - m - 2 * k))


def entry(x, n, m):
    s = 0.0
    for k in range((n - m) // 2 + 1):
        s += coefficient(n, m, k) * x ** (n - m - 2 * k)
    return np.sqrt(1 - x**2) ** m * s


def derivative(x, n, m):
    """Derivative by the colatitude of the entry above."""
    u = np.sqrt(1 - x**2)
    s, ds = 0.0, 0.0
    for k in range((n - m) // 2 + 1):
        power = n - m - 2 * k
        s += coefficient(n, m, k) * x**power
        if power > 0:
            ds += coefficient(n, m, k) * power * x ** (power - 1)
    along = m * u ** (m - 1) * x * s if m > 0 else 0.0
    return along - u ** (m + 1) * ds


def schmidt(n, m):
    if m == 0:
        return 1.0
    return np.sqrt(2 * factorial(n - m) / factorial(n + m))


def full(n, m):
    return np.sqrt(2 * n + 1) * schmidt(n, m)


def associated_legendre(x, n_max, i, j):
    return entry(x, i, j)


def associated_legendre_schmidt(x, n_max, i, j):
    return schmidt(i, j) * entry(x, i, j)


def associated_legendre_full(x, n_max, i, j):
    return full(i, j) * entry(x, i, j)


def associated_legendre_derivative(x, n_max, i, j):
    return derivative(x, i, j)


def associated_legendre_schmidt_derivative(x, n_max, i, j):
    return schmidt(i, j) * derivative(x, i, j)


def associated_legendre_full_derivative(x, n_max, i, j):
    return full(i, j) * derivative(x, i, j)
