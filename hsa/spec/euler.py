"""Reference of the Euler methods (read by the analyser, never executed)."""

import warnings

import numpy as np
import verde.base as vdb


class EulerDeconvolution:
    def __init__(self, structural_index):
        if structural_index == 0:
            raise ValueError("structural index 0")
        self.structural_index = structural_index

    def fit(self, coordinates, data):
        coordinates, data, _ = vdb.check_fit_input(coordinates, data, weights=None)
        f, fe, fn, fu = vdb.n_1d_arrays(data, 4)
        e, n, u = vdb.n_1d_arrays(coordinates, 3)
        eta = self.structural_index
        # fe e0 + fn n0 + fu u0 + eta b = e fe + n fn + u fu + eta f
        columns = [fe, fn, fu, eta + 0 * fe]
        y = e * fe + n * fn + u * fu + eta * f
        inverse, p = least_squares(columns, y, 1 + 0 * fe)
        rest = y - (p[0] * fe + p[1] * fn + p[2] * fu + p[3] * eta)
        self.covariance_ = inverse * (np.sum(rest**2) / (f.size - 4))
        self.location_ = np.array([p[0], p[1], p[2]])
        self.base_level_ = p[3]
        return self


class EulerInversion:
    def __init__(self, *, structural_index=(1, 2, 3), max_iterations=20, tol=0.1, euler_misfit_balance=0.1):
        if structural_index == 0:
            raise ValueError("structural index 0")
        self.structural_index = structural_index
        self.max_iterations = max_iterations
        self.tol = tol
        self.euler_misfit_balance = euler_misfit_balance

    def fit(self, coordinates, data, *, weights=(1, 0.1, 0.1, 0.025)):
        coordinates, data, _ = vdb.check_fit_input(coordinates, data, weights=None)
        data = vdb.n_1d_arrays(data, 4)
        coordinates = vdb.n_1d_arrays(coordinates, 3)
        tried = [self.structural_index] if np.isscalar(self.structural_index) else self.structural_index
        found = [self.invert(si, coordinates, data, weights) for si in tried]
        best = np.argmin([f[3] for f in found])
        self.structural_index_ = tried[best]
        self.location_, self.base_level_, self.covariance_, _ = found[best]
        return self

    def invert(self, eta, coordinates, data, weights):
        e, n, u = coordinates
        start = EulerDeconvolution(eta)
        start.fit(coordinates, data)
        p = [start.location_[0], start.location_[1], start.location_[2], start.base_level_]
        d = [0.9 * x for x in data]
        euler = equation(eta, coordinates, d, p)
        misfit = weighted_norm(data, d, weights)
        merit = misfit + self.euler_misfit_balance * np.sqrt(np.sum(euler**2))
        cofactor = np.full((4, 4), np.nan)
        for _ in range(self.max_iterations):
            r = [x - y for x, y in zip(data, d)]
            a = [-d[1], -d[2], -d[3], -eta + 0 * d[1]]
            b = [eta, e - p[0], n - p[1], u - p[2]]
            q = sum(b[k] ** 2 / weights[k] for k in range(4))
            target = euler + sum(b[k] * r[k] for k in range(4))
            cofactor, step = least_squares(a, -target, 1 / q)
            t = (target + sum(a[k] * step[k] for k in range(4))) / q
            p = [p[k] + step[k] for k in range(4)]
            d = [d[k] + r[k] - b[k] / weights[k] * t for k in range(4)]
            euler = equation(eta, coordinates, d, p)
            misfit = weighted_norm(data, d, weights)
            new = misfit + self.euler_misfit_balance * np.sqrt(np.sum(euler**2))
            change = abs((merit - new) / merit)
            merit = new
            if change < self.tol:
                break
        else:
            warnings.warn("not converged")
        squares = sum(np.sum((x - y) ** 2) for x, y in zip(data, d))
        covariance = squares / (4 * e.size - 4) * cofactor
        return np.array([p[0], p[1], p[2]]), p[3], covariance, misfit


def equation(eta, coordinates, d, p):
    e, n, u = coordinates
    return (e - p[0]) * d[1] + (n - p[1]) * d[2] + (u - p[2]) * d[3] + eta * (d[0] - p[3])


def weighted_norm(data, d, weights):
    return np.sqrt(sum(np.sum((weights[k] * (data[k] - d[k])) ** 2) for k in range(4)))


def least_squares(columns, y, weight):
    normal = np.array([[np.sum(weight * a * b) for b in columns] for a in columns])
    inverse = np.linalg.inv(normal)
    rhs = [np.sum(weight * a * y) for a in columns]
    return inverse, [sum(inverse[i, j] * rhs[j] for j in range(4)) for i in range(4)]
