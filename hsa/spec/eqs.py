"""Reference value graphs of the equivalent-source estimators (read, never executed)."""

import bordado as bd
import numpy as np
import verde as vd
import verde.base as vdb
from sklearn import utils

from .forward import spherical_distance


def inverse_distance(e, n, u, pe, pn, pu):
    return 1 / np.sqrt((e - pe) ** 2 + (n - pn) ** 2 + (u - pu) ** 2)


def inverse_distance_sph(lon, lat, r, plon, plat, pr):
    return 1 / spherical_distance(lon, lat, r, plon, plat, pr)[1]


def inverse_distances(coordinates, points, kernel):
    jac = np.zeros((coordinates[0].size, points[0].size))
    for i in range(coordinates[0].size):
        for j in range(points[0].size):
            jac[i, j] = kernel(coordinates[0][i], coordinates[1][i], coordinates[2][i],
                               points[0][j], points[1][j], points[2][j])
    return jac


def field_of(coordinates, points, coefs, kernel):
    result = np.zeros(coordinates[0].size)
    for i in range(coordinates[0].size):
        for j in range(points[0].size):
            result[i] += coefs[j] * kernel(coordinates[0][i], coordinates[1][i], coordinates[2][i],
                                           points[0][j], points[1][j], points[2][j])
    return result


def flat(arrays):
    return tuple(np.ravel(a) for a in arrays[:3])


class EquivalentSourcesSph(vdb.BaseGridder):
    def kernel(self, *args):
        return inverse_distance_sph(*args)

    def __init__(self, damping=None, points=None, relative_depth=500, parallel=True):
        self.damping = damping
        self.points = points
        self.relative_depth = relative_depth
        self.parallel = parallel

    def sources(self, coordinates):
        if self.points is not None:
            return flat(self.points)
        return coordinates[0], coordinates[1], coordinates[2] - self.relative_depth

    def estimate_required_memory(self, coordinates):
        coordinates = flat(coordinates)
        return coordinates[0].size * self.sources(coordinates)[0].size * 8

    def fit(self, coordinates, data, weights=None):
        coordinates, data, weights = vdb.check_fit_input(coordinates, data, weights)
        self.region_ = bd.get_region(coordinates[:2])
        coordinates = flat(coordinates)
        self.points_ = self.sources(coordinates)
        self.coefs_ = vdb.least_squares(
            inverse_distances(coordinates, self.points_, self.kernel), data, weights, self.damping)
        return self

    def predict(self, coordinates):
        shape = np.broadcast(coordinates[0], coordinates[1], coordinates[2]).shape
        coordinates = flat(np.broadcast_arrays(coordinates[0], coordinates[1], coordinates[2]))
        return field_of(coordinates, self.points_, self.coefs_, self.kernel).reshape(shape)

    def jacobian(self, coordinates, points):
        return inverse_distances(coordinates, points, self.kernel)


class EquivalentSources(EquivalentSourcesSph):
    def kernel(self, *args):
        return inverse_distance(*args)

    def __init__(self, damping=None, points=None, depth="default", block_size=None, parallel=True, dtype="float64"):
        if isinstance(depth, str) and depth != "default":
            raise ValueError("depth")
        if depth == 0:
            raise ValueError("depth")
        self.damping = damping
        self.points = points
        self.depth = depth
        self.block_size = block_size
        self.parallel = parallel
        self.dtype = dtype

    def sources(self, coordinates):
        if self.points is not None:
            self.depth_ = None
            return flat(self.points)
        if self.block_size is not None:
            coordinates = vd.BlockReduce(spacing=self.block_size, reduction=np.median, drop_coords=False).filter(
                coordinates, np.zeros_like(coordinates[0]))[0]
        depth = self.depth
        if depth == "default":
            depth = 4.5 * np.mean(bd.neighbor_distance_statistics(coordinates[:2], "median", k=1))
        self.depth_ = depth
        return coordinates[0], coordinates[1], coordinates[2] - depth

    def estimate_required_memory(self, coordinates):
        coordinates = flat(coordinates)
        return coordinates[0].size * self.sources(coordinates)[0].size * np.dtype(self.dtype).itemsize


class EquivalentSourcesGB(EquivalentSources):
    overlapping = 0.5

    def __init__(self, damping=None, points=None, depth="default", block_size=None, window_size="default",
                 parallel=True, random_state=None, dtype="float64"):
        if isinstance(window_size, str) and window_size != "default":
            raise ValueError("window size")
        super().__init__(damping, points, depth, block_size, parallel, dtype)
        self.window_size = window_size
        self.random_state = random_state

    def windows(self, coordinates, points):
        """Pairs of sources and data of each window that has both, in random order."""
        west_d, east_d, south_d, north_d = bd.get_region(coordinates)
        west_p, east_p, south_p, north_p = bd.get_region(points)
        region = (min(west_d, west_p), max(east_d, east_p), min(south_d, south_p), max(north_d, north_p))
        size = self.window_size
        n_data = coordinates[0].size
        if size == "default":
            if n_data <= 5000:
                self.window_size_ = None
                return [np.arange(points[0].size)], [np.arange(n_data)]
            size = np.sqrt(5000 * (region[1] - region[0]) * (region[3] - region[2]) / n_data)
        self.window_size_ = size
        sources = bd.rolling_window(points[:2], region=region, window_size=size, overlap=self.overlapping)[1]
        data = bd.rolling_window(coordinates[:2], region=region, window_size=size, overlap=self.overlapping)[1]
        sources, data = utils.shuffle(
            [w[0] for w in sources.ravel()], [w[0] for w in data.ravel()], random_state=self.random_state)
        some_sources = []
        some_data = []
        for s, d in zip(sources, data):
            if s.size > 0 and d.size > 0:
                some_sources.append(s)
                some_data.append(d)
        return some_sources, some_data

    def fit(self, coordinates, data, weights=None):
        coordinates, data, weights = vdb.check_fit_input(coordinates, data, weights)
        self.region_ = bd.get_region(coordinates[:2])
        coordinates = flat(coordinates)
        residual = np.ravel(data).copy()
        if weights is not None:
            weights = np.ravel(weights)
        self.points_ = self.sources(coordinates)
        sources, places = self.windows(coordinates, self.points_)
        self.coefs_ = np.zeros_like(self.points_[0])
        rmse = [np.sqrt(np.mean(residual**2))]
        for k in range(len(sources)):
            inside = tuple(p[sources[k]] for p in self.points_)
            where = tuple(c[places[k]] for c in coordinates)
            w = None
            if weights is not None:
                w = weights[places[k]]
            change = vdb.least_squares(
                inverse_distances(where, inside, self.kernel), residual[places[k]], w, self.damping)
            residual -= field_of(coordinates, inside, change, self.kernel)
            rmse.append(np.sqrt(np.mean(residual**2)))
            self.coefs_[sources[k]] += change
        self.rmse_per_iteration_ = np.array(rmse)
        return self

    def estimate_required_memory(self, coordinates):
        coordinates = flat(coordinates)
        sources, data = self.windows(coordinates, self.sources(coordinates))
        sizes = np.array([s.size for s in sources]) * np.array([d.size for d in data])
        return sizes.max() * np.dtype(self.dtype).itemsize
