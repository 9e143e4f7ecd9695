"""Small offenders: rules that expect to match nothing are run on these first (read, never executed)."""

import os
import time
import warnings

import numpy as np

CACHE = {}
TABLE = np.zeros(3)
COUNT = 0


def remembers(x):
    CACHE["last"] = x
    return x


def counts(x):
    global COUNT
    COUNT = COUNT + 1
    return x * COUNT


def scribbles(x):
    TABLE[0] = 1.0
    return x + TABLE[0]


def collects(x, seen=[]):
    seen.append(x)
    return len(seen)


def draws(x):
    return x + np.random.rand()


def times(x):
    return x * time.time()


def looks_around(x):
    return x if os.environ.get("FAST") else 2 * x


def silences(x):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    return x


def writes_argument(x):
    y = np.asarray(x).ravel()
    y[0] = 0
    return y


def ignores(x, unused):
    return x


def forgets(x):
    if x > 0:
        y = 1
    return y


def truncates(x):
    y = np.zeros_like(x)
    y[0] = x[0] / 3
    return y


def rounds(x):
    return np.sqrt(x).astype(x.dtype)
