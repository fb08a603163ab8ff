"""catalogues with clusters, windows and distances, for C08 and C09"""
import numpy as np
from .base import *
from .c11 import ref
MONTH = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
EPS = 1e-7


def catalogue(g, ties=0.2):
    n = g.pick(0, 1, 2, 3, 4, 5, 6, 8, 12, 20)
    spots = [(g.real(-179, 179), g.real(-80, 80)) for _ in range(g.int(1, 3))]
    if g.chance(0.1):
        spots[0] = (g.pick(180., -180., 179.99), g.pick(0., 89.9, -89.9))
    y0 = g.int(1950, 2005)
    span = g.pick(0, 1, 1, 3, 20)
    spread = g.pick(0.0, 0.05, 0.3, 1.0)
    mags = [round(g.real(3, 8.5), g.pick(1, 2)) for _ in range(g.int(1, 6))]
    rows = []
    for i in range(n):
        lon, lat = g.r.choice(spots)
        row = [float(y0 + g.int(0, span)), float(g.int(1, 12)), float(g.int(1, 28)),
               min(max(lon + g.r.uniform(-1, 1) * spread, -180.), 180.), min(max(lat + g.r.uniform(-1, 1) * spread, -90.), 90.),
               g.r.choice(mags) if g.chance(ties) else round(g.real(3, 8.5), g.pick(1, 2, 3))]
        if rows and g.chance(0.08):
            row = list(g.r.choice(rows))
        elif rows and g.chance(0.2):
            row[:3] = g.r.choice(rows)[:3]
        rows.append(row)
    o = g.int(0, 5)
    if o == 0:
        rows.sort(key=lambda r: r[:3])
    elif o == 1:
        rows.sort(key=lambda r: -r[5])
    elif o == 2:
        rows.sort(key=lambda r: r[5])
    extra = g.chance(0.3)
    return [r + [g.real(0, 1, 2)] if extra else r for r in rows]


def matrix(rows):
    return np.array(rows, dtype=float) if rows else np.zeros((0, 6))


def years(rows):
    return np.array([r[0] + (MONTH[int(r[1]) - 1] + r[2] - 1) / 365. for r in rows])


def windows(kind, rows):
    m = np.array([r[5] for r in rows])
    if kind == 'Uhrhammer':
        return np.exp(-1.024 + 0.804 * m), np.exp(-2.87 + 1.235 * m / 365.)
    if kind == 'Gruenthal':
        return np.exp(1.77 + np.sqrt(0.037 + 1.02 * m)), np.where(
            m >= 6.5, 10 ** (2.8 + 0.024 * m), np.abs(np.exp(-3.95 + np.sqrt(0.62 + 17.32 * m)))) / 365.
    return 10 ** (0.1238 * m + 0.983), np.where(m >= 6.5, 10 ** (0.032 * m + 2.7389), 10 ** (0.5409 * m - 0.547)) / 365.


def distances(rows):
    lon, lat = [r[3] for r in rows], [r[4] for r in rows]
    return ref(lon, lat, lon, lat, 6371.227)


def partition(rows, mat, before, vcl, vmain, flag, name):
    """what both algorithms promise; returns {cluster: main shock}"""
    n = len(rows)
    unchanged(name, [before], [mat])
    vcl, flag = np.asarray(vcl), np.asarray(flag)
    need(vcl.shape == (n,), 'cluster vector of shape %s for %d events', vcl.shape, n)
    need(flag.shape == (n,), 'flag vector of shape %s for %d events', flag.shape, n)
    need(np.all(np.isin(flag, (-1, 0, 1))), 'flags %s', short(flag))
    need(np.all(vcl >= 0), 'cluster numbers %s', short(vcl))
    same_array(vmain, before[flag == 0], 'retained events')
    need(np.all(flag[vcl == 0] == 0), 'an event outside every cluster is removed: clusters %s flags %s', short(vcl), short(flag))
    mains = {}
    for c in sorted(set(vcl[vcl > 0].tolist())):
        keep = np.nonzero((vcl == c) & (flag == 0))[0]
        need(len(keep) == 1, 'cluster %d has %d retained events: clusters %s flags %s', c, len(keep), short(vcl), short(flag))
        mains[c] = int(keep[0])
    return mains
