"""Valuations: small, exactly representable assignments to the declared symbols.

Values are dyadic fractions so that ties, zeros and limits on grid points are exact and no comparison of the analysed
code is decided by rounding.  They are fixed (no randomness, no dependence on VERIF_SEED).
"""
from __future__ import annotations

import numpy as np


NS_OVERRIDE = [None]


def sizes(Ns, extra=(), thorough=False):
    """Array sizes of a generator; an override asks for the same shapes with other sizes."""
    if NS_OVERRIDE[0] is not None:
        return NS_OVERRIDE[0]
    return tuple(Ns) + (tuple(extra) if thorough else ())


# a relative difference that is small and yet no rounding
NEAR = 2.0 ** -20


def rs(k):
    return np.random.RandomState(4200 + k)


def dy(a, m=8):
    return np.round(np.asarray(a) * m) / m


def time_axis(N, dt=0.25, t0=0.0):
    return t0 + dt * np.arange(N)


def signal(N, k, kind="noise"):
    r = rs(k)
    if kind == "noise":
        return dy(2.0 * r.randn(N))
    if kind == "wave":
        return dy(2.0 * np.sin(0.9 * np.arange(N) + 0.4 * k) + 0.6 * r.randn(N))
    if kind == "ties":
        return r.randint(-2, 3, N).astype(float)
    if kind == "positive":
        return dy(np.abs(r.randn(N)) + 0.25)
    if kind == "touch":  # reaches zero and does not cross it
        return r.randint(0, 3, N) * (0.5 if k % 2 else -0.5)
    if kind == "tiny":  # a calm sea with ripples, and nearly equal extremes
        x = dy(2.0 * np.sin(0.9 * np.arange(N) + 0.4 * k) + 0.6 * r.randn(N))
        x[N // 3: 2 * N // 3] *= 2.0 ** -22
        x[1::5] *= 1 + NEAR
        return x
    if kind == "offset":
        return dy(1.5 + 0.7 * r.randn(N))
    raise KeyError(kind)


def times(thorough=False, kinds=("noise", "wave", "ties", "offset"), Ns=(8, 9, 12, 15)):
    """(t, x) pairs for records of even and odd length."""
    out = []
    k = 0
    for N in sizes(Ns, (16, 21, 24), thorough):
        for j, kind in enumerate(kinds):
            k += 1
            dt = (0.25, 0.5, 2.0, 1.0)[(k + j) % 4]
            t0 = (0.0, 1.5, -2.0, 100.0)[(k + 2 * j) % 4]
            out.append({"N": N, "t": time_axis(N, dt, t0), "x": signal(N, k, kind)})
    return out


def spectra(thorough=False, Ns=(9, 12, 17), f0s=(0.0, 0.125, 0.25), floor=0.125):
    """(f, S) pairs: maxima inside and at both ends, ties, flat parts, zero densities."""
    out = []
    k = 0
    for N in sizes(Ns, (6, 24, 31), thorough):
        for f0 in f0s:
            k += 1
            df = (0.125, 0.0625, 0.25)[k % 3]
            f = f0 + df * np.arange(N)
            r = rs(100 + k)
            base = dy(np.abs(r.randn(N)) + floor)
            shapes = [base]
            b = base.copy()
            b[N // 2] = 6.0
            shapes.append(b)
            b = base.copy()
            b[0] = 7.0
            shapes.append(b)
            b = base.copy()
            b[-1] = 7.0
            shapes.append(b)
            b = base.copy()
            b[N // 2] = b[N // 2 + 1] = 5.0
            shapes.append(b)
            b = base.copy()
            b[2] = b[N - 3] = 5.0
            shapes.append(b)
            b = base.copy()
            b[1] = b[N // 2] = b[N - 2] = 5.0
            shapes.append(b)
            b = base.copy()
            b[0] = b[1] = 5.0
            shapes.append(b)
            b = base.copy()
            b[-1] = b[-2] = 5.0
            shapes.append(b)
            b = base.copy()
            b[2] = 5.0  # nearly equal maxima
            b[N - 3] = 5.0 * (1 + NEAR * (1 if k % 2 else -1))
            shapes.append(b)
            for S in shapes:
                out.append({"N": N, "f": f, "S": S})
    return out


def limits(d, thorough=False):
    """Frequency limits for a spectrum: on the grid, between grid points (not half-way), beyond both ends."""
    f = d["f"]
    df = f[1] - f[0]
    n = len(f)
    out = [(-1.0, -1.0), (f[0], f[-1]), (f[2], f[-2]), (f[1], f[n // 2 + 1]), (f[n // 2 - 1], -1.0),
           (-1.0, f[n // 2 + 1]), (f[1] + 0.25 * df, f[-2] + 0.25 * df), (f[2] - 0.25 * df, f[-3] - 0.25 * df)]
    return [(float(a), float(b)) for a, b in out]


def beyond(d):
    f = d["f"]
    n = len(f)
    return [(float(f[1]), float(2 * f[-1])), (-1.0, float(1.5 * f[-1])), (float(f[n // 2]), float(4 * f[-1])),
            (float(f[0]), float(np.inf))]


def wavesets(thorough=False, Ns=(1, 2, 3, 7, 8, 16)):
    out = []
    for k, N in enumerate(sizes(Ns, (25, 40, 33), thorough)):
        r = rs(300 + k)
        for kind in ("distinct", "ties") + (("calm", "near") if N >= 7 else ()):
            h = r.permutation(np.arange(1, N + 1)) * 0.25 if kind == "distinct" else r.randint(1, 4, N) * 0.5
            T = dy(3 + r.rand(N) * 4) + 0.0625 * r.permutation(N)
            if kind == "calm":  # waves of no height among others
                h = h.astype(float)
                h[1::3] = 0.0
            if kind == "near":  # nearly equal waves
                h = h * (1 + NEAR * r.permutation(N))
            out.append({"N": N, "h": h.astype(float), "T": T})
    return out
