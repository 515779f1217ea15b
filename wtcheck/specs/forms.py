"""The definitions of ref.py in computational form.

Loaded after ref.py, into one name space: a function of the same name replaces the definition there, for itself and for all
definitions that use it.  Code whose value graph has the normal form of the computational form is equal to it for all inputs.
That the forms agree with the definitions does not depend on the code base; it is argued in DESIGN.md and compared by
`python3-vt -m wtcheck forms`.
"""


import copy
import math
import numbers


# ---------------------------------------------------------------- moments and spectral parameters
def moment(f, S, m, fmin=-1.0, fmax=-1.0):
    f = f.astype(float)
    if m < 0 and f[0] == 0:
        fr, sp = f[1:], S[1:]
    else:
        fr, sp = f, S
    y = fr**m * sp
    if fmin == -1.0 and fmax != -1.0:
        fmin = f[0]
    elif fmax == -1.0 and fmin != -1.0:
        fmax = f[-1]
    if fmin == -1.0 or fmax == -1.0:
        res = simpson(y, x=fr)
    else:
        lo = fmin
        if m < 0 and f[0] == 0:
            if fmin == 0:
                lo = f[1]
        i0 = nearest(fr, lo)
        if fmax <= fr[len(fr) - 1]:
            i1 = nearest(fr, fmax) + 1
            res = simpson(y[i0:i1], x=fr[i0:i1])
        else:
            i1 = nearest(fr, fr[len(fr) - 1]) + 1
            C = sp[len(sp) - 1] / fr[len(fr) - 1] ** (-5)
            res = simpson(y[i0:i1], x=fr[i0:i1]) + C / (m - 5 + 1) * (fmax ** (m - 5 + 1) - fr[len(fr) - 1] ** (m - 5 + 1))
    return res


def jonswap_shape(f, fp, gam):
    S = np.zeros(len(f))
    for i in np.arange(0, len(f)):
        fi = float(f[i])
        if fi > np.spacing(1):
            nu = f[i] / fp
            if fi < fp:
                sig = 0.07
            else:
                sig = 0.09
            S[i] = 9.81**2 * (2 * np.pi) ** (-4) * fi ** (-5) * np.exp(-1.25 * nu ** (-4)) * gam ** np.exp(-((nu - 1) ** 2) / (2 * sig**2))
    return S


def jonswap(f, fp, h, gam=3.3, l_fmax=0.0):
    if l_fmax == 0:
        hi = f[len(f) - 1]
    else:
        hi = np.inf
    S = jonswap_shape(f, fp, gam)
    return S * (h / (4 * np.sqrt(moment(f, S, 0, f[0], hi)))) ** 2


# ---------------------------------------------------------------- wave by wave analysis
def zero_crossing(t, x, up):
    n = -1
    c = np.empty((0, 0))
    dt = t[1] - t[0]
    if up:
        for i in np.arange(0, len(t) - 1):
            if x[i] <= 0 and x[i + 1] > 0:
                n = n + 1
                c = np.append(c, t[i] + dt * x[i] / (x[i] - x[i + 1]))
    else:
        for i in np.arange(0, len(t) - 1):
            if x[i] >= 0 and x[i + 1] < 0:
                n = n + 1
                c = np.append(c, t[i] + dt * x[i] / (x[i] - x[i + 1]))
    if n == -1:
        n = 0
    return n, c


def crossings(t, x, up):
    return zero_crossing(t, x, up)[1]


def waves(tc, t, x):
    if tc.size == 0:
        e = np.empty((0, 0))
        return e, e, e, e, e, e
    n = len(tc) - 1
    H = np.zeros((1, n), dtype=float)[0]
    T = np.zeros((1, n), dtype=float)[0]
    cr = np.zeros((1, n), dtype=float)[0]
    tr = np.zeros((1, n), dtype=float)[0]
    tcr = np.zeros((1, n), dtype=float)[0]
    ttr = np.zeros((1, n), dtype=float)[0]
    for k in np.arange(0, n):
        i0 = np.where(t >= tc[k])[0][0]
        i1 = np.where(t <= tc[k + 1])[0][-1]
        ts = t[i0 : i1 + 1]
        xs = x[i0 : i1 + 1]
        a = np.where(xs == max(xs))[0][0]
        b = np.where(xs == min(xs))[0][0]
        T[k] = tc[k + 1] - tc[k]
        cr[k] = xs[a]
        tr[k] = xs[b]
        tcr[k] = ts[a]
        ttr[k] = ts[b]
        H[k] = cr[k] - tr[k]
    return H, T, cr, tr, tcr, ttr


def highest(h, T, p):
    H = 0.0
    P = 0.0
    if h.size == 0 and T.size == 0:
        return H, P
    k = int(np.floor(len(h) * p))
    if k > 0:
        H = float(np.mean(h[0:k]))
        P = float(np.mean(T[0:k]))
    return H, P


def hrms(h):
    return np.sqrt(np.mean(h**2))


def exceeded(h, P):
    H = 0.0
    if h.size == 0:
        return H
    k = int(np.floor(len(h) * P / 100.0)) - 1
    if not k < 0:
        H = float(h[k])
    return H


# ---------------------------------------------------------------- vectors
def array_of(x):
    if isinstance(x, numbers.Number):
        x = np.asarray([x])
    elif not isinstance(x, np.ndarray):
        x = np.asarray(x)
    return x


def size_of(x):
    a = 0
    b = 0
    if x.size != 0:
        dims = x.shape
        if len(dims) == 1:
            a = x.shape[0]
        elif len(dims) == 2:
            a = x.shape[0]
            b = x.shape[1]
    return a, b


def vector(x):
    x = array_of(x)
    if size_of(x)[1] == 1:
        x = x.flatten()
    return x


# ---------------------------------------------------------------- individual waves of a series
def sort_waves(h, T):
    h = array_of(h)
    T = array_of(T)
    if h.size == 0 and T.size == 0:
        return np.empty((0, 0)), np.empty((0, 0))
    o = np.argsort(-h, kind="stable")
    return h[o], T[o]


def reanalysed(t, x, up, fc, hm):
    if fc != 0:
        low = bandpass(t, x, 0, fc)
    else:
        low = 0
    y = array_of(x - low)
    tc = zero_crossing(t, y, up)[1]
    H, T, cr, tr, tcr, ttr = waves(array_of(tc), t, x)
    out = np.where(H < hm)[0]
    h, p = np.delete(H, out), np.delete(T, out)
    hv = vector(h)
    return h, p, np.delete(cr, out), np.delete(tr, out), np.delete(tcr, out), np.delete(ttr, out), hv, vector(p), len(hv)


def series_waves(t, x):
    tc = zero_crossing(t, x, False)[1]
    H, T, cr, tr, tcr, ttr = waves(tc, t, x)
    out = np.where(H < 0)[0]
    return (vector(np.delete(H, out)), vector(np.delete(T, out)), cr, tr, tcr, ttr), np.delete(tc, out)


# ---------------------------------------------------------------- peak periods
def limits(f, fmin, fmax):
    if fmin == -1.0:
        fmin = f[0]
    if fmax == -1.0:
        fmax = f[-1]
    return fmin, fmax


def hm0(f, S, fmin=-1.0, fmax=-1.0):
    lo, hi = limits(f, fmin, fmax)
    return 4 * np.sqrt(moment(f, S, 0, lo, hi))


def tmm10(f, S, fmin=-1.0, fmax=-1.0):
    lo, hi = limits(f, fmin, fmax)
    return moment(f, S, -1, lo, hi) / moment(f, S, 0, lo, hi)


def tm01(f, S, fmin=-1.0, fmax=-1.0):
    lo, hi = limits(f, fmin, fmax)
    return moment(f, S, 0, lo, hi) / moment(f, S, 1, lo, hi)


def tm02(f, S, fmin=-1.0, fmax=-1.0):
    lo, hi = limits(f, fmin, fmax)
    return np.sqrt(moment(f, S, 0, lo, hi) / moment(f, S, 2, lo, hi))


def cut_at(f, S, lo, hi):
    i0 = np.where(f >= lo)[0][0]
    i1 = np.where(f <= hi)[0][-1]
    return f[i0 : i1 + 1], S[i0 : i1 + 1]


def tp_of(fc, Sc):
    i = np.where(Sc == max(Sc))[0].astype(int)
    return float(1 / fc[max(i)])


def tp(f, S, fmin=-1.0, fmax=-1.0):
    lo, hi = limits(f, fmin, fmax)
    fc, Sc = cut_at(f, S, lo, hi)
    return tp_of(fc, Sc)


def tps(f, S, fmin=-1.0, fmax=-1.0):
    lo, hi = limits(f, fmin, fmax)
    fc, Sc = cut_at(f, S, lo, hi)
    return tps_core(fc, Sc)


def vertex3(f, S, j):
    ff = np.asarray([f[j - 1], f[j], f[j + 1]]).reshape(1, 3)[0]
    ee = np.asarray([S[j - 1], S[j], S[j + 1]]).reshape(1, 3)[0]
    return np.polyfit(ff, ee, 2)


def tps_core(f, S):
    n = size_of(f)[0]
    top = max(S)
    if top < 1e-10:
        return -999
    i = np.where(S == top)[0].astype(int)
    k = len(i)
    if n > 2:
        if k == 1:
            j = i
            if i == 0:
                j = 1
            elif i == n - 1:
                j = n - 2
            p = vertex3(f, S, j)
            if p[0] < 0.0:
                fp = -p[1] / (2 * p[0])
            else:
                fp = f[i[0]]
            T = 1.0 / fp
        elif k == 2:
            if i[1] - i[0] == 1:
                if i[0] == 0:
                    j = 1
                elif i[1] == n - 1:
                    j = n - 2
                else:
                    j = i[0]
            else:
                return 1 / f[i[0]]
            p = vertex3(f, S, j)
            T = 1 / (-p[1] / (2 * p[0]))
        else:
            T = 1 / f[i[1]]
    elif n == 2:
        if k == 1:
            T = 1 / f[i[0]]
        else:
            T = 1 / (0.5 * (f[0] + f[1]))
    else:
        T = 1 / f[0]
    return T


def params(f, S, fmin=-1.0, fmax=-1.0):
    if fmin == -1.0:
        fmin = f[0]
    if fmax == -1.0:
        fmax = f[len(f) - 1]
    a = moment(f, S, -1, fmin, fmax)
    m0 = moment(f, S, 0, fmin, fmax)
    b = moment(f, S, 1, fmin, fmax)
    c = moment(f, S, 2, fmin, fmax)
    h = float(4 * np.sqrt(m0))
    if h < 1e-6 or np.isnan(h):
        return np.nan, np.nan, np.nan, np.nan, np.nan, np.nan
    fc, Sc = cut_at(f, S, fmin, fmax)
    return h, tp_of(fc, Sc), tps_core(fc, Sc), a / m0, m0 / b, float(np.sqrt(m0 / c))


def tpd(f, S):
    top = max(S) * 0.8
    band = f[np.where(S / top >= 0.8)[0]]
    lo, hi = min(band), max(band)
    return moment(f, S, 0, lo, hi) / moment(f, S, 1, lo, hi)


# ---------------------------------------------------------------- Battjes & Groenendijk
def battjes_groenendijk(hm0, n, d, cota=250.0, tol=1e-5):
    Htr = (0.35 + 5.8 * (1 / cota)) * d
    m0 = np.power(hm0 / 4, 2)
    Hrms = np.sqrt(m0) * (2.69 + 3.24 * np.sqrt(m0) / d)
    q = Htr / Hrms
    if q > 2.75:
        a = np.empty((0, 0))
        b = np.empty((0, 0))
    else:
        H1 = 100
        est = 10
        while abs(est - 1) > tol:
            H2 = q / np.power(q / H1, 2 / 3.6)
            X = np.power(q / H1, 2)
            est = np.power(H1, 2) * gammainc(2 / 2 + 1, X) * gamma(2 / 2 + 1) + np.power(H2, 2) * (
                gamma(2 / 3.6 + 1) - gamma(2 / 3.6 + 1) * gammainc(2 / 3.6 + 1, X))
            H1 = H1 - 0.01 * (est - 1)
        H1 = H1 + 0.01 * (est - 1)
        x1 = H1 * np.power(np.log(n), 1 / 2)
        x2 = H2 * np.power(np.log(n), 1 / 3.6)
        if x1 < q:
            x = x1
        else:
            x = x2
        x = min(x * Hrms, exponweib.ppf(1 - 1 / n, 1, 2, scale=np.sqrt(8)) / 4 * hm0)
        if hm0 < Htr:
            P = np.exp(-np.power(Htr / (H1 * Hrms), 2))
        else:
            P = np.exp(-np.power(Htr / (H2 * Hrms), 3.6))
        a = np.array([0.0, Htr, float(x)])
        b = np.array([1, float(P), 1 / n])
    return a, b


# ---------------------------------------------------------------- dispersion
def disper(w, h, g=9.81):
    w = array_of(w)
    if np.isinf(h):
        k = w**2 / g
    elif h < 0:
        k = w / np.sqrt(g * abs(h))
    else:
        y = w**2 * h / g
        small = np.nonzero(y < 1e-8)
        y[small] = 1e-8
        q = y / (1 - np.exp(-(y ** (5 / 4)))) ** (2 / 5)
        for _ in [1, 2]:
            th = np.tanh(q)
            s2 = 1 - th**2
            a = (1 - q * th) * s2
            b = th + q * s2
            c = q * th - y
            s = np.zeros(np.size(q))
            i = np.where(a != 0)[0]
            s[i] = b[i] ** 2 - 4 * a[i] * c[i]
            s[i] = (-b[i] + np.sqrt(s[i])) / (2 * a[i])
            i = np.nonzero(abs(a * c) < 1e-8 * b**2)
            s[i] = -c[i] / b[i]
            q = q + s
        k = np.sign(w) * q / h
        i = np.isnan(k)
        k[i] = np.zeros(np.size(k[i]))
    return k


def disper_finite(w, h, g):
    return disper(w, h, g)


# ---------------------------------------------------------------- Fourier transforms
def fft_axis(t):
    n = len(t)
    return np.arange(0, n) * (1.0 / (n * (t[1] - t[0])))


def nyquist(t, x):
    n = len(t)
    k = math.floor(n / 2) + 1
    return fft_axis(t)[0:k], np.fft.fft(x)[0:k], bool(n % 2)


def unfold(f, X, odd):
    n = len(f)
    m = (n - 1) * 2 + odd
    g = np.arange(0, m) * (f[1] - f[0])
    Y = np.zeros(len(g), dtype=complex)
    Y[0:n] = X[0:n]
    Y[n - 1 + odd : m] = np.flipud(np.conj(Y[1:n]))
    return g, Y


def freq2time(X):
    return np.real(np.fft.ifft(X, size_of(X)[0]))


def band(f, X, flow, fhigh):
    n = len(f)
    if flow <= f[0]:
        lo = 0
    elif flow > f[-1]:
        lo = n
    else:
        lo = np.where(f < flow)[0][-1] + 1
    if fhigh <= f[0]:
        hi = 0
    elif fhigh >= f[-1]:
        hi = n
    else:
        hi = np.where(f < fhigh)[0][-1] + 1
    Z = np.zeros(len(X)).astype(complex)
    Z[lo:hi] = X[lo:hi]
    return Z


def bandpass(t, x, flow, fhigh):
    f, X, odd = nyquist(t, x)
    g, Y = unfold(f, band(f, X, flow, fhigh), odd)
    return freq2time(Y)


def average(f, S, df=0.0):
    m = 1
    if df != 0.0:
        m = np.round(df / (f[1] - f[0]))
    m = max(m, 1)
    n = math.floor(len(f) / m)
    fc = np.zeros(len(f[0:n]))
    Sc = np.zeros(len(fc), dtype=np.result_type(S, float))
    for i in np.arange(0, n):
        lo = int(i * m)
        hi = int((i + 1) * m)
        fc[i] = np.mean(f[lo:hi])
        Sc[i] = np.mean(S[lo:hi])
    return fc, Sc


def coherence(f, X, Y, df=0.0):
    S11 = abs(X * np.conj(X))
    S22 = abs(Y * np.conj(Y))
    S12 = X * np.conj(Y)
    fc, A = average(f, S11, df)
    fc, B = average(f, S22, df)
    fc, D = average(f, S12, df)
    i = np.where(A < 1e-10)[0]
    A[i] = 1e-10
    i = np.where(B < 1e-10)[0]
    B[i] = 1e-10
    return fc, abs(D) ** 2 / (A * B)


def density(f, X, n):
    return np.real(2 * X * np.conj(X) / ((f[1] - f[0]) * n * n))


def spectrum2timeseries(f, S, t0, t1, dt, seed=-1):
    t = np.arange(t0, t1 + dt, dt)
    nt = len(t)
    n = int(2 * np.ceil(nt / 2))
    df = 1 / (n * dt)
    fg = np.arange(df, 1 / (2 * dt) + df / 2, df)
    nf = len(fg)
    a = np.sqrt(2 * np.interp(fg, f, S, left=0, right=0) * df)
    if seed >= 0:
        np.random.seed(seed)
    ph = 2 * np.pi * np.random.rand(1, nf)
    X = np.zeros(n, dtype=complex)
    X[1 : nf + 1] = a / 2.0 * np.exp(1j * ph)
    X[nf:n] = np.flip(np.conj(X[1 : nf + 1]))
    x = np.real(np.fft.ifft(X, n) * n)
    return t, x[0:nt]


# ---------------------------------------------------------------- wave decomposition
def decompose(t, x, h, xl, wl, detlim=0.125):
    nl = len(xl)
    W = sum(wl)
    d = np.zeros(nl)
    for j in np.arange(1, nl):
        d[j] = xl[j] - xl[0]
    f, X1, odd = nyquist(t, x[:, 0])
    nf = len(f)
    F = np.zeros((nf, nl), dtype=complex)
    F[:, 0] = X1
    for j in np.arange(1, nl):
        f, F[:, j], odd = nyquist(t, x[:, j])
    k = disper(2 * np.pi * f, h, 9.81)
    I = np.zeros(len(X1), dtype=complex)
    R = np.zeros(len(X1), dtype=complex)
    for i in np.arange(0, nf):
        a11 = 0
        a22 = 0
        b1 = 0
        b2 = 0
        for j in np.arange(0, nl):
            a11 = a11 + wl[j] * np.exp(-1j * 2 * k[i] * d[j])
            a22 = a22 + wl[j] * np.exp(1j * 2 * k[i] * d[j])
            b1 = b1 + wl[j] * F[i, j] * np.exp(-1j * k[i] * d[j])
            b2 = b2 + wl[j] * F[i, j] * np.exp(1j * k[i] * d[j])
        D = a11 * a22 - W * W
        if abs(-0.25 * D) > detlim:
            I[i] = (a22 * b1 - W * b2) / D
            R[i] = (-W * b1 + a11 * b2) / D
    return freq2time(unfold(f, I, odd)[1]), freq2time(unfold(f, R, odd)[1])
