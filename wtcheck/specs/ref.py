"""Reference definitions (specifications) of the quantities computed by the tool box.

Written from the physical definitions, independently of the package; they are lowered to value graphs by the same
interpreter and never executed.
"""
import numpy as np
from scipy.integrate import simpson
from scipy.special import gamma, gammainc
from scipy.stats import exponweib
from scipy.signal import welch, hilbert


# ---------------------------------------------------------------- axes
def strictly_equidistant(x):
    d = np.diff(x)
    return bool(np.all(d > 0)) and bool(np.all(np.abs(d - d[0]) < 1e6 * 2.220446049250313e-16))


def descending(x):
    return np.all(x == np.sort(x)[::-1])


def ascending(x):
    return np.min(np.diff(x)) > 0


def smallest_of(x):
    return np.min(x)


def largest_of(x):
    return np.max(x)


def nearly_equidistant(x):
    d = np.diff(x)
    return np.std(d) < 0.1 * np.mean(d)


def valid_gauges(t, x, w):
    return strictly_equidistant(t) and np.min(np.diff(x)) > 0 and np.min(w) >= 0 and np.max(w) <= 1 and np.sum(w) > 1


def nearest(axis, value):
    return int(np.argmin(np.abs(axis - value)))


# ---------------------------------------------------------------- moments and spectral parameters
def moment(f, S, m, fmin=-1.0, fmax=-1.0):
    f = f * 1.0
    if m < 0 and f[0] == 0:
        fr, sp = f[1:], S[1:]
    else:
        fr, sp = f, S
    y = fr**m * sp
    lo = f[0] if fmin == -1.0 else fmin
    hi = f[-1] if fmax == -1.0 else fmax
    last = fr[-1]
    i0 = nearest(fr, lo)
    i1 = nearest(fr, hi) if hi <= last else len(fr) - 1
    res = simpson(y[i0 : i1 + 1], x=fr[i0 : i1 + 1])
    if hi > last:
        p = m - 4
        res = res + sp[-1] * last**5 / p * (hi**p - last**p)
    return res


def hm0(f, S, fmin=-1.0, fmax=-1.0):
    return 4 * np.sqrt(moment(f, S, 0, fmin, fmax))


def tmm10(f, S, fmin=-1.0, fmax=-1.0):
    return moment(f, S, -1, fmin, fmax) / moment(f, S, 0, fmin, fmax)


def tm01(f, S, fmin=-1.0, fmax=-1.0):
    return moment(f, S, 0, fmin, fmax) / moment(f, S, 1, fmin, fmax)


def tm02(f, S, fmin=-1.0, fmax=-1.0):
    return np.sqrt(moment(f, S, 0, fmin, fmax) / moment(f, S, 2, fmin, fmax))


def cut(f, S, fmin, fmax):
    lo = f[0] if fmin == -1.0 else fmin
    hi = f[-1] if fmax == -1.0 else fmax
    i0 = np.where(f >= lo)[0][0]
    i1 = np.where(f <= hi)[0][-1]
    return f[i0 : i1 + 1], S[i0 : i1 + 1]


def tp(f, S, fmin=-1.0, fmax=-1.0):
    fc, Sc = cut(f, S, fmin, fmax)
    return 1.0 / fc[np.where(Sc == np.max(Sc))[0][-1]]


def vertex(f, S, k):
    x = np.array([f[k - 1], f[k], f[k + 1]])
    y = np.array([S[k - 1], S[k], S[k + 1]])
    c = np.polyfit(x, y, 2)
    return c[0], -c[1] / (2 * c[0])


def tps_core(f, S):
    n = len(f)
    top = np.max(S)
    if top < 1e-10:
        return -999
    im = np.where(S == top)[0]
    k = len(im)
    i = im[0]
    if n > 2:
        if k == 1:
            j = min(max(i, 1), n - 2)
            a, v = vertex(f, S, j)
            fp = v if a < 0 else f[i]
        elif k == 2:
            if im[1] - i == 1:
                if i == 0:
                    j = 1
                elif im[1] == n - 1:
                    j = n - 2
                else:
                    j = i
                a, fp = vertex(f, S, j)
            else:
                fp = f[i]
        else:
            fp = f[im[1]]
    elif n == 2:
        fp = f[i] if k == 1 else 0.5 * (f[0] + f[1])
    else:
        fp = f[0]
    return 1.0 / fp


def tps(f, S, fmin=-1.0, fmax=-1.0):
    fc, Sc = cut(f, S, fmin, fmax)
    return tps_core(fc, Sc)


def params(f, S, fmin=-1.0, fmax=-1.0):
    h = hm0(f, S, fmin, fmax)
    if h < 1e-6 or np.isnan(h):
        return np.nan, np.nan, np.nan, np.nan, np.nan, np.nan
    return (
        h,
        tp(f, S, fmin, fmax),
        tps(f, S, fmin, fmax),
        tmm10(f, S, fmin, fmax),
        tm01(f, S, fmin, fmax),
        tm02(f, S, fmin, fmax),
    )


def tpd(f, S):
    band = f[np.where(S >= 0.8 * (0.8 * np.max(S)))[0]]
    lo, hi = np.min(band), np.max(band)
    return moment(f, S, 0, lo, hi) / moment(f, S, 1, lo, hi)


# high/low frequency split and steepness
def cutoff(f, S):
    return 0.45 / tmm10(f, S)


def hm0_hf(f, S, fmin=-1.0, fmax=-1.0):
    lo = cutoff(f, S) if fmin == -1.0 else fmin
    return hm0(f, S, lo, fmax)


def hm0_lf(f, S, fmin=-1.0, fmax=-1.0):
    hi = cutoff(f, S) if fmax == -1.0 else fmax
    return hm0(f, S, fmin, hi)


def tmm10_hf(f, S, fmin=-1.0, fmax=-1.0):
    lo = cutoff(f, S) if fmin == -1.0 else fmin
    return tmm10(f, S, lo, fmax)


def tmm10_lf(f, S, fmin=-1.0, fmax=-1.0):
    hi = cutoff(f, S) if fmax == -1.0 else fmax
    return tmm10(f, S, fmin, hi)


def steep(h, T, g):
    return 2 * np.pi * h / (g * T**2)


def s0p(f, S, fmin=-1.0, fmax=-1.0, g=9.81):
    return steep(hm0(f, S, fmin, fmax), tps(f, S, fmin, fmax), g)


def smm10(f, S, fmin=-1.0, fmax=-1.0, g=9.81):
    return steep(hm0(f, S, fmin, fmax), tmm10(f, S, fmin, fmax), g)


def smm10_hf(f, S, fmin=-1.0, fmax=-1.0, g=9.81):
    return steep(hm0_hf(f, S, fmin, fmax), tmm10_hf(f, S, fmin, fmax), g)


# ---------------------------------------------------------------- parametric spectra
def jonswap_shape(f, fp, gam):
    S = np.zeros(len(f))
    for i in range(len(f)):
        if f[i] > 2.220446049250313e-16:
            nu = f[i] / fp
            sig = 0.07 if f[i] < fp else 0.09
            S[i] = f[i] ** (-5) * np.exp(-1.25 * nu ** (-4)) * gam ** np.exp(-((nu - 1) ** 2) / (2 * sig**2))
    return S


def jonswap(f, fp, h, gam=3.3, l_fmax=0.0):
    f = f * 1.0
    hi = f[-1] if l_fmax == 0 else np.inf
    S = jonswap_shape(f, fp, gam) * (9.81**2 * (2 * np.pi) ** (-4))
    return S * (h / (4 * np.sqrt(moment(f, S, 0, f[0], hi)))) ** 2


# ---------------------------------------------------------------- Battjes & Groenendijk
def bg_condition(H1, Htr):
    H2 = Htr / (Htr / H1) ** (2 / 3.6)
    X = (Htr / H1) ** 2
    low = H1**2 * gammainc(2, X) * gamma(2)
    high = H2**2 * (gamma(2 / 3.6 + 1) - gamma(2 / 3.6 + 1) * gammainc(2 / 3.6 + 1, X))
    return low + high


def bg_transition(hm0, d, cota):
    s = hm0 / 4
    return (0.35 + 5.8 / cota) * d / (s * (2.69 + 3.24 * s / d))


def battjes_groenendijk(hm0, n, d, cota=250.0, tol=1e-5):
    Htr = (0.35 + 5.8 / cota) * d
    s = hm0 / 4
    Hrms = s * (2.69 + 3.24 * s / d)
    q = Htr / Hrms
    if q > 2.75:
        return np.empty((0, 0)), np.empty((0, 0))
    est = 10
    H1 = 100
    while abs(est - 1) > tol:
        est = bg_condition(H1, q)
        H1 = H1 - 0.01 * (est - 1)
    H1 = H1 + 0.01 * (est - 1)
    H2 = q / (q / H1) ** (2 / 3.6)
    x1 = H1 * np.log(n) ** (1 / 2)
    x2 = H2 * np.log(n) ** (1 / 3.6)
    x = x1 if x1 < q else x2
    x = min(x * Hrms, exponweib.ppf(1 - 1 / n, 1, 2, scale=np.sqrt(8)) / 4 * hm0)
    P1 = np.exp(-((Htr / (H1 * Hrms)) ** 2))
    P2 = np.exp(-((Htr / (H2 * Hrms)) ** 3.6))
    P = P1 if hm0 < Htr else P2
    return np.array([0.0, Htr, x]), np.array([1.0, P, 1 / n])


# ---------------------------------------------------------------- dispersion
def disper_finite(w, h, g):
    y = w**2 * h / g
    y = np.where(y < 1e-8, 1e-8, y)
    q = y / (1 - np.exp(-(y ** (5 / 4)))) ** (2 / 5)
    for _ in (1, 2):
        th = np.tanh(q)
        s2 = 1 - th**2
        a = (1 - q * th) * s2
        b = th + q * s2
        c = q * th - y
        quad = (-b + np.sqrt(b**2 - 4 * a * c)) / (2 * a)
        step = np.where(np.abs(a * c) < 1e-8 * b**2, -c / b, quad)
        q = q + step
    return np.sign(w) * q / h


def disper(w, h, g=9.81):
    w = np.atleast_1d(w)
    if np.isinf(h):
        return w**2 / g
    if h < 0:
        return w / np.sqrt(g * np.abs(h))
    return disper_finite(w, h, g)


# ---------------------------------------------------------------- Fourier transforms
def fft_axis(t):
    n = len(t)
    return np.arange(0, n) / (n * (t[1] - t[0]))


def time2freq(t, x):
    return fft_axis(t), np.fft.fft(x)


def nyquist(t, x):
    n = len(t)
    k = n // 2 + 1
    return fft_axis(t)[0:k], np.fft.fft(x)[0:k], n % 2 == 1


def unfold_axis(f, odd):
    n = 2 * (len(f) - 1) + (1 if odd else 0)
    return np.arange(0, n) * (f[1] - f[0])


def unfold(f, X, odd):
    nf = len(f)
    n = 2 * (nf - 1) + (1 if odd else 0)
    df = f[1] - f[0]
    Y = np.zeros(n, dtype=complex)
    for i in range(n):
        if odd:
            Y[i] = X[i] if i < nf else np.conj(X[n - i])
        else:
            # the component at the Nyquist frequency is its own mirror image; its conjugate is stored
            Y[i] = X[i] if i < nf - 1 else np.conj(X[n - i])
    return np.arange(0, n) * df, Y


def freq2time(X):
    return np.real(np.fft.ifft(X))


def band(f, X, flow, fhigh):
    """Components with flow <= f < fhigh; an upper limit at or beyond the axis keeps the last one."""
    n = len(f)
    Z = np.zeros(len(X), dtype=complex)
    for i in range(len(X)):
        above = f[i] >= flow
        below = f[i] < fhigh or fhigh >= f[n - 1]
        if above and below:
            Z[i] = X[i]
    return Z


def bandpass(t, x, flow, fhigh):
    f, X, odd = nyquist(t, x)
    g, Y = unfold(f, band(f, X, flow, fhigh), odd)
    return freq2time(Y)


def factor(f, df):
    if df == 0.0:
        return 1
    return max(int(np.round(df / (f[1] - f[0]))), 1)


def average(f, S, df=0.0):
    m = factor(f, df)
    n = len(f) // m
    fc = np.zeros(n)
    Sc = np.zeros(n, dtype=np.result_type(S, float))
    for i in range(n):
        fc[i] = np.sum(f[i * m : i * m + m]) / m
        Sc[i] = np.sum(S[i * m : i * m + m]) / m
    return fc, Sc


def coherence(f, X, Y, df=0.0):
    fc, S11 = average(f, np.abs(X) ** 2, df)
    fc, S22 = average(f, np.abs(Y) ** 2, df)
    fc, S12 = average(f, X * np.conj(Y), df)
    return fc, np.abs(S12) ** 2 / (np.maximum(S11, 1e-10) * np.maximum(S22, 1e-10))


def density(f, X, n):
    return 2 * np.abs(X) ** 2 / ((f[1] - f[0]) * n**2)


def spectrum_time(t, x, df=0.0):
    f, X, odd = nyquist(t, x)
    return average(f, density(f, X, len(t)), df)


def spectrum_freq(f, X, n, df=0.0):
    return average(f, density(f, X, n), df)


def synthesise(f, S, t0, t1, dt, u):
    """Series for given uniform random numbers u, one per component."""
    t = np.arange(t0, t1 + dt, dt)
    nt = len(t)
    n = 2 * ((nt + 1) // 2)
    df = 1 / (n * dt)
    nf = n // 2
    fg = df * np.arange(1, nf + 1)
    a = np.sqrt(2 * np.interp(fg, f, S, left=0, right=0) * df)
    X = np.zeros(n, dtype=complex)
    c = a / 2 * np.exp(1j * 2 * np.pi * u)
    X[1 : nf + 1] = c
    X[nf:n] = np.conj(c)[::-1]
    return t, np.real(n * np.fft.ifft(X))[0:nt]


def spectrum2timeseries(f, S, t0, t1, dt, seed=-1):
    t = np.arange(t0, t1 + dt, dt)
    if seed >= 0:
        np.random.seed(seed)
    u = np.random.rand((len(t) + 1) // 2)
    return synthesise(f, S, t0, t1, dt, u)


def welch_density(x, dt, nperseg=0, noverlap=0, nfft=0, window="hann"):
    if nperseg == 0:
        nperseg = None
    if noverlap == 0:
        noverlap = None
    if nfft == 0:
        nfft = None
    return welch(x, fs=1 / dt, window=window, nperseg=nperseg, noverlap=noverlap, nfft=nfft, detrend="constant",
                 return_onesided=True, scaling="density", axis=-1, average="mean")


def welch_resolution(x, dt, df, nfft=0, window="hann"):
    n = int(np.round(1 / (dt * df)))
    k = int(np.round(n / 2))
    return welch_density(x, dt, n, k, nfft, window)


# ---------------------------------------------------------------- wave by wave analysis
def sort_waves(h, T):
    o = np.argsort(-h, kind="stable")
    return h[o], T[o]


def length(x):
    return len(x)


def step(t):
    return np.mean(np.diff(t))


def column(x, i):
    return x[:, i]


def largest(x):
    return np.max(x)


def smallest(x):
    return np.min(x)


def mean(x):
    return np.mean(x)


def crossings(t, x, up):
    out = []
    dt = t[1] - t[0]
    for i in range(len(t) - 1):
        if (x[i] <= 0 and x[i + 1] > 0) if up else (x[i] >= 0 and x[i + 1] < 0):
            out.append(t[i] + dt * x[i] / (x[i] - x[i + 1]))
    return np.array(out)


def zero_crossing(t, x, up):
    c = crossings(t, x, up)
    return max(len(c) - 1, 0), c


def waves(tc, t, x):
    n = max(len(tc) - 1, 0)
    H, T, cr, tr, tcr, ttr = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n)
    for k in range(n):
        i0 = np.where(t >= tc[k])[0][0]
        i1 = np.where(t <= tc[k + 1])[0][-1]
        xs = x[i0 : i1 + 1]
        ts = t[i0 : i1 + 1]
        cr[k] = np.max(xs)
        tr[k] = np.min(xs)
        H[k] = cr[k] - tr[k]
        T[k] = tc[k + 1] - tc[k]
        tcr[k] = ts[np.argmax(xs)]
        ttr[k] = ts[np.argmin(xs)]
    return H, T, cr, tr, tcr, ttr


def series_waves(t, x):
    tc = crossings(t, x, False)
    return waves(tc, t, x), tc


def series_data(t, x):
    (H, T, cr, tr, tcr, ttr), tc = series_waves(t, x)
    return t, x, step(t), len(t), H, T, tc, len(H)


def highest(h, T, p):
    k = int(np.floor(len(h) * p))
    if k > 0:
        return np.mean(h[0:k]), np.mean(T[0:k])
    return 0.0, 0.0


def highest_of(h, T, p):
    a, b = sort_waves(h, T)
    return highest(a, b, p)


def highest_third(h, T):
    return highest_of(h, T, 1 / 3)


def exceeded(h, P):
    k = int(np.floor(len(h) * P / 100.0))
    if k > 0:
        return h[k - 1]
    return 0.0


def exceeded_of(h, T, P):
    a, b = sort_waves(h, T)
    return exceeded(a, P)


def hrms(h):
    return np.sqrt(np.sum(h * h) / len(h))


def hmax(h):
    return np.max(h)


def h2p(h, T):
    return highest_of(h, T, 1 / 3)[0] * np.sqrt(np.log(50) / 2)


# the wave statistics of a series are those of its down-crossing waves
def of_series_hrms(t, x):
    return hrms(series_waves(t, x)[0][0])


def of_series_hmax(t, x):
    return hmax(series_waves(t, x)[0][0])


def of_series_highest(t, x, p):
    w = series_waves(t, x)[0]
    return highest_of(w[0], w[1], p)


def of_series_third(t, x):
    w = series_waves(t, x)[0]
    return highest_of(w[0], w[1], 1 / 3)


def of_series_exceeded(t, x, P):
    w = series_waves(t, x)[0]
    return exceeded_of(w[0], w[1], P)


def of_series_h2p(t, x):
    w = series_waves(t, x)[0]
    return h2p(w[0], w[1])


# ---------------------------------------------------------------- record statistics
def skewness(x):
    d = x - np.mean(x)
    return np.mean(d**3) / np.mean(d**2) ** 1.5


def asymmetry(x):
    d = x - np.mean(x)
    return np.mean(np.imag(hilbert(x)) ** 3) / np.mean(d**2) ** 1.5


def variance(x):
    return np.mean((x - np.mean(x)) ** 2)


# ---------------------------------------------------------------- wave decomposition
def amplitudes(X, k, xr, wl, detlim):
    """Incident and reflected amplitudes at one frequency (least squares for exp(-ikx) and exp(ikx))."""
    e = np.exp(-1j * k * xr)
    W = np.sum(wl)
    a11 = np.sum(wl * e**2)
    a22 = np.sum(wl * np.conj(e) ** 2)
    b1 = np.sum(wl * X * e)
    b2 = np.sum(wl * X * np.conj(e))
    det = a11 * a22 - W * W
    if np.abs(0.25 * det) > detlim:
        return (a22 * b1 - W * b2) / det, (a11 * b2 - W * b1) / det
    return 0.0 * b1, 0.0 * b1


def decompose(t, x, h, xl, wl, detlim=0.125):
    nl = len(xl)
    n = len(t)
    nf = n // 2 + 1
    odd = n % 2 == 1
    F = np.zeros((nf, nl), dtype=complex)
    for j in range(nl):
        F[:, j] = np.fft.fft(x[:, j])[0:nf]
    f = fft_axis(t)[0:nf]
    k = disper(2 * np.pi * f, h, 9.81)
    xr = xl - xl[0]
    I = np.zeros(nf, dtype=complex)
    R = np.zeros(nf, dtype=complex)
    for i in range(nf):
        a, b = amplitudes(F[i, :], k[i], xr, wl, detlim)
        I[i] = a
        R[i] = b
    return freq2time(unfold(f, I, odd)[1]), freq2time(unfold(f, R, odd)[1])


def first_of(f):
    return f[0]


def as_vector(x):
    return np.array(x)


def reanalysed(t, x, up, fc, hm):
    """Individual waves of the signal without its part below fc (for the crossings), without the waves lower than hm."""
    low = bandpass(t, x, 0, fc) if fc != 0 else 0
    tc = crossings(t, x - low, up)
    H, T, cr, tr, tcr, ttr = waves(tc, t, x)
    keep = np.where(H >= hm)[0]
    return H[keep], T[keep], cr[keep], tr[keep], tcr[keep], ttr[keep], H[keep], T[keep], len(keep)


# ---------------------------------------------------------------- curves shown by the plots
def mark_x(T):
    return np.array([1 / T, 1 / T])


def mark_y(top):
    return np.array([0, top])


def rayleigh_axis(n):
    return np.sqrt(-np.log(np.arange(1, n + 1) / n))


def rayleigh_curve(h, T, scale):
    n = len(h)
    return h2p(h, T) * np.sqrt(np.log(1 - np.arange(n, 0, -1) / (n + 1)) / np.log(0.02)) / scale


def sorted_scaled(h, T, scale):
    return sort_waves(h, T)[0] / scale


def scaled(h, scale):
    return h / scale


def exceedance_axis(p):
    return np.sqrt(-np.log(p))


def probability_steps(n):
    return np.linspace(0, n, n) / n


def zeros_like(x):
    return x * 0


def some_directions(f):
    return np.array([0.0, 90.0, 180.0, 270.0])
