"""Reference model of a gradient-enhanced Gaussian process.

Written from the mathematics only (no code shared with gpgradpy): a kernel is a
scalar profile f(q), q = sum_k theta_k (x_k - y_k)^2, and every matrix entry is
built one at a time with the chain rule.  Everything works with complex
numbers, so exact derivatives with respect to hyperparameters come from the
complex step.
"""
import itertools
import numpy as np

SQ5 = 5.0 ** 0.5


# ---------------------------------------------------------------- profiles
def profile(kernel, q, alpha):
    """f(q) and its first three derivatives."""
    if kernel == 'SqExp':
        e = np.exp(-q)
        return e, -e, e, -e
    if kernel == 'RatQu':
        b = 1 + q / alpha
        f0 = b ** (-alpha)
        f1 = -(b ** (-alpha - 1))
        f2 = (1 + 1 / alpha) * b ** (-alpha - 2)
        f3 = -(1 + 1 / alpha) * (1 + 2 / alpha) * b ** (-alpha - 3)
        return f0, f1, f2, f3
    if kernel == 'Ma5f2':
        nu = np.sqrt(q + 0j)
        if not isinstance(q, complex):
            nu = nu.real
        e = np.exp(-SQ5 * nu)
        f0 = (1 + SQ5 * nu + 5.0 / 3.0 * nu * nu) * e
        f1 = -(5.0 / 6.0) * (1 + SQ5 * nu) * e
        f2 = (25.0 / 12.0) * e
        # f3 is singular at q = 0 but is always multiplied by r^3 there
        f3 = 0.0 if nu == 0 else -(25.0 * SQ5 / 24.0) * e / nu
        return f0, f1, f2, f3
    raise ValueError(kernel)


def labels(n, d, mask):
    """Rows of the data vector: (point, None) values, then (point, coord), coordinate-major."""
    out = [(i, None) for i in range(n)]
    if mask is not None:
        for k in range(d):
            for i in range(n):
                if mask[i]:
                    out.append((i, k))
    return out


def _entry(f, th, r, i, j):
    """d^{|i|}/dx_i d^{|j|}/dy_j k(x, y);  i, j are coordinates or None."""
    f0, f1, f2, _ = f
    if i is None and j is None:
        return f0
    if i is None:
        return -2 * th[j] * r[j] * f1
    if j is None:
        return 2 * th[i] * r[i] * f1
    return -2 * th[i] * (i == j) * f1 - 4 * th[i] * th[j] * r[i] * r[j] * f2


def cross(kernel, th, alpha, X, LX, Y, LY):
    """Covariance between rows LX of X and rows LY of Y (unit process variance)."""
    th = np.asarray(th)
    cplx = np.iscomplexobj(th) or isinstance(alpha, complex)
    K = np.zeros((len(LX), len(LY)), dtype=complex if cplx else float)
    cache = {}
    for a, (p, i) in enumerate(LX):
        for b, (s, j) in enumerate(LY):
            if (p, s) not in cache:
                r = X[p] - Y[s]
                q = sum(th[k] * r[k] * r[k] for k in range(len(r)))
                q = complex(q) if cplx else float(q)
                cache[(p, s)] = (profile(kernel, q, alpha), r)
            f, r = cache[(p, s)]
            K[a, b] = _entry(f, th, r, i, j)
    return K


def hess_row(kernel, th, alpha, x, Y, LY):
    """d^2/dx_i dx_j of the covariance between the value at x and rows LY of Y."""
    d = len(x)
    H = np.zeros((d, d, len(LY)))
    for b, (s, l) in enumerate(LY):
        r = x - Y[s]
        q = float(sum(th[k] * r[k] ** 2 for k in range(d)))
        f0, f1, f2, f3 = profile(kernel, q, alpha)
        for i in range(d):
            for j in range(d):
                if l is None:
                    H[i, j, b] = 2 * th[i] * (i == j) * f1 + 4 * th[i] * th[j] * r[i] * r[j] * f2
                else:
                    H[i, j, b] = -(4 * th[i] * (i == j) * th[l] * r[l] * f2
                                   + 4 * th[i] * th[j] * ((i == l) * r[j] + r[i] * (j == l)) * f2
                                   + 8 * th[i] * th[j] * th[l] * r[i] * r[j] * r[l] * f3)
    return H


def nugget_regularise(K, N, varK, eta, precon):
    """Regularised covariance: base adds eta*varK*I, precon scales eta with the diagonal."""
    A = K + np.diag(N / varK)
    if precon:
        return varK * (A + eta * np.diag(np.diag(A)))
    return varK * (A + eta * np.eye(len(A)))


def min_dist(X):
    m = np.inf
    for a, b in itertools.combinations(range(len(X)), 2):
        m = min(m, float(np.sqrt(sum((X[a] - X[b]) ** 2))))
    return m


def max_dist(X):
    m = 0.0
    for a, b in itertools.combinations(range(len(X)), 2):
        m = max(m, float(np.sqrt(sum((X[a] - X[b]) ** 2))))
    return m


class Scaling:
    """x_scl = s (x - x_shift),  f_scl = c (f - f_shift)."""

    def __init__(self, d, s=None, xs=None, c=1.0, fs=0.0):
        self.s = np.ones(d) if s is None else np.asarray(s, float)
        self.xs = np.zeros(d) if xs is None else np.asarray(xs, float)
        self.c, self.fs = float(c), float(fs)

    def x(self, X):
        return (np.asarray(X) - self.xs) * self.s


class RefGP:
    """Exact conditional Gaussian process in scaled coordinates.

    theta, varK, beta and noise hyperparameters refer to scaled coordinates,
    results are returned in the user's coordinates."""

    def __init__(self, kernel, X, f, g, mask, theta, alpha, varK, beta,
                 Nf, Ng, eta, precon, scl=None):
        X = np.asarray(X, float)
        n, d = X.shape
        self.n, self.d, self.kernel, self.th, self.alpha = n, d, kernel, np.asarray(theta), alpha
        self.scl = scl or Scaling(d)
        self.mask = mask
        self.X = self.scl.x(X)
        self.L = labels(n, d, mask)
        self.varK, self.beta, self.eta, self.precon = varK, beta, eta, precon
        y, N = [], []
        gi = -1
        row = {}
        if mask is not None:
            for i in range(n):
                if mask[i]:
                    gi += 1
                    row[i] = gi
        for (i, k) in self.L:
            if k is None:
                y.append(self.scl.c * (f[i] - self.scl.fs))
                N.append(Nf[i] if np.ndim(Nf) else Nf)
            else:
                y.append(self.scl.c * g[row[i]][k] / self.scl.s[k])
                N.append(Ng[row[i]][k] if np.ndim(Ng) else Ng)
        self.y, self.N = np.array(y, float), np.array(N)
        self.h = np.array([1.0 if k is None else 0.0 for (_, k) in self.L])
        self.K = cross(kernel, self.th, alpha, self.X, self.L, self.X, self.L)

    def Kcov(self):
        return nugget_regularise(self.K, self.N, self.varK, self.eta, self.precon)

    def predict(self, Q, hess=False):
        """mu, sig2 and derivatives in user coordinates."""
        th, sc, d = self.th, self.scl, self.d
        Qs = sc.x(Q)
        C = self.Kcov()
        r = self.y - self.beta * self.h
        w = np.linalg.solve(C, r)
        out = dict(mu=[], var=[], dmu=[], dvar=[], d2mu=[], d2var=[])
        for x in Qs:
            x2 = x[None, :]
            kv = self.varK * cross(self.kernel, th, self.alpha, x2, [(0, None)], self.X, self.L)[0]
            kd = self.varK * cross(self.kernel, th, self.alpha, x2, [(0, k) for k in range(d)], self.X, self.L)
            z = np.linalg.solve(C, kv)
            Z = np.linalg.solve(C, kd.T)
            out['mu'].append(self.beta + kv @ w)
            out['var'].append(self.varK - kv @ z)
            out['dmu'].append(kd @ w)
            out['dvar'].append(-2 * kd @ z)
            if hess:
                kh = self.varK * hess_row(self.kernel, th, self.alpha, x, self.X, self.L)
                out['d2mu'].append(kh @ w)
                out['d2var'].append(-2 * (kh @ z + kd @ Z))
        o = {k: np.array(v) for k, v in out.items()}
        S = sc.s
        o['mu'] = o['mu'] / sc.c + sc.fs
        o['var'] = o['var'] / sc.c ** 2
        o['dmu'] = o['dmu'] * S / sc.c
        o['dvar'] = o['dvar'] * S / sc.c ** 2
        if hess:
            SS = np.outer(S, S)
            o['d2mu'] = o['d2mu'] * SS / sc.c
            o['d2var'] = o['d2var'] * SS / sc.c ** 2
        return o


# ---------------------------------------------------------------- likelihood
def gls_beta(C, y, h):
    Ch, Cy = np.linalg.solve(C, h), np.linalg.solve(C, y)
    return (h @ Cy) / (h @ Ch)


def lkd_noise_free(A, y, h, pen=None):
    """Profile log marginal likelihood without constants; returns (lkd, beta, varK).
    A: regularised unit-variance matrix; pen(varK) is the variance penalty."""
    beta = gls_beta(A, y, h)
    r = y - beta * h
    n = len(y)
    varK = (r @ np.linalg.solve(A, r)) / n
    s, ld = np.linalg.slogdet(A)
    ld = ld + np.log(s)
    p = pen(varK) if pen else 0.0
    return -(n * np.log(varK) + ld) / 2 - p, beta, varK


def lkd_noisy(C, y, h):
    beta = gls_beta(C, y, h)
    r = y - beta * h
    s, ld = np.linalg.slogdet(C)
    ld = ld + np.log(s)
    return -(ld + r @ np.linalg.solve(C, r)) / 2, beta


# ---------------------------------------------------------------- scaling and nuggets from their definitions
def vreq(n, d):
    """Required smallest distance of the method that rescales about the origin."""
    if n == 1:
        return 1.0
    star = 2 * np.sqrt(d)
    v = (2 + np.sqrt(4 + 2 * np.e ** 2 * np.log((n - 1) * (1 + star) / 2))) / np.e
    return min(v, star)


def data_scaling(method, X, f):
    X = np.asarray(X, float)
    n, d = X.shape
    if method in ('base', 'precon'):
        return Scaling(d)
    if n == 1:
        return Scaling(d, np.ones(d), X[-1], 1.0, f[-1])
    if method == 'dflt_vmax':
        s = 1.0 / max_dist(X)
    else:
        s = (vreq(n, d) if method == 'rescale_origin' else 1.0) / min_dist(X)
    return Scaling(d, s * np.ones(d), X[-1], 100.0 / (max(f) - min(f)), f[-1])


def nugget(kernel, method, n, d, use_grad, kmax, rule='Kbase_eta', K=None, eta_dflt=1e-8):
    base = n / (kmax - 1)
    if method == 'rescale_eta_vary':
        return float(np.max(np.sum(np.abs(K), axis=1))) / (kmax - 1)
    if rule == 'dflt_eta':
        return eta_dflt
    if (not use_grad) or n == 1:
        return base
    if method == 'precon':
        if kernel == 'Ma5f2':
            s3 = np.sqrt(3 * d)
            a = (s3 - 1 + np.sqrt(15 * d + 2 * s3 + 1)) / (2 * (3 * d + s3))
            ub = (n - 1) * (1 + (d + s3) * a + d * (1 + s3) * a * a) * np.exp(-s3 * a)
        else:
            q = np.sqrt(1 + 4 * d)
            ub = (n - 1) * (1 + q) / 2 * np.exp(-(1 + 2 * d - q) / (4 * d))
        return (1 + ub) / (kmax - 1)
    if method == 'rescale_origin':
        v = 2 * np.sqrt(d) / vreq(n, d)
        return (1 + (n - 1) * v * np.exp(1 / v - 1)) / (kmax - 1)
    if rule == 'Kbase_eta_w_dim':
        return base * (d + 1)
    return base


# ---------------------------------------------------------------- hyperparameter derivatives (complex step)
class HpModel:
    """The regularised matrix as a function of the optimised hyperparameters, in the order
    length scales, kernel shape, process variance, value noise, gradient noise."""

    def __init__(self, R, noisy, unk_f, unk_g, opt_kernel=True, method='base', kmax=1e4):
        self.R, self.noisy, self.unk_f, self.unk_g, self.method, self.kmax = R, noisy, unk_f, unk_g, method, kmax
        self.has_kernel = opt_kernel and R.kernel == 'RatQu'
        self.names = [f'theta{i}' for i in range(R.d)]
        if self.has_kernel:
            self.names.append('kernel')
        if noisy:
            self.names.append('varK')
        if unk_f:
            self.names.append('var_fval')
        if unk_g:
            self.names.append('var_fgrad')

    def vec(self, theta, alpha, varK, vf, vg):
        v = list(theta)
        if self.has_kernel:
            v.append(alpha)
        if self.noisy:
            v.append(varK)
        if self.unk_f:
            v.append(vf)
        if self.unk_g:
            v.append(vg)
        return np.array(v)

    def parts(self, v):
        R = self.R
        it = iter(v)
        th = np.array([next(it) for _ in range(R.d)])
        al = next(it) if self.has_kernel else R.alpha
        varK = next(it) if self.noisy else 1.0
        N = np.array(R.N).astype(np.asarray(v).dtype)
        isval = R.h == 1
        if self.unk_f:
            N[isval] = next(it)
        if self.unk_g:
            N[~isval] = next(it)
        return th, al, varK, N

    def eta(self, K):
        if self.method != 'rescale_eta_vary':
            return self.R.eta
        rows = np.sum(np.abs(K.real), axis=1)
        i = int(np.argmax(rows))
        return np.sum(np.sign(K[i].real) * K[i]) / (self.kmax - 1)

    def tie(self, v):
        """Is the row that decides the varying nugget ambiguous, or an entry of it at its kink?"""
        if self.method != 'rescale_eta_vary':
            return False
        th, al, _, _ = self.parts(v)
        K = cross(self.R.kernel, th, al, self.R.X, self.R.L, self.R.X, self.R.L)
        rows = np.sort(np.sum(np.abs(K), axis=1))
        return len(rows) > 1 and rows[-1] - rows[-2] < 1e-6 * rows[-1]

    def matrix(self, v):
        R = self.R
        th, al, varK, N = self.parts(v)
        K = cross(R.kernel, th, al, R.X, R.L, R.X, R.L)
        return nugget_regularise(K, N, varK, self.eta(K), R.precon)

    def grad(self, fun, v):
        """Exact derivative of fun(v) by the complex step."""
        v = np.asarray(v, float)
        out = []
        for i in range(len(v)):
            h = 1e-30 * max(1.0, abs(v[i]))
            w = v.astype(complex)
            w[i] += 1j * h
            out.append(np.asarray(fun(w)).imag / h)
        return np.array(out)

    def lkd(self, v, pen=None):
        C = self.matrix(v)
        if self.noisy:
            return lkd_noisy(C, self.R.y, self.R.h)[0]
        return lkd_noise_free(C, self.R.y, self.R.h, pen)[0]

    def closed_form(self, v):
        C = self.matrix(np.asarray(v, float))
        if self.noisy:
            return lkd_noisy(C, self.R.y, self.R.h)[1], None
        return lkd_noise_free(C, self.R.y, self.R.h)[1:]
