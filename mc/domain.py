"""Finite alphabets shared by the property modules, and builders that turn one
element of the product space into the implementation object and the reference
model.  Everything is deterministic."""
import itertools
import numpy as np
import ref

KERNELS = ['SqExp', 'RatQu', 'Ma5f2']
METHODS = ['base', 'precon', 'rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax']
ALPHA = {'SqExp': [None], 'Ma5f2': [None], 'RatQu': [2.3]}
UNITS = [(1e-9, 1.0), (1e6, 1.0), (1e-3, 1e-4), (1e4, 1e5), (300.0, 1e-2), (1e-4, 30.0)]
LARGE = [(8, 6), (13, 2), (21, 1), (24, 3)]     # numbers of points and dimensions beyond the complete products
EPS = np.finfo(float).eps

# irregular, well separated points in 5 dimensions (first d columns are used)
_GEN = np.array([[0.00, 0.00, 0.00, 0.00, 0.00],
                 [0.60, 0.30, -0.45, 0.85, 0.15],
                 [0.20, 1.10, 0.70, -0.35, 0.90],
                 [-0.75, 0.55, 0.25, 0.40, -0.60],
                 [1.15, -0.40, 0.95, 0.10, 0.50],
                 [-0.30, -0.95, -0.80, 0.65, 0.35],
                 [0.90, 0.80, -1.10, -0.70, -0.25],
                 [-1.20, -0.20, 0.50, -0.90, 0.75]])
# points that share coordinates with one another
_GRID = np.array([[0.0, 0.0, 0.0, 0.0, 0.0],
                  [0.7, 0.0, 0.0, 0.7, 0.0],
                  [0.7, 0.7, 0.0, 0.0, 0.7],
                  [-0.7, 0.7, 0.7, 0.0, 0.0],
                  [1.4, -0.7, 0.7, 0.7, 0.0],
                  [-1.4, 0.0, -0.7, 0.7, 0.7]])
_F = np.array([1.0, 2.5, -0.4, 0.3, 1.7, -1.2, 0.6, 2.1])
_G = np.array([[1.0, -0.5, 0.3, 0.7, -0.2],
               [0.3, 0.8, -0.6, -0.4, 0.5],
               [-1.0, 0.2, 0.4, 0.9, -0.7],
               [0.6, -0.9, 1.1, -0.3, 0.8],
               [-0.2, 1.3, -0.8, 0.5, 0.1],
               [0.9, 0.4, 0.2, -1.1, -0.6],
               [-0.7, -0.3, 0.5, 0.8, 1.2],
               [0.4, 1.0, -0.9, 0.2, -0.5]])
_TH = {'mod': [0.7, 1.3, 0.9, 0.45, 1.6], 'aniso': [0.05, 6.0, 0.4, 11.0, 0.02],
       'iso': [1.0, 1.0, 1.0, 1.0, 1.0], 'small': [1e-3, 3e-3, 2e-3, 5e-4, 7e-3], 'large': [40.0, 90.0, 60.0, 25.0, 140.0]}
_OFF = np.array([0.31, -0.17, 0.23, 0.44, -0.29])
_N, _D = 24, 8


def _fill(i, j, k):
    """Fixed irregular numbers in (-1, 1)."""
    return 2 * np.modf(0.5 + (i + 1) * np.sqrt([2, 3, 5, 7, 11, 13, 17, 19][j % 8]) * (1 + 0.1 * k))[0] - 1


def _extend(T, k, scale, shape, positive=False):
    """The table T continued to the given shape."""
    out = np.array([[scale * _fill(i, j, k) for j in range(shape[1])] for i in range(shape[0])])
    if positive:
        out = np.abs(out)
    T = np.asarray(T, float).reshape(len(T), -1)
    out[:T.shape[0], :T.shape[1]] = T
    return out


_GEN = _extend(_GEN, 1, 2.0, (_N, _D))
_G = _extend(_G, 2, 1.2, (_N, _D))
_F = _extend(_F, 3, 2.0, (_N, 1))[:, 0]
_OFF = _extend(_OFF[None, :], 4, 0.45, (1, _D))[0]
_GEN1 = np.array([0.0, 0.6, 1.3, -0.75, 2.1, -1.45, 2.8, -2.2] + [(-1) ** i * (3.5 + 0.33 * i + 0.02 * (i % 3)) for i in range(_N - 8)])[:, None]
_TH['tiny'], _TH['huge'] = [[v * f for v in _TH[a]] for a, f in (('small', 1e-7), ('large', 1e6))]
_TH = {a: np.hstack([b, np.array(b)[[2, 0, 1]] * 1.1]) for a, b in _TH.items()}


def points(layout, n, d):
    if layout == 'gen':
        X = _GEN[:n, :d].copy()
        if d == 1:
            X = _GEN1[:n].copy()
        return X
    if layout == 'grid':
        if d == 1:
            return np.array([[0.0], [0.7], [1.4], [-0.7], [-1.4], [2.1]])[:n].copy()
        return _GRID[:n, :d].copy()
    if layout == 'close':
        X = points('gen', n, d)
        if n > 1:
            X[1] = X[0] + 1e-3 * np.array([1.0, -0.5, 0.25, 0.7, -0.3, 0.6, -0.8, 0.9])[:d]
        return X
    if layout == 'dup':
        X = points('gen', n, d)
        X[n - 1] = X[0]
        return X
    if layout == 'far':
        return points('gen', n, d) * 37.0 + np.array([5.0, -3.0, 11.0, 2.0, -7.0, 4.0, 9.0, -6.0])[:d]
    raise ValueError(layout)


def masks(n, empty=False):
    """None (all gradients, no mask given) and every subset of the points."""
    out = [None]
    for m in itertools.product([1, 0], repeat=n):
        if any(m) or empty:
            out.append(list(m))
    return out


def fdata(n):
    return _F[:n].copy()


def gdata(n, d, mask):
    G = _G[:n, :d].copy()
    return G if mask is None else G[np.array(mask, bool)]


def std_val(mode, n):
    if mode == 'zero':
        return np.zeros(n)
    if mode == 'uni':
        return np.full(n, 0.12)
    if mode == 'pp':
        return _SF[:n].copy()
    return None


_SG = np.array([[0.10, 0.30, 0.05, 0.22, 0.17], [0.20, 0.15, 0.40, 0.08, 0.31], [0.07, 0.11, 0.0, 0.35, 0.26],
                [0.25, 0.09, 0.19, 0.13, 0.02], [0.14, 0.28, 0.06, 0.18, 0.33], [0.03, 0.36, 0.12, 0.24, 0.16],
                [0.29, 0.04, 0.23, 0.38, 0.01], [0.32, 0.21, 0.27, 0.02, 0.39]])
_SF = _extend([0.10, 0.21, 0.05, 0.33, 0.0, 0.15, 0.08, 0.27], 5, 0.3, (_N, 1), True)[:, 0]
_SG = _extend(_SG, 6, 0.35, (_N, _D), True)


def std_grad(mode, n, d, mask):
    m = np.ones(n, bool) if mask is None else np.array(mask, bool)
    if mode == 'zero':
        return np.zeros((int(m.sum()), d))
    if mode == 'uni':
        return np.full((int(m.sum()), d), 0.17)
    if mode == 'pp':
        return _SG[:n, :d][m].copy()
    return None


class Cfg:
    """One configuration of the surrogate; plain values only."""
    # fm, xm: factors of the function values and of the coordinates; hyperparameters are converted accordingly
    keys = dict(fm=1.0, xm=1.0, k='SqExp', w='base', g=True, lay='gen', n=3, d=2, mask=None, nf='zero', ng='zero',
                th='mod', alpha=None, varK=2.5, beta=0.4, ct=1e4, vf=0.02, vg=0.03, eta='Kbase_eta')

    def __init__(self, case):
        for a, b in self.keys.items():
            setattr(self, a, case.get(a, b))
        if self.k == 'RatQu' and self.alpha is None:
            self.alpha = 2.3
        if not self.g:
            self.mask = None
        self._rx = 1.0
        if (self.fm, self.xm) != (1.0, 1.0):
            w = self.w if self.g else 'base'
            old = ref.data_scaling(w, points(self.lay, self.n, self.d), fdata(self.n))
            new = ref.data_scaling(w, self.X(), self.f())
            rf, self._rx = self.fm * new.c / old.c, self.xm * new.s[0] / old.s[0]
            self.varK, self.beta, self.vf, self.vg = self.varK * rf ** 2, self.beta * rf, self.vf * rf ** 2, self.vg * (rf / self._rx) ** 2

    @property
    def theta(self):
        th = _TH[self.th][:self.d] if isinstance(self.th, str) else self.th
        return np.array(th, float) / self._rx ** 2

    def X(self):
        return points(self.lay, self.n, self.d) * self.xm

    def f(self):
        return fdata(self.n) * self.fm

    def G(self, mask=None):
        return gdata(self.n, self.d, mask) * (self.fm / self.xm)

    def sf(self):
        s = std_val(self.nf, self.n)
        return None if s is None else s * self.fm

    def sg(self, mask=None):
        s = std_grad(self.ng, self.n, self.d, mask)
        return None if s is None else s * (self.fm / self.xm)

    @property
    def vmask(self):
        """mask in the sense of the reference model (None: no gradients at all)."""
        if not self.g:
            return None
        return [True] * self.n if self.mask is None else [bool(v) for v in self.mask]

    def data(self):
        if self.g:
            return self.X(), self.f(), self.sf(), self.G(self.mask), self.sg(self.mask)
        return self.X(), self.f(), self.sf(), None, None

    def noise_hp(self):
        vf = self.vf if self.nf == 'unk' else None
        vg = self.vg if (self.g and self.ng == 'unk') else None
        return vf, vg

    @property
    def noisy(self):
        """any noise: the process variance is then a free hyperparameter."""
        zf = self.nf == 'zero'
        zg = (not self.g) or self.ng == 'zero'
        return not (zf and zg)


def new_gp(c, **opts):
    from gpgradpy.src.GaussianProcess import GaussianProcess as GP
    gp = GP(c.d, c.g, c.k, c.w, path_data_surr=opts.pop('path', 'unused'))
    gp.cond_max_target = c.ct
    gp.cond_eta_set_mtd = c.eta
    for a, b in opts.items():
        setattr(gp, a, b)
    return gp


def set_data(gp, c):
    X, f, sf, g, sg = c.data()
    gp.set_data(X, f, sf, g, sg, None if c.mask is None else np.array(c.mask, bool))
    return gp


def hp(gp, c, **over):
    vf, vg = c.noise_hp()
    d = dict(beta=np.array([c.beta]), theta=c.theta, kernel=c.alpha, varK=c.varK, var_fval=vf, var_fgrad=vg)
    d.update(over)
    return gp.make_hp_class(**d)


def build(c, **opts):
    """Implementation object, ready to be evaluated."""
    gp = set_data(new_gp(c, **opts), c)
    gp.set_hpara('set', 1, hp(gp, c))
    return gp


def ref_model(c):
    """Reference model; scaling, noise and nugget come from their definitions, not from the implementation."""
    X, f, sf, g, sg = c.data()
    scl = ref.data_scaling(c.w if c.g else 'base', X, f)
    vf, vg = c.noise_hp()
    Nf = vf if sf is None else (sf * scl.c) ** 2
    if c.g:
        Ng = vg if sg is None else (sg * scl.c / scl.s) ** 2
    else:
        Ng = 0.0
    if Nf is None:
        Nf = 0.0
    w = c.w if c.g else 'base'
    R = ref.RefGP(c.k, X, f, g, c.vmask, c.theta, c.alpha, c.varK, c.beta, Nf, Ng, 0.0, w == 'precon', scl)
    R.eta = ref.nugget(c.k, w, c.n, c.d, c.g, c.ct, c.eta, K=R.K)
    return R


def tol_of(cond):
    return 1e-9 + 300 * EPS * cond


def queries(c, kind):
    """Query points in user coordinates."""
    return unit_queries(c, kind) * c.xm


def unit_queries(c, kind):
    X = points(c.lay, c.n, c.d)
    span = max(1.0, float(np.max(np.abs(X))))
    off = _OFF[:c.d]
    if kind == 'gen':
        return X[0] + span * 0.6 * off
    if kind == 'data':
        return X[-1].copy()
    if kind == 'data0':
        return X[0].copy()
    if kind == 'share':          # shares its first coordinate with a data point
        q = X[0] + span * 0.5 * off
        q[0] = X[-1][0]
        return q
    if kind == 'share2':         # shares all coordinates but the last
        q = X[0].copy()
        q[-1] += 0.37 * span
        return q
    if kind == 'near':
        return X[0] + 1e-5 * off
    if kind == 'far':
        return X[0] + 60.0 * span * np.sign(off)
    if kind == 'out':
        return X[0] + 1.7 * span * off[::-1]
    raise ValueError(kind)


QKINDS = ['gen', 'data', 'data0', 'share', 'share2', 'near', 'out', 'far']


def repeated(**over):
    """Data sets in which a point occurs twice, for the methods that do not need a smallest distance."""
    for k in KERNELS:
        for i, (nf, ng) in enumerate([('zero', 'zero'), ('pp', 'unk'), ('unk', 'pp'), ('zero', 'pp'), ('unk', 'unk')]):
            for n, d in [(2, 1), (3, 2), (4, 3)]:
                for w in ('base', 'precon', 'dflt_vmax'):
                    for mask in [None, [int(j != n - 1) for j in range(n)], [int(j != 0) for j in range(n)]] if (n, w) != (2, 'dflt_vmax') else []:
                        yield dict(k=k, w=w, n=n, d=d, mask=mask, nf=nf, ng=ng, lay='dup', **over)
                yield dict(k=k, w='base', g=False, n=n, d=d, nf=nf, lay='dup', **over)


def large(sizes=LARGE, **over):
    """A few large surrogates of every kind: kernels x sizes x (6 methods with gradients, gradient-free), masks and noise in turn."""
    i = 0
    for k in KERNELS:
        for n, d in sizes:
            for w in METHODS:
                for mask in [None, [int(j % 3 != 1) for j in range(n)]]:
                    nf, ng = [('zero', 'zero'), ('pp', 'unk'), ('unk', 'pp'), ('zero', 'pp'), ('unk', 'unk')][i % 5]
                    i += 1
                    yield dict(k=k, w=w, n=n, d=d, mask=mask, nf=nf, ng=ng, **over)
            yield dict(k=k, w='base', g=False, n=n, d=d, nf=['zero', 'pp', 'unk'][i % 3], **over)


def product(**axes):
    names = list(axes)
    for vals in itertools.product(*axes.values()):
        yield dict(zip(names, vals))


def hp_model(c, R=None):
    R = R or ref_model(c)
    return ref.HpModel(R, c.noisy, c.nf == 'unk', c.g and c.ng == 'unk', method=c.w if c.g else 'base', kmax=c.ct)


def hp_vec(c, M):
    return M.vec(c.theta, c.alpha, c.varK, c.vf, c.vg)
