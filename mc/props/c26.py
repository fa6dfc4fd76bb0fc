"""The scripts of the published figures: what they draw against its definition."""
import ast
import contextlib
import io
import itertools
import os
import re
import shutil
import sys
import tempfile
import warnings
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.axes import Axes
from matplotlib.colors import to_rgba
from matplotlib.figure import Figure
import ref

BOUNDS = {
    'quick': 'correlations: the script as it is and every choice of its 4 figures x 4 shape parameters x 2 grids; surrogate and acquisition scripts: as they are and with/without gradients x 2 kernels x '
             'all methods x {2,3,4,5} points (acquisition: 3 length scales, confidence factors 0.5, 2, 3); condition number maps: each of the blocks of the script switched on alone x 2 numbers of points x '
             '3 grids of length scales; nuggets: 4 numbers of points x 3 ranges x 3 limits; optimisation results: the recorded runs and 3 synthetic sets of runs for the three cases',
    'thorough': 'the same with finer grids, more points and the condition number map as it is',
}
ASSUMPTIONS = ['the settings of a script are the constants at its top; a constant that does not exist any more is left out',
               'condition numbers above 1e12 are only compared in order of magnitude', 'files are written through Figure.savefig, which is replaced by a recorder']
SQ3 = np.sqrt(3.0)


def cases(tier):
    th = tier == 'thorough'
    yield dict(part='corr', set={}, full=True)
    for flags in itertools.product([False, True], repeat=4):
        for alpha in (0.5, 1, 2, 3.5):
            for nr, rmin in ((12, 4), (7, 2)) + (((31, 5),) if th else ()):
                yield dict(part='corr', set=dict(zip(['plt_sq_exp', 'plt_Ma5f2', 'plt_rat_qd', 'plot_together_fwf'], flags), alpha=alpha, nr=nr, rmin=rmin))
    yield dict(part='surr', set={})
    yield dict(part='acq', set={})
    for g, k, m, n in itertools.product([False, True], ['SqExp', 'Ma5f2'], [None, 'precon', 'rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax'], (2, 3, 4, 5) + ((7,) if th else ())):
        if not g and m == 'precon':
            continue
        yield dict(part='surr', set=dict(use_grad=g, kernel_type=k, wellcond_mtd=m, n_eval=n, n_sig=[1, 2, 3][n % 3]))
        if n == 4:
            for t, b in itertools.product((0.3, 1.5, 8.0), (0.5, 2, 3)):
                yield dict(part='acq', set=dict(use_grad=g, kernel_type=k, wellcond_mtd=m, theta_vec=[t], beta=b, n_sig=[1, 2, 3][int(b) % 3]))
    for blk in range(8):
        for n, ng in ((3, 4), (5, 3), (5, 6)) + (((8, 6),) if th else ()):
            for rng in ([1e-2, 1e4], [1e-1, 1e6]) if ng < 6 else ([1e-1, 30],) if n == 5 else ([1e-1, 30], [1e-2, 1e4]):
                yield dict(part='cond', block=blk, set=dict(n_eval=n, n_gamma=ng, range_gamma=rng, save_fig=True))
    if th:
        yield dict(part='cond', block=None, set=dict(save_fig=True))
    for n in (2, 3, 5, 10):
        for rng in ([1e-3, 1e3], [1e-1, 1e2], [1.0, 1e4]):
            for cm in (1e10, 1e4, 30.0):
                yield dict(part='nugget', set=dict(n_eval=n, range_gamma=rng, n_gamma=41 if th else 23, cond_max=cm))
    yield dict(part='nugget', set=dict(n_gamma=60))
    for data in ('own', 0, 1, 2):
        yield dict(part='optz', data=data)


def weight(c):
    return {'cond': 60, 'corr': 8, 'surr': 20, 'acq': 10, 'nugget': 12, 'optz': 60}[c['part']] * (50 if c.get('block', 0) is None else 1)


# ---------------------------------------------------------------------------------------------------------- running a script

class Recorder:
    def __init__(self):
        self.saved, self.filled, self.contours, self.data = [], [], [], []


def literal(v):
    if isinstance(v, list):
        return ast.Call(ast.Attribute(ast.Name('np', ast.Load()), 'array', ast.Load()), [ast.List([ast.Constant(float(x)) for x in v], ast.Load())], [])
    return ast.Constant(v)


@contextlib.contextmanager
def patched(rec_):
    """Figures are not written but recorded; contour maps and the data given to surrogates are recorded; no TeX."""
    from gpgradpy.src.GaussianProcess import GaussianProcess
    old = dict(save=Figure.savefig, cf=Axes.contourf, c=Axes.contour, show=plt.show, sd=GaussianProcess.__dict__.get('set_data'))
    params = dict(plt.rcParams)

    def save(self, fname, *a, **k):
        rec_.saved.append((str(fname), self))

    def cf(self, X, Y, Z, *a, **k):
        rec_.filled.append((self, np.array(X, float), np.array(Y, float), np.ma.filled(np.ma.array(Z, dtype=float), np.nan)))
        return old['cf'](self, X, Y, Z, *a, **k)

    def co(self, X, Y, Z, *a, **k):
        rec_.contours.append((self, np.array(X, float), np.array(Y, float), np.array(Z, float), k.get('levels', a[0] if a else None)))
        return old['c'](self, X, Y, Z, *a, **k)

    base = GaussianProcess.set_data

    def sd(self, *a, **k):
        rec_.data.append((self, np.array(a[0] if a else k['x_eval'], float)))
        return base(self, *a, **k)

    def upd(*a, **k):
        for key, v in dict(*a, **k).items():
            if not key.startswith('text.'):
                plt.rcParams[key] = v
    Figure.savefig, Axes.contourf, Axes.contour, plt.show, GaussianProcess.set_data = save, cf, co, lambda *a, **k: None, sd
    plt.rcParams.update = upd
    try:
        yield
    finally:
        del plt.rcParams.update
        Figure.savefig, Axes.contourf, Axes.contour, plt.show = old['save'], old['cf'], old['c'], old['show']
        if old['sd'] is None:
            del GaussianProcess.set_data
        else:
            GaussianProcess.set_data = old['sd']
        for k, v in params.items():
            with contextlib.suppress(Exception):
                plt.rcParams[k] = v


def run_script(folder, name, consts, block=None, before=None):
    """Executes a script of the package in a scratch directory with some of its settings changed.

    block = i switches on only the i-th of the top-level blocks that are guarded by a constant.  Returns the name space and the recorder, or None if a setting or block does not exist."""
    import gpgradpy
    root = os.path.dirname(os.path.abspath(gpgradpy.__file__))
    fn = os.path.join(root, folder, name + '.py')
    with open(fn) as f:
        tree = ast.parse(f.read(), fn)
    done = set()
    blocks = 0
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and node.targets[0].id in consts:
            node.value = literal(consts[node.targets[0].id])
            done.add(node.targets[0].id)
        if isinstance(node, ast.If) and isinstance(node.test, ast.Constant):
            if block is not None:
                node.test = ast.Constant(blocks == block)
            blocks += 1
    if done != set(consts) or (block is not None and block >= blocks):
        return None
    ast.fix_missing_locations(tree)
    rec_ = Recorder()
    ns = {'__name__': '__main__', '__file__': fn}
    here = os.getcwd()
    scratch = tempfile.mkdtemp(prefix='verif-c26-')
    sys.path.insert(0, os.path.dirname(fn))
    plt.close('all')
    try:
        os.chdir(scratch)
        if before is not None:
            before(scratch, os.path.dirname(fn))
        with patched(rec_), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            exec(compile(tree, fn, 'exec'), ns)
    finally:
        os.chdir(here)
        sys.path.remove(os.path.dirname(fn))
        shutil.rmtree(scratch)
    return ns, rec_


def curves(ax):
    out = []
    for ln in ax.lines:
        xy = np.column_stack([np.asarray(v, float).ravel() for v in ln.get_data()])
        out.append(dict(xy=xy, mark=ln.get_marker() not in (None, 'None', '', ' '), line=ln.get_linestyle() not in (None, 'None', '', ' '), label=str(ln.get_label()),
                        color=to_rgba(ln.get_color()), mcolor=to_rgba(ln.get_markerfacecolor())))
    return out


def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1e-300 + np.max(np.abs(b), initial=0))))


def has(rec, what, cs, x, y, tol, **attr):
    """One of the curves is (x, y)."""
    rec.compared += len(x)
    ok = [c for c in cs if c['xy'].shape == (len(x), 2) and near(c['xy'][:, 0], x, 1e-9) and near(c['xy'][:, 1], y, tol) and all(c[k] == v for k, v in attr.items())]
    if not ok:
        best = [c for c in cs if c['xy'].shape == (len(x), 2)]
        rec.fail(f'{what} is not drawn; expected x {np.asarray(x)[:6]} y {np.asarray(y)[:6]}, drawn {[c["xy"][:6].tolist() for c in best][:4]}')
        return None
    return ok[0]


# ---------------------------------------------------------------------------------------------------------- correlations

def corr(kernel, r, alpha):
    """Correlation of two values, of a slope and a value, of two slopes: k, k', -k''."""
    if kernel == 'sq_exp':
        k = np.exp(-r * r / 2)
        return k, -r * k, k - r * r * k
    if kernel == 'mat5f2':
        s = np.abs(r)
        e = np.exp(-SQ3 * s)
        return (1 + SQ3 * s + s * s) * e, -(r + SQ3 * r * s) * e, (1 + SQ3 * s - 3 * s * s) * e
    b = 1 + r * r / (2 * alpha)
    return b ** -alpha, -r * b ** (-alpha - 1), b ** (-alpha - 1) - (alpha + 1) / alpha * r * r * b ** (-alpha - 2)


LIB = {'sq_exp': 'SqExp', 'mat5f2': 'Ma5f2', 'rat_qd': 'RatQu'}


def corr_lib(kernel, r, alpha):
    """The same from the kernel the surrogate uses, between the points r and 0."""
    from gpgradpy.src.GaussianProcess import GaussianProcess
    gp = GaussianProcess(1, True, LIB[kernel], 'precon')
    out = []
    th = np.atleast_1d(gp.gamma2theta(np.array([1.0])))
    for v in r:
        x = np.array([[v], [0.0]])
        K = gp.calc_Kern((x[:, None, :] - x[None, :, :]).transpose(2, 0, 1), th, alpha if kernel == 'rat_qd' else gp.hp_kernel_default, np.array([True, True]), np.array([True, True]))
        out.append((K[0, 1], K[2, 1], K[2, 3]))
    return np.array(out).T


def run_corr(case, rec):
    res = run_script('plt', 'plt_kern_corr', case['set'])
    if res is None:
        return rec.skip('settings')
    ns, R = res
    s = dict(dict(plt_sq_exp=True, plt_Ma5f2=False, plt_rat_qd=False, plot_together_fwf=False, alpha=2, nr=100, rmin=4), **case['set'])
    al = s['alpha']
    r = np.linspace(-s['rmin'], s['rmin'], s['nr'])
    want = {}
    for flag, k, nm in (('plt_sq_exp', 'sq_exp', 'corr_1d_sq_exp'), ('plt_Ma5f2', 'mat5f2', 'corr_1d_mat5f2'), ('plt_rat_qd', 'rat_qd', f'corr_1d_rat_qd_a{al}')):
        if s[flag]:
            want[nm] = k
    got = {}
    for p, fig in R.saved:
        got[os.path.splitext(os.path.basename(p))[0] if p.endswith('.png') else p] = fig
    names = set(want) | ({'corr_2d_sq_exp'} if s['plt_sq_exp'] else set()) | ({'corr_all_kernel_fwf'} if s['plot_together_fwf'] else set())
    rec.check(set(got) == names and len(R.saved) == len(names), f'figures {sorted(got)} are written, expected {sorted(names)}')
    for nm, k in want.items():
        ax = got[nm].axes[0]
        cs = curves(ax)
        rec.check(len(cs) == 3, f'{nm}: {len(cs)} curves instead of 3')
        for i, y in enumerate(corr(k, r, al)):
            c = has(rec, f'{nm}: correlation with {i} derivatives', cs, r, y, 1e-12)
            if c:
                rec.check(c['label'].count('partial f') == i, f'{nm}: correlation with {i} derivatives has the label {c["label"]}')
        for i, (y, l) in enumerate(zip(corr(k, r, al), corr_lib(k, r[:: max(1, len(r) // 11)], al))):
            rec.close(f'{nm}: correlation with {i} derivatives and the kernel in use', l, y[:: max(1, len(r) // 11)], rtol=1e-12, atol=1e-13)
    if 'corr_all_kernel_fwf' in names:
        cs = curves(got['corr_all_kernel_fwf'].axes[0])
        rec.check(len(cs) == 3, f'all kernels: {len(cs)} curves instead of 3')
        for k, word in (('sq_exp', 'Gauss'), ('mat5f2', 'Mat'), ('rat_qd', 'Rat')):
            c = has(rec, f'all kernels: {k}', cs, r, corr(k, r, al)[0], 1e-12)
            if c:
                rec.check(word in c['label'], f'all kernels: the curve of {k} has the label {c["label"]}')
    if 'corr_2d_sq_exp' in names:
        m = [f for f in R.filled if f[0].figure is got['corr_2d_sq_exp']]
        rec.check(len(m) == 1, 'one map of correlations')
        for ax, X, Y, Z in m:
            rec.close('grid of the map', np.sort(np.unique(X)), r, rtol=1e-12, atol=1e-12)
            rec.close('correlation of the slopes in two directions', Z, -X * Y * np.exp(-(X ** 2 + Y ** 2) / 2), rtol=1e-12, atol=1e-14)
    f = ns.get('calc_sq_exp_2d_corr')
    if f is not None:
        a, b = np.meshgrid([-1.0, 0.25, 2.0], [0.5, 1.5])
        rec.close('correlation of the slopes at other points', f(a, b), -a * b * np.exp(-(a ** 2 + b ** 2) / 2), rtol=1e-12)
    rec.state('corr', str(case['set']))
    rec.step(len(R.saved))


# ---------------------------------------------------------------------------------------------------------- one-dimensional surrogates

def f1(x):
    return np.sin(x) + np.sin(10 * x / 3)


def g1(x):
    return np.cos(x) + 10 / 3 * np.cos(10 * x / 3)


def gp1(s, x):
    from gpgradpy.src.GaussianProcess import GaussianProcess
    gp = GaussianProcess(1, s['use_grad'], s['kernel_type'], s['wellcond_mtd'])
    x = x[:, None]
    if s['use_grad']:
        gp.set_data(x, f1(x[:, 0]), np.zeros(len(x)), g1(x), np.zeros(x.shape))
    else:
        gp.set_data(x, f1(x[:, 0]), np.zeros(len(x)))
    return gp


def lkd1(gp, th):
    with contextlib.redirect_stdout(io.StringIO()):
        return gp.calc_lkd_all(gp.make_hp_class(None, np.atleast_1d(th)), calc_cond=True)[0]


def model1(s, x, th, xq):
    info = lkd1(gp1(s, x), th)
    gp = gp1(s, x)
    gp.hp_vals = gp.make_hp_class(np.atleast_1d(info.hp_beta[0]), np.atleast_1d(th), varK=info.hp_varK)
    gp.setup_eval_model()
    return gp.eval_model(xq[:, None])[:2]


def check_band(rec, what, ax, x, mu, sig, n_sig, fun, xe, fe, color=None, tol=1e-5):
    """Surrogate drawn on one pair of axes: mean, band, exact function, points."""
    cs = curves(ax)
    scale = np.max(np.abs(mu)) + np.max(sig) * n_sig
    c = None
    for name, y in (('mean', mu), ('lower limit', mu - n_sig * sig), ('upper limit', mu + n_sig * sig)):
        ok = [k for k in cs if k['xy'].shape == (len(x), 2) and near(k['xy'][:, 0], x, 1e-9) and np.max(np.abs(k['xy'][:, 1] - y)) <= tol * scale and (name != 'mean' or color is None or k['color'] == color)]
        rec.compared += len(x)
        if not ok:
            rec.fail(f'{what}: {name} is not drawn as computed')
    c = has(rec, f'{what}: exact function', cs, x, fun, 1e-12)
    has(rec, f'{what}: data', cs, xe, fe, 1e-12, line=False, mark=True)
    return c


def run_surr(case, rec):
    try:
        res = run_script('plt', 'plt_surr_1d', dict(case['set'], save_fig=True))
    except Exception as e:
        # a method that refuses this data set is not a matter of the script
        s = dict(dict(use_grad=False, kernel_type='SqExp', wellcond_mtd='precon', n_eval=4), **case['set'])
        x = np.linspace(2.5, 7.5, s['n_eval'] + 2)[1:-1]
        try:
            for g in np.logspace(-1, 3, 101):
                gp = gp1(s, x)
                lkd1(gp, gp.gamma2theta(g))
        except Exception:
            return rec.skip('method refuses the data')
        rec.fail(f'the script raised {type(e).__name__}: {e}')
        return
    if res is None:
        return rec.skip('settings')
    ns, R = res
    s = dict(dict(use_grad=False, kernel_type='SqExp', wellcond_mtd='precon', n_eval=4, n_sig=2), **case['set'])
    x = np.linspace(2.5, 7.5, s['n_eval'] + 2)[1:-1]
    gam = np.logspace(-1, 3, 101)
    gp = gp1(s, x)
    lk = np.array([lkd1(gp, gp.gamma2theta(g)).ln_lkd for g in gam])
    figs = [f for _, f in R.saved]
    rec.check(len(figs) >= 2, f'{len(figs)} figures')
    first = figs[0].axes[0]
    cs = curves(first)
    if np.all(np.isfinite(lk)) and np.ptp(lk) > 0:
        c = has(rec, 'scaled likelihood', cs, gam, (lk - lk.min()) / (lk.max() - lk.min()), 1e-6, line=True)
        y = c['xy'][:, 1] if c else None
    else:
        y = None
    marks = [c for c in cs if not c['line'] and c['mark'] and len(c['xy']) == 1]
    rec.check(len(marks) == len(figs) - 1, f'{len(marks)} length scales marked for {len(figs) - 1} surrogates')
    xq = np.linspace(2.5, 7.5, 500)
    for mk, (name, fig) in zip(marks, R.saved[1:]):
        i = int(np.argmin(np.abs(np.log(gam) - np.log(mk['xy'][0, 0]))))
        rec.close('marked length scale', mk['xy'][0, 0], gam[i], rtol=1e-9)
        if y is not None:
            rec.close('likelihood at the mark', mk['xy'][0, 1], y[i], rtol=1e-9, atol=1e-12)
        mu, sig = model1(s, x, gp.gamma2theta(gam[i]), xq)
        if np.all(np.isfinite(mu)) and np.all(np.isfinite(sig)):
            check_band(rec, f'surrogate with length scale {gam[i]:.3g}', fig.axes[0], xq, mu, sig, s['n_sig'], f1(xq), x, f1(x), color=mk['color'])
        want = f'{gam[i]:.1e}'.replace('.', 'p')
        rec.check(want in name and ('w_grad' in name.lower()) == s['use_grad'], f'the figure with length scale {gam[i]:.1e} is written to {name}')
        rec.state('surr', str(s), i)
    if s['use_grad'] and y is not None and len(marks) == 3:
        rec.check(any(m['xy'][0, 1] == 1.0 for m in marks), 'the best length scale is one of those shown')
    rec.step(len(figs))


def run_acq(case, rec):
    res = run_script('plt', 'plt_acq', case['set'], before=lambda d, src: os.mkdir('figures'))
    if res is None:
        return rec.skip('settings')
    ns, R = res
    s = dict(dict(use_grad=True, kernel_type='SqExp', wellcond_mtd='precon', theta_vec=[1.5099758602010078], beta=2, n_sig=2), **case['set'])
    x = np.array([3.5, 4.5, 5.5, 6.5])
    rec.check(len(R.saved) == 1 and os.path.basename(R.saved[0][0]) == 'surr_w_acq_1d.png', 'one figure is written')
    fig = R.saved[0][1]
    xq = np.linspace(2, 8, 500)
    mu, sig = model1(s, x, s['theta_vec'][0], xq)
    check_band(rec, 'surrogate', fig.axes[0], xq, mu, sig, s['n_sig'], f1(xq), x, f1(x))
    cs = curves(fig.axes[1])
    for name, a in (('mean', mu), ('lower limit', mu - s['beta'] * sig)):
        a = (a - a.min()) / (a.max() - a.min())
        c = has(rec, f'acquisition {name}', cs, xq, a, 1e-5, line=True)
        if c is None:
            continue
        rec.check(('sigma' in c['label']) == (name != 'mean') and (name == 'mean' or str(s['beta']) in c['label']), f'acquisition {name} has the label {c["label"]}')
        j = int(np.argmin(c['xy'][:, 1]))
        has(rec, f'minimum of the acquisition {name}', cs, [c['xy'][j, 0]], [c['xy'][j, 1]], 1e-9, line=False, mark=True)
    rec.state('acq', str(s))
    rec.step()


# ---------------------------------------------------------------------------------------------------------- maps of condition numbers

def rosen(x):
    return 10 * (x[:, 1] - x[:, 0] ** 2) ** 2 + (1 - x[:, 0]) ** 2


def rosen_grad(x):
    t = x[:, 1] - x[:, 0] ** 2
    return np.column_stack([-2 * (1 - x[:, 0]) - 40 * x[:, 0] * t, 20 * t])


def min_nugget(n, d, cmax):
    """Nugget that limits the condition number of the preconditioned matrix for the squared exponential kernel."""
    q = np.sqrt(1 + 4 * d)
    return (1 + (n - 1) * 0.5 * (1 + q) * np.exp(-(1 + 2 * d - q) / (4 * d))) / (cmax - 1)


def run_cond(case, rec):
    from gpgradpy.src.GaussianProcess import GaussianProcess
    res = run_script('plt', 'plt_cond', case['set'], block=case['block'])
    if res is None:
        return rec.skip('no such block')
    ns, R = res
    s = dict(dict(n_eval=20, n_gamma=20, range_gamma=[1e-4, 1e8], cond_max=1e10), **case['set'])
    if not R.saved and not R.filled:
        return rec.skip('block without figures')
    rec.check(len(R.saved) == 2 * len(R.data), f'{len(R.saved)} figures for {len(R.data)} surrogates')
    X0 = R.data[0][1]
    rec.check(X0.shape == (s['n_eval'], 2) and np.all(np.abs(X0 - 1) <= 0.1 + 1e-12), 'the points lie in the square of half width 0.1 around (1,1)')
    for d in range(2):
        cells = np.sort(np.floor((X0[:, d] - 0.9) / 0.2 * s['n_eval'] - 1e-9).astype(int))
        rec.check(np.array_equal(cells, np.arange(s['n_eval'])), 'the points are a Latin hypercube')
    nug = GaussianProcess(2, use_grad=True, kernel_type='SqExp', wellcond_mtd='precon').calc_nugget(s['n_eval'])[1]
    for k, (gp_s, Xs) in enumerate(R.data):
        pair = R.saved[2 * k:2 * k + 2]
        stars, maps = [], {}
        for p, fig in pair:
            base = os.path.basename(p)
            m = re.fullmatch(r'(Cond|Lkd)_Kern_(\w+?)_(?:mtd_(\w+?)_)?grad_([TF])_n(\d+)(?:_StdObj_([^S]+?))?(?:StdGrad_(.+?))?\.png', base)
            rec.check(m is not None, f'name of the figure {base}')
            if m is None:
                return
            kind, kern, mtd, grad, n, so, sg = m.groups()
            cfg = (kern, None if mtd in (None, 'None') else mtd, grad == 'T', float(so.replace('p', '.')) if so else 0.0, float(sg.replace('p', '.')) if sg else 0.0)
            rec.check(int(n) == s['n_eval'], f'number of points in the name {base}')
            f = [q for q in R.filled if q[0].figure is fig]
            rec.check(len(f) == 1, f'{base}: one map')
            maps[kind] = (f[0], cfg, [c['xy'][0] for c in curves(f[0][0]) if c['mark'] and len(c['xy']) == 1], [q for q in R.contours if q[0].figure is fig])
        rec.check(set(maps) == {'Cond', 'Lkd'} and maps['Cond'][1] == maps['Lkd'][1], f'the two figures are of one configuration: {[p for p, _ in pair]}')
        kern, mtd, grad, so, sg = maps['Cond'][1]
        rec.check(np.array_equal(Xs, X0), 'all surrogates use the same points')
        (ax, X, Y, Z), _, star, _ = maps['Cond']
        (ax2, X2, Y2, Z2), _, star2, lines = maps['Lkd']
        rec.check(np.array_equal(X, X2) and np.array_equal(Y, Y2), 'both maps have the same axes')
        lo, hi = s['range_gamma']
        ax_vals = np.logspace(np.log10(lo), np.log10(hi), s['n_gamma'])
        rec.close('length scales of the axes', np.unique(np.round(np.log10(X), 9)), np.log10(ax_vals), rtol=1e-8, atol=1e-8)
        rec.check('1' in ax.get_xlabel() and '2' in ax.get_ylabel(), 'labels of the axes')
        gp = GaussianProcess(2, grad, kern, mtd)
        gp.cond_eta_is_const = gp_s.cond_eta_is_const
        gp.cond_eta_set_mtd, gp.cond_eta_dflt = 'dflt_eta', nug
        if grad:
            gp.set_data(X0, rosen(X0), so * np.ones(len(X0)), rosen_grad(X0), sg * np.ones(X0.shape))
        else:
            gp.set_data(X0, rosen(X0), so * np.ones(len(X0)))
        gp.cond_max = s['cond_max']
        cond, lkd = np.zeros(X.shape), np.zeros(X.shape)
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
            for i, j in np.ndindex(X.shape):
                h = gp.make_hp_class(varK=0.1, theta=gp.gamma2theta(np.array([X[i, j], Y[i, j]])), kernel=gp.hp_kernel_default)
                info = gp.calc_lkd_all(h, calc_lkd=True, calc_cond=True, calc_grad=False)[0]
                cond[i, j], lkd[i, j] = info.cond, info.ln_lkd
        what = f'{kern} {mtd} gradients {grad}'
        lc = np.log10(cond)
        big = lc > 12
        rec.close(f'{what}: condition numbers', Z[~big], lc[~big], rtol=0, atol=1e-3)
        rec.check(np.all(Z[big] > 11), f'{what}: condition numbers that are large')
        rec.check(np.array_equal(np.isnan(Z2), np.isnan(lkd)), f'{what}: likelihoods that do not exist')
        ok = ~np.isnan(lkd)
        if np.any(ok):
            ref_ = (lkd - np.nanmin(lkd)) / (np.nanmax(lkd) - np.nanmin(lkd))
            tame = ok & (lc < 9)            # elsewhere the likelihood itself is not determined to the digits drawn
            if np.nanmax(lc[ok]) < 13:
                rec.close(f'{what}: scaled likelihood', Z2[tame], ref_[tame], rtol=0, atol=1e-3)
            rec.close(f'{what}: largest scaled likelihood', np.nanmax(Z2), 1.0, rtol=1e-12)
            rec.close(f'{what}: smallest scaled likelihood', np.nanmin(Z2), 0.0, rtol=0, atol=1e-12)
            at = np.argwhere(Z2 == np.nanmax(Z2))
            for st in (star, star2):
                rec.check(len(st) == 1 and any(np.allclose(st[0], [X[a, b], Y[a, b]], rtol=1e-9) for a, b in at), f'{what}: the largest likelihood is marked at {st}, expected one of {[(X[a, b], Y[a, b]) for a, b in at]}')
        if not np.any(np.isnan(Z)) and np.max(Z) > np.log10(s['cond_max']) + 1e-6:
            rec.check(len(lines) == 1 and near(lines[0][3], Z, 1e-12) and np.allclose(lines[0][4], [np.log10(s['cond_max'])]), f'{what}: the line at the largest condition number follows the condition number')
        rec.state('cond', what, so, sg, str(case['set']))
        rec.step(X.size)


# ---------------------------------------------------------------------------------------------------------- nuggets

def run_nugget(case, rec):
    res = run_script('plt', 'plt_nugget_1d', case['set'])
    if res is None:
        return rec.skip('settings')
    ns, R = res
    s = dict(dict(n_eval=10, range_gamma=[1e-3, 1e3], n_gamma=500, cond_max=1e10), **case['set'])
    n, cm = s['n_eval'], s['cond_max']
    X0 = R.data[-1][1]
    rec.check(X0.shape == (n, 2) and np.all(np.abs(X0 - 1) <= 0.01 + 1e-12), 'the points lie in the square of half width 0.01 around (1,1)')
    gam = np.logspace(np.log10(s['range_gamma'][0]), np.log10(s['range_gamma'][1]), s['n_gamma'])
    N = 3 * n
    tr = N / (cm - 1)
    lab = ref.labels(n, 2, [True] * n)
    low, eta_min, eta_ger, l1, cond = [], [], [], [], []
    for g in gam:
        K = ref.cross('SqExp', np.array([g * g / 2] * 2), None, X0, lab, X0, lab)
        p = 1 / np.sqrt(np.diag(K))
        C = p[:, None] * K * p[None, :]
        e = np.linalg.eigvalsh(C)
        eta_ger.append(np.abs(C).sum(axis=1).max() / (cm - 1))
        eta_min.append(max(0.0, (e[-1] - e[0] * cm) / (cm - 1)))
        cond.append(e[-1] / max(e[0], 1e-300))
        k1 = np.linalg.cond(C, 1)
        bound = np.sqrt(N) * k1
        l1.append(max(0.0, N * bound / (bound + N - 1) / (cm - 1) * (1 - cm / bound)))
    cond, l1 = np.array(cond), np.array(l1)
    rec.check([os.path.basename(p) for p, _ in R.saved] == ['nugget_1d.png', 'condnum_1d.png'], f'figures written: {[p for p, _ in R.saved]}')
    cs = curves(R.saved[0][1].axes[0])
    for name, y, tol in (('smallest nugget', np.array(eta_min) / tr, 1e-4), ('Gershgorin nugget', np.array(eta_ger) / tr, 1e-9),
                         ('nugget of the squared exponential kernel', np.full(len(gam), min_nugget(n, 2, cm) / tr), 1e-9), ('nugget from the 1-norm', l1 / tr, 1e-3)):
        has(rec, name, cs, gam, y, tol)
    rec.check(sum(len(c['xy']) == len(gam) for c in cs) == 4, 'four curves')
    ys = {w: [c for c in cs if w in c['label'].replace(' ', '')] for w in ('min', 'const', 'vary', 'ell_2')}
    for w, y in (('min', eta_min), ('const', [min_nugget(n, 2, cm)] * len(gam)), ('vary', eta_ger), ('ell_2', l1)):
        rec.check(len(ys[w]) == 1 and near(ys[w][0]['xy'][:, 1], np.array(y) / tr, 1e-3), f'curve with the label "{w}"')
    cs2 = curves(R.saved[1][1].axes[0])
    has(rec, 'largest condition number', cs2, gam, np.full(len(gam), cm), 1e-12)
    tame = cond < 1e12
    c = [c for c in cs2 if len(c['xy']) == len(gam) and not near(c['xy'][:, 1], np.full(len(gam), cm), 1e-9)]
    rec.check(len(c) == 1, 'one curve of condition numbers')
    if c:
        rec.close('condition numbers', np.log10(c[0]['xy'][tame, 1]), np.log10(cond[tame]), rtol=0, atol=1e-2)
        rec.check(np.all(c[0]['xy'][~tame, 1] > 1e11), 'condition numbers that are large')
        rec.close('length scales', c[0]['xy'][:, 0], gam, rtol=1e-9)
    lk = best_gamma(X0, gam, cm, n)
    for q in (cs, cs2):
        v = [c['xy'][0, 0] for c in q if len(c['xy']) == 2 and c['xy'][0, 0] == c['xy'][1, 0]]
        rec.check(len(v) == 1 and (lk is None or np.isclose(v[0], lk, rtol=1e-9)), f'the line at the largest likelihood is at {v}, expected {lk}')
    rec.state('nugget', str(case['set']))
    rec.step(len(gam))


def best_gamma(X0, gam, cm, n):
    """Length scale with the largest likelihood, None if two are too close to call."""
    from gpgradpy.src.GaussianProcess import GaussianProcess
    gp = GaussianProcess(2, True, 'SqExp', 'precon')
    gp.set_data(X0, rosen(X0), np.zeros(n), rosen_grad(X0), np.zeros(X0.shape))
    gp.cond_max = cm
    out = []
    with contextlib.redirect_stdout(io.StringIO()):
        for g in gam:
            h = gp.make_hp_class(varK=0.1, theta=np.full(2, g * g / 2), kernel=gp.hp_kernel_default)
            out.append(gp.calc_lkd_all(h, calc_lkd=True, calc_cond=True, calc_grad=False)[0].ln_lkd)
    out = np.array(out)
    if np.any(np.isnan(out)):
        return None
    o = np.sort(out)
    return None if o[-1] - o[-2] < 1e-6 * abs(o[-1]) else gam[int(np.argmax(out))]


# ---------------------------------------------------------------------------------------------------------- optimisation results

CASES = ['Rosen_a10_d5', 'Rosen_a10_d10', 'Rosen_a10_d20']
FILES = ['Baye_Kern_SE_n500_Grad_T_None_all.npz', 'Baye_Kern_SE_n500_Grad_T_Vreq_all.npz', 'Baye_Kern_SE_n500_Grad_T_Precon_all.npz']
KEYS = ['merit', 'opt', 'fsb']


def synth(which, i, j):
    """Runs of file j of case i: all entries are different."""
    r, t = [(2, 5), (3, 4), (1, 170)][(which + j) % 3]
    k = np.arange(r * t).reshape(r, t)
    out = {}
    for q, key in enumerate(KEYS):
        for wo in (False, True):
            a = 10.0 ** (-(q + 1) + 0.01 * i + 0.001 * j) * (1 + wo) * (2 + np.cos(1.0 + 3 * k + q + i))
            if key == 'fsb' and which == 1:
                a = a * 0
            if key == 'fsb' and which == 2:
                a = a * np.nan
            out[key + ('_wo_noise_all' if wo else '_all')] = a
    return out


def best(v):
    last = max([i for i, a in enumerate(v) if a == a], default=-1)
    out = np.full(len(v), np.nan)
    for i in range(last + 1):
        seen = [a for a in v[:i + 1] if a == a]
        out[i] = min(seen) if seen else np.nan
    return out


def run_optz(case, rec):
    data = {}

    def before(scratch, src):
        for i, c in enumerate(CASES):
            os.makedirs(os.path.join('data_paper_precon', c))
            for j, f in enumerate(FILES):
                dst = os.path.join('data_paper_precon', c, f)
                own = os.path.join(src, 'data_paper_precon', c, f)
                if case['data'] == 'own' and os.path.exists(own):
                    shutil.copy(own, dst)
                    with np.load(own) as z:
                        data[c, f] = {k: np.array(z[k]) for k in z.files}
                else:
                    data[c, f] = synth(case['data'] if case['data'] != 'own' else 0, i, j)
                    np.savez(dst, **data[c, f])
    res = run_script('results', 'optz_paper_precon', {}, before=before)
    ns, R = res
    want = {}
    for c in CASES:
        feas = max([np.nanmax(d['fsb_wo_noise_all']) if np.any(~np.isnan(d['fsb_wo_noise_all'])) else 0 for (cc, f), d in data.items() if cc == c])
        want[os.path.join('data_paper_precon', c, c + ('_Merit.png' if feas > 0 else '_Obj.png'))] = (c, 'merit')
        want[os.path.join('data_paper_precon', c, c + '_Opt.png')] = (c, 'opt')
    got = dict(R.saved)
    rec.check(set(got) == set(want) and len(R.saved) == len(want), f'figures {sorted(got)}, expected {sorted(want)}')
    for p, (c, key) in want.items():
        if p not in got:
            continue
        ax = got[p].axes[0]
        lines = ax.get_lines()
        rows = [(lab, row) for f, lab in zip(FILES, ['Baseline', 'Rescaling', 'Precondition']) for row in data[c, f][key + '_wo_noise_all']]
        drawn = {}
        colour = {}
        for ln in lines:
            if np.any(~np.isnan(np.asarray(ln.get_ydata(), float))):
                drawn.setdefault(to_rgba(ln.get_color()), []).append(np.asarray(ln.get_ydata(), float))
                rec.check(np.array_equal(ln.get_xdata(), np.arange(len(ln.get_xdata()))), f'{p}: iterations')
        leg = {t.get_text(): to_rgba(h.get_color()) for t, h in zip(ax.get_legend().get_texts(), ax.get_legend().get_lines())}
        rec.check(set(leg) == {'Baseline', 'Rescaling', 'Precondition'}, f'{p}: legend {sorted(leg)}')
        for lab in leg:
            exp = [best(np.concatenate([row[:160], np.full(max(0, 160 - len(row)), np.nan)])) for l, row in rows if l == lab]
            exp = [e for e in exp if np.any(~np.isnan(e))]
            have = drawn.get(leg[lab], [])
            rec.compared += sum(e.size for e in exp)
            miss = [e for e in exp if not any(cut(h).shape == cut(e).shape and np.allclose(cut(h), cut(e), rtol=1e-12, equal_nan=True) for h in have)]
            rec.check(not miss and len(have) == len(exp), f'{p}: {lab}: {len(miss)} of {len(exp)} runs are not drawn ({len(have)} lines)')
        lab = ax.get_ylabel()
        rec.check(lab == ('Optimality' if key == 'opt' else 'Merit' if 'Merit' in p else 'Objective'), f'{p}: label of the axis {lab}')
        rec.check(ax.get_yscale() == 'log', f'{p}: logarithmic axis')
        rec.state('optz', str(case['data']), p)
        rec.step(len(lines))


def cut(v):
    """A run without the iterations after its last value."""
    k = np.flatnonzero(~np.isnan(v))
    return v[:k[-1] + 1] if len(k) else v[:0]


def run_case(case, rec):
    try:
        {'corr': run_corr, 'surr': run_surr, 'acq': run_acq, 'cond': run_cond, 'nugget': run_nugget, 'optz': run_optz}[case['part']](case, rec)
    finally:
        plt.close('all')
