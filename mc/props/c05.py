"""Condition number of the factorised matrices and the nuggets that bound it."""
import itertools
import numpy as np
import domain as D
import ref

BOUNDS = {
    'quick': 'nugget formulas: kernels x methods x rules x n = 1..12 x d = 1..6 x targets(4); conditioning: kernels x (preconditioning, gradient-free, rescaling) x '
             'n = 1..6, d = 1..3 x point sets (irregular, lattice, star, line, coincident to 1e-9, star at the most correlated distance) x length scales '
             '1e-12..1e12 (equal) and 4 anisotropic vectors x masks(all given, absent, alternating, single) x targets(3) x alpha(4)',
    'thorough': 'nugget formulas to n = 40, d = 12; conditioning to n = 9, d = 4, finer length scale grid',
}
ASSUMPTIONS = ['the 2-norm condition number of the reference matrix is computed from its symmetric eigenvalues; 0.1 % (targets up to 1e10) is granted for rounding',
               'the rescaling guarantee is claimed for equal length scales with parameter at most one half']


def layouts(n, d):
    yield 'gen', (D.points('gen', n, d) if n <= 8 and d <= 5 else None)
    side = 1
    while side ** d < n:
        side += 1
    yield 'lattice', np.array(list(itertools.islice(itertools.product(range(side), repeat=d), n)), float)
    yield 'line', np.arange(n)[:, None] * np.ones((1, d))
    star = [np.zeros(d)] + [np.array(s, float) for s in itertools.product([1, -1], repeat=d)]
    if len(star) >= n > 1:
        yield 'star', np.array(star[:n])
    if n > 1:
        yield 'coincident', np.zeros((n, d)) + 1e-9 * np.arange(n)[:, None]
        yield 'duplicates', np.vstack([np.zeros((n - 1, d)), np.ones((1, d))]) if n > 2 else np.zeros((n, d))


def cases(tier):
    t = tier == 'thorough'
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for rule in ['Kbase_eta', 'Kbase_eta_w_dim', 'dflt_eta']:
                yield dict(part='eta', k=k, w=w, g=g, rule=rule, N=40 if t else 12, dmax=12 if t else 6)
    N, dm = (9, 4) if t else (6, 3)
    for k in D.KERNELS:
        for al in ([1e-2, 0.5, 2.3, 10.0] if k == 'RatQu' else [None]):
            for g, w in [(True, 'precon'), (False, 'base'), (True, 'rescale_origin')]:
                for n in range(1, N + 1):
                    for d in range(1, dm + 1):
                        for lay, X in layouts(n, d):
                            if X is None or (w == 'rescale_origin' and (lay in ('coincident', 'duplicates') or n == 1)):
                                continue
                            for ct in [1e2, 1e6, 1e10]:
                                yield dict(part='cond', k=k, alpha=al, w=w, g=g, n=n, d=d, lay=lay, ct=ct, fine=t)


def weight(c):
    return 50 if c['part'] == 'eta' else c['n'] * c['d']


def run_eta(case, rec):
    k, w, g, rule = case['k'], case['w'], case['g'], case['rule']
    for d in range(1, case['dmax'] + 1):
        for n in range(1, case['N'] + 1):
            for ct in [1e2, 1e6, 1e10, 1e14]:
                c = D.Cfg(dict(k=k, w=w, g=g, d=d, ct=ct, eta=rule))
                gp = D.new_gp(c)
                b, e = gp.calc_nugget(n)
                got = e if g else b
                ww = w if g else 'base'
                if rule == 'dflt_eta':
                    want = gp.cond_eta_dflt
                elif ww == 'rescale_eta_vary':
                    want = None            # the nugget of this method depends on the matrix, see below
                else:
                    want = ref.nugget(k, ww, n, d, g, ct, rule)
                if want is not None:
                    rec.close(f'nugget for n={n} d={d}', got, want, rtol=1e-12, atol=0)
                    rec.check(got > 0, 'nugget is not positive')
                if rule != 'dflt_eta':
                    rec.close('gradient-free nugget', b, n / (ct - 1), rtol=1e-12, atol=0)
                if n > 1 and d <= 4 and w == 'rescale_origin' and g:
                    rec.close('required distance', gp.calc_mtd_rescale_origin_vreq(n, d), ref.vreq(n, d), rtol=1e-12)
                rec.state(case, d, n, ct)
                rec.step()
    # the nugget that is applied
    for d in range(1, 4):
        for n in range(1, 6):
            for th in ['mod', 'aniso', 'small']:
                c = D.Cfg(dict(k=k, w=w, g=g, n=n, d=d, ct=1e5, eta=rule, th=th))
                gp = D.set_data(D.new_gp(c), c)
                T = gp.get_scl_x_w_dist()[1]
                R = D.ref_model(c)
                o = gp.calc_Kern_w_chofac(T, D.hp(gp, c))
                rec.close('nugget in use', o[5], R.eta, rtol=1e-9, atol=0)
                rec.close('regularised matrix', o[2], R.Kcov() / c.varK, rtol=1e-10)
                rec.step()


def run_cond(case, rec):
    from gpgradpy.src.GaussianProcess import GaussianProcess as GP
    k, w, g, n, d, ct, al = (case[x] for x in ('k', 'w', 'g', 'n', 'd', 'ct', 'alpha'))
    X = dict(layouts(n, d))[case['lay']]
    f = np.sin(1.0 + np.arange(n))
    G = np.cos(np.arange(n * d)).reshape(n, d)
    masks = [None] if not g else [None, [i % 2 == 0 for i in range(n)], [i == n - 1 for i in range(n)]]
    lo = -12 if w != 'rescale_origin' else -10
    ths = [np.full(d, 10.0 ** p) for p in range(lo, 13, 1 if case['fine'] else 2)]
    ths += [np.array(D._TH[x][:d]) for x in ('mod', 'aniso', 'small', 'large')]
    ths += [np.full(d, 0.5), np.full(d, 0.6), np.array([10.0 ** (3 * (-1) ** i) for i in range(d)])]
    # the distance at which neighbours are most correlated, in scaled coordinates: covers the bound from below
    for s in (0.4, 0.618, 1.0, 1.3):
        ths.append(np.full(d, 0.5 * s * s))
    if w == 'rescale_origin':
        ths = [t for t in ths if np.all(t == t[0]) and t[0] <= 0.5]
    for m in masks:
        gp = GP(d, g, k, w)
        gp.cond_max_target = ct
        if g:
            mm = np.ones(n, bool) if m is None else np.array(m)
            gp.set_data(X, f, np.zeros(n), G[mm], np.zeros((int(mm.sum()), d)), None if m is None else mm)
        else:
            gp.set_data(X, f, np.zeros(n))
        Xs, T = gp.get_scl_x_w_dist()
        if w == 'rescale_origin':
            rec.close('smallest distance after rescaling', ref.min_dist(Xs), ref.vreq(n, d), rtol=1e-10)
        for th in ths:
            h = gp.make_hp_class(np.array([0.0]), th, al, 1.0, None, None)
            o = gp.calc_Kern_w_chofac(T, h, calc_cond=True)
            K = o[2]
            rec.check(np.all(np.isfinite(K)), lambda: f'matrix is not finite for theta {th}')
            if w == 'precon':
                p = np.sqrt(np.array([1.0] * n + [-2 * th[i] * ref.profile(k, 0.0, al)[1]
                                                  for i in range(d) for _ in range(int(np.sum(mm)))]))
                A = K / np.outer(p, p)
            else:
                A = K
            e = np.linalg.eigvalsh(A)
            rec.check(e[0] > 0, lambda: f'regularised matrix is not positive definite for theta {th}: {e[0]:.3e}')
            cond = e[-1] / e[0]
            rec.check(cond <= ct * 1.001, lambda: f'condition number {cond:.4e} exceeds the target {ct:.1e} for theta {th}, mask {m}')
            rec.check(o[3] is not None, lambda: f'the factorisation was not obtained for theta {th}, mask {m}')
            L = np.tril(o[3][0]) if o[3][1] else np.triu(o[3][0])
            rec.close('product of the Cholesky factors', L @ L.T if o[3][1] else L.T @ L, K, rtol=1e-11)
            if o[4] is not None:
                rec.close('reported condition number', o[4], cond, rtol=1e-3 if ct > 1e8 else 1e-6)
            rec.state(case, m, th.tolist())
            rec.step()
    rec.sample = dict(case=case, theta=th, cond=float(cond), target=ct)


def run_case(case, rec):
    (run_eta if case['part'] == 'eta' else run_cond)(case, rec)
