"""Predictive deviation: between zero and the prior, reproduction of the data, shrinking with data."""
import itertools
import numpy as np
import domain as D
import ref

BOUNDS = {
    'quick': 'range and reproduction: kernels(3) x (6 methods with gradients, gradient-free) x masks x noise pairs(5) x length scales {moderate, anisotropic, small, large} x targets '
             '{1e4, default}, the same at four units of values and coordinates (factors 1e-9 .. 1e6 and 1e-4 .. 1e5) x layouts(4), n = 1..6, d = 1..4 and (points, dimensions) = (15, 2), (9, 6), (21, 1), at 8 query kinds and a 5^d lattice; shrinking: for kernels x {base, preconditioned} x noise pairs(4) x d = 1..3 x layouts(3), the '
             'complete lattice of (subset of 4 points (3 for d = 3), subset of its gradients) and all of its covering pairs; for all methods the covering pairs of gradient subsets and of '
             'noise levels (3 levels per observation) of a fixed point set',
    'thorough': 'n to 8, d to 5, nested subsets of 5 points (4 for d = 3), nested gradient subsets of 6 points',
}
ASSUMPTIONS = ['the nugget depends on the number of data; for nested pairs the target is chosen such that both surrogates have the same nugget',
               'the methods that rescale choose their units from the points, so for them nested sets of gradients and noise levels are compared, not nested sets of points',
               'what nugget and noise allow is the exact residual of the reference model, plus rounding errors',
               'gradient-free surrogates have a uniform nugget while preconditioning scales it with the noise, so this step is compared for noise-free values only',
             'slack 1e-9 + 300 eps cond of the prior variance for rounding']
TINY = 1e-9


def cases(tier):
    t = tier == 'thorough'
    pairs = [('zero', 'zero'), ('pp', 'pp'), ('unk', 'unk'), ('zero', 'unk'), ('uni', 'zero')]
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for nf, ng in pairs:
                if not g and (nf, ng) not in pairs[:3]:
                    continue
                for th in ('mod', 'aniso', 'small', 'large'):
                    for ct in (1e4, None):
                        for lay, n, d in [('gen', 1, 1), ('gen', 3, 2), ('grid', 4, 2), ('close', 3, 1), ('far', 3, 3)] + [('gen', 6, 3), ('grid', 6, 4), ('close', 5, 2), ('gen', 15, 2), ('gen', 9, 6), ('gen', 21, 1)] + ([('gen', 8, 4), ('gen', 7, 5), ('far', 8, 2), ('grid', 5, 5), ('close', 8, 3)] if t else []):
                            for mask in ([None] if not g or n == 1 else [None, [i % 2 for i in range(n)]]):
                                yield dict(part='range', k=k, w=w, g=g, nf=nf, ng=ng, th=th, ct=ct, lay=lay, n=n, d=d, mask=mask)
                    if th in ('mod', 'aniso'):
                        for fm, xm in D.UNITS if t else D.UNITS[:4]:
                            for lay, n, d in [('gen', 1, 1), ('gen', 3, 2), ('grid', 4, 2)] + ([('far', 5, 3), ('gen', 6, 4)] if t else []):
                                for ct in (1e4, None):
                                    yield dict(part='range', k=k, w=w, g=g, nf=nf, ng=ng, th=th, ct=ct, lay=lay, n=n, d=d, mask=None if not g or n == 1 else [i % 2 for i in range(n)],
                                               fm=fm, xm=xm)
                    if w == 'base' and th != 'mod':
                        yield dict(part='range', k=k, w=w, g=g, nf=nf, ng=ng, th=th, ct=None, lay='gen', n=3, d=2, mask=None, eta='dflt_eta')
    for k in D.KERNELS:
        for w in ('base', 'precon'):
            for nf, ng in [('zero', 'zero'), ('pp', 'pp'), ('unk', 'unk'), ('zero', 'pp')]:
                for d in (1, 2, 3):
                    for lay in ('gen', 'grid', 'close'):
                        for th in ('mod', 'aniso'):
                            yield dict(part='nest', k=k, w=w, nf=nf, ng=ng, d=d, n=4 + (t and d < 3) - (d == 3 and not t), lay=lay, th=th)
        for w in D.METHODS:
            for nf, ng in [('zero', 'zero'), ('pp', 'unk'), ('unk', 'pp')]:
                for lay in ('gen', 'grid', 'far'):
                    yield dict(part='mask', k=k, w=w, nf=nf, ng=ng, d=2, n=6 if t else 4, lay=lay, th='mod')
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for how in ('each', 'unknown'):
                yield dict(part='noise', k=k, w=w, g=g, how=how, d=1, n=2, lay='gen', th='mod')
                yield dict(part='noise', k=k, w=w, g=g, how=how, d=2, n=2, lay='grid', th='aniso')


def weight(c):
    return {'range': 1, 'nest': 20, 'mask': 6, 'noise': 20}[c['part']] * c['n']


def lattice(c, m=5):
    X = c.X()
    lo, hi = X.min(0) - 0.4 * c.xm, X.max(0) + 0.4 * c.xm
    return np.array(list(itertools.product(*[np.linspace(a, b, m if c.d < 3 else 3) for a, b in zip(lo, hi)])))


def run_range(case, rec):
    cc = dict(case)
    ct = cc.pop('ct')
    c = D.Cfg(dict(cc, ct=ct or 1e10))
    gp = D.new_gp(c)
    if ct is None:
        c.ct = type(gp)(c.d, c.g, c.k, c.w, path_data_surr='unused').cond_max_target      # the default
        gp.cond_max_target = c.ct
    D.set_data(gp, c)
    gp.set_hpara('set', 1, D.hp(gp, c))
    R = D.ref_model(c)
    C = R.Kcov() / c.varK
    s = np.sqrt(np.diag(C))
    cond = np.linalg.cond(C / np.outer(s, s))
    if np.linalg.cond(C) > 1e15 or not np.isfinite(cond):
        rec.skip('reference matrix is numerically singular')
        return
    slack = 1e-9 + 300 * D.EPS * cond
    prior = np.sqrt(c.varK) / R.scl.c
    Q = np.vstack([np.array([D.queries(c, q) for q in D.QKINDS[:-1]]), lattice(c)])
    mu, sig = gp.eval_model(Q)[:2]
    rec.step()
    rec.state(repr(case))
    rec.check(np.all(np.isfinite(mu)) and np.all(np.isfinite(sig)), lambda: f'mean or deviation not finite: {mu} {sig}')
    rec.check(np.all(sig >= 0), lambda: f'negative deviation {sig.min()}')
    rec.check(np.all(sig <= prior * (1 + slack)), lambda: f'deviation {sig.max()} above the prior deviation {prior} at {Q[np.argmax(sig)]}')

    # far away
    q = D.queries(c, 'far')[None, :]
    if case['th'] in ('mod', 'large', 'iso'):
        far = np.vstack([q, -q]) * 1e4
        m2, s2 = gp.eval_model(far)[:2]
        fall = 1e-9 if c.k != 'RatQu' else 1e-6
        rec.close('deviation far from the data', s2, np.full(2, prior), rtol=fall)
        rec.close('mean far from the data', m2, np.full(2, c.beta / R.scl.c + R.scl.fs), rtol=fall, scale=max(abs(c.beta), abs(R.y).max()) * 10 / R.scl.c + abs(R.scl.fs))

    # reproduction of the data
    S = (np.diag(R.Kcov()) - c.varK * np.diag(R.K))                   # noise and nugget in scaled units
    r = np.abs(S * np.linalg.solve(R.Kcov(), R.y - c.beta * R.h))
    X = c.X()
    f = c.f()
    mu, sig, dmu, _ = gp.eval_model(X, calc_grad=True)[:4]
    amp = np.abs(R.y - c.beta * R.h).max()
    tol = 1e-8 + 1e3 * D.EPS * cond
    err = np.abs(mu - f) * R.scl.c
    rec.check(np.all(err <= r[:c.n] * (1 + 1e-6) + tol * amp), lambda: f'values missed by {err}, noise and nugget allow {r[:c.n]}')
    lim = np.sqrt(S[:c.n] / c.varK + slack) * prior
    rec.check(np.all(sig <= lim * (1 + 1e-9)), lambda: f'deviation at the data {sig} above noise and nugget {lim}')
    if c.g:
        m = np.array(c.vmask)
        want = np.full((c.n, c.d), np.nan)
        want[m] = c.G(c.mask)
        for row, (i, kk) in enumerate(R.L):
            if kk is not None:
                e = abs(dmu[i, kk] - want[i, kk]) * R.scl.c / R.scl.s[kk]
                rec.check(e <= r[row] * (1 + 1e-6) + tol * amp * max(1.0, s[row]) * 10,
                          lambda: f'gradient of point {i}, coordinate {kk} missed by {e}, noise and nugget allow {r[row]}')
    if not c.noisy and case['th'] == 'mod' and case['lay'] in ('gen', 'grid') and ct is None and c.n <= 6:
        rec.check(np.all(err <= 1e-4 * amp), lambda: f'values not reproduced: {err}')


def make(c, pts, grads, ct, sf, sg, vf=None, vg=None):
    """Surrogate for a subset of the points with a subset of their gradients."""
    g = len(grads) > 0
    e = D.Cfg(dict(k=c.k, w=c.w if g else 'base', g=g, d=c.d, n=len(pts), ct=ct))
    gp = D.new_gp(e)
    X, f, G = c.X(), c.f(), c.G()
    pts = list(pts)
    gr = [p for p in pts if p in grads]
    mask = np.array([p in grads for p in pts])
    gp.set_data(X[pts], f[pts], None if sf is None else sf[pts], G[gr].copy() if g else None,
                (None if sg is None else sg[gr]) if g else None, mask if g and not mask.all() else None)
    gp.set_hpara('set', 1, gp.make_hp_class(beta=np.array([c.beta]), theta=c.theta, kernel=c.alpha, varK=c.varK,
                                            var_fval=vf if sf is None else None, var_fgrad=vg if g and sg is None else None))
    return gp


def eta(c, pts, grads, ct):
    """Nugget for this set from its definition."""
    g = len(grads) > 0
    X = c.X()[list(pts)]
    w = c.w if g else 'base'
    K = None
    if w == 'rescale_eta_vary':
        scl = ref.data_scaling(w, X, c.f()[list(pts)])
        L = ref.labels(len(pts), c.d, [p in grads for p in pts])
        K = ref.cross(c.k, c.theta, c.alpha, scl.x(X), L, scl.x(X), L)
    return ref.nugget(c.k, w, len(pts), c.d, g, ct, 'Kbase_eta', K=K)


def target(c, pts, grads, e):
    """Target condition number for which the nugget of this set is e (the nugget is proportional to 1/(target - 1))."""
    return 1 + eta(c, pts, grads, 2.0) / e


def sigs(gp, c, Q):
    return np.copy(gp.eval_model(Q)[1])


def shrinks(rec, what, less, more, prior):
    bad = more ** 2 > less ** 2 + TINY * prior ** 2
    rec.check(not bad.any(), lambda: f'{what}: deviation grows from {less[bad][0]} to {more[bad][0]}')
    rec.step()


def queries(c):
    return np.vstack([np.array([D.queries(c, q) for q in D.QKINDS]), lattice(c, 4)])


def run_nest(case, rec):
    c = D.Cfg(case)
    Q = queries(c)
    sf, sg = c.sf(), c.sg()
    e = 1e-4
    S = {}
    for r in range(1, c.n + 1):
        for pts in itertools.combinations(range(c.n), r):
            for q in range(r + 1):
                for gr in itertools.combinations(pts, q):
                    gp = make(c, pts, gr, target(c, pts, gr, e), sf, sg, c.vf, c.vg)
                    S[pts, gr] = sigs(gp, c, Q)
                    rec.state(case['k'], case['w'], c.nf, c.ng, c.d, c.lay, case['th'], pts, gr)
    prior = np.sqrt(c.varK)
    for (pts, gr), v in S.items():
        rec.check(np.all(v >= 0) and np.all(v <= prior * (1 + TINY)), 'deviation outside of zero and prior')
        for p in range(c.n):
            if p not in pts:
                shrinks(rec, f'value of point {p} added to points {pts} with gradients {gr}', v, S[tuple(sorted(pts + (p,))), gr], prior)
            elif p not in gr and not (c.w == 'precon' and not gr and c.nf != 'zero'):
                shrinks(rec, f'gradient of point {p} added to points {pts} with gradients {gr}', v, S[pts, tuple(sorted(gr + (p,)))], prior)


def run_mask(case, rec):
    c = D.Cfg(case)
    Q = queries(c)
    sf, sg = c.sf(), c.sg()
    pts = tuple(range(c.n))
    e = 1e-4
    S = {}
    cc = np.sqrt(c.varK) / ref.data_scaling(c.w, c.X(), c.f()).c
    for q in range(1, c.n + 1):
        for gr in itertools.combinations(pts, q):
            S[gr] = sigs(make(c, pts, gr, target(c, pts, gr, e), sf, sg, c.vf, c.vg), c, Q)
            rec.state(case['k'], case['w'], c.nf, c.ng, c.lay, gr)
    for gr, v in S.items():
        rec.check(np.all(v >= 0) and np.all(v <= cc * (1 + TINY)), 'deviation outside of zero and prior')
        for p in pts:
            if p not in gr:
                shrinks(rec, f'gradient of point {p} added to gradients {gr}', v, S[tuple(sorted(gr + (p,)))], cc)


def run_noise(case, rec):
    """Levels of noise, ordered componentwise; all covering pairs."""
    c = D.Cfg(case)
    Q = queries(c)
    pts = tuple(range(c.n))
    gr = pts if c.g else ()
    ct = target(c, pts, gr, 1e-4)
    prior = np.sqrt(c.varK) / ref.data_scaling(c.w if c.g else 'base', c.X(), c.f()).c
    lev = [0.0, 0.07, 0.5]
    m = c.n + (c.n * c.d if c.g else 0)
    if case['how'] == 'unknown':
        m, lev = (2 if c.g else 1), [1e-6, 0.01, 0.4, 3.0]
    elif m > 5:
        lev = [0.0, 0.3]
    S = {}
    for v in itertools.product(range(len(lev)), repeat=m):
        x = np.array([lev[i] for i in v])
        if case['how'] == 'unknown':
            gp = make(c, pts, gr, ct, None, None, x[0], x[-1])
        else:
            gp = make(c, pts, gr, ct, x[:c.n], x[c.n:].reshape(c.n, c.d) if c.g else None)
        S[v] = sigs(gp, c, Q)
        rec.state(case['k'], case['w'], c.g, case['how'], c.d, v)
    for v, s in S.items():
        rec.check(np.all(s >= 0) and np.all(s <= prior * (1 + TINY)), 'deviation outside of zero and prior')
        for i in range(m):
            if v[i]:
                u = v[:i] + (v[i] - 1,) + v[i + 1:]
                shrinks(rec, f'noise entry {i} reduced from {lev[v[i]]} to {lev[u[i]]}', s, S[u], prior)


def run_case(case, rec):
    {'range': run_range, 'nest': run_nest, 'mask': run_mask, 'noise': run_noise}[case['part']](case, rec)
    rec.sample = dict(case=case)
