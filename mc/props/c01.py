"""Posterior mean and deviation against the exact conditional Gaussian process."""
import numpy as np
import domain as D

BOUNDS = {
    'quick': 'union of complete products: kernels(3) x methods(6 with gradients, 1 without) x layouts(gen, grid) x '
             'all gradient masks (n <= 3, d <= 2, d = 3 with n = 2) x noise of values and gradients (none, uniform, per point, unknown) '
             'x 8 query kinds in single and batch calls; theta/alpha/varK/beta/target magnitudes on a second product; n = 1..5, d = 1..4 on a third, and 405 data sets with a repeated point, 156 with extreme length scales (1e-10 to 1e8) and variances, 156 large surrogates (8 points in 6 dimensions to 24 points in 3, 100 and more query points in a call); '
             'units of values and coordinates (factors 1e-9 .. 1e6 and 1e-4 .. 1e5) x all noise pairs on a fourth',
    'thorough': 'as quick with n <= 4 masks, layouts gen/grid/close/far, d <= 3 for the mask product, n <= 8 and d <= 5 for the size product, '
                'four theta regimes x three alphas x three process variances x three targets',
}
ASSUMPTIONS = ['double precision: values compared to 1e-9 + 300 eps cond relative to the scale of the data',
               'kernels run with the JIT disabled (same source); C03 and C04 bind the compiled kernels']
NOISE = ['zero', 'uni', 'pp', 'unk']


def methods(g):
    return D.METHODS if g else ['base']


def cases(tier):
    t = tier == 'thorough'
    lays = ['gen', 'grid', 'close', 'far'] if t else ['gen', 'grid']
    # (a) masks and noise
    for k in D.KERNELS:
        for w in D.METHODS:
            for (n, d) in ([(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (2, 3), (3, 3), (4, 2)] if t
                           else [(1, 2), (2, 1), (3, 2), (2, 3)]):
                for lay in (lays if n > 1 else ['gen']):
                    for nf in NOISE:
                        for ng in NOISE:
                            for m in D.masks(n):
                                yield dict(k=k, w=w, n=n, d=d, lay=lay, nf=nf, ng=ng, mask=m)
        for (n, d) in [(1, 1), (2, 1), (3, 2), (5, 3)]:
            for lay in (lays if n > 1 else ['gen']):
                for nf in NOISE:
                    yield dict(k=k, w='base', g=False, n=n, d=d, lay=lay, nf=nf)
    # (b) magnitudes
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for th in ['mod', 'aniso', 'small', 'large']:
                for al in ([0.5, 2.3, 10.0] if k == 'RatQu' else [None]):
                    for varK in ([1e-4, 2.5, 3e4] if t else [1e-4, 3e4]):
                        for beta in [-3.0, 0.4]:
                            for ct in ([1e2, 1e4, 1e10] if t else [1e4, 1e10]):
                                for nf, ng in [('zero', 'zero'), ('unk', 'pp'), ('pp', 'unk')]:
                                    for vf in ([1e-6, 5.0] if 'unk' in (nf, ng) else [0.02]):
                                        yield dict(k=k, w=w, g=g, n=3, d=2, lay='grid', mask=[1, 0, 1] if g else None, nf=nf,
                                                   ng=ng, th=th, alpha=al, varK=varK, beta=beta, ct=ct, vf=vf, vg=vf * 3)
    # (c) sizes
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for d in range(1, 6 if t else 5):
                for n in range(1, 9 if t else 6):
                    for nf, ng in [('zero', 'zero'), ('pp', 'pp'), ('unk', 'unk')]:
                        for th in ['mod', 'aniso']:
                            m = None if n < 2 else [int(i % 2 == 0) for i in range(n)]
                            for mask in ([None, m] if (g and m) else [None]):
                                yield dict(k=k, w=w, g=g, n=n, d=d, nf=nf, ng=ng, th=th, mask=mask)
    # (e) units
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for fm, xm in D.UNITS:
                for nf in NOISE:
                    for ng in NOISE if g else ['zero']:
                        for n, d, lay in [(1, 2, 'gen'), (3, 2, 'grid'), (4, 3, 'gen')]:
                            for th in ['mod', 'aniso']:
                                for m in [None, [i % 2 for i in range(n)]] if g and n > 1 else [None]:
                                    yield dict(k=k, w=w, g=g, n=n, d=d, lay=lay, nf=nf, ng=ng, th=th, mask=m, fm=fm, xm=xm)
    # (f) large data sets
    yield from D.large()
    yield from D.repeated()
    for x in (1e-6, 1e6):
        yield from D.large([(4, 3)], th='tiny', varK=x)
        yield from D.large([(4, 3)], th='huge', varK=x)
    # (d) alternative nugget rules
    for rule in ['Kbase_eta', 'Kbase_eta_w_dim', 'dflt_eta']:
        for w in ['base', 'precon', 'dflt_vmin', 'dflt_vmax']:
            for nf in NOISE:
                yield dict(k='SqExp', w=w, n=3, d=2, eta=rule, nf=nf, ng=nf, ct=1e4)


def weight(c):
    return c.get('n', 3) * (1 + c.get('d', 2))


def run_case(case, rec):
    c = D.Cfg(case)
    R = D.ref_model(c)
    C = R.Kcov()
    cond = np.linalg.cond(C / np.sqrt(np.outer(np.diag(C), np.diag(C))))
    tol = D.tol_of(cond)
    if tol > 1e-5:
        rec.skip('conditioning leaves fewer than five reliable digits')
        return
    gp = D.build(c)
    Q = np.array([D.queries(c, q) for q in D.QKINDS])
    Q = np.vstack([Q, c.X()])
    if c.n > 7 and (c.n, c.d) in D.LARGE:
        Q = np.vstack([Q] + [Q + (Q[0] - Q[1]) * t for t in (0.17, -0.4, 0.8, 1.5, -2.2, 3.1, -5.0)])
    o = R.predict(Q)
    sf = np.max(np.abs(R.y)) / R.scl.c + abs(R.scl.fs) + abs(c.beta) / R.scl.c
    sv = c.varK / R.scl.c ** 2
    rec.state(case)
    mu, sig, dmu, dsig, h1, h2 = gp.eval_model(Q)
    rec.check(dmu is None and dsig is None and h1 is None and h2 is None, 'derivatives returned without being requested')
    rec.check(np.all(sig >= 0), 'negative standard deviation')
    rec.close('mean', mu, o['mu'], rtol=tol, scale=sf)
    rec.close('variance', sig ** 2, o['var'], rtol=tol, scale=sv)
    rec.step(len(Q))
    for i in range(0, len(Q), 3):       # single-point calls, with and without collapsing
        m1, s1 = gp.eval_model(Q[i], squeeze_nx=True)[:2]
        rec.close('mean of a single point', float(m1), o['mu'][i], rtol=tol, scale=sf)
        rec.close('variance of a single point', float(s1) ** 2, o['var'][i], rtol=tol, scale=sv)
        m2 = gp.eval_model(Q[i:i + 1])[0]
        rec.close('mean of one row', m2, o['mu'][i:i + 1], rtol=tol, scale=sf)
        rec.step(2)
    if (not c.g) or c.w in ('base', 'precon'):
        v = gp.eval_model_var(Q)[0]
        rec.close('variance from the variance evaluation', v, o['var'], rtol=tol, scale=sv)
        rec.step(1)
    rec.sample = dict(case=case, query=Q[0], mean=float(mu[0]), mean_ref=float(o['mu'][0]), std=float(sig[0]))
