"""Gradients and Hessians of the surrogate against the exact derivatives."""
import numpy as np
import domain as D

BOUNDS = {
    'quick': 'union of complete products: kernels(3) x methods(6 with gradients, 1 without) x layouts(gen, grid) x all gradient masks '
             '(n,d) in {(2,1),(3,2),(2,3)} x noise (none, per point, unknown) x 8 query kinds, plus theta/alpha/varK magnitudes, sizes n <= 5, d <= 4 and 405 data sets with a repeated point, 156 with extreme length scales (1e-10 to 1e8) and variances, 156 large surrogates (up to 24 points, 6 dimensions); '
             'gradients in batch calls of every size, Hessians point by point, variance gradients where defined',
    'thorough': 'as quick with all noise pairs, (n,d) up to (4,2) and (3,3), layouts gen/grid/close/far, sizes n <= 8, d <= 5',
}
ASSUMPTIONS = ['derivatives of the deviation are compared through the derivatives of its square, and only where the square exceeds its rounding error',
               'kernels run with the JIT disabled (same source); C03 and C04 bind the compiled kernels']


def cases(tier):
    t = tier == 'thorough'
    noise = [(a, b) for a in ['zero', 'uni', 'pp', 'unk'] for b in ['zero', 'uni', 'pp', 'unk']] if t else \
        [('zero', 'zero'), ('pp', 'zero'), ('zero', 'pp'), ('unk', 'unk')]
    lays = ['gen', 'grid', 'close', 'far'] if t else ['gen', 'grid']
    nd = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (2, 3), (3, 3), (4, 2)] if t else [(1, 2), (2, 1), (3, 2), (2, 3)]
    for k in D.KERNELS:
        for w in D.METHODS:
            for (n, d) in nd:
                for lay in (lays if n > 1 else ['gen']):
                    for nf, ng in noise:
                        for m in D.masks(n):
                            yield dict(k=k, w=w, n=n, d=d, lay=lay, nf=nf, ng=ng, mask=m)
        for (n, d) in [(1, 1), (1, 3), (2, 1), (3, 2), (4, 3)]:
            for lay in (lays if n > 1 else ['gen']):
                for nf in ['zero', 'pp', 'unk']:
                    yield dict(k=k, w='base', g=False, n=n, d=d, lay=lay, nf=nf)
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for th in ['mod', 'aniso', 'small', 'large']:
                for al in ([0.5, 2.3, 10.0] if k == 'RatQu' else [None]):
                    for varK in [1e-4, 3e4]:
                        for nf, ng in [('zero', 'zero'), ('unk', 'pp')]:
                            for lay in ['gen', 'grid']:
                                yield dict(k=k, w=w, g=g, n=3, d=2, lay=lay, mask=[1, 0, 1] if g else None, nf=nf, ng=ng,
                                           th=th, alpha=al, varK=varK, beta=-3.0)
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for d in range(1, 6 if t else 5):
                for n in range(1, 9 if t else 6):
                    for nf in ['zero', 'pp']:
                        for th in ['mod', 'aniso']:
                            m = None if n < 2 else [int(i % 2 == 1) for i in range(n)]
                            for mask in ([None, m] if (g and m) else [None]):
                                yield dict(k=k, w=w, g=g, n=n, d=d, nf=nf, ng=nf, th=th, mask=mask)
    yield from D.large()
    yield from D.repeated()
    for x in (1e-6, 1e6):
        yield from D.large([(4, 3)], th='tiny', varK=x)
        yield from D.large([(4, 3)], th='huge', varK=x)
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for fm, xm in D.UNITS:
                for nf, ng in [('zero', 'zero'), ('pp', 'unk'), ('unk', 'pp')]:
                    for n, d, lay in [(1, 2, 'gen'), (3, 2, 'grid'), (4, 3, 'gen')]:
                        for th in ['mod', 'aniso']:
                            yield dict(k=k, w=w, g=g, n=n, d=d, lay=lay, nf=nf, ng=ng if g else 'zero', th=th, mask=[i % 2 for i in range(n)] if g and n > 1 else None, fm=fm, xm=xm)


def weight(c):
    return c.get('n', 3) * (1 + c.get('d', 2))


def run_case(case, rec):
    c = D.Cfg(case)
    R = D.ref_model(c)
    C = R.Kcov()
    cond = np.linalg.cond(C / np.sqrt(np.outer(np.diag(C), np.diag(C))))
    tol = D.tol_of(cond)
    if tol > 1e-6:
        rec.skip('conditioning leaves fewer than six reliable digits')
        return
    gp = D.build(c)
    Q = np.array([D.queries(c, q) for q in D.QKINDS])
    o = R.predict(Q, hess=True)
    s, cc = R.scl.s, R.scl.c
    lip = np.sqrt(2 * np.max(np.concatenate([c.theta, [1e-12]]))) * np.max(s)    # scale of a derivative relative to the value
    sf = (np.max(np.abs(R.y)) + abs(c.beta)) / cc
    sv = c.varK / cc ** 2
    mu0, sig0 = gp.eval_model(Q)[:2]
    mu, sig, dmu, dsig, h1, h2 = gp.eval_model(Q, calc_grad=True)
    rec.check(h1 is None and h2 is None, 'Hessian returned without being requested')
    rec.close('mean when derivatives are requested', mu, mu0, rtol=tol, scale=sf)
    rec.close('variance when derivatives are requested', sig ** 2, sig0 ** 2, rtol=tol, scale=sv)
    rec.close('gradient of the mean', dmu, o['dmu'], rtol=tol, scale=sf * max(lip, 1 / c.xm))
    rec.close('gradient of the variance', 2 * sig[:, None] * dsig, o['dvar'], rtol=10 * tol, scale=sv * max(lip, 1 / c.xm))
    rec.step(2 * len(Q))
    for nx in (1, 2, 3):                # every batch size up to the number of data points and beyond
        for i in range(0, len(Q) - nx + 1, nx):
            r = gp.eval_model(Q[i:i + nx], calc_grad=True)
            rec.close(f'gradient of the mean in a batch of {nx}', r[2], o['dmu'][i:i + nx], rtol=tol, scale=sf * max(lip, 1 / c.xm))
            rec.close(f'gradient of the variance in a batch of {nx}', 2 * r[1][:, None] * r[3], o['dvar'][i:i + nx], rtol=10 * tol,
                      scale=sv * max(lip, 1 / c.xm))
            rec.step()
    L2 = max(lip, 1 / c.xm) ** 2
    for i in range(len(Q)):
        squeeze = i % 2 == 1
        r = gp.eval_model(Q[i:i + 1], calc_grad=True, calc_hess=True, squeeze_nx=squeeze)
        if not squeeze:
            r = [v[0] for v in r]
        rec.close('mean with Hessian', r[0], o['mu'][i], rtol=tol, scale=sf)
        rec.close('gradient with Hessian', r[2], o['dmu'][i], rtol=tol, scale=sf * max(lip, 1 / c.xm))
        rec.close('Hessian of the mean', r[4], o['d2mu'][i], rtol=10 * tol, scale=sf * L2)
        if o['var'][i] > 1e3 * tol * sv:
            amp = sv / o['var'][i]
            rec.close('gradient of the deviation', r[3], o['dvar'][i] / (2 * np.sqrt(o['var'][i])), rtol=20 * tol * amp,
                      scale=np.sqrt(sv) * max(lip, 1 / c.xm))
            rec.close('Hessian of the deviation', 2 * (np.outer(r[3], r[3]) + r[1] * r[5]), o['d2var'][i], rtol=100 * tol * amp, scale=sv * L2)
        rec.step()
        rec.state(case, i)
    if (not c.g) or c.w in ('base', 'precon'):
        v, dv = gp.eval_model_var(Q, calc_grad=True)[:2]
        rec.close('variance', v, o['var'], rtol=tol, scale=sv)
        rec.close('gradient of the variance (variance evaluation)', dv, o['dvar'], rtol=10 * tol, scale=sv * max(lip, 1 / c.xm))
        v, dv = gp.eval_model_var(Q[0], calc_grad=True, squeeze_nx=True)[:2]
        rec.close('gradient of the variance at one point', dv, o['dvar'][0], rtol=10 * tol, scale=sv * max(lip, 1 / c.xm))
        rec.step(2)
    rec.sample = dict(case=case, query=Q[0], dmu=dmu[0], dmu_ref=o['dmu'][0])
