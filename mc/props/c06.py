"""Marginal likelihood and the closed-form mean and process variance against the Gaussian density."""
import numpy as np
import domain as D
import ref

BOUNDS = {
    'quick': 'kernels(3) x methods(6 + gradient-free) x all gradient masks of (n,d) in {(1,2),(2,1),(3,2),(2,3)} x noise pairs(16) x '
             'adjoint/direct x penalty (off, inactive, active) x condition number requested or not; magnitudes (length scales, alpha, varK, noise) '
             'and data patterns (generic, constant, large offset, tiny, huge) on a second product; 405 data sets with a repeated point, 156 with extreme length scales (1e-10 to 1e8) and variances, 195 large surrogates (up to 24 points, 8 dimensions; determinants beyond the range of numbers); maximality over 9 x 9 neighbours',
    'thorough': 'n <= 4 masks, layouts gen/grid/far, n <= 8 and d <= 5, four theta regimes x three alphas x three targets',
}
ASSUMPTIONS = ['log likelihood up to the constant n/2 (1 + log 2 pi) when noise free, n/2 log 2 pi when noisy',
               'double precision: compared to 1e-9 + 300 eps cond; the floor 1e-32 on the process variance is taken as documented']
NOISE = ['zero', 'uni', 'pp', 'unk']
PEN = {'off': None, 'idle': (1.0, 1e6, 0.1), 'act': (0.7, 0.02, 0.1), 'lb': (1.3, 0.01, 50.0)}


def cases(tier):
    t = tier == 'thorough'
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for (n, d) in ([(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (2, 3), (3, 3), (4, 2)] if t else [(1, 2), (2, 1), (3, 2), (2, 3)]):
                for lay in ((['gen', 'grid', 'far'] if t else ['gen']) if n > 1 else ['gen']):
                    for m in (D.masks(n) if g else [None]):
                        for nf in NOISE:
                            for ng in (NOISE if g else ['zero']):
                                yield dict(k=k, w=w, g=g, n=n, d=d, lay=lay, mask=m, nf=nf, ng=ng)
    yield from D.large()
    yield from D.repeated()
    for x in (1e-6, 1e6):
        yield from D.large([(4, 3)], th='tiny', varK=x)
        yield from D.large([(4, 3)], th='huge', varK=x)
    yield from D.large([(24, 3), (24, 8)] if t else [(24, 8)], th='small', ct=1e7)     # the determinant is smaller than any number
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for th in ['mod', 'aniso', 'small', 'large']:
                for al in ([1e-2, 0.5, 2.3, 10.0] if k == 'RatQu' else [None]):
                    for ct in ([1e2, 1e4, 1e10] if t else [1e4, 1e10]):
                        for fv in ['gen', 'const', 'off', 'tiny', 'huge']:
                            for nf, ng, varK in [('zero', 'zero', 1.0), ('unk', 'pp', 1e-3), ('pp', 'unk', 200.0), ('unk', 'unk', 2.5)]:
                                for n, d in ([(3, 2), (5, 3), (8, 5)] if t else [(3, 2), (5, 3)]):
                                    yield dict(k=k, w=w, g=g, n=n, d=d, th=th, alpha=al, ct=ct, fv=fv, nf=nf, ng=ng if g else 'zero', varK=varK,
                                               mask=[int(i % 2 == 0) for i in range(n)] if g else None)
            for fm, xm in D.UNITS:
                for n, d in [(1, 2), (3, 2), (5, 3)]:
                    for nf in NOISE:
                        for ng in (NOISE if g else ['zero']):
                            yield dict(k=k, w=w, g=g, n=n, d=d, th='aniso', nf=nf, ng=ng, mask=[int(i % 2 == 0) for i in range(n)] if g else None, fm=fm, xm=xm)


def pattern(fv, f, g):
    if fv == 'const':
        return np.full_like(f, 3.25), None if g is None else np.zeros_like(g)
    if fv == 'off':
        return f + 1e3, g
    if fv == 'tiny':
        return f * 1e-5, None if g is None else g * 1e-5
    if fv == 'huge':
        return f * 1e5, None if g is None else g * 1e5
    return f, g


class Cfg(D.Cfg):
    def data(self):
        X, f, sf, g, sg = super().data()
        f, g = pattern(self.fv, f, g)
        return X, f, sf, g, sg


def run_case(case, rec):
    c = Cfg(case)
    c.fv = case.get('fv', 'gen')
    if c.fv == 'const' and 'rescale' not in c.w and c.w[:4] != 'dflt':
        pass
    elif c.fv == 'const':
        rec.skip('rescaling of constant data')
        return
    R = D.ref_model(c)
    M = D.hp_model(c, R)
    v = D.hp_vec(c, M)
    C = M.matrix(v)
    cond = np.linalg.cond(C / np.sqrt(np.outer(np.diag(C), np.diag(C))))
    tol = D.tol_of(cond)
    if tol > 1e-5:
        rec.skip('conditioning leaves fewer than five reliable digits')
        return
    gp = D.set_data(D.new_gp(c), c)
    vf, vg = c.noise_hp()
    s, ld = np.linalg.slogdet(C)
    y, h, n = R.y, R.h, len(R.y)
    sy = np.max(np.abs(y)) + 1e-300
    Ci = np.linalg.inv(C)
    for pen in (['off'] if c.noisy else ['off', 'idle', 'act', 'lb']):
        pf = None
        gp.lkd_varK_pnlt_use = PEN[pen] is not None
        if PEN[pen]:
            c1, c2, lb = PEN[pen]
            gp.lkd_varK_pnlt_c1, gp.lkd_varK_pnlt_c2, gp.lkd_varK_pnlt_lb_var = c1, c2, lb
            f = y[:c.n]
            var = max(sum((f - sum(f) / len(f)) ** 2) / len(f), lb)

            def pf(q):
                return c1 * var * max(q - c2 * var, 0.0) ** 2
        if c.noisy:
            want, beta = ref.lkd_noisy(C, y, h)
            varK = None
        else:
            beta = ref.gls_beta(C, y, h)
            r = y - beta * h
            varK = max((r @ Ci @ r) / n, 1e-32)
            want = -(n * np.log(varK) + ld) / 2 - (pf(varK) if pf else 0.0)
        # a residual that is only rounding leaves no reliable digit in the likelihood
        flat = varK is not None and varK <= (tol * sy) ** 2
        scale = abs(ld) + (n * abs(np.log(varK)) if varK is not None else 0) + n + (2 * pf(varK) if pf else 0)
        for adj in (True, False):
            gp.lkd_use_adj_mtd = adj
            for cc in ((False, True) if np.linalg.cond(C) < 1e15 or c.w == 'precon' else (False,)):
                hv = gp.make_hp_class(np.array([c.beta]), c.theta, c.alpha, c.varK if c.noisy else None, vf, vg)
                info, ok = gp.calc_lkd_all(hv, calc_lkd=True, calc_cond=cc, calc_grad=False)
                tag = f'[adjoint={adj} penalty={pen} cond={cc}]'
                rec.check(ok, f'factorisation reported as failed {tag}')
                rec.close(f'mean coefficient {tag}', np.ravel(info.hp_beta), np.array([beta]), rtol=tol, scale=sy)
                if varK is not None:
                    rec.close(f'process variance {tag}', info.hp_varK, varK, rtol=3 * tol, atol=(10 * tol * sy) ** 2)
                if not flat:
                    rec.close(f'log likelihood {tag}', info.ln_lkd, want, rtol=3 * tol, scale=scale)
                rec.close(f'log determinant {tag}', info.ln_det_Kmat, ld, rtol=tol, scale=n + abs(ld))
                rec.state(case, pen, adj, cc)
                rec.step()
        hv = gp.make_hp_class(np.array([c.beta]), c.theta, c.alpha, c.varK if c.noisy else None, vf, vg)
        out = gp.optz_closed_form_hp(hv)
        rec.close('closed-form mean coefficient', np.ravel(out.beta), np.array([beta]), rtol=tol, scale=sy)
        rec.close('length scales untouched by the closed form', out.theta, c.theta, rtol=0, atol=0)
        if varK is not None:
            rec.close('closed-form process variance', out.varK, varK, rtol=3 * tol, atol=(10 * tol * sy) ** 2)
        else:
            rec.close('process variance untouched by the closed form', out.varK, c.varK, rtol=0, atol=0)
        rec.step()
    # the reported coefficients maximise the density
    b0 = float(np.ravel(out.beta)[0])

    def dens(b, q):
        r = y - b * h
        e = r @ Ci @ r
        return -(ld + e) / 2 if q is None else -(n * np.log(q) + ld + e / q) / 2
    if c.noisy:
        best = dens(b0, None)
        for s in (-1, -.1, -1e-2, -1e-3, 1e-3, 1e-2, .1, 1):
            rec.check(dens(b0 + s * sy, None) <= best + tol * (1 + abs(best)), 'the mean coefficient does not maximise the likelihood')
    elif not flat and varK > 1e-32:
        q0 = float(out.varK)
        best = dens(b0, q0)
        for s in (-1, -.1, -1e-2, -1e-3, 0, 1e-3, 1e-2, .1, 1):
            for f in (.2, .7, .9, .99, 1, 1.01, 1.1, 1.5, 5):
                rec.check(dens(b0 + s * sy, q0 * f) <= best + 10 * tol * (n + abs(best)), 'mean coefficient and process variance do not maximise the likelihood')
    rec.sample = dict(case=case, lkd=float(info.ln_lkd), lkd_ref=float(want), beta=b0, beta_ref=float(beta))
