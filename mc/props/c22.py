"""The preconditioner against the diagonal of the kernel matrix it is built for."""
import itertools
import numpy as np
import domain as D
import ref

BOUNDS = {
    'quick': 'factors and derivative: kernels(3) x dimensions 1..5 x 1..5 values x 1..n gradients (and up to 24 values, 8 dimensions) x length scales (every combination of 9 decades 1e-12..1e12 in up to 2 dimensions, 7 patterns '
             'x 17 decades above) as vectors and as matrices; parameter mapping: every decade 1e-15..1e15 x 5 mantissas; kernel matrix: kernels x dimensions 1..4 x all masks of 1..4 points x 4 layouts '
             'x 17 decades x 3 shape parameters; matrix in use: the same with 5 noise modes, 3 process variances',
    'thorough': '17 decades in up to 2 dimensions and 9 in 3; 5 points',
}
ASSUMPTIONS = ['with noise the diagonal that becomes constant includes the noise', 'length scales are positive', 'the derivative is compared when it is requested']
PAT = [[1, 1, 1, 1, 1], [1, 10, 100, 1000, 1e4], [1e4, 1e3, 100, 10, 1], [1, 1e-3, 1e3, 1e-6, 1e6], [1.7, 0.6, 2.3, 0.9, 5.1], [3, 3, 1, 1, 2], [1, 2, 1, 2, 1]]
LAYS = ['gen', 'grid', 'close', 'far']


def cases(tier):
    th = tier == 'thorough'
    for k in D.KERNELS:
        for d in range(1, 6):
            for n in range(1, 6):
                yield dict(part='factors', k=k, d=d, n=n, fine=th)
        for d, n in [(6, 9), (8, 3), (2, 21), (1, 24)]:
            yield dict(part='factors', k=k, d=d, n=n, fine=th)
        yield dict(part='map', k=k)
        for d in range(1, 5):
            for n in range(1, (6 if th else 5)):
                for lay in LAYS:
                    yield dict(part='kernel', k=k, d=d, n=n, lay=lay)
                    yield dict(part='use', k=k, d=d, n=n, lay=lay)


def weight(c):
    return {'factors': 30, 'map': 5}.get(c['part'], 2 ** c.get('n', 0) * 3)


def thetas(d, fine):
    dec = [10.0 ** p for p in range(-12, 13, 3)]
    full = [10.0 ** p for p in range(-8, 9)]
    if d == 1:
        return [np.array([v]) for v in full + dec]
    if d == 2 or (d == 3 and fine):
        src = (sorted(set(full + dec)) if fine and d == 2 else dec)
        return [np.array(v) for v in itertools.product(src, repeat=d)]
    return [v * np.resize(p, d) for v in full for p in PAT]


def diag_of_kernel(k, th, n, ng, al=2.0):
    """Diagonal of the gradient-enhanced kernel matrix, from the second derivative of the kernel at zero distance."""
    a = -2.0 * ref.profile(k, 0.0, al)[1]
    return np.concatenate([np.ones(n)] + [np.full(ng, a * t) for t in th])


def rel(rec, name, got, want, tol=1e-13):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        rec.fail(f'{name}: shape {got.shape}, expected {want.shape}')
    z = want == 0
    rec.check(np.all(got[z] == 0), lambda: f'{name}: {got[z]} where 0 is expected')
    rec.close(name, got[~z] / want[~z], np.ones(int(np.sum(~z))), rtol=tol, atol=0)


def factors(case, rec):
    from gpgradpy.src.GaussianProcess import GaussianProcess as GP
    k, d, n = case['k'], case['d'], case['n']
    gp = GP(d, True, k, 'precon')
    for ng in range(1, n + 1) if n < 8 else (1, 2, n // 2, n - 1, n):
        for th in thetas(d, case['fine']):
            keep = th.copy()
            diag = diag_of_kernel(k, th, n, ng)
            p = np.sqrt(diag)
            N = n + d * ng
            want = np.zeros((N, d))
            for i in range(d):
                want[n + i * ng:n + (i + 1) * ng, i] = p[n + i * ng:n + (i + 1) * ng] / (2 * th[i])     # p**2 is linear in theta
            v, vi, g = gp.calc_Kern_precon(n, ng, th, calc_grad=True, b_return_vec=True)
            rel(rec, 'factor', v, p)
            rel(rec, 'inverse factor', vi, 1 / p)
            rec.close('product of the factors', v * vi, np.ones(N), rtol=1e-14)
            rel(rec, 'diagonal after preconditioning', vi * diag * vi, np.ones(N))
            rel(rec, 'derivative', g, want)
            P, Pi, G = gp.calc_Kern_precon(n, ng, th, calc_grad=True, b_return_vec=False)
            rel(rec, 'factor as a matrix', P, np.diag(p))
            rel(rec, 'inverse factor as a matrix', Pi, np.diag(1 / p))
            rel(rec, 'product of the matrices', P @ Pi, np.eye(N))
            rel(rec, 'derivative as a matrix', G, np.array([np.diag(want[:, i]) for i in range(d)]))
            v2, vi2 = gp.calc_Kern_precon(n, ng, th, calc_grad=False, b_return_vec=True)[:2]
            rec.check(np.array_equal(v, v2) and np.array_equal(vi, vi2), 'factors depend on whether the derivative is requested')
            v3, vi3 = gp.calc_Kern_precon(n, ng, th)[:2]
            rec.check(np.array_equal(np.diag(v3), v) and np.array_equal(np.diag(vi3), vi), 'default form is the matrix')
            rec.check(np.array_equal(th, keep), 'the length scales were changed')
            rel(rec, 'parameters of the factor', gp.theta2gamma(th), p[n::ng] if ng else [])
            rec.state(k, d, n, ng, tuple(th))
            rec.step()
    rec.sample = dict(case=case, theta=th, factor=v)


def mapping(case, rec):
    from gpgradpy.src.GaussianProcess import GaussianProcess as GP
    k = case['k']
    vals = [m * 10.0 ** p for p in range(-15, 16) for m in (1.0, 1.3, 2.0, 4.7, 9.99)]
    for w, g in (('precon', True), ('base', True), ('base', False)):
        gp = GP(1, g, k, w)
        prev = 0.0
        for t in sorted(vals):
            gam = float(np.squeeze(gp.theta2gamma(np.array([t]))))
            rel(rec, 'parameter', gam, np.sqrt(-2 * t * ref.profile(k, 0.0, 2.0)[1]))
            rec.check(gam > prev, lambda: f'mapping is not increasing at {t}')
            prev = gam
            rel(rec, 'length scale from its parameter', np.squeeze(gp.gamma2theta(np.array([gam]))), t)
            rel(rec, 'parameter from its length scale', np.squeeze(gp.theta2gamma(gp.gamma2theta(np.array([t])))), t)
            rec.state(k, w, g, t)
            rec.step()
        v = np.array(vals).reshape(-1, 5)
        for row in v:
            rel(rec, 'mapping of a vector', gp.gamma2theta(gp.theta2gamma(row)), row)
            rel(rec, 'mapping of a vector, elementwise', gp.theta2gamma(row), [float(np.squeeze(gp.theta2gamma(np.array([x])))) for x in row])


def kernel(case, rec):
    from gpgradpy.src.GaussianProcess import GaussianProcess as GP
    k, d, n, lay = (case[x] for x in ('k', 'd', 'n', 'lay'))
    X = D.points(lay, n, d)
    gp = GP(d, True, k, 'precon')
    T = gp.calc_Rtensor(X, X, 1)
    alphas = [None] if k != 'RatQu' else [0.3, 2.3, 40.0]
    for m in D.masks(n)[1:]:
        mask = np.array(m, bool)
        ng = int(mask.sum())
        for e in range(-8, 9):
            for p in PAT[:5]:
                th = 10.0 ** e * np.array(p[:d])
                for al in alphas:
                    K = gp.calc_KernGrad(T, th, al, mask, mask)
                    v, vi, _ = gp.calc_Kern_precon(n, ng, th, calc_grad=False, b_return_vec=True)
                    A = K * np.outer(vi, vi)
                    rec.close(f'diagonal of the preconditioned matrix, theta {th}', np.diag(A), np.ones(n + d * ng), rtol=1e-12)
                    rec.check(np.max(np.abs(A)) <= 1 + 1e-10, lambda: f'an entry of the preconditioned matrix is {np.max(np.abs(A))}, theta {th}')
                    rec.state(k, d, n, lay, m, tuple(th), al)
                    rec.step()


def use(case, rec):
    """The regularised matrix: varK * P (corr + nugget) P, where corr has unit diagonal."""
    for m in [None] + D.masks(case['n'])[1:]:
        for nf, ng in (('zero', 'zero'), ('uni', 'uni'), ('pp', 'unk'), ('unk', 'pp'), ('unk', 'unk')):
            for varK in (0.05, 1.0, 300.0):
                for e in (-6, -3, -1, 0, 1, 3, 6):
                    c = D.Cfg(dict(k=case['k'], w='precon', g=True, d=case['d'], n=case['n'], lay=case['lay'], mask=m, nf=nf, ng=ng, varK=varK, ct=1e8,
                                   th=list(10.0 ** e * np.array(PAT[4][:case['d']]))))
                    gp = D.set_data(D.new_gp(c), c)
                    T = gp.get_scl_x_w_dist()[1]
                    h = D.hp(gp, c)
                    if c.noisy:
                        o = gp.calc_all_K_w_chofac(T, h)
                    else:
                        o = gp.calc_Kern_w_chofac(T, h)
                    R = D.ref_model(c)
                    s = varK if c.noisy else 1.0
                    nug = ref.nugget(c.k, 'precon', c.n, c.d, True, c.ct)
                    rec.close(f'diagonal of the preconditioned matrix, {c.nf} {c.ng}', np.diag(o[1]), np.ones(len(R.K)), rtol=1e-12)
                    rel(rec, f'diagonal of the regularised matrix, {c.nf} {c.ng}', np.diag(o[2]), s * (1 + nug) * (np.diag(R.K) + R.N / varK), 1e-11)
                    rec.step()
                    rec.state(repr(case), m, nf, ng, varK, e)


def run_case(case, rec):
    dict(factors=factors, map=mapping, kernel=kernel, use=use)[case['part']](case, rec)
