"""Kernel matrices and cross-covariances, on the compiled kernels."""
import itertools
import numpy as np
import domain as D
import ref

JIT = True
BOUNDS = {
    'quick': 'kernels(3) x dimensions 1..3 x set sizes 1..3 x 1..3 x same/different/overlapping/coordinate-sharing sets x all pairs of gradient masks '
             '(given or absent on either side) x theta regimes(4) x alpha(3), plus larger sets (up to 24 points, 8 dimensions; length scales from 1e-10 to 1e8) with 3 masks each; one-set symmetry and definiteness',
    'thorough': 'dimensions 1..4, set sizes 1..4 x 1..4, theta regimes(5) x alpha(5)',
}
ASSUMPTIONS = ['entries compared to 1e-12 relative to the largest product of row and column scales',
               'the reference model is an entry-by-entry evaluation of the derivatives of the kernel profile']


def gp_for(k, d, g=True):
    from gpgradpy.src.GaussianProcess import GaussianProcess as GP
    return GP(d, g, k, 'base')


def group(c):
    return (c['k'], c['m1'], c['m2'], c.get('part', 0))


def cases(tier):
    t = tier == 'thorough'
    N = 4 if t else 3
    ths = ['mod', 'aniso', 'small', 'large'] + (['iso'] if t else [])
    for k in D.KERNELS:
        als = ([0.3, 0.5, 2.3, 10.0, 50.0] if t else [0.5, 2.3, 10.0]) if k == 'RatQu' else [None]
        for m1 in (0, 1):
            for m2 in (0, 1):
                for d in range(1, N + 1):
                    for n1, n2 in itertools.product(range(1, N + 1), repeat=2):
                        for rel in ['same', 'shift', 'grid', 'overlap']:
                            for th in ths:
                                for al in als:
                                    yield dict(k=k, m1=m1, m2=m2, d=d, n1=n1, n2=n2, rel=rel, th=th, alpha=al)
    for k in D.KERNELS:
        for d, n1, n2 in [(6, 5, 9), (2, 13, 13), (1, 24, 21), (4, 1, 17), (8, 3, 3)]:
            for rel in ['same', 'shift', 'overlap']:
                for th in ths + ['tiny', 'huge']:
                    for m1, m2 in [(0, 0), (2, 2), (0, 2), (2, 0)]:
                        yield dict(k=k, m1=m1, m2=m2, d=d, n1=n1, n2=n2, rel=rel, th=th, alpha=als_of(k)[0])


def few(n):
    return [[1] * n, [int(i % 2 == 1 or n == 1) for i in range(n)], [int(i == n - 1) for i in range(n)]]


def als_of(k):
    return [2.3] if k == 'RatQu' else [None]


def sets(c):
    n1, n2, d = c['n1'], c['n2'], c['d']
    A = D.points('grid' if c['rel'] == 'grid' else 'gen', max(n1, n2), d)
    X = A[:n1]
    if c['rel'] in ('same', 'grid'):
        Y = A[:n2]
    elif c['rel'] == 'overlap':
        Y = A[::-1][:n2]
    else:
        Y = A[:n2] * 0.8 + 0.13
    return X.copy(), Y.copy()


def run_case(case, rec):
    from gpgradpy.src.base import CommonFun
    k, d, n1, n2 = case['k'], case['d'], case['n1'], case['n2']
    gp = gp_for(k, d)
    X, Y = sets(case)
    th = np.array(D._TH[case['th']][:d])
    al = case['alpha']
    R = CommonFun.calc_Rtensor(X, Y, 1)
    rec.check(np.array_equal(R, (X[:, None, :] - Y[None, :, :]).transpose(2, 0, 1)), 'difference tensor')
    base = gp.calc_KernBase(R, th, al)
    wb = ref.cross(k, th, al, X, [(i, None) for i in range(n1)], Y, [(i, None) for i in range(n2)])
    rec.close('value kernel matrix', base, wb, rtol=1e-12, scale=1.0)
    full = ref.cross(k, th, al, X, ref.labels(n1, d, [1] * n1), Y, ref.labels(n2, d, [1] * n2))
    L1, L2 = ref.labels(n1, d, [1] * n1), ref.labels(n2, d, [1] * n2)
    sc = lambda L: np.array([1.0 if i is None else np.sqrt(2 * th[i]) for (_, i) in L])
    M1 = {0: [None], 1: D.masks(n1)[1:] if n1 < 6 else 0, 2: few(n1)}[case['m1']]
    M2 = {0: [None], 1: D.masks(n2)[1:] if n2 < 6 else 0, 2: few(n2)}[case['m2']]
    for b1 in M1:
        for b2 in M2:
            args = [None if b is None else np.array(b, bool) for b in (b1, b2)]
            if args[1] is None and args[0] is None:
                got = gp.calc_KernGrad(R, th, al)
                rec.close('kernel matrix with both masks explicitly absent', gp.calc_KernGrad(R, th, al, None, None), got, rtol=0)
            else:
                got = gp.calc_KernGrad(R, th, al, args[0], args[1])
            r = [i for i, (p, kk) in enumerate(L1) if kk is None or b1 is None or b1[p]]
            s = [i for i, (p, kk) in enumerate(L2) if kk is None or b2 is None or b2[p]]
            want = full[np.ix_(r, s)]
            rec.check(got.shape == want.shape, lambda: f'shape {got.shape}, expected {want.shape} for masks {b1} {b2}')
            norm = np.outer(sc([L1[i] for i in r]), sc([L2[i] for i in s]))
            rec.close(f'kernel matrix for masks {b1} {b2}', got / norm, want / norm, rtol=1e-12, scale=1.0)
            rec.close('leading block', got[:n1, :n2], base, rtol=1e-13, scale=1.0)
            if case['rel'] in ('same', 'grid') and n1 == n2 and b1 == b2:
                rec.close('symmetry', got / norm, (got / norm).T, rtol=1e-14, scale=1.0)
                e = np.linalg.eigvalsh(got / norm)
                rec.check(e[0] > -1e-12 * len(e) * e[-1], lambda: f'not positive semi-definite: smallest eigenvalue {e[0]:.2e}')
            rec.state(case, b1, b2)
            rec.step()
    rec.sample = dict(case=case, entry=float(got[-1, -1]), entry_ref=float(want[-1, -1]))
