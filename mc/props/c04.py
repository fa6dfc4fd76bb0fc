"""Derivatives of the regularised matrices with respect to the hyperparameters, on the compiled kernels."""
import numpy as np
import domain as D

JIT = True
BOUNDS = {
    'quick': 'kernels(3) x methods(6 + gradient-free) x layouts(gen, grid) x all gradient masks (n,d) in {(1,2),(2,1),(3,2),(2,3)} x '
             'noise pairs (none, per point, unknown) x theta regimes(2) x alpha(2); 156 large surrogates (up to 24 points, 6 dimensions) and 156 with extreme length scales (1e-10 to 1e8) and process variances',
    'thorough': 'all noise pairs(16), n <= 4, d <= 3, theta regimes(4), alpha(3), process variances(2)',
}
ASSUMPTIONS = ['exact derivatives of the reference matrix come from the complex step; entries compared to 1e-9 of the largest entry',
               'the varying nugget is differentiated where its deciding row is unique']


def group(c):
    return (c['k'], c.get('g', True), c.get('mask') is not None)


def cases(tier):
    t = tier == 'thorough'
    modes = ['zero', 'uni', 'pp', 'unk']
    noise = [(a, b) for a in modes for b in modes] if t else [('zero', 'zero'), ('pp', 'zero'), ('zero', 'unk'), ('unk', 'zero'), ('unk', 'unk'), ('pp', 'pp')]
    nd = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (2, 3), (3, 3), (4, 2)] if t else [(1, 2), (2, 1), (3, 2), (2, 3)]
    ths = ['mod', 'aniso', 'small', 'large'] if t else ['mod', 'aniso']
    for k in D.KERNELS:
        for al in ((([0.5, 2.3, 10.0] if t else [0.5, 2.3])) if k == 'RatQu' else [None]):
            for th in ths:
                for (n, d) in nd:
                    for lay in (['gen', 'grid'] if n > 1 else ['gen']):
                        for nf, ng in noise:
                            for varK in ([0.01, 2.5] if t else [2.5]):
                                for w in D.METHODS:
                                    for m in D.masks(n):
                                        yield dict(k=k, w=w, g=True, n=n, d=d, lay=lay, nf=nf, ng=ng, mask=m, th=th, alpha=al, varK=varK)
                                if ng == 'zero':
                                    yield dict(k=k, w='base', g=False, n=n, d=d, lay=lay, nf=nf, th=th, alpha=al, varK=varK)
    yield from D.large(lay='gen', th='mod', alpha=None, varK=2.5)
    for th in ('tiny', 'huge'):
        for x in (1e-2, 1e6):
            yield from D.large([(4, 3)], lay='gen', th=th, alpha=None, varK=x)


def run_case(case, rec):
    from gpgradpy.src.base import CommonFun
    c = D.Cfg(case)
    R = D.ref_model(c)
    M = D.hp_model(c, R)
    v = D.hp_vec(c, M)
    if M.tie(v):
        rec.skip('the row that decides the varying nugget is not unique')
        return
    gp = D.set_data(D.new_gp(c), c)
    h = D.hp(gp, c)
    T = CommonFun.calc_Rtensor(R.X, R.X, 1)
    want = M.matrix(v)
    if c.noisy:
        o = gp.calc_all_K_w_chofac(T, h)
        got = gp.calc_Kcov_grad_hp(gp.hp_info_optz_lkd, h, o[0], T)
    else:
        h.varK = None
        o = gp.calc_Kern_w_chofac(T, h)
        got = gp.calc_KernGrad_hp(gp.hp_info_optz_lkd, h, T, Kern=o[0])
    rec.close('factorised matrix', o[2], want, rtol=1e-11)
    G = M.grad(M.matrix, v)
    rec.check(got.shape == G.shape, lambda: f'derivative has shape {got.shape}, expected {G.shape} ({M.names})')
    for i, nm in enumerate(M.names):
        rec.close(f'derivative with respect to {nm}', got[i], G[i], rtol=1e-9, atol=1e-13 * np.max(np.abs(want)) / max(abs(v[i]), 1e-3))
        rec.state(case, nm)
        rec.step()
    rec.sample = dict(case=case, name=M.names[-1], entry=float(got[-1].ravel()[-1]), entry_ref=float(G[-1].ravel()[-1]))
