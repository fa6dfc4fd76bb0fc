"""Condition number and its gradient, in both norms, and the objective that replaces a refused factorisation."""
import itertools
import numpy as np
import domain as D

BOUNDS = {
    'quick': 'kernels(3) x methods(6 + gradient-free) x layouts(gen, grid) x all gradient masks of (n,d) in {(1,2),(2,1),(3,2),(2,3)} x noise pairs(6) x '
             'norms(2) x {value only, value and gradient, callback value, callback gradient, direct evaluation} ; '
             'length-scale, alpha, process variance regimes and log options on a second product; 405 data sets with a repeated point, 156 with extreme length scales (1e-10 to 1e8) and variances, 156 large surrogates (up to 24 points, 6 dimensions); limit above which no factorisation is attempted '
             '(below, above the condition number) with objective, constraint and both gradients queried in every order',
    'thorough': 'all noise pairs(16), masks to n = 4, four regimes x three alphas x three process variances, n <= 8, d <= 5',
}
ASSUMPTIONS = ['2-norm gradients are compared where both extreme eigenvalues are simple (relative gap 1e-5)',
               "the preconditioned method uses no condition number constraint: only its reported value is checked",
               'double precision: 1e-9 + 3000 eps cond relative']
NOISE = ['zero', 'uni', 'pp', 'unk']
LN10 = np.log(10.0)


def cases(tier):
    t = tier == 'thorough'
    pairs = list(itertools.product(NOISE, NOISE)) if t else [('zero', 'zero'), ('pp', 'zero'), ('zero', 'unk'), ('unk', 'zero'), ('unk', 'unk'), ('pp', 'pp')]
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for (n, d) in ([(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (2, 3), (3, 3), (4, 2)] if t else [(1, 2), (2, 1), (3, 2), (2, 3)]):
                for lay in (['gen', 'grid'] if n > 1 else ['gen']):
                    for m in (D.masks(n) if g else [None]):
                        for nf, ng in pairs:
                            if g or ng == 'zero':
                                yield dict(k=k, w=w, g=g, n=n, d=d, lay=lay, mask=m, nf=nf, ng=ng)
            for th in ['mod', 'aniso', 'small', 'large']:
                for al in (([0.5, 2.3, 10.0] if t else [0.5, 10.0]) if k == 'RatQu' else [None]):
                    for varK in ([1e-3, 1.0, 50.0] if t else [1e-3, 50.0]):
                        for logs in ([[1, 1, 1], [0, 0, 0], [1, 0, 1], [0, 1, 0]] if t else [[1, 1, 1], [0, 0, 0]]):
                            for nf, ng in [('zero', 'zero'), ('unk', 'unk'), ('pp', 'unk')]:
                                for n, d in ([(4, 2), (6, 3), (8, 5)] if t else [(4, 2)]):
                                    if g or ng == 'zero':
                                        yield dict(k=k, w=w, g=g, n=n, d=d, lay='gen', th=th, alpha=al, varK=varK, nf=nf, ng=ng, logs=logs,
                                                   mask=[int(i % 3 != 1) for i in range(n)] if g else None)
            for fm, xm in D.UNITS:
                for n, d in [(1, 2), (4, 2), (3, 3)]:
                    for nf, ng in (itertools.product(NOISE, NOISE) if g else [('zero', 'zero'), ('unk', 'zero'), ('pp', 'zero')]):
                        for ct in (1e4, 1e10):
                            yield dict(k=k, w=w, g=g, n=n, d=d, lay='gen', th='aniso', nf=nf, ng=ng, mask=[int(i % 3 != 1) for i in range(n)] if g else None, fm=fm, xm=xm, ct=ct)
    yield from D.large()
    yield from D.repeated()
    for x in (1e-6, 1e6):
        yield from D.large([(4, 3)], th='tiny', varK=x)
        yield from D.large([(4, 3)], th='huge', varK=x)
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS if w != 'precon'] + [(False, 'base')]:
            for nf, ng in [('zero', 'zero'), ('unk', 'unk' if g else 'zero'), ('pp', 'zero')]:
                for norm in (2, 'fro'):
                    for order in itertools.permutations(['val', 'grad', 'cond', 'cgrad']):
                        yield dict(k=k, w=w, g=g, n=4, d=2, lay='gen', nf=nf, ng=ng, order=list(order), norm=norm)


def weight(c):
    return c['n'] * (1 + c['d'])


class Exp:
    def __init__(self, M, v, C):
        self.C, self.dC = C, M.grad(M.matrix, v)
        e, U = np.linalg.eigh(C)
        self.c2 = e[-1] / e[0]
        self.simple = len(e) < 2 or (e[1] - e[0] > 1e-5 * e[0] and e[-1] - e[-2] > 1e-5 * e[-1])
        self.g2 = np.array([(U[:, -1] @ K @ U[:, -1] - self.c2 * (U[:, 0] @ K @ U[:, 0])) / e[0] for K in self.dC])
        self.s2 = np.array([(np.linalg.norm(K) * (1 + self.c2)) / e[0] for K in self.dC])
        Ci = (U / e) @ U.T
        a, b = np.linalg.norm(C), np.linalg.norm(Ci)
        self.cf = a * b
        B = Ci @ Ci @ Ci
        self.gf = np.array([b / a * np.sum(C * K) - a / b * np.sum(B * K) for K in self.dC])
        self.sf = np.array([b / a * np.sum(abs(C * K)) + a / b * np.sum(abs(B * K)) for K in self.dC])

    def of(self, norm):
        return (self.c2, self.g2, self.s2) if norm == 2 else (self.cf, self.gf, self.sf)


def run_case(case, rec):
    c = D.Cfg(case)
    R = D.ref_model(c)
    M = D.hp_model(c, R)
    v = D.hp_vec(c, M)
    if M.tie(v):
        rec.skip('the row that decides the varying nugget is not unique')
        return
    C = M.matrix(v)
    if c.w == 'precon':
        P = np.sqrt(np.diag(R.K) + R.N / (c.varK if c.noisy else 1.0))
        Cc = C / np.outer(P, P)
    else:
        Cc = C
    cond = np.linalg.cond(Cc)
    tol = 1e-9 + 3000 * D.EPS * cond
    if tol > 1e-3 or cond > 1e15:
        rec.skip('conditioning leaves fewer than three reliable digits')
        return
    logs = case.get('logs', [1, 1, 1])
    gp = D.set_data(D.new_gp(c, optz_log_hp_theta=bool(logs[0]), optz_log_hp_var=bool(logs[1]), optz_log_hp_kernel=bool(logs[2])), c)
    b = np.array([(logs[0] if nm.startswith('theta') else logs[2] if nm == 'kernel' else logs[1]) for nm in M.names], bool)
    x = np.array(v, float)
    x[b] = np.log10(x[b])
    chain = np.where(b, v * LN10, 1.0)
    E = Exp(M, v, Cc) if c.w != 'precon' else None
    if 'order' in case:
        return run_refused(case, c, gp, x, chain, E, M, v, rec, tol)
    vf, vg = c.noise_hp()
    hv = gp.make_hp_class(None, c.theta, c.alpha, c.varK if c.noisy else None, vf, vg)
    nrm = {2: cond, 'fro': np.linalg.norm(Cc) * np.linalg.norm(np.linalg.inv(Cc))}
    for norm in (2, 'fro'):
        gp.cond_norm = norm
        for lk in (True, False):
            info, ok = gp.calc_lkd_all(hv, calc_lkd=lk, calc_cond=True, calc_grad=False)
            rec.close(f'condition number [{norm}]', info.cond, nrm[norm], rtol=tol)
            rec.step()
        rec.state(case, norm)
        o = gp.calc_store_likelihood(x.copy(), always_calc_cond=True, calc_grad=False)
        rec.close(f'condition number from the stored evaluation [{norm}]', o[2], nrm[norm], rtol=tol)
        rec.step()
        if c.w == 'precon':
            continue
        val, grad, scale = E.of(norm)
        rec.close(f'condition number constraint [{norm}]', gp.return_cond_val(x.copy()), val, rtol=tol)
        cg = gp.return_cond_grad(x.copy())
        info, ok = gp.calc_lkd_all(hv, calc_cond=True, calc_grad=True)
        rec.close(f'condition number with gradient [{norm}]', info.cond, val, rtol=tol)
        if norm == 2 and not E.simple:
            rec.skip('extreme eigenvalue not simple (2-norm gradient only)')
        else:
            rec.check(np.shape(cg) == grad.shape, lambda: f'constraint gradient has shape {np.shape(cg)}, expected {grad.shape}')
            gap = 1.0
            for i, nm in enumerate(M.names):
                rec.close(f'constraint gradient with respect to {nm} [{norm}]', cg[i], grad[i] * chain[i], rtol=1e-7 * gap + tol, scale=scale[i] * abs(chain[i]))
                rec.close(f'condition number gradient with respect to {nm} [{norm}]', info.cond_grad[i], grad[i], rtol=1e-7 * gap + tol, scale=scale[i])
                rec.state(case, norm, nm)
        rec.step(3)
        rec.sample = dict(case=case, norm=norm, cond=float(info.cond), cond_ref=float(val), grad=list(cg))


def run_refused(case, c, gp, x, chain, E, M, v, rec, tol):
    """Objective and constraint on both sides of the limit above which no factorisation is attempted."""
    norm = case['norm']
    gp.cond_norm = norm
    own = E.of(norm)
    for side, limit in (('below', own[0] * 2), ('above', own[0] / 2)):
        gp.cond_max_abs = limit
        cv, cgr, cs = own if side == 'below' else E.of(2)
        for q in case['order']:
            rec.step()
            rec.state(case, side, q)
            tag = f'[{q}, limit {side} the condition number, {norm}]'
            if q == 'val':
                want = -M.lkd(v) if side == 'below' else cv
                rec.close('objective ' + tag, gp.return_optz_val(x.copy()), want, rtol=1e-8 + tol, scale=10)
            elif q == 'grad':
                got = gp.return_optz_grad(x.copy())
                if side == 'below':
                    want = -M.grad(M.lkd, v) * chain
                    rec.close('objective gradient ' + tag, got, want, rtol=1e-6 + tol)
                elif E.simple:
                    rec.close('objective gradient ' + tag, got, cgr * chain, rtol=1e-7 + tol, scale=np.max(cs * abs(chain)))
            elif q == 'cond':
                rec.close('constraint ' + tag, gp.return_cond_val(x.copy()), cv, rtol=tol)
            else:
                got = gp.return_cond_grad(x.copy())
                if E.simple or (side == 'below' and norm != 2):
                    rec.close('constraint gradient ' + tag, got, cgr * chain, rtol=1e-7 + tol, scale=np.max(cs * abs(chain)))
