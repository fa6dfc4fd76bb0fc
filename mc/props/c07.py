"""Gradient of the likelihood, and the optimiser's callbacks under every bounded sequence of queries."""
import itertools
import numpy as np
import domain as D
import ref

BOUNDS = {
    'quick': 'gradient: kernels(3) x methods(6 + gradient-free) x all gradient masks of (n,d) in {(1,2),(2,1),(3,2),(2,3)} x noise pairs(16) x adjoint/direct x '
             'penalty (off, active); log options(8), length-scale and alpha regimes on a second product; 405 data sets with a repeated point, 156 with extreme length scales (1e-10 to 1e8) and variances, 195 large surrogates (up to 24 points, 8 dimensions; determinants beyond the range of numbers). '
             'callbacks: all sequences of length 3 over {value, gradient, condition, condition gradient} x {2 vectors in fresh arrays, 2 in one reused buffer} + '
             '{new data, condition query forced, closed form} on 14 configurations, adjoint and direct alternating',
    'thorough': 'masks to n = 4, layouts gen/grid, four regimes x three alphas; callbacks: length 4',
}
ASSUMPTIONS = ['exact derivatives of the reference likelihood come from the complex step',
               'the penalty, the floor of the process variance and the varying nugget are differentiated away from their kinks',
               'compared to 1e-8 + 3000 eps cond relative to the terms the derivative is the sum of']
NOISE = ['zero', 'uni', 'pp', 'unk']
LN10 = np.log(10.0)


def seq_configs():
    out = []
    for k in D.KERNELS:
        for w, nf, ng in [('base', 'zero', 'zero'), ('base', 'unk', 'unk'), ('precon', 'pp', 'unk'), ('rescale_eta_vary', 'unk', 'zero')]:
            out.append(dict(k=k, w=w, g=True, n=3, d=2, mask=[1, 0, 1], nf=nf, ng=ng))
    out.append(dict(k='Ma5f2', w='base', g=False, n=4, d=2, nf='unk'))
    out.append(dict(k='SqExp', w='rescale_origin', g=True, n=3, d=1, nf='uni', ng='zero'))
    return out


def alphabet(c):
    qs = ['val', 'grad'] + ([] if c['w'] == 'precon' else ['cond', 'cgrad'])
    ops = [(q, i, b) for q in qs for i in (0, 1) for b in (0, 1)]
    return ops + [('data', 1, 0), ('store', 0, 0), ('nograd', 1, 0), ('closed', 0, 0)]


def cases(tier):
    t = tier == 'thorough'
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for (n, d) in ([(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (2, 3), (3, 3), (4, 2)] if t else [(1, 2), (2, 1), (3, 2), (2, 3)]):
                for lay in ((['gen', 'grid'] if t else ['gen']) if n > 1 else ['gen']):
                    for m in (D.masks(n) if g else [None]):
                        for nf in NOISE:
                            for ng in (NOISE if g else ['zero']):
                                yield dict(k=k, w=w, g=g, n=n, d=d, lay=lay, mask=m, nf=nf, ng=ng)
            for logs in itertools.product([0, 1], repeat=3):
                for th in (['mod', 'aniso', 'small', 'large'] if t else ['mod', 'aniso']):
                    for al in (([0.5, 2.3, 10.0] if t else [0.5, 10.0]) if k == 'RatQu' else [None]):
                        for nf, ng, varK in [('zero', 'zero', 1.0), ('unk', 'unk', 0.02), ('pp', 'unk', 40.0), ('unk', 'pp', 2.5)]:
                            if not g and (nf, ng) == ('pp', 'unk'):
                                continue
                            yield dict(k=k, w=w, g=g, n=4, d=2, lay='grid', th=th, alpha=al, nf=nf, ng=ng if g else 'zero', varK=varK, logs=list(logs),
                                       mask=[1, 0, 1, 1] if g else None)
            for fm, xm in D.UNITS:
                for n, d in [(1, 2), (4, 2), (3, 3)]:
                    for nf, ng in (itertools.product(NOISE, NOISE) if g else [('zero', 'zero'), ('unk', 'zero'), ('pp', 'zero')]):
                        yield dict(k=k, w=w, g=g, n=n, d=d, th='aniso', nf=nf, ng=ng, mask=[int(i % 3 != 1) for i in range(n)] if g else None, fm=fm, xm=xm)
    yield from D.large()
    yield from D.repeated()
    for x in (1e-6, 1e6):
        yield from D.large([(4, 3)], th='tiny', varK=x)
        yield from D.large([(4, 3)], th='huge', varK=x)
    yield from D.large([(24, 3), (24, 8)] if t else [(24, 8)], th='small', ct=1e7)     # the determinant is smaller than any number
    for k in D.KERNELS:
        for c in seq_configs():
            if c['k'] == k:
                for op in alphabet(c):
                    yield dict(seq=4 if t else 3, first=list(op), **c)


def weight(c):
    return 1000 if 'seq' in c else c['n'] * (1 + c['d'])


CHUNK = 40


def setup(c, logs=(1, 1, 1)):
    gp = D.new_gp(c, optz_log_hp_theta=bool(logs[0]), optz_log_hp_var=bool(logs[1]), optz_log_hp_kernel=bool(logs[2]))
    return D.set_data(gp, c)


def to_opt(M, v, logs):
    """entries optimised in log space, by name."""
    b = np.array([(logs[0] if nm.startswith('theta') else logs[2] if nm == 'kernel' else logs[1]) for nm in M.names], bool)
    x = np.array(v, float)
    x[b] = np.log10(x[b])
    return x, b


def penalty(gp, R, on):
    gp.lkd_varK_pnlt_use = on
    if not on:
        return None
    c1, c2, lb = 0.7, 0.02, 0.1
    gp.lkd_varK_pnlt_c1, gp.lkd_varK_pnlt_c2, gp.lkd_varK_pnlt_lb_var = c1, c2, lb
    f = R.y[:R.n]
    var = max(np.mean((f - np.mean(f)) ** 2), lb)
    return lambda q: c1 * var * (q - c2 * var) ** 2 if q.real > c2 * var else 0.0


def run_case(case, rec):
    if 'seq' in case:
        return run_seq(case, rec)
    c = D.Cfg(case)
    logs = case.get('logs', [1, 1, 1])
    R = D.ref_model(c)
    M = D.hp_model(c, R)
    v = D.hp_vec(c, M)
    if M.tie(v):
        rec.skip('the row that decides the varying nugget is not unique')
        return
    C = M.matrix(v)
    S = C / np.sqrt(np.outer(np.diag(C), np.diag(C)))
    tol = 1e-8 + 3000 * D.EPS * np.linalg.cond(S)
    if tol > 1e-4:
        rec.skip('conditioning leaves fewer than four reliable digits')
        return
    if np.linalg.cond(C) > 1e15:
        rec.skip('condition number at the limit above which no factorisation is attempted')
        return
    gp = setup(c, logs)
    x, b = to_opt(M, v, logs)
    rec.check(gp.hp_info_optz_lkd.n_hp == len(M.names), lambda: f'{gp.hp_info_optz_lkd.n_hp} optimised hyperparameters, expected {M.names}')
    chain = np.where(b, v * LN10, 1.0)
    Ci = np.linalg.inv(C)
    dC = M.grad(M.matrix, v)
    y = R.y
    for pen in ([False] if c.noisy else [False, True]):
        pf = penalty(gp, R, pen)
        want = M.lkd(v, pf)
        G = M.grad(lambda w: M.lkd(w, pf), v) * chain
        beta = ref.gls_beta(C, y, R.h)
        r = y - beta * R.h
        a = Ci @ r
        q = 1.0 if c.noisy else max(r @ a / len(y), 1e-32)
        if not c.noisy and q < 1e-10 * np.max(np.abs(y)) ** 2:
            rec.skip('residual vanishes')
            continue
        mul = np.array([np.sum(np.abs(Ci * D_)) + abs(a) @ abs(D_) @ abs(a) / q * (1 + (2 * pf(q) / q * 2 if pf else 0)) for D_ in dC]) * np.abs(chain)
        for adj in (True, False):
            gp.lkd_use_adj_mtd = adj
            tag = f'[adjoint={adj} penalty={pen}]'
            got = gp.return_optz_grad(x.copy())
            val = gp.return_optz_val(x.copy())
            rec.close(f'negated log likelihood {tag}', val, -want, rtol=tol, scale=len(y) + abs(want) + abs(np.linalg.slogdet(C)[1]))
            rec.check(np.shape(got) == np.shape(G), lambda: f'gradient has shape {np.shape(got)}, expected {np.shape(G)}')
            for i, nm in enumerate(M.names):
                rec.close(f'gradient with respect to {nm} {tag}', -got[i], G[i], rtol=tol, scale=mul[i])
                rec.state(case, adj, pen, nm)
            rec.step(2)
            rec.sample = dict(case=case, names=M.names, grad=list(-got), grad_ref=list(G))


_EXP = {}


def answers(cd, j, i):
    """Expected answers for data set j and vector i of configuration cd, from the reference model only."""
    cd = dict(cd)
    if j:
        cd.update(n=cd['n'] - 1, lay='grid', mask=None, nf={'zero': 'unk', 'unk': 'zero', 'uni': 'unk', 'pp': 'zero'}[cd['nf']])
    c = D.Cfg(cd)
    key = (repr(sorted(cd.items())), i)
    if key not in _EXP:
        R = D.ref_model(c)
        M = D.hp_model(c, R)
        v = M.vec(c.theta * (1.0 if i == 0 else np.array([1.9, 0.55])[:c.d]), None if c.alpha is None else c.alpha * (1 + 0.4 * i), c.varK * (1 - 0.6 * i),
                  c.vf * (1 + 3 * i), c.vg * (1 + 2 * i))
        x, b = to_opt(M, v, (1, 1, 1))
        chain = v * LN10
        C = M.matrix(v)
        g = M.grad(M.lkd, v) * chain
        e, U = np.linalg.eigh(C)
        cond = e[-1] / e[0]
        dC = M.grad(M.matrix, v)
        cg = np.array([(U[:, -1] @ K @ U[:, -1] - cond * (U[:, 0] @ K @ U[:, 0])) / e[0] for K in dC]) * chain
        Cn = C / np.sqrt(np.outer(np.diag(C), np.diag(C))) if c.w == 'precon' else C
        if c.noisy:
            cf = (ref.lkd_noisy(C, R.y, R.h)[1], None)
        else:
            cf = ref.lkd_noise_free(C, R.y, R.h)[1:]
        _EXP[key] = dict(x=x, val=-M.lkd(v), grad=-g, cond=cond, cgrad=cg, force=np.linalg.cond(Cn), closed=cf, c=c, scale=1 + abs(M.lkd(v)))
    return _EXP[key]


def run_seq(case, rec):
    cd = {a: b for a, b in case.items() if a not in ('seq', 'first')}
    ops = alphabet(cd)
    first = tuple(case['first'])
    c0 = D.Cfg(cd)
    for num, rest in enumerate(itertools.product(ops, repeat=case['seq'] - 1)):
        seq = (first,) + rest
        gp = setup(c0)
        gp.lkd_use_adj_mtd = num % 2 == 0
        j, buf = 0, None
        for pos, (op, i, b) in enumerate(seq):
            if op == 'data':
                j = 1 - j
                D.set_data(gp, answers(cd, j, 0)['c'])
                buf = None
                rec.step()
                continue
            A = answers(cd, j, i)
            if b:
                if buf is None:
                    buf = np.empty_like(A['x'])
                buf[:] = A['x']
                x = buf
            else:
                x = A['x'].copy()

            def tag():
                return f'after {list(seq[:pos])}, query {op} of vector {i}'
            if op == 'val':
                rec.close('value ' + tag(), gp.return_optz_val(x), A['val'], rtol=1e-8, scale=A['scale'])
            elif op == 'grad':
                rec.close('gradient ' + tag(), gp.return_optz_grad(x), A['grad'], rtol=1e-7)
            elif op == 'cond':
                rec.close('condition number ' + tag(), gp.return_cond_val(x), A['cond'], rtol=1e-7)
            elif op == 'cgrad':
                rec.close('condition number gradient ' + tag(), gp.return_cond_grad(x), A['cgrad'], rtol=1e-6)
            elif op == 'store':
                o = gp.calc_store_likelihood(x, always_calc_cond=True, calc_grad=False)
                rec.close('value with a forced condition number ' + tag(), o[0], -A['val'], rtol=1e-8, scale=A['scale'])
                rec.close('forced condition number ' + tag(), o[2], A['force'], rtol=1e-7)
            elif op == 'nograd':
                o = gp.calc_store_likelihood(x, calc_grad=False)
                rec.close('value without gradient ' + tag(), o[0], -A['val'], rtol=1e-8, scale=A['scale'])
            elif op == 'closed':
                h = gp.optz_closed_form_hp(gp.hp_vec2dataclass(gp.hp_info_optz_lkd, x))
                rec.close('closed-form mean ' + tag(), np.ravel(h.beta)[0], A['closed'][0], rtol=1e-7, scale=10)
                if A['closed'][1] is not None:
                    rec.close('closed-form process variance ' + tag(), h.varK, A['closed'][1], rtol=1e-7)
            rec.check(np.array_equal(x, A['x']), lambda: f'the queried vector was changed {tag()}')
            rec.step()
        rec.state(cd, seq)
    rec.sample = dict(config=cd, sequence=[list(o) for o in seq])
