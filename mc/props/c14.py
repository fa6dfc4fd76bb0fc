"""Outcome of the hyperparameter optimisation for every configuration of a finite product."""
import itertools
import numpy as np
import domain as D

BOUNDS = {
    'quick': 'kernels(3) x (6 methods with gradients, gradient-free) x noise pairs {none, known, value unknown, gradient unknown, both unknown} x 3 sets of data x start rule '
             '{best candidate, multi-start}, also as a later iteration with a history; reduced products (every third, every second combination) for the gradient mask, options (no logarithm, penalty, direct '
             'gradients, no rescaling loop, kernel parameter fixed, other optimiser) and limits on the condition number; 4 and 5 dimensions (every second combination); every optimisation is run twice, the plain ones a third time in the same object',
    'thorough': 'dimensions 1 to 3, 5 data sets, masks and options on the whole product',
}
ASSUMPTIONS = ['the limit on the condition number counts as satisfied within 1 % (tolerance used by the implementation)',
               'a start is feasible when its condition number is below the limit',
               'for the rescaling loop, which changes the units, the comparison with the starts is made for the first pass only (loop switched off)',
               'optimality itself is not claimed, only that the result is no worse than any feasible start']
NOISE = [('zero', 'zero'), ('pp', 'pp'), ('unk', 'zero'), ('zero', 'unk'), ('unk', 'unk')]
DATA = {'a': dict(lay='gen', n=4), 'b': dict(lay='grid', n=3), 'c': dict(lay='close', n=4), 'e': dict(lay='far', n=5), 'f': dict(lay='gen', n=2),
        'q': dict(lay='gen', n=4), 'r': dict(lay='grid', n=5)}         # q, r: values and gradients of a smooth function
OPTS = {'plain': {}, 'nolog': dict(optz_log_hp_theta=False, optz_log_hp_var=False, optz_log_hp_kernel=False), 'pnlt': dict(lkd_varK_pnlt_use=True),
        'direct': dict(lkd_use_adj_mtd=False), 'noloop': dict(cond_vreq_max_iter=1), 'fixk': dict(b_optz_hp_kernel=False), 'fewiter': dict(optz_iter_max=3),
        'tight': dict(cond_max=2e3, cond_max_target=1e3), 'fro': dict(cond_norm='fro'), 'lim2e2': dict(cond_max=2e2), 'lim1e4': dict(cond_max=1e4),
        'limfew': dict(cond_max=2e2, optz_iter_max=4),
        'trust': dict(optz_mtd='trust-constr', optz_iter_max=25)}


def cases(tier):
    t = tier == 'thorough'
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for nf, ng in NOISE:
                if not g and ng != 'zero':
                    if (nf, ng) != ('pp', 'pp'):
                        continue
                for st in ('hp_best', 'lhs'):
                    for dt in DATA if t else ('a', 'b', 'c'):
                        for d in (1, 2, 3) if t else (2,):
                            for hist in (0, 1) if t or dt == 'a' else (0,):
                                for op in OPTS if t and d == 2 else ['plain']:
                                    if op == 'trust' and (dt != 'a' or hist):
                                        continue
                                    yield dict(k=k, w=w, g=g, nf=nf, ng=ng if g else 'zero', st=st, dt=dt, d=d, hist=hist, op=op)
                    if not t:
                        par = (D.KERNELS.index(k) + (D.METHODS.index(w) if g else 6) + NOISE.index((nf, ng)) + (st == 'lhs'))
                        for j, op in enumerate(list(OPTS)[1:]):
                            if (par + j) % 3:
                                continue
                            if (op == 'trust' and (st == 'lhs' or nf != 'zero')) or (op == 'fixk' and k != 'RatQu'):
                                continue
                            yield dict(k=k, w=w, g=g, nf=nf, ng=ng if g else 'zero', st=st, dt='a', d=2, hist=0, op=op)
                        for j, (op, dt, h) in enumerate([('lim2e2', 'q', 0), ('lim1e4', 'q', 1), ('lim2e2', 'r', 1), ('lim1e4', 'r', 0), ('plain', 'q', 0), ('tight', 'q', 0), ('limfew', 'q', 0), ('limfew', 'r', 0)]):
                            if (par + j) % 2:
                                continue
                            yield dict(k=k, w=w, g=g, nf=nf, ng=ng if g else 'zero', st=st, dt=dt, d=2, hist=h, op=op)
                        if g:
                            yield dict(k=k, w=w, g=g, nf=nf, ng=ng, st=st, dt='a', d=2, hist=0, op='plain', mask=[1, 0, 1, 0])
                            yield dict(k=k, w=w, g=g, nf=nf, ng=ng, st=st, dt='a', d=1, hist=0, op='plain')
                        if par % 2:
                            yield dict(k=k, w=w, g=g, nf=nf, ng=ng if g else 'zero', st=st, dt='a', d=4 + par % 4 // 2, hist=par % 3 % 2, op='plain')


def weight(c):
    return (5 if c['st'] == 'lhs' else 1) * (8 if c['op'] == 'trust' else 1) * (3 if 'rescale' in c['w'] else 1) * (2 if c['nf'] == 'unk' else 1)


CHUNK = 4
FIELDS = ['beta', 'theta', 'kernel', 'varK', 'var_fval', 'var_fgrad']
ARR = dict(hp_beta_all='beta', hp_theta_all='theta', hp_kernel_all='kernel', hp_varK_all='varK', hp_var_fval_all='var_fval', hp_var_fgrad_all='var_fgrad')


def plain(h):
    return {f: None if getattr(h, f) is None else np.array(getattr(h, f), float).ravel().copy() for f in FIELDS}


def put(gp, case, c):
    if case['dt'] not in ('q', 'r'):
        return D.set_data(gp, c)
    X, f, sf, g, sg = c.data()
    A = np.array([[1.3, 0.4, 0.1], [0.4, 0.9, -0.2], [0.1, -0.2, 0.7]])[:c.d, :c.d]
    b = np.array([0.3, -0.6, 0.2])[:c.d]
    f = 0.5 * np.einsum('ni,ij,nj->n', X, A, X) + X @ b + 0.7
    if g is not None:
        g = X @ A + b
        g = g if c.mask is None else g[np.array(c.mask, bool)]
    gp.set_data(X, f, sf, g, sg, None if c.mask is None else np.array(c.mask, bool))
    return gp


def make(case):
    c = D.Cfg(dict(case, ct=1e10, **DATA[case['dt']]))
    opts = dict(optz_iter_max=40, lkd_hp_best_n_eval=12, optz_n_x0=3, lkd_optz_start_mtd=case['st'])
    opts.update(OPTS[case['op']])
    ct = opts.pop('cond_max_target', None)
    cm = opts.pop('cond_max', None)
    gp = D.new_gp(c, **opts)
    if ct:
        gp.cond_max_target = ct
    if cm:
        gp.cond_max = cm
        gp.set_wellcond_mtd(c.w if c.g else 'base')         # the limit is handed to the optimiser here
    gp.init_optz_surr(4)
    put(gp, case, c)
    i = 0
    if case['hist']:
        for j in range(2):
            h = D.hp(gp, c)
            h.theta = h.theta * (1 + 3 * j)
            gp.store_new_para_surr(j, h, None, 100.0)
        i = 2
    return c, gp, i


def vec(gp, info, h):
    v = np.zeros(info.n_hp)
    for f in ('theta', 'kernel', 'varK', 'var_fval', 'var_fgrad'):
        if getattr(info, 'has_' + f):
            v[getattr(info, 'idx_' + f)] = np.asarray(getattr(h, f), float).ravel() if f in ('theta', 'kernel') else float(np.ravel(getattr(h, f))[0])
    b = np.asarray(info.bvec_log_optz, bool)
    v[b] = np.log10(v[b])
    return v


def run_case(case, rec):
    c, gp, i = make(case)
    info = gp.hp_info_optz_lkd
    x0, bd, _ = gp.select_hp_optz_x0(i, info)
    precon = gp.wellcond_mtd == 'precon'
    loop = 'rescale' in gp.wellcond_mtd and gp.cond_vreq_max_iter > 1
    starts = [gp.calc_lkd_all(gp.hp_vec2dataclass(info, v), calc_cond=not precon) for v in x0]
    state0 = gp.export_data_surr(save2file=False)
    before = {a: np.copy(b) for a, b in state0.items()}
    rec.step(len(x0))

    gp.set_hpara('optz', i)
    h = plain(gp.hp_vals)
    rec.step(1)
    v = vec(gp, info, gp.hp_vals)
    tol = 1e-9 * (1 + np.abs(v))
    if not loop:
        rec.check(np.all(v >= bd.lb - tol) and np.all(v <= bd.ub + tol), lambda: f'hyperparameters {v} outside of the bounds {bd.lb} {bd.ub}')
    for f in ('theta', 'kernel', 'varK', 'var_fval', 'var_fgrad'):
        if getattr(info, 'has_' + f):
            lo, hi = getattr(gp, f'hp_{f}_range')
            rec.check(np.all(h[f] >= lo * (1 - 1e-9)) and np.all(h[f] <= hi * (1 + 1e-9)), lambda: f'{f} = {h[f]} outside of [{lo}, {hi}]')

    # closed form part and condition number, from the data and the hyperparameters
    full, ok = gp.calc_lkd_all(gp.make_hp_class(*[h[f] if f in ('beta', 'theta') else (None if h[f] is None else float(h[f][0])) for f in FIELDS]), calc_cond=not precon)
    rec.check(ok, 'the matrix of the result cannot be factorised')
    rec.close('mean parameter', h['beta'], full.hp_beta, rtol=1e-9)
    if not c.noisy:
        rec.close('process variance', h['varK'], np.ravel(full.hp_varK), rtol=1e-9)
    rec.check(h['varK'][0] > 0, f'process variance {h["varK"]}')
    limit = 1.01 * gp.cond_max
    if precon:
        feas = [True] * len(starts)
        cond = None
    else:
        cond = float(full.cond)
        feas = [o and s.cond <= gp.cond_max for s, o in starts]
        if not any(feas):
            rec.skip('no start satisfies the limit on the condition number')
        else:
            rec.check(cond <= limit, lambda: f'condition number {cond:.3e} above the limit {gp.cond_max:.3e} although start {feas.index(True)} has {starts[feas.index(True)][0].cond:.3e}')
    if not loop and any(feas):
        best = max(s.ln_lkd for (s, o), f in zip(starts, feas) if f)
        rec.check(full.ln_lkd >= best - 1e-7 * (1 + abs(best)), lambda: f'log likelihood {full.ln_lkd} below {best} of a feasible start')

    # what is recorded
    hist = gp.export_data_surr(save2file=False)
    p = gp.surr_name
    for a, f in ARR.items():
        g = np.atleast_1d(hist[p + a][i])
        rec.check(np.all(np.isnan(g)) if h[f] is None else np.array_equal(g, h[f]), lambda: f'recorded {a} {g}, hyperparameters {h[f]}')
    if cond is not None:
        rec.close('recorded condition number', hist[p + 'Kcov_cond_all'][i], cond, rtol=1e-5 if gp.cond_norm == 2 else 1e-3)
        rec.check(bool(hist[p + 'Kcov_cond_at_max_all'][i]) == bool(hist[p + 'Kcov_cond_all'][i] >= 0.99 * gp.cond_max), 'flag of the condition number')
    for a in before:
        old, new = before[a], np.asarray(hist[a])
        sel = [j for j in range(4) if j != i]
        rec.check(np.array_equal(old[sel], new[sel], equal_nan=True), f'{a}: other iterations were changed')
    s = hist[p + 'hp_optz_success'][i]
    rec.check(0 <= s <= 1 and 0 <= hist[p + 'hp_optz_con_good'][i] <= 1 and hist[p + 'hp_optz_iter_mean'][i] <= hist[p + 'hp_optz_iter_max'][i] + 1e-12,
              'recorded statistics of the optimiser are impossible')

    # the surrogate is ready, and restoring gives the same one
    Q = np.array([D.queries(c, q) for q in ('gen', 'out')])
    out = [np.copy(z) for z in gp.eval_model(Q, calc_grad=True)[:4]]
    gp.set_hpara('stored', i)
    for nm, a, b in zip(('mean', 'deviation', 'mean gradient', 'deviation gradient'), gp.eval_model(Q, calc_grad=True), out):
        rec.close(f'{nm} after restoring the optimised iteration', a, b, rtol=3e-6, scale=1.0)

    rec.step(2)
    rec.state(repr(case))
    rec.sample = dict(case=case, theta=h['theta'].tolist(), log_likelihood=float(full.ln_lkd))

    # again, from the same state: in a new object and in the same object
    c2, gp2, _ = make(case)
    gp2.set_hpara('optz', i)
    for f, w in plain(gp2.hp_vals).items():
        rec.check((w is None and h[f] is None) or np.array_equal(w, h[f]), lambda: f'a second object finds {f} = {w} instead of {h[f]}')
    if case['op'] != 'plain' or 'mask' in case:
        return
    put(gp, case, c)
    gp.set_hpara('optz', i)
    for f, w in plain(gp.hp_vals).items():
        rec.check((w is None and h[f] is None) or np.array_equal(w, h[f]), lambda: f'repeating finds {f} = {w} instead of {h[f]}')
