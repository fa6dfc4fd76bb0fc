"""Acceptance and rejection: a request is accepted exactly when it is consistent."""
import itertools
import numpy as np
import domain as D

JIT = True
BOUNDS = {
    'quick': 'constructor: 9 dims x 5 flags x 7 kernels x 10 methods x 4 mean functions; data: gradient use(2) x methods(7) x (n, d) in {(3,2), (2,2), (2,1), (1,2), (3,1)} x '
             'shapes of x(9; with a second shape of the values for the right one) x deviations(6) x gradients(8) x gradient deviations(8) x masks(5), complete product; every accepted combination is evaluated '
             'for one combination per method and shape; hyperparameters: length scales(6) x coefficients(3) x process variance(6) x kernel parameter(2) x noise variances(2x2) x noise '
             'modes(4) x methods; requests: 11 shapes x gradient x Hessian x squeeze for mean/deviation and variance; 8 wrong modes; 9 options; rescaling: complete products of its arguments',
    'thorough': 'dimensions to 3, four points, all kernels for data and requests',
}
ASSUMPTIONS = ['wrong shapes of arrays that are ignored (deviations containing NaN, deviations of gradients without gradients) are not claimed to be refused',
               'a surrogate that uses gradients is given at least one', 'dim < 1 and booleans as dim are not claimed to be refused',
               'a rejection is any exception; the compiled kernels are used, in which an index out of range is not detected']


def cases(tier):
    t = tier == 'thorough'
    for k in ['SqExp', 'RatQu', 'Ma5f2', 'foo', '', None, 'sqexp']:
        yield dict(part='ctor', k=k)
    for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
        for k in D.KERNELS if t else ['SqExp']:
            for n, d in [(3, 2), (2, 2), (2, 1), (1, 2), (3, 1)] + ([(4, 3), (3, 3), (2, 3)] if t else []):
                for x in range(9):
                    yield dict(part='data', k=k, w=w, g=g, n=n, d=d, x=x)
        for k in D.KERNELS:
            for d in (1, 2, 3) if t else (1, 2):
                yield dict(part='hp', k=k, w=w, g=g, d=d)
                for n in (1, 3):
                    yield dict(part='eval', k=k, w=w, g=g, d=d, n=n)
        yield dict(part='mode', w=w, g=g)
    for o in ('cond_norm', 'cond_eta_set_mtd', 'lkd_optz_start_mtd', 'optz_mtd'):
        for w in D.METHODS:
            yield dict(part='option', o=o, w=w)
    for n, d in [(3, 2), (1, 2), (2, 1)]:
        yield dict(part='scale', n=n, d=d)
    yield dict(part='history')


def weight(c):
    return {'data': 10, 'hp': 4}.get(c['part'], 1)


def attempt(fun):
    """(accepted, result)"""
    try:
        return True, fun()
    except Exception as e:                     # noqa: BLE001  any refusal counts
        return False, f'{type(e).__name__}: {e}'


def both(rec, name, fun, want):
    ok, out = attempt(fun)
    rec.step()
    rec.check(ok == want, lambda: f'{name}: ' + (f'accepted although inconsistent ({str(out)[:80]})' if ok else f'refused although consistent ({str(out)[:150]})'))
    return out if ok and want else None


def GP(*a, **k):
    from gpgradpy.src.GaussianProcess import GaussianProcess
    return GaussianProcess(*a, path_data_surr='unused', **k)


def run_ctor(case, rec):
    k = case['k']
    for d in [1, 2, 3, 5, 2.0, '2', None, [2], np.array([2])]:
        for g in [True, False, 1, None, 'yes']:
            for w in D.METHODS + [None, 'foo', 'Precon', 'rescale']:
                for m in ['poly_ord_0', 'poly_ord_1', 'foo', 'poly']:
                    ok = (type(d) is int and type(g) is bool and k in D.KERNELS and (w in D.METHODS or w is None) and m == 'poly_ord_0')
                    o = both(rec, f'constructor dim={d!r} use_grad={g!r} kernel={k!r} method={w!r} mean={m!r}', lambda: GP(d, g, k, w, m), ok)
                    rec.state('ctor', repr((d, g, k, w, m)))
                    if o is not None and m == 'poly_ord_0':
                        rec.check(o.dim == d and o.use_grad is g and o.kernel_type == k, 'constructed with something else than requested')
    if k in D.KERNELS:
        for g in (True, False):
            o = GP(2, g, k, 'base')
            for w in D.METHODS + [None, 'foo', 'BASE', '']:
                both(rec, f'change of the method to {w!r}', lambda: o.set_wellcond_mtd(w), w in D.METHODS or w is None)


def xs(n, d):
    X = D.points('gen', max(n + 1, 2), d)
    Z = np.hstack([X, X + 1])
    return [X[:n], X[:n - 1] if n > 1 else np.zeros((0, d)), X[:n + 1], Z[:n, :d + 1], X[:n, :d - 1], X[:n].T.copy(), X[:n].ravel(), X[:n][None], np.array(X[0, 0])]


def run_data(case, rec):
    n, d, g = case['n'], case['d'], case['g']
    x = xs(n, d)[case['x']]
    F = D.fdata(n)
    S = np.full(n + 1, 0.1)
    G = np.vstack([D._G[:4, :d]] * 3)
    gp = GP(d, g, case['k'], case['w'])
    gp.cond_max_target = 1e4
    wrong = 0
    done = set()
    masks = [None, np.ones(n, bool), np.arange(n) % 2 == 0, np.ones(n - 1, bool), np.ones(n + 1, bool)]
    for f in (F, F[:, None]) if case['x'] == 0 else (F,):
        for i_s, s in enumerate([None, np.full(n, np.nan), S[:n], S[:n - 1], S, S[:n, None]]):
            for i_m, m in enumerate(masks):
                r = n if m is None else int(m.sum())
                H = G[:max(r, 0) + 1]
                grads = [None, H[:r], H[:r - 1], H[:r + 1], np.hstack([H, H])[:r, :d + 1], H[:r].ravel(), H[:r][None], H[:r].T.copy()] if r > 0 else [None]
                T = np.full((r + 1, d + 1), 0.2)
                stds = [None, np.full((r, d), np.nan), T[:r, :d], T[:r - 1, :d] if r > 1 else T[:r + 1, :d], T[:r, :d + 1], T[:r, 0], np.full((d, r), 0.2), np.full((1, r, d), 0.2)]
                for i_g, a in enumerate(grads):
                    for i_t, b in enumerate(stds):
                        if not g and a is None and b is not None:
                            continue                    # ignored
                        ok = x.ndim == 2 and x.shape == (n, d) and (i_s in (0, 1) or s.size == n)
                        if g:
                            ok &= (m is None or m.size == n) and a is not None and a.shape == (r, d)
                            ok &= b is None or bool(np.isnan(b).any()) or (a is not None and b.shape == a.shape)
                        else:
                            ok &= m is None and a is None
                        nm = f'data x {x.shape}, values {f.shape}, deviations {None if s is None else s.shape}, gradients {None if a is None else a.shape}, ' \
                             f'their deviations {None if b is None else b.shape}, mask {None if m is None else m.tolist()}'
                        took, out = attempt(lambda: gp.set_data(x, f, s, a, b, m))
                        rec.step()
                        rec.check(took == ok, lambda: nm + (': accepted although inconsistent' if took else f': refused although consistent ({out[:150]})'))
                        if not ok:
                            wrong += 1
                            continue
                        key = (i_s in (0, 1), i_m, i_t in (0, 1))
                        if key in done:
                            continue
                        done.add(key)
                        rec.state('data', case['w'], g, case['k'], n, d, key)
                        vf = 0.01 if i_s in (0, 1) else None
                        vg = 0.02 if g and (b is None or np.isnan(b).any()) else None
                        gp.set_hpara('set', 1, gp.make_hp_class(np.array([0.3]), np.full(d, 0.8), 2.3 if case['k'] == 'RatQu' else None, 1.5, vf, vg))
                        mu, sig = gp.eval_model(D.points('gen', 2, d) + 0.1)[:2]
                        rec.check(mu.shape == (2,) and sig.shape == (2,) and np.all(np.isfinite(mu)) and np.all(np.isfinite(sig)), nm + ': result not finite')
    rec.state('data', repr(case), wrong)


def run_hp(case, rec):
    d, k, g, w = case['d'], case['k'], case['g'], case['w']
    for nf in ('zero', 'pp', 'unk'):
        for ng in ('zero', 'unk') if g else ('zero',):
            c = D.Cfg(dict(k=k, w=w, g=g, d=d, n=3, nf=nf, ng=ng))
            gp = D.set_data(D.new_gp(c), c)
            q = D.points('gen', 1, d) + 0.2
            for i_t, th in enumerate([np.full(d, 0.9), np.full(d + 1, 0.9), np.full(d - 1, 0.9), np.append(np.full(d - 1, 0.9), np.nan), np.full(2 * d, 0.9), None]):
                for i_b, be in enumerate([np.array([0.2]), np.array([0.2, 0.1]), np.zeros(0)]):
                    for vk in (1.5, 1e-12, 0.0, -0.0, -1e-12, -2.0, None):
                        for al in ([2.3, None] if k == 'RatQu' else [None]):
                            for vf in (None, 0.01):
                                for vg in (None, 0.02) if g else (None,):
                                    ok = i_t == 0 and i_b == 0 and vk is not None and vk > 0 and (vf is not None) == (nf == 'unk')
                                    ok &= (not g or (vg is not None) == (ng == 'unk')) and not (k == 'RatQu' and al is None)
                                    # with known zero noise on both the noise hyperparameters are not looked at
                                    if nf == 'zero' and ng == 'zero' and (vf is not None or vg is not None):
                                        continue
                                    if vk == 1e-12 and not (nf == 'zero' and ng == 'zero'):
                                        continue                # noise 1e10 times the process variance
                                    h = gp.make_hp_class(be, th, al, vk, vf, vg)

                                    def run():
                                        gp.set_hpara('set', 1, h)
                                        return gp.eval_model(q)[:2]
                                    out = both(rec, f'hyperparameters {h} with noise {nf}, {ng}', run, ok)
                                    rec.state('hp', k, w, g, d, nf, ng, i_t, i_b, vk, al, vf, vg)
                                    if out is not None:
                                        rec.check(np.all(np.isfinite(out[0])) and np.all(np.isfinite(out[1])), 'result not finite')
    gp = GP(d, g, k, w)
    for vk, ok in [(1.0, True), (1e-30, True), (0.0, False), (-1.0, False), (-1e-30, False), (None, True)]:
        both(rec, f'set_custom_hp with process variance {vk}', lambda: gp.set_custom_hp(varK=vk), ok)


def run_eval(case, rec):
    d = case['d']
    c = D.Cfg(dict(case, lay='gen'))
    gp = D.build(c)
    scaled = c.g and (c.w.startswith('rescale') or c.w.startswith('dflt'))
    shapes = [(1, d), (2, d), (3, d), (d,), (2, d - 1), (2, d + 1), (1, 2 * d), (d + 1,), (d - 1,), (), (1, 1, d), (2, 1, d), (d + 2, d + 1), (2, 1), (1, 1), (1,)]
    for sh in dict.fromkeys(shapes):
        x = 0.13 + 0.4 * np.arange(int(np.prod(sh))).reshape(sh)
        for cg, ch, sq in itertools.product((False, True), repeat=3):
            nx = 1 if len(sh) == 1 else (sh[0] if sh else 0)
            good = len(sh) in (1, 2) and sh[-1] == d and (not sq or nx == 1)
            hess = not ch or (cg and nx == 1)
            a = dict(calc_grad=cg, calc_hess=ch, squeeze_nx=sq)
            out = both(rec, f'evaluation of shape {sh} {a}', lambda: gp.eval_model(x, **a), good and hess)
            if out is not None:
                pre = () if sq else (nx,)
                want = [pre, pre, pre + (d,) if cg else None, pre + (d,) if cg else None, pre + (d, d) if ch else None, pre + (d, d) if ch else None]
                got = [None if o is None else np.shape(o) for o in out]
                if ch and not sq:
                    want[4] = got[4] if got[4] in ((nx, d, d), (d, d)) else want[4]      # documented for one point only
                    want[5] = got[5] if got[5] in ((nx, d, d), (d, d)) else want[5]
                rec.check(got == want, f'shapes {got}, expected {want}')
            both(rec, f'evaluation of the variance, shape {sh} {a}', lambda: gp.eval_model_var(x, **a), good and not ch and not scaled)
            rec.state('eval', repr(case), sh, cg, ch, sq)


def run_mode(case, rec):
    c = D.Cfg(dict(w=case['w'], g=case['g']))
    gp = D.new_gp(c)
    h = D.hp(gp, c)
    q = D.points('gen', 2, 2)
    both(rec, 'evaluation before anything is set', lambda: gp.eval_model(q), False)
    both(rec, 'hyperparameters before data', lambda: gp.set_hpara('set', 1, h), False)
    gp = D.new_gp(c)
    D.set_data(gp, c)
    both(rec, 'evaluation without hyperparameters', lambda: gp.eval_model(q), False)
    both(rec, 'current hyperparameters before there are any', lambda: gp.set_hpara('current', 1), False)
    for m in ['foo', 'Set', '', None, 3, ['set'], True, 'set ']:
        both(rec, f'mode {m!r}', lambda: gp.set_hpara(m, 1, h), False)
    both(rec, 'mode set without hyperparameters', lambda: gp.set_hpara('set', 1), False)
    both(rec, 'mode stored before a history exists', lambda: gp.set_hpara('stored', 0), False)
    gp.init_optz_surr(3)
    for i in (-1, -3, 3, 7):
        both(rec, f'mode stored, iteration {i} of 3', lambda: gp.set_hpara('stored', i), False)
    both(rec, 'mode stored, iteration without hyperparameters', lambda: (gp.set_hpara('stored', 1), gp.eval_model(q)), False)
    # nothing consistent was prevented by the refusals
    D.set_data(gp, c)
    both(rec, 'mode set', lambda: (gp.set_hpara('set', 1, h), gp.eval_model(q)), True)
    both(rec, 'mode current, first iteration', lambda: gp.set_hpara('current', 0), False)
    both(rec, 'mode current', lambda: (gp.set_hpara('current', 1), gp.eval_model(q)), True)
    gp.store_new_para_surr(1, h, None, 10.0)
    both(rec, 'mode stored', lambda: (gp.set_hpara('stored', 1), gp.eval_model(q)), True)
    rec.state('mode', repr(case))


def run_option(case, rec):
    o, w = case['o'], case['w']
    good = dict(cond_norm=[2, 'fro'], cond_eta_set_mtd=['Kbase_eta', 'Kbase_eta_w_dim', 'dflt_eta'], lkd_optz_start_mtd=['hp_best', 'lhs'], optz_mtd=['SLSQP', 'trust-constr'])[o]
    bad = dict(cond_norm=['nuc', 1, 'Fro', np.inf], cond_eta_set_mtd=['foo', None, 'kbase_eta'], lkd_optz_start_mtd=['foo', None, 'best'], optz_mtd=['foo', None, 'slsqp'])[o]
    used = not (o == 'cond_norm' and w == 'precon') and not (o == 'cond_eta_set_mtd' and w not in ('base',))
    for v in good + (bad if used else []):
        c = D.Cfg(dict(w=w, n=3, d=2, ct=1e10))

        def run():
            gp = D.new_gp(c)
            setattr(gp, o, v)
            gp.optz_iter_max, gp.lkd_hp_best_n_eval, gp.optz_n_x0 = 2, 2, 1
            gp.init_optz_surr(2)
            D.set_data(gp, c)
            gp.set_hpara('optz', 0)
            return gp.eval_model(D.points('gen', 1, 2))[:2]
        both(rec, f'option {o} = {v!r}', run, v in good)
        rec.state('option', o, w, repr(v))


def run_scale(case, rec):
    from gpgradpy.src.base.Rescaling import Rescaling
    n, d = case['n'], case['d']
    X, f, G = D.points('gen', n, d), D.fdata(n), D.gdata(n, d, None)
    for x, okx in [(X, True), (X.ravel(), False), (X[None], False)]:
        for m, okm in [(None, True), ('set_vmin', True), ('set_vmax', True), ('foo', False), ('vmin', False)]:
            both(rec, f'rescaling of x {x.shape} by {m!r}', lambda: Rescaling(x, x_scl_method=m), okx and okm)
    R = Rescaling(X, x_scl_method='set_vmin')
    for nm, fun in [('objective', lambda: R.obj_init_2_scl(f)), ('objective back', lambda: R.obj_scl_2_init(f)), ('constraints', lambda: R.nlc_init_2_scl(np.ones((n, 2)))),
                    ('scaled objective', R.get_scl_obj_data), ('initial objective', R.get_init_obj_data), ('scaled constraints', R.get_scl_nlc_data),
                    ('initial constraints', R.get_init_nlc_data), ('box', R.get_scl_boxcon), ('linear', R.get_scl_lincon), ('initial box', R.get_init_boxcon), ('initial linear', R.get_init_lincon)]:
        both(rec, f'{nm} before it was set', fun, False)
    for sh, ok in [(None, True), (np.ones(d), True), (np.ones(d + 1), False), (np.ones((1, d)), d == 0)]:
        for v, okv in [(None, True), (np.full(d, 2.0), True), (np.full(d + 1, 2.0), False), (np.append(np.full(d - 1, 2.0), 0.0), False), (np.append(np.full(d - 1, 2.0), -1.0), False)]:
            both(rec, f'scaling of x: shift {sh}, scale {v}', lambda: R.set_xscale_data(sh, v), ok and okv)
    v = np.ones((n, 2))
    if n > 1:
        both(rec, 'constraints scaled like an objective that is not set', lambda: Rescaling(X).set_nlc_data(v, None, None, None), False)
    for y, oky in [(f, True), (np.append(f, 1.0), False), (f[:-1], False)]:
        for m, okm in [('dflt_max', True), (None, True), ('foo', False)]:
            both(rec, f'objective of size {y.size} scaled by {m!r}', lambda: R.set_obj_data(y, None, G if oky else None, None, obj_scl_method=m), oky and okm)
    R = Rescaling(X)
    R.set_obj_data(f, None, G, None)
    for y, oky in [(v, True), (np.ones((n + 1, 2)), False), (np.ones((n - 1, 2)), False), (np.ones(n), False)]:
        for a, oka in [({}, True), (dict(nlc_scl_method='obj_scl'), True), (dict(nlc_scl_method=None), True), (dict(nlc_scl_method='foo'), False)]:
            both(rec, f'constraints {y.shape} scaled by {a}', lambda: R.set_nlc_data(y, None, None, None, **a), oky and oka)
    rec.state('scale', n, d)


def run_history(case, rec):
    for g, w in [(True, 'precon'), (True, 'dflt_vmin'), (False, 'base')]:
        c = D.Cfg(dict(w=w, g=g))
        gp = D.set_data(D.new_gp(c), c)
        both(rec, 'truncation before a history exists', lambda: gp.finish_optz_surr(1), False)
        both(rec, 'export before a history exists', lambda: gp.export_data_surr(save2file=False), False)
        both(rec, 'loading before a history exists', lambda: gp.load_data_surr({}), False)
        gp.init_optz_surr(2)
        both(rec, 'storing', lambda: gp.store_new_para_surr(0, D.hp(gp, c), None, 10.0), True)
        both(rec, 'storing beyond the end', lambda: gp.store_new_para_surr(2, D.hp(gp, c), None, 10.0), False)
        both(rec, 'export', lambda: gp.export_data_surr(save2file=False), True)
        rec.state('history', g, w)


def run_case(case, rec):
    globals()['run_' + case['part']](case, rec)
    rec.sample = dict(case=case)
