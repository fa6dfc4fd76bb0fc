"""Requests for hyperparameters: what is asked for is what the surrogate is prepared with, and what is recorded."""
import itertools
import numpy as np
import domain as D
import ref

BOUNDS = dict(
    quick='initial values: kernels(3) x (6 methods with gradients, gradient-free) x noise pairs(6) x 1..4 points x number of evaluations up to '
          'which they are used {0..5} x 2 sets of initial values; requests: all sequences of 3 operations out of {3 data sets '
          'of different size, optimise iteration 0 or 1, stored 0 or 1, current, two sets of given values} after each of 2 first data sets, for '
          'kernels(3) x methods(7) x noise{none, unknown}; options: distances of the rescaling methods (5 values), default nugget (3), targets(3), '
          'iteration limits(3), each with every method it belongs to',
    thorough='sequences of 4 operations for 12 configurations; initial values in dimensions 1..3')
ASSUMPTIONS = ['an iteration restored with other data than its own: the recorded factors of the coordinates are made to give the distance the method requires',
               'an iteration is restored only if it was recorded, with data of the same noise mode',
               'the values found by the optimiser are taken as they are recorded (C14 and C24 decide which they are)',
               'compared to 1e-8 + 600 eps cond; configurations with a condition number above 1e11 are compared in their hyperparameters only']

PAIRS = [('zero', 'zero'), ('uni', 'uni'), ('pp', 'pp'), ('unk', 'zero'), ('zero', 'unk'), ('unk', 'unk')]
INIT = [dict(), dict(hp_theta_init=0.35, hp_varK_init=2.2, hp_var_fval_init=0.02, hp_var_fgrad_init=0.03)]
DATA = dict(A=dict(n=1, lay='gen', mask=None), B=dict(n=3, lay='gen', mask=None), C=dict(n=4, lay='grid', mask=[0, 1, 1, 0]))
OPS = ['A', 'B', 'C', 'o0', 'o1', 's0', 's1', 'k', 'h0', 'h1']
FIELDS = ['beta', 'theta', 'kernel', 'varK', 'var_fval', 'var_fgrad']
ARR = dict(beta='hp_beta_all', theta='hp_theta_all', kernel='hp_kernel_all', varK='hp_varK_all', var_fval='hp_var_fval_all', var_fgrad='hp_var_fgrad_all')
FAST = dict(optz_iter_max=6, lkd_hp_best_n_eval=5, optz_n_x0=2)


def configs():
    for k in D.KERNELS:
        for w, g in [(w, True) for w in D.METHODS] + [('base', False)]:
            yield k, w, g


def cases(tier):
    for k, w, g in configs():
        for nf, ng in PAIRS if g else [p for p in PAIRS if p[1] == 'zero']:
            for n in (1, 2, 3, 4):
                for ini in range(2):
                    yield dict(part='init', k=k, w=w, g=g, nf=nf, ng=ng, n=n, d=2, ini=ini)
                    if tier == 'thorough':
                        yield dict(part='init', k=k, w=w, g=g, nf=nf, ng=ng, n=n, d=1, ini=ini)
                        yield dict(part='init', k=k, w=w, g=g, nf=nf, ng=ng, n=n, d=3, ini=ini)
    for i, (k, w, g) in enumerate(configs()):
        for nf in ('zero', 'unk'):
            depth = 3 + (tier == 'thorough' and (i % 7) in (1, 2))
            for first in ('A', 'B'):
                for op in OPS:
                    yield dict(part='seq', k=k, w=w, g=g, nf=nf, ng=nf if g else 'zero', d=2, first=first, op=op, depth=depth)
    for k, w, g in configs():
        for n in (2, 3, 4):
            for d in (1, 2, 3):
                yield dict(part='opts', k=k, w=w, g=g, n=n, d=d)


def weight(c):
    return {'init': 1, 'seq': 10 ** (c.get('depth', 1) - 1), 'opts': 1}[c['part']]


CHUNK = 4


def scaled_f(c, scl):
    return scl.c * (c.f() - scl.fs)


def method(c):
    return c.w if c.g else 'base'


def default_scale(c):
    return ref.data_scaling(method(c), c.X(), c.f())


def initial(c, opts):
    o = dict(hp_theta_init=1e-2, hp_varK_init=1.0, hp_var_fval_init=0.0, hp_var_fgrad_init=0.0)
    o.update(opts)
    return dict(beta=np.array([np.mean(scaled_f(c, default_scale(c)))]), theta=np.full(c.d, o['hp_theta_init']),
                kernel=None if c.k != 'RatQu' else np.array([2.0]), varK=np.array([o['hp_varK_init']]),
                var_fval=np.array([o['hp_var_fval_init']]) if c.nf == 'unk' else None,
                var_fgrad=np.array([o['hp_var_fgrad_init']]) if c.g and c.ng == 'unk' else None)


def required(c, s):
    """Coordinate factors proportional to s that give the points at hand the distance their method requires."""
    if c.n == 1:
        return s
    Y = c.X() * s
    if method(c) == 'dflt_vmax':
        return s / ref.max_dist(Y)
    return s * (ref.vreq(c.n, c.d) if method(c) == 'rescale_origin' else 1.0) / ref.min_dist(Y)


def plain(h):
    out = {}
    for f in FIELDS:
        v = getattr(h, f)
        v = None if v is None else np.array(v, float).ravel().copy()
        out[f] = None if v is None or np.all(np.isnan(v)) else v
    return out


def same_hp(rec, what, got, want):
    for f in FIELDS:
        u, v = got[f], want[f]
        ok = (u is None and v is None) or (u is not None and v is not None and u.shape == v.shape and np.allclose(u, v, rtol=1e-12, atol=1e-14 * (1 + np.max(np.abs(v)))))
        rec.check(ok, lambda: f'{what}: {f} is {u} instead of {v}')


def model(c, h, s):
    """Reference model with hyperparameters h (in scaled units) and coordinate factors s."""
    X, f, sf, g, sg = c.data()
    scl = default_scale(c)
    if s is not None:
        scl = ref.Scaling(c.d, s, scl.xs, scl.c, scl.fs)
    Nf = float(h['var_fval'][0]) if sf is None else (sf * scl.c) ** 2
    Ng = 0.0
    if c.g:
        Ng = float(h['var_fgrad'][0]) if sg is None else (sg * scl.c / scl.s) ** 2
    alpha = None if h['kernel'] is None else float(h['kernel'][0])
    R = ref.RefGP(c.k, X, f, g, c.vmask, h['theta'], alpha, float(h['varK'][0]), float(h['beta'][0]), Nf, Ng, 0.0, method(c) == 'precon', scl)
    R.eta = ref.nugget(c.k, method(c), c.n, c.d, c.g, c.ct, c.eta, K=R.K)
    return R


def queries(c):
    X = c.X()
    return np.array([X[0], X[-1] + 0.21 * np.arange(1, c.d + 1), X.mean(axis=0) - 0.4])


def predictions(rec, what, gp, c, h, s):
    R = model(c, h, s)
    cond = np.linalg.cond(R.Kcov())
    if not cond < 1e11:
        rec.skip('condition number above 1e11')
        return
    Q = queries(c)
    mu, sig = gp.eval_model(Q)[:2]
    P = R.predict(Q)
    tol = 1e-8 + 600 * D.EPS * cond
    sc = max(1.0, np.max(np.abs(c.f())), np.max(np.abs(P['mu'])))
    rec.close(f'mean {what}', mu, P['mu'], atol=tol * sc)
    v = R.varK / R.scl.c ** 2
    rec.close(f'variance {what}', sig ** 2, np.maximum(P['var'], 0), atol=tol * v)


def records(rec, what, gp, c, store, n_max):
    """Every iteration holds what was recorded for it, the others hold nothing."""
    E = gp.export_data_surr(save2file=False)
    E = {k[len(gp.surr_name):]: np.asarray(v) for k, v in E.items()}
    for i in range(n_max):
        for f in FIELDS:
            row = np.atleast_1d(E[ARR[f]][i]).astype(float)
            want = store[i]['h'][f] if i in store else None
            if want is None:
                rec.check(np.all(np.isnan(row)), lambda: f'{what}: iteration {i} holds {f} = {row} that was never recorded')
            else:
                rec.check(np.array_equal(row, want), lambda: f'{what}: iteration {i} holds {f} = {row} instead of {want}')
        if i in store:
            for a, v in store[i]['info'].items():
                rec.close(f'{what}: {a} of iteration {i}', E[a][i], v, rtol=1e-9)
        else:
            for a in ('min_nugget_all', 'eta_Kbase_all', 'vmin_init_all', 'var_fval', 'varK_var_fval', 'Kcov_cond_all', 'time_hp_optz_all'):
                rec.check(np.all(np.isnan(E[a][i].astype(float))), lambda: f'{what}: iteration {i} holds {a} = {E[a][i]} that was never recorded')
    return E


def about(c, h, s):
    """What is recorded about an iteration besides its hyperparameters."""
    X, f = c.X(), c.f()
    R = model(c, h, s)
    out = dict(var_fval=np.var(f), vmin_init_all=ref.min_dist(X) if c.n > 1 else np.nan, eta_Kbase_all=c.n / (c.ct - 1))
    out['varK_var_fval'] = float(h['varK'][0]) / np.var(f) if np.var(f) > 0 else np.nan
    if method(c) != 'rescale_eta_vary':                 # there the nugget depends on the hyperparameters
        out['min_nugget_all'] = R.eta
        if c.g:
            out['eta_Kgrad_all'] = R.eta
    if method(c) not in ('base', 'precon'):
        out['xvec_rescaling_all'] = R.scl.s
    return out


def case_cfg(case, **over):
    return D.Cfg(dict(case, ct=1e8, lay=over.get('lay', 'gen'), **{k: v for k, v in over.items() if k != 'lay'}))


def run_init(case, rec):
    c = case_cfg(case)
    for const in range(6):
        if const == 0 and c.n == 1:
            continue                    # one value without noise determines no process variance
        opts = dict(INIT[case['ini']], **FAST)
        gp = D.new_gp(c, hp_const_n_eval=const, **opts)
        gp.init_optz_surr(3)
        D.set_data(gp, c)
        gp.set_hpara('optz', 1)
        h = plain(gp.hp_vals)
        rec.step()
        rec.state(case['k'], case['w'], case['g'], case['nf'], case['ng'], c.n, const, case['ini'])
        what = f'{c.n} points, initial values up to {const}'
        E = gp.export_data_surr(save2file=False)
        ran = not np.isnan(float(E[gp.surr_name + 'hp_optz_iter_max'][1]))
        if c.n <= const:
            same_hp(rec, what, h, initial(c, INIT[case['ini']]))
            rec.check(not ran, lambda: f'{what}: iterations of the optimiser are recorded')
            R = model(c, h, None)
            if method(c) == 'precon':
                A = R.K + np.diag(R.N / R.varK)
                P = np.sqrt(np.diag(A))
                A = A / np.outer(P, P) + R.eta * np.eye(len(A))
            else:
                A = R.Kcov()
            cond = np.linalg.cond(A)
            if cond < 1e11:
                rec.close(f'{what}: recorded condition number', E[gp.surr_name + 'Kcov_cond_all'][1], cond, rtol=1e-8 + 1e4 * D.EPS * cond)
            else:
                rec.skip('condition number above 1e11')
            s = None
        else:
            rec.check(ran, lambda: f'{what}: no iterations of the optimiser are recorded')
            s = E[gp.surr_name + 'xvec_rescaling_all'][1] if method(c) not in ('base', 'precon') else None
        records(rec, what, gp, c, {1: dict(h=h, info=about(c, h, s))}, 3)
        predictions(rec, what, gp, c, h, s)
        rec.sample = dict(case=case, const=const)


class Session:
    def __init__(self, case, rec):
        self.case, self.rec, self.store, self.h, self.log = case, rec, {}, None, []
        self.c = None
        c = case_cfg(case, **DATA[case['first']])
        self.gp = D.new_gp(c, hp_const_n_eval=1, **FAST)
        self.gp.cond_vreq_max_iter = 2
        self.gp.init_optz_surr(2)
        self.do(case['first'])

    def given(self, j):
        c = self.c
        return dict(beta=np.array([0.4 - j]), theta=np.array([0.7, 1.9, 1.1])[:c.d] * (1 + 2 * j), kernel=None if c.k != 'RatQu' else np.array([2.3 + j]),
                    varK=np.array([2.5 + j]), var_fval=np.array([0.02]) if c.nf == 'unk' else None, var_fgrad=np.array([0.03]) if c.g and c.ng == 'unk' else None)

    def do(self, op):
        gp, rec = self.gp, self.rec
        self.log.append(op)
        what = 'after ' + ' '.join(self.log)
        if op in DATA:
            self.c = case_cfg(self.case, **DATA[op])
            D.set_data(gp, self.c)
            self.s = None
            rec.step()
            return True
        c = self.c
        if op[0] == 'o':
            i = int(op[1])
            gp.set_hpara('optz', i)
            self.h = plain(gp.hp_vals)
            E = gp.export_data_surr(save2file=False)
            if method(c) not in ('base', 'precon'):
                self.s = np.array(E[gp.surr_name + 'xvec_rescaling_all'][i])
            if c.n <= 1:
                same_hp(rec, what, self.h, initial(c, {}))
                self.s = None
            self.store[i] = dict(h=self.h, info=about(c, self.h, self.s))
            if self.s is not None:
                self.store[i]['s'] = self.s
        elif op[0] == 's':
            i = int(op[1])
            if i not in self.store:
                return False
            gp.set_hpara('stored', i)
            self.h = self.store[i]['h']
            if method(c) not in ('base', 'precon'):
                self.s = required(c, self.store[i]['info']['xvec_rescaling_all'])
        elif op == 'k':
            if self.h is None:
                rec.raises('current hyperparameters that were never set', lambda: gp.set_hpara('current', 1))
                return False
            gp.set_hpara('current', 1)
        else:
            self.h = self.given(int(op[1]))
            v = {f: None if x is None else (x.copy() if f in ('beta', 'theta') else float(x[0])) for f, x in self.h.items()}
            gp.set_hpara('set', 1, gp.make_hp_class(**v))
        rec.step()
        same_hp(rec, what, plain(gp.hp_vals), self.h)
        predictions(rec, what, gp, c, self.h, self.s)
        records(rec, what, gp, c, self.store, 2)
        return True


def run_seq(case, rec):
    for rest in itertools.product(OPS, repeat=case['depth'] - 1):
        s = Session(case, rec)
        for op in (case['op'],) + rest:
            if not s.do(op):
                break
        rec.state(case['k'], case['w'], case['g'], case['nf'], tuple(s.log))
        rec.sample = dict(case=case, history=s.log)


def run_opts(case, rec):
    w = case['w']
    cfgs = []
    if w == 'dflt_vmin':
        cfgs = [dict(cond_dist_min_dflt=v) for v in (0.05, 0.5, 1, 3.7, 20.0)]
    elif w == 'dflt_vmax':
        cfgs = [dict(cond_dist_max_dflt=v) for v in (0.05, 0.5, 1, 3.7, 20.0)]
    elif w == 'rescale_eta_vary':
        cfgs = [dict(vmin_rescale_eta_vary=v) for v in (0.05, 0.5, 1, 3.7, 20.0)]
    cfgs += [dict(cond_eta_set_mtd='dflt_eta', cond_eta_dflt=v) for v in (1e-6, 1e-4, 1e-2)] if w != 'rescale_eta_vary' else []
    cfgs += [dict(ct=v) for v in (1e3, 1e6, 1e9)]
    for o in cfgs:
        opts = dict(o)
        c = D.Cfg(dict(case, ct=opts.pop('ct', 1e8), eta=opts.pop('cond_eta_set_mtd', 'Kbase_eta')))
        gp = D.new_gp(c, **opts)
        gp.set_wellcond_mtd(method(c))
        D.set_data(gp, c)
        what = f'with {o}'
        scl = default_scale(c)
        X = c.X()
        for a, fun in (('cond_dist_min_dflt', ref.min_dist), ('vmin_rescale_eta_vary', ref.min_dist), ('cond_dist_max_dflt', ref.max_dist)):
            if a in o:
                scl = ref.Scaling(c.d, np.full(c.d, o[a] / fun(X)), scl.xs, scl.c, scl.fs)
                rec.close(f'distance {what}', fun(np.asarray(gp.get_scl_x_w_dist()[0])), o[a], rtol=1e-10)
        h = dict(beta=np.array([0.4]), theta=c.theta, kernel=None if c.k != 'RatQu' else np.array([2.3]), varK=np.array([2.5]), var_fval=None, var_fgrad=None)
        gp.set_hpara('set', 1, gp.make_hp_class(beta=h['beta'], theta=c.theta, kernel=c.alpha, varK=2.5))
        R = ref.RefGP(c.k, X, c.f(), c.G(None) if c.g else None, c.vmask, c.theta, c.alpha, 2.5, 0.4, 0.0, 0.0, 0.0, method(c) == 'precon', scl)
        R.eta = ref.nugget(c.k, method(c), c.n, c.d, c.g, c.ct, c.eta, K=R.K, eta_dflt=o.get('cond_eta_dflt', 1e-8))
        cond = np.linalg.cond(R.Kcov())
        rec.step()
        rec.state(case['k'], w, case['g'], case['n'], case['d'], tuple(o.items()))
        if not cond < 1e11:
            rec.skip('condition number above 1e11')
            continue
        Q = queries(c)
        mu, sig = gp.eval_model(Q)[:2]
        P = R.predict(Q)
        tol = 1e-8 + 600 * D.EPS * cond
        rec.close(f'mean {what}', mu, P['mu'], atol=tol * max(1.0, np.max(np.abs(P['mu'])), np.max(np.abs(c.f()))))
        rec.close(f'variance {what}', sig ** 2, np.maximum(P['var'], 0), atol=tol * 2.5 / scl.c ** 2)
        rec.sample = dict(case=case, options=o)


def run_limits(case, rec):
    """The optimiser takes no more iterations than allowed."""
    for nf in ('zero', 'uni'):
        c = D.Cfg(dict(case, ct=1e8, nf=nf, ng=nf if case['g'] else 'zero'))
        for mtd in ('SLSQP', 'trust-constr'):
            for cap in (1, 2, 4):
                gp = D.new_gp(c, optz_iter_max=cap, lkd_hp_best_n_eval=5, optz_mtd=mtd)
                gp.cond_vreq_max_iter = 2
                gp.init_optz_surr(2)
                D.set_data(gp, c)
                gp.set_hpara('optz', 0)
                E = gp.export_data_surr(save2file=False)
                it = float(E[gp.surr_name + 'hp_optz_iter_max'][0])
                rec.step()
                rec.state(case['k'], case['w'], case['g'], case['n'], case['d'], nf, mtd, cap)
                rec.check(1 <= it <= cap, lambda: f'{mtd} with {nf} noise took {it} iterations although {cap} are allowed')


def run_case(case, rec):
    if case['part'] == 'opts' and case['n'] == 3:
        run_limits(case, rec)
    dict(init=run_init, seq=run_seq, opts=run_opts)[case['part']](case, rec)
