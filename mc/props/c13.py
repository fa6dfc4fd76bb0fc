"""Hyperparameter histories: every short sequence of operations against a dictionary."""
import itertools
import os
import shutil
import tempfile
import numpy as np
import domain as D

BOUNDS = {
    'quick': 'abstract histories: all sequences of length <= 3 over store (3 iterations x 3 hyperparameter sets with and without optimiser information), restore, edit of the '
             'restored hyperparameters, truncation, export / save to file / file saved twice, each continued in a new session, for kernels(3) x (6 methods with '
             'gradients, gradient-free) x noise {none, unknown}; real histories: two optimised iterations with different data, restored in both '
             'orders, in the same session and after saving and loading, for the same configurations and mixed noise, 2 dimensions; pairs of surrogates with different names kept together: all sequences of up to 3 stores, '
             'every entry loaded (from memory, from a file; with and without data) by sessions with other options; long histories: 30 iterations in 1, 4 and 6 dimensions, truncated after '
             'every number of iterations, saved, loaded, continued and all restored',
    'thorough': 'length <= 4, also mixed noise; real histories in 1 to 3 dimensions',
}
ASSUMPTIONS = ['iterations are restored while the data has the noise mode they were stored with',
               'optimiser information of an iteration that is stored again without any is not compared']
CHUNK = 2
NOISE = [('zero', 'zero'), ('unk', 'zero'), ('unk', 'unk'), ('zero', 'unk')]
OPS = [f's{i}{v}' for i in range(3) for v in 'abn'] + [f'r{i}' for i in range(3)] + ['edit', 'fin2', 'mem', 'file', 'file2']
INFO = dict(hp_optz_success=0.75, hp_optz_iter_mean=11.5, hp_optz_iter_max=17.0, hp_optz_con_good=0.5, optz_n_cho_fail=2, optz_n_cond2big=3, optz_max_init_cond=4.5e7)


def cases(tier):
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for nf, ng in NOISE:
                if not g and ng != 'zero':
                    continue
                for d in (1, 2, 3) if tier == 'thorough' else (2,):
                    yield dict(kind='real', k=k, w=w, g=g, nf=nf, ng=ng, n=4, d=d, ct=1e10)
                for s1, s2 in PAIRS:
                    yield dict(kind='pair', k=k, w=w, g=g, nf=nf, ng=ng, n=3, d=2, ct=1e6, names=[s1, s2], depth=4 if tier == 'thorough' else 3)
                for d in (1, 4, 6):
                    yield dict(kind='long', k=k, w=w, g=g, nf=nf, ng=ng, n=3, d=d, ct=1e6, m=30)
                if (nf, ng) == ('zero', 'unk') or (tier == 'quick' and g and (nf, ng) == ('unk', 'zero')):
                    continue
                for op in OPS:
                    if tier == 'thorough':
                        for op2 in OPS:
                            yield dict(kind='ops', k=k, w=w, g=g, nf=nf, ng=ng, n=3, d=2, ct=1e6, first=[op, op2], depth=4)
                    else:
                        yield dict(kind='ops', k=k, w=w, g=g, nf=nf, ng=ng, n=3, d=2, ct=1e6, first=[op], depth=3)


PAIRS = [('', 'con_'), ('obj_', 'con_'), ('a', 'ab')]
OTHER = [dict(), dict(cond_max=1e3), dict(cond_max=1e14, cond_norm='fro'), dict(cond_max_target=1e3, optz_log_hp_theta=False), dict(hp_theta_range=[1e-3, 1e3])]


def weight(c):
    return dict(real=50, pair=2, long=5, ops=1)[c['kind']]


FIELDS = ['beta', 'theta', 'kernel', 'varK', 'var_fval', 'var_fgrad']


def plain(h):
    return {f: None if getattr(h, f) is None else np.array(getattr(h, f), float).ravel().copy() for f in FIELDS}


def hyper(c, v):
    i = 'abn'.index(v)
    vf, vg = c.noise_hp()
    return dict(beta=np.array([0.4 - 0.3 * i]), theta=c.theta * (1 + i) + 0.11 * i, kernel=None if c.alpha is None else c.alpha + 0.7 * i, varK=2.5 + 4 * i,
                var_fval=None if vf is None else vf * (1 + i), var_fgrad=None if vg is None else vg * (1 + 2 * i))


ARR = dict(hp_beta_all='beta', hp_theta_all='theta', hp_kernel_all='kernel', hp_varK_all='varK', hp_var_fval_all='var_fval', hp_var_fgrad_all='var_fgrad')
SCAL = dict(hp_optz_success='hp_optz_success', hp_optz_iter_mean='hp_optz_iter_mean', hp_optz_iter_max='hp_optz_iter_max', hp_optz_con_good='hp_optz_con_good',
            optz_n_cho_fail_all='optz_n_cho_fail', optz_n_cond2big_all='optz_n_cond2big', optz_max_init_cond_all='optz_max_init_cond')
NMAX = 4
_FRESH = {}
QUERY = np.array([[0.35, 0.6], [-0.4, 0.2]])


class Session:
    def __init__(self, case, rec, tmp):
        self.case, self.rec, self.tmp = case, rec, tmp
        self.c = D.Cfg(case)
        self.n = NMAX
        self.rows = {}
        self.nfile = 0
        self.gp = self.new()
        self.last = None

    def new(self):
        c = self.c
        gp = D.set_data(D.new_gp(c, path=os.path.join(self.tmp, 'h')), c)
        gp.init_optz_surr(NMAX)
        return gp

    def do(self, op):
        gp, c, rec = self.gp, self.c, self.rec
        if op[0] == 's':
            i, v = int(op[1]), op[2]
            if i >= self.n:
                return False
            h = hyper(c, v)
            j = 'abn'.index(v)
            info = None if v == 'n' else {a: b * (1 + j) for a, b in INFO.items()}
            cond = [0.995e10, 3e5, 1.7e9][j]
            t = (1.5 + j, 0.25 * (j + 1), 0.125 * (j + 2))
            gp.store_new_para_surr(i, gp.make_hp_class(**h), info, cond, *t)
            old = self.rows.get(i, {})
            row = {a: h[f] for a, f in ARR.items()}
            for a, b in SCAL.items():
                row[a] = info[b] if info is not None else ('?' if old.get(a) is not None else None)
            row.update(Kcov_cond_all=cond, Kcov_cond_at_max_all=cond >= 0.99e10, time_hp_optz_all=t[0], time_chofac_all=t[1], time_pick_hp0_all=t[2],
                       var_fval=float(np.var(D.fdata(c.n))), varK_var_fval=h['varK'] / float(np.var(D.fdata(c.n))))
            self.rows[i] = row
            self.last = ('store', i)
        elif op[0] == 'r':
            i = int(op[1])
            if i not in self.rows or i >= self.n:
                return False
            gp.set_hpara('stored', i)
            self.restored(i)
            self.last = ('restore', i)
        elif op == 'edit':
            if self.last is None or self.last[0] != 'restore':
                return False
            h = gp.hp_vals
            h.theta *= 1.9
            h.beta += 0.6
            h.varK = h.varK * 2
            self.last = None
        elif op == 'fin2':
            if self.n < 2:
                return False
            gp.finish_optz_surr(2)
            self.n = 2
            self.rows = {i: r for i, r in self.rows.items() if i < 2}
        elif op == 'mem':
            data = gp.export_data_surr(save2file=False)
            self.compare(data, 'export')
            g2 = self.new()
            g2.load_data_surr({a: np.copy(b) for a, b in data.items()})
            self.switch(g2)
        elif op in ('file', 'file2'):
            self.compare(gp.export_data_surr(), 'export with saving')
            self.nfile += 1
            if op == 'file2':
                before = self.frozen()
                i = 0
                self.do('s0b')
                gp.export_data_surr()
                self.nfile += 1
                old = dict(np.load(os.path.join(self.tmp, 'h_old.npz')))
                self.compare(old, 'previous file', before)
            self.compare(dict(np.load(os.path.join(self.tmp, 'h.npz'))), 'file')
            g2 = self.new()
            g2.load_data_surr()
            self.switch(g2)
        return True

    def frozen(self):
        return self.n, {i: dict(r) for i, r in self.rows.items()}

    def switch(self, g2):
        self.gp, self.n, self.last = g2, NMAX, None

    def restored(self, i):
        gp, rec, row = self.gp, self.rec, self.rows[i]
        got = plain(gp.hp_vals)
        for a, f in ARR.items():
            w = row[a]
            if w is None:
                rec.check(got[f] is None or np.all(np.isnan(got[f])), lambda: f'iteration {i}: {f} restored as {got[f]} although none was stored')
            else:
                rec.check(got[f] is not None and np.array_equal(got[f], np.ravel(w)), lambda: f'iteration {i}: {f} restored as {got[f]} instead of {w}')
        for nm, x, y in zip(('mean', 'deviation', 'mean gradient', 'deviation gradient'), gp.eval_model(QUERY, calc_grad=True), self.fresh(row)):
            rec.close(f'{nm} after restoring iteration {i}', x, y, rtol=1e-8)

    def fresh(self, row):
        c = self.c
        key = (c.k, c.w, c.g, c.nf, c.ng, row['hp_varK_all'])       # the three sets have different variances
        if key not in _FRESH:
            gp = D.set_data(D.new_gp(c), c)
            gp.set_hpara('set', 1, gp.make_hp_class(**{f: row[a] for a, f in ARR.items()}))
            _FRESH[key] = [np.copy(v) for v in gp.eval_model(QUERY, calc_grad=True)[:4]]
        return _FRESH[key]

    def compare(self, data, what, model=None):
        rec = self.rec
        n, rows = model or (self.n, self.rows)
        p = self.gp.surr_name
        for a in ALL:
            arr = np.asarray(data[p + a])
            if arr.shape[0] != n:
                rec.fail(f'{what}: {a} has {arr.shape[0]} iterations instead of {n}')
            for i, row in rows.items():
                w = row.get(a)
                if isinstance(w, str):
                    continue
                g = arr[i]
                if w is None:
                    ok = np.isnan(g).all()
                elif a in ('var_fval', 'varK_var_fval'):
                    ok = abs(g - w) <= 1e-12 * abs(w)
                else:
                    ok = (g == w).all()
                rec.check(ok, lambda: f'{what}: {a} of iteration {i} is {g} instead of {w}')
            if len(rows) < n:
                g = arr[[i for i in range(n) if i not in rows]]
                rec.check(not g.any() if a == 'Kcov_cond_at_max_all' else np.isnan(g).all(), lambda: f'{what}: {a} of an iteration that was never stored is {g}')


ALL = list(ARR) + list(SCAL) + ['Kcov_cond_all', 'Kcov_cond_at_max_all', 'time_hp_optz_all', 'time_chofac_all', 'time_pick_hp0_all', 'var_fval', 'varK_var_fval']


def run_ops(case, rec):
    tmp = tempfile.mkdtemp(prefix='c13_')
    try:
        f = tuple(case['first'])
        for L in range(case['depth'] - len(f) + 1):
            for rest in itertools.product(OPS, repeat=L):
                seq = f + rest
                for fn in os.listdir(tmp):
                    os.remove(os.path.join(tmp, fn))
                s = Session(case, rec, tmp)
                ok = True
                for op in seq:
                    if not s.do(op):
                        ok = False
                        break
                    rec.step()
                if not ok:
                    continue
                for i in s.rows:
                    s.gp.set_hpara('stored', i)
                    s.restored(i)
                s.compare(s.gp.export_data_surr(save2file=False), f'history after {list(seq)} and restoring')
                rec.state(case['k'], case['w'], case['g'], case['nf'], case['ng'], seq)
                rec.sample = dict(case=case, history=list(seq))
    finally:
        shutil.rmtree(tmp)


def run_real(case, rec):
    """Iterations found by the optimiser, which also changes the scaling of the data."""
    c = D.Cfg(case)
    A = c.data()
    c3 = D.Cfg(dict(case, n=3))
    B = c3.data()
    X, f, sf, g, sg = B
    B = (X * np.array([1.0, 2.5, 0.4])[:c.d], f * 3 + 1, sf, None if g is None else g * 0.7, sg)
    Q = np.array([D.queries(c, k) for k in ('gen', 'out')])
    tmp = tempfile.mkdtemp(prefix='c13_')
    try:
        def new():
            gp = D.new_gp(c, path=os.path.join(tmp, 'h'), optz_iter_max=15, lkd_hp_best_n_eval=6)
            gp.init_optz_surr(3)
            return gp

        def out(gp):
            return [np.copy(v) for v in gp.eval_model(Q, calc_grad=True)[:4]]
        gp = new()
        gp.set_data(*A)
        gp.set_hpara('optz', 0)
        h0, o0 = plain(gp.hp_vals), out(gp)
        gp.set_data(*B)
        gp.set_hpara('optz', 1)
        h1, o1 = plain(gp.hp_vals), out(gp)
        gp.export_data_surr()
        rec.step(3)
        hist = {a: np.copy(b) for a, b in gp.export_data_surr(save2file=False).items()}
        g2 = new()
        g2.load_data_surr()
        for nm, s in (('same session', gp), ('new session', g2)):
            for order in itertools.permutations((0, 1)):
                for i in order:
                    s.set_data(*(A, B)[i])
                    for rep in range(2):
                        s.set_hpara('stored', i)
                        got, want = plain(s.hp_vals), (h0, h1)[i]
                        for fl in FIELDS:
                            a, b = got[fl], want[fl]
                            rec.check((b is None and (a is None or np.all(np.isnan(a)))) or (b is not None and a is not None and np.array_equal(a, b)),
                                      lambda: f'{nm}: {fl} of iteration {i} restored as {a} instead of {b}')
                        for q, a, b in zip(('mean', 'deviation', 'mean gradient', 'deviation gradient'), out(s), (o0, o1)[i]):
                            rec.close(f'{nm}: {q} of restored iteration {i}', a, b, rtol=2e-6, atol=1e-9)
                        rec.state(repr(case), nm, order, i, rep)
                        rec.step(2)
            now = s.export_data_surr(save2file=False)
            for a, b in hist.items():
                rec.check(np.array_equal(np.asarray(now[a])[:3], b, equal_nan=True), f'{nm}: {a} changed by restoring')
        rec.sample = dict(case=case, theta=[h0['theta'].tolist(), h1['theta'].tolist()])
    finally:
        shutil.rmtree(tmp)


def run_pair(case, rec):
    """Two surrogates with different names whose histories are kept together; they are loaded by sessions with other options, before and after the data is set."""
    tmp = tempfile.mkdtemp(prefix='c13_')
    try:
        path = os.path.join(tmp, 'both.npz')

        def new(j, data=True, n=3, **opts):
            c = D.Cfg(dict(case, xm=(1.0, 40.0)[j], fm=(1.0, 7.0)[j]))
            gp = D.new_gp(c, surr_name=case['names'][j], **{a: v for a, v in opts.items() if a != 'cond_max'})
            if 'cond_max' in opts:
                gp.cond_max = opts['cond_max']
            if data:
                D.set_data(gp, c)
            gp.init_optz_surr(n)
            return c, gp

        for L in range(1, case['depth'] + 1):
            for seq in itertools.product([(j, v) for j in (0, 1) for v in 'ab'], repeat=L):
                S = [new(0), new(1)]
                count = [0, 0]
                for j, v in seq:
                    c, gp = S[j]
                    gp.store_new_para_surr(count[j], gp.make_hp_class(**hyper(c, v)), {a: b * (1 + 'ab'.index(v)) for a, b in INFO.items()},
                                           [0.995e10, 3e5]['ab'.index(v)], 1.5, 0.25, 0.125)
                    count[j] += 1
                    rec.step()
                own = [{a: np.copy(b) for a, b in gp.export_data_surr(save2file=False).items()} for _, gp in S]
                rec.check(not set(own[0]) & set(own[1]), lambda: f'the two histories share the entries {sorted(set(own[0]) & set(own[1]))[:3]}')
                both = {**own[0], **own[1]}
                np.savez(path, **both)
                num = L + sum(3 * j + (v == 'b') for j, v in seq)
                for j in (0, 1):
                    o = OTHER[(num + j) % len(OTHER)] if L > 1 else None
                    for opts in ([o] if o is not None else OTHER):
                        for data in (True, False):
                            for src in (both, dict(np.load(path))):
                                c, gp = new(j, data=data, n=4, **opts)
                                gp.load_data_surr({a: np.copy(b) for a, b in src.items()})
                                n = own[j][case['names'][j] + 'hp_theta_all'].shape[0]
                                now = gp.export_data_surr(save2file=False)
                                rec.check(set(now) == set(own[j]), 'names of the loaded entries')
                                for a, b in own[j].items():
                                    g = np.asarray(now[a])
                                    g = g[:n] if np.ndim(b) else g
                                    rec.check(np.array_equal(np.asarray(g, float), np.asarray(b, float), equal_nan=True),
                                              lambda: f'{a} loaded as {g} instead of {b} [{opts}, data {"set" if data else "not set"}, after {seq}]')
                                rec.step()
                                rec.state(case['k'], case['w'], case['g'], case['nf'], case['ng'], tuple(case['names']), seq, j, str(opts), data)
        rec.sample = dict(case=case, stored=[list(o) for o in seq])
    finally:
        shutil.rmtree(tmp)


def run_long(case, rec):
    c = D.Cfg(case)
    m = case['m']
    tmp = tempfile.mkdtemp(prefix='c13_')
    fl = os.path.join(tmp, 'h')
    try:
        def new(n):
            gp = D.set_data(D.new_gp(c, path=fl), c)
            gp.init_optz_surr(n)
            return gp

        def row(i):
            h = hyper(c, 'a')
            return dict(beta=h['beta'] + 0.1 * i, theta=h['theta'] * (1 + 0.13 * i) + 0.01 * i * np.arange(c.d), kernel=None if h['kernel'] is None else h['kernel'] + 0.05 * i,
                        varK=h['varK'] + i, var_fval=None if h['var_fval'] is None else h['var_fval'] * (1 + i), var_fgrad=None if h['var_fgrad'] is None else h['var_fgrad'] * (1 + 0.5 * i))

        def look(what, data, n, p):
            for a, f in ARR.items():
                g = np.asarray(data[p + a])
                if not rec_len(what, a, g, n):
                    continue
                for i in range(n):
                    w = rows[i].get(f) if i in rows else None
                    rec.check(np.isnan(g[i]).all() if w is None else np.array_equal(np.ravel(g[i]), np.ravel(w)), lambda: f'{what}: {a} of iteration {i} is {g[i]} instead of {w}')
            for i in range(n):
                g = np.asarray(data[p + 'optz_n_cond2big_all'])[i]
                rec.check(g == 3 + i if i in rows else np.isnan(g), lambda: f'{what}: optz_n_cond2big_all of iteration {i} is {g}')

        def rec_len(what, a, g, n):
            if g.shape[0] != n:
                rec.fail(f'{what}: {a} has {g.shape[0]} iterations instead of {n}')
            return g.shape[0] == n

        rows = {}
        gp = new(m)
        for i in [j for j in range(m) if j % 2 == 0] + [j for j in range(m) if j % 2]:     # not in order
            rows[i] = row(i)
            gp.store_new_para_surr(i, gp.make_hp_class(**{f: (v.copy() if isinstance(v, np.ndarray) else v) for f, v in rows[i].items()}), dict(INFO, optz_n_cond2big=3 + i), 100.0 + i)
            rec.step()
        look('all iterations', gp.export_data_surr(save2file=False), m, gp.surr_name)
        hist = {a: np.copy(b) for a, b in gp.export_data_surr(save2file=False).items()}
        for t in range(1, m + 1):
            for fn in os.listdir(tmp):
                os.remove(os.path.join(tmp, fn))
            rows = {i: row(i) for i in range(m)}
            g1 = new(m)
            g1.load_data_surr({a: np.copy(b) for a, b in hist.items()})
            g1.finish_optz_surr(t)
            rows = {i: rows[i] for i in range(t)}
            look(f'{t} iterations kept', g1.export_data_surr(), t, g1.surr_name)
            g2 = new(m)
            g2.load_data_surr()
            look(f'{t} iterations loaded', g2.export_data_surr(save2file=False), m, g2.surr_name)
            if t < m:
                rows[t] = row(t + 40)
                g2.store_new_para_surr(t, g2.make_hp_class(**{f: (v.copy() if isinstance(v, np.ndarray) else v) for f, v in rows[t].items()}), dict(INFO, optz_n_cond2big=3 + t), 5.0)
                look(f'{t} iterations loaded and continued', g2.export_data_surr(save2file=False), m, g2.surr_name)
            for i in (0, t // 2, t - 1, t) if t < m else range(m):
                g2.set_hpara('stored', i)
                got = plain(g2.hp_vals)
                for f, w in rows[i].items():
                    rec.check((w is None and (got[f] is None or np.isnan(got[f]).all())) or (w is not None and np.array_equal(got[f], np.ravel(w))),
                              lambda: f'{f} of iteration {i} of {t} restored as {got[f]} instead of {w}')
            rec.step(3)
            rec.state(case['k'], case['w'], case['g'], case['nf'], case['ng'], case['d'], t)
        rec.sample = dict(case=case)
    finally:
        shutil.rmtree(tmp)


def run_case(case, rec):
    if case['kind'] == 'long':
        return run_long(case, rec)
    if case['kind'] == 'pair':
        return run_pair(case, rec)
    (run_real if case['kind'] == 'real' else run_ops)(case, rec)
