"""Arrays handed in are only read; their storage does not matter; surrogates do not influence each other."""
import itertools
import os
import pickle
import signal
import numpy as np
import domain as D

BOUNDS = {
    'quick': 'storage: kernels(3) x (6 methods with gradients, gradient-free) x noise pairs {none, known, value unknown, both unknown} x {4 points in 2 dimensions with and without a mask, 3 in 1, 5 in 4} x every '
             'argument (points, values, deviations, gradients, their deviations, length scales, mean coefficient, queries, process variance, kernel parameter, noise variances, optimiser vector) x every storage {column '
             'order, strided, reversed, read only, integers of 8 (data) and 64 bits, single precision, column, row}; reading: kernels x methods x noise(2) x mask(2) x all ordered pairs of 19 calls, with everything the '
             'first was given or has returned overwritten before the second; independence: all interleavings of two sessions of 5 operations (252) and of two sessions with the optimiser (20) for all pairs of the 7 '
             'methods x 3 pairs of kernels (for 5 operations every second one), in the same or another dimension, with shared arrays',
    'thorough': 'all pairs of kernels, three sessions of 3 operations (1680 interleavings)',
}
ASSUMPTIONS = ['single precision storage is compared to single precision and for data only', 'the state getters hand out the arrays of the surrogate itself; they are not overwritten',
               'the class attributes are not changed by the user']
NOISE = [('zero', 'zero'), ('pp', 'pp'), ('unk', 'zero'), ('unk', 'unk')]
SHAPES = [(4, 2, None), (4, 2, [1, 0, 1, 1]), (3, 1, None), (5, 4, None)]
KP = list(itertools.product(D.KERNELS, repeat=2))


def configs():
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            yield k, g, w


def cases(tier):
    t = tier == 'thorough'
    for k, g, w in configs():
        for nf, ng in NOISE:
            for n, d, mask in SHAPES:
                if g or (mask is None and ng == nf):
                    yield dict(part='store', k=k, g=g, w=w, nf=nf, ng=ng, n=n, d=d, mask=mask, ct=1e4)
        for nz in ('zero', 'unk'):
            for mask in (None, [1, 0, 1, 0]) if g else (None,):
                yield dict(part='read', k=k, g=g, w=w, nf=nz, ng=nz, n=4, d=2, mask=mask, ct=1e5)
    M = [(True, w) for w in D.METHODS] + [(False, 'base')]
    for i, (a, b) in enumerate(itertools.product(M, repeat=2)):
        for j, (k1, k2) in enumerate(KP):
            if t or (i + j) % 3 == 0:
                for same in (True, False):
                    s = [dict(k=k1, g=a[0], w=a[1], d=2), dict(k=k2, g=b[0], w=b[1], d=2 if same else 3)]
                    if t or (same == bool(i % 2) and (i + j) % 2):
                        yield dict(part='two', s=s, kind='plain')
                    if t or same == bool(j % 2):
                        yield dict(part='two', s=s, kind='optz')
                    if t and (i + j) % 3 == 0:
                        yield dict(part='two', s=s + [dict(k=k1, g=a[0], w=a[1], d=1)], kind='three')


def weight(c):
    return dict(store=4, read=3, two=6)[c['part']]


# whole numbers, so that every storage holds the same values
PTS = np.array([[0, 1, -1, 2], [2, -1, 1, 0], [3, 2, 0, -1], [-1, -2, 2, 1], [1, 3, -2, -2]])
FV = np.array([1, -2, 3, 0, 2])
GV = np.array([[1, 0, 2, -1], [2, -1, 0, 1], [0, 1, -2, 2], [3, -2, 1, 0], [-1, 2, 1, 1]])
SFV = np.array([1, 0, 2, 1, 1])
SGV = np.array([[1, 0, 2, 1], [2, 1, 0, 1], [0, 1, 2, 2], [1, 2, 1, 0], [1, 2, 1, 1]])
THV = np.array([1, 2, 1, 3])
QV = np.array([[1, 1, 0, 1], [0, 2, -1, 1], [2, 0, 1, -1], [3, 2, 0, -1]])


def spread(a):
    """the same numbers in every second row and third column of a larger array"""
    big = np.full(tuple(s * 2 + 1 for s in a.shape[:-1]) + (a.shape[-1] * 3 + 1,), 77.0)
    v = big[tuple(slice(0, 2 * s, 2) for s in a.shape[:-1]) + (slice(0, 3 * a.shape[-1], 3),)]
    v[...] = a
    return v


def readonly(a):
    a = a.copy()
    a.setflags(write=False)
    return a


STORE = {'column order': np.asfortranarray, 'strided': spread, 'reversed': lambda a: np.ascontiguousarray(a[::-1])[::-1], 'read only': readonly,
         'int8': lambda a: a.astype(np.int8), 'int64': lambda a: a.astype(np.int64), 'single': lambda a: a.astype(np.float32)}
EXTRA = {'column': lambda a: a[:, None].copy(), 'row': lambda a: a[None, :].copy()}
SCAL = {'int': int, 'int64': np.int64, 'float64': np.float64, '0-d array': lambda v: np.array(float(v))}


def parts(c, mask):
    m = np.ones(c['n'], bool) if mask is None else np.array(mask, bool)
    n, d = c['n'], c['d']
    A = dict(x=PTS[:n, :d], f=FV[:n], theta=THV[:d], beta=np.array([1]), q=QV[:, :d])
    if c['nf'] != 'unk':
        A['sf'] = SFV[:n] * (c['nf'] == 'pp')
    if c['g']:
        A['gr'] = GV[:n, :d][m]
        if c['ng'] != 'unk':
            A['sg'] = SGV[:n, :d][m] * (c['ng'] == 'pp')
    S = dict(varK=3)
    if c['k'] == 'RatQu':
        S['kernel'] = 2
    if c['nf'] == 'unk':
        S['var_fval'] = 1
    if c['g'] and c['ng'] == 'unk':
        S['var_fgrad'] = 2
    return {a: np.array(b, float) for a, b in A.items()}, S


def noisy(c):
    return c['nf'] != 'zero' or (c['g'] and c['ng'] != 'zero')


def outputs(c, A, S, optz):
    """Everything a user gets for these arrays."""
    cc = D.Cfg(c)
    gp = D.new_gp(cc, optz_iter_max=4, lkd_hp_best_n_eval=3)
    gp.init_optz_surr(2)
    gp.set_data(A['x'], A['f'], A.get('sf'), A.get('gr'), A.get('sg'), None if c['mask'] is None else np.array(c['mask'], bool))
    h = gp.make_hp_class(beta=A['beta'], theta=A['theta'], kernel=S.get('kernel'), varK=S['varK'], var_fval=S.get('var_fval'), var_fgrad=S.get('var_fgrad'))
    gp.set_hpara('set', 1, h)
    out = [('prediction', gp.eval_model(A['q'], calc_grad=True)[:4]), ('prediction at a point', gp.eval_model(A['q'][0], calc_grad=True, calc_hess=True))]
    if not (c['g'] and c['w'] not in ('base', 'precon')):
        out.append(('variance', [v for v in gp.eval_model_var(A['q'], calc_grad=True) if v is not None]))
    hl = gp.make_hp_class(beta=None, theta=A['theta'], kernel=S.get('kernel'), varK=S['varK'] if noisy(c) else None, var_fval=S.get('var_fval'), var_fgrad=S.get('var_fgrad'))
    info, ok = gp.calc_lkd_all(hl, calc_grad=True)
    out.append(('likelihood', [info.ln_lkd, info.ln_lkd_grad]))
    gp.store_new_para_surr(0, h)
    gp.set_hpara('stored', 0)
    out.append(('prediction of the stored iteration', gp.eval_model(A['q'])[:2]))
    ho = gp.hp_info_optz_lkd
    v = A.get('vec')
    if v is None:
        v = np.zeros(ho.n_hp)
    out.append(('objective', [gp.return_optz_val(v), gp.return_optz_grad(v)]))
    if optz:
        gp.set_hpara('optz', 1)
        out.append(('prediction of the optimised surrogate', gp.eval_model(A['q'])[:2]))
    return out, ho.n_hp


def flat(out):
    return [(nm, [np.array(v, float, copy=True) for v in vs if v is not None]) for nm, vs in out]


# all values but those of the argument whose storage is varied are no whole numbers
FRAC = dict(x=lambda v: 0.9 * v + 0.13, f=lambda v: 0.9 * v + 0.21, gr=lambda v: 0.9 * v - 0.17, sf=lambda v: 0.7 * v, sg=lambda v: 0.7 * v, theta=lambda v: 0.9 * v, beta=lambda v: 0.9 * v + 0.4,
            q=lambda v: 0.9 * v + 0.23, vec=lambda v: 0.9 * v)


def run_store(case, rec):
    W0, V0 = parts(case, case['mask'])
    _, n_hp = outputs(case, W0, V0, False)
    W0['vec'] = np.array([0.0, 1.0, 0.0, 1.0, 0.0, 1.0, 0.0, 0.0])[:n_hp]
    todo = [(a, s, f, None) for a in W0 for s, f in list(STORE.items()) + (list(EXTRA.items()) if a in ('f', 'sf') else [])
            if not (s == 'single' and a not in ('x', 'f', 'gr', 'q')) and not (s == 'int8' and a in ('vec', 'theta', 'beta'))]
    todo += [(a, s, None, f) for a in V0 for s, f in SCAL.items()]
    refs = {}
    for j, (a, s, fa, fs) in enumerate(todo):
        A0 = {b: np.ascontiguousarray(v if b == a else FRAC[b](v)) for b, v in W0.items()}
        S0 = {b: v if b == a or b == 'kernel' else 0.9 * v for b, v in V0.items()}
        if a not in refs:
            refs[a] = flat(outputs(case, A0, S0, fa is not None)[0])
        A, S = dict(A0), dict(S0)
        if fa is not None:
            A[a] = fa(A0[a])
        else:
            S[a] = fs(S0[a])
        optz = a in ('x', 'f', 'gr', 'sf', 'sg') and s in ('int64', 'strided')
        kept = {b: np.array(v, copy=True) for b, v in A.items()}
        try:
            out, _ = outputs(case, A, S, optz)
        except Exception as e:
            rec.fail(f'{a} given as {s}: {type(e).__name__} {str(e)[:90]}')
            continue
        for (nm, got), (_, want) in zip(flat(out), refs[a]):
            for u, v in zip(got, want):
                rec.check(u.size == v.size, lambda: f'{nm} with {a} given as {s}: {u.size} numbers instead of {v.size}')
                if s == 'single':
                    rec.close(f'{nm} with {a} given as {s}', u.ravel(), v.ravel(), rtol=2e-2, atol=1e-3)
                elif nm != 'prediction of the optimised surrogate' or fa is None:
                    rec.close(f'{nm} with {a} given as {s}', u.ravel(), v.ravel(), rtol=1e-7, atol=1e-9)
                else:
                    rec.close(f'{nm} with {a} given as {s}', u.ravel(), v.ravel(), rtol=1e-4, atol=1e-5)
        for b, v in A.items():
            rec.check(np.array_equal(v, kept[b]), lambda: f'{b} was changed from {kept[b].tolist()} to {v.tolist()}')
        rec.step()
        rec.state(repr(case), a, s)
    rec.sample = dict(case=case, argument=a, storage=s)


# ------------------------------------------------------------------ only read
class Calls:
    """Public calls with the arrays they are given."""

    def __init__(self, case):
        self.case, self.c = case, D.Cfg(case)
        c = self.c
        self.gp = gp = D.new_gp(c, lkd_hp_best_n_eval=3, optz_iter_max=3)
        gp.init_optz_surr(3)
        self.handed = list(self.args('set_data'))
        gp.set_data(*self.handed)
        self.h = D.hp(gp, c)
        gp.set_hpara('set', 1, D.hp(gp, c))
        self.n_hp = gp.hp_info_optz_lkd.n_hp
        self.useK = gp.wellcond_mtd != 'precon'
        self.names = ['eval', 'eval_grad', 'eval_hess', 'lkd', 'lkd_cond', 'closed', 'obj', 'obj_grad', 'x2scl', 'x2init', 'data2scl', 'data2init', 'rtensor', 'kern', 'kern_th', 'x0', 'vec2hp', 'export']
        if not (c.g and c.w not in ('base', 'precon')):
            self.names.append('var')
        if self.useK:
            self.names += ['cond', 'cond_grad']

    def args(self, nm):
        c = self.c
        X, f, sf, g, sg = c.data()
        Q = np.array([[0.35, 0.6], [-0.4, 0.2], [0.6, 0.3]])
        if nm == 'set_data':
            return [X, f, sf, g, sg, None if c.mask is None else np.array(c.mask, bool)]
        if nm in ('eval', 'eval_grad', 'var', 'x2scl', 'x2init'):
            return [Q]
        if nm == 'eval_hess':
            return [Q[0].copy()]
        if nm in ('lkd', 'lkd_cond', 'closed'):
            return [c.theta]
        if nm in ('obj', 'obj_grad', 'cond', 'cond_grad', 'vec2hp'):
            return [np.array([0.2, -0.3, 0.4, 0.1, -0.5, -0.6])[:self.n_hp]]
        if nm in ('data2scl', 'data2init'):
            return [np.array([0.3, -1.2]), np.array([0.5, 0.1]), np.array([[0.4, 0.7], [1.1, -0.2]]), np.array([[0.2, 0.3], [0.6, 0.9]])]
        if nm == 'rtensor':
            return [Q, Q * 1.3]
        if nm in ('kern', 'kern_th'):
            P = Q.T[:, :, None] - Q.T[:, None, :]
            return [np.ascontiguousarray(P), c.theta]
        return []

    def hp(self, th):
        c = self.c
        vf, vg = c.noise_hp()
        return self.gp.make_hp_class(None, th, c.alpha, c.varK if c.noisy else None, vf, vg)

    def call(self, nm, a):
        gp, c = self.gp, self.c
        if nm == 'eval':
            return list(gp.eval_model(a[0])[:2])
        if nm == 'eval_grad':
            return list(gp.eval_model(a[0], calc_grad=True)[:4])
        if nm == 'eval_hess':
            return list(gp.eval_model(a[0], calc_grad=True, calc_hess=True))
        if nm == 'var':
            return [v for v in gp.eval_model_var(a[0], calc_grad=True) if v is not None]
        if nm in ('lkd', 'lkd_cond'):
            i, ok = gp.calc_lkd_all(self.hp(a[0]), calc_grad=True, **(dict(calc_cond=True) if nm == 'lkd_cond' and self.useK else {}))
            return [i.ln_lkd, i.ln_lkd_grad, i.hp_beta, i.hp_varK, i.cond, i.cond_grad]
        if nm == 'closed':
            h = gp.optz_closed_form_hp(self.hp(a[0]))
            h = h if hasattr(h, 'theta') else None
            return [] if h is None else [np.array(h.beta), np.array(h.varK, float)]
        if nm in ('obj', 'obj_grad', 'cond', 'cond_grad'):
            return [{'obj': gp.return_optz_val, 'obj_grad': gp.return_optz_grad, 'cond': gp.return_cond_val, 'cond_grad': gp.return_cond_grad}[nm](a[0])]
        if nm == 'vec2hp':
            h = gp.hp_vec2dataclass(gp.hp_info_optz_lkd, a[0])
            return [h.theta, h.varK, h.var_fval, h.var_fgrad]
        if nm == 'x2scl':
            return [] if not gp.b_use_data_scl else [gp.x_init_2_scl(a[0])]
        if nm == 'x2init':
            return [] if not gp.b_use_data_scl else [gp.x_scl_2_init(a[0])]
        if nm == 'data2scl':
            return [] if not gp.b_use_data_scl else list(gp.data_init_2_scl(*a)[:4])
        if nm == 'data2init':
            return [] if not gp.b_use_data_scl else list(gp.data_scl_2_init(*a)[:4])
        if nm == 'rtensor':
            return [gp.calc_Rtensor(a[0], a[1])]
        if nm == 'kern':
            return [gp.calc_KernBase(a[0], a[1], c.alpha), gp.calc_KernGrad(a[0], a[1], c.alpha)]
        if nm == 'kern_th':
            return [gp.calc_KernBase_grad_th(a[0], a[1], c.alpha), gp.calc_KernGrad_grad_th(a[0], a[1], c.alpha)]
        if nm == 'x0':
            x0, b = gp.get_hp_x0_lhs_median(0, gp.hp_info_optz_lkd, 3)[:2]
            return [x0, b.lb, b.ub]
        if nm == 'export':
            return [np.copy(gp.export_data_surr(save2file=False)[gp.surr_name + 'hp_theta_all'])]
        raise KeyError(nm)


def arrays(vs):
    return [v for v in vs if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.flags.writeable]


def run_read(case, rec):
    S = Calls(case)
    want = {}
    for nm in S.names:
        want[nm] = [None if v is None else np.array(v, float, copy=True) for v in S.call(nm, S.args(nm))]
    first = S.args('set_data')
    for a, b in zip(S.handed, first):
        rec.check((a is None and b is None) or np.array_equal(a, b), 'set_data changed an array it was given')
    for a in arrays(S.handed):
        a *= -3.0
        a += 5.0
    if S.handed[5] is not None:
        S.handed[5][:] = ~S.handed[5]
    for nm in S.names:
        for again in S.names:
            args = S.args(nm)
            out = S.call(nm, args)
            for a, b in zip(args, S.args(nm)):
                rec.check(np.array_equal(a, b), lambda: f'{nm} changed the array {b.tolist()} it was given to {a.tolist()}')
            for a in arrays(args) + arrays(out):
                a *= -2.5
                a += 11.0
            got = S.call(again, S.args(again))
            for u, v in zip(got, want[again]):
                if v is None:
                    rec.check(u is None, f'{again} after {nm}: a result that was not there before')
                else:
                    rec.close(f'{again} after {nm}, whose arguments and results were overwritten', np.asarray(u, float), v, rtol=1e-9, atol=1e-11)
            rec.step(2)
            rec.state(repr(case), nm, again)
    rec.sample = dict(case=case)


# ------------------------------------------------------------------ independence
def shared():
    """arrays that all sessions are given"""
    return dict(x=D.points('gen', 4, 3), f=D.fdata(4), g=D.gdata(4, 3, None), q=D.points('gen', 8, 3)[5:] * 0.7 + 0.1, th=np.array([0.7, 1.9, 1.1]))


class Session:
    def __init__(self, spec, kind, sh, j):
        self.s, self.kind, self.sh, self.j, self.gp = spec, kind, sh, j, None
        self.pos, self.out = 0, []
        self.c = D.Cfg(dict(spec, n=4, ct=(1e6, 1e4, 1e5)[j]))

    OPS = dict(plain=['new', 'prepare', 'eval', 'lkd', 'other'], optz=['new', 'optz', 'restored'], three=['new', 'prepare', 'lkd'])

    def data(self, n, factor):
        c, sh = self.c, self.sh
        d = c.d
        f = sh['f'][:n] * factor
        z = np.zeros(n)
        if self.j == 1:
            z = None
        self.gp.set_data(sh['x'][:n, :d], f, z, sh['g'][:n, :d] if c.g else None, np.zeros((n, d)) if c.g and self.j != 2 else None)

    def hp(self, i):
        c = self.c
        return self.gp.make_hp_class(beta=np.array([0.4 - i]), theta=self.sh['th'][:c.d] * (1 + i) if i else self.sh['th'][:c.d], kernel=c.alpha, varK=2.5 + i,
                                     var_fval=0.02 if self.j == 1 else None, var_fgrad=0.03 if self.j == 2 and c.g else None)

    def evaluate(self):
        gp, q = self.gp, self.sh['q'][:, :self.c.d]
        return [np.copy(v) for v in gp.eval_model(q, calc_grad=True)[:4]] + [np.copy(v) for v in gp.eval_model(q[0], calc_grad=True, calc_hess=True)]

    def step(self):
        op = self.OPS[self.kind][self.pos]
        self.pos += 1
        gp = self.gp
        o = None
        if op == 'new':
            self.gp = D.new_gp(self.c, optz_iter_max=3, lkd_hp_best_n_eval=3)
            self.gp.init_optz_surr(2)
            o = [float(v) for v in (self.gp.cond_max_target, self.gp.cond_eta_is_const, self.gp.hp_theta_range[0], self.gp.hp_theta_range[1])]
        elif op == 'prepare':
            self.data(4, 1.0)
            gp.set_hpara('set', 1, self.hp(0))
        elif op == 'eval':
            o = self.evaluate()
        elif op == 'lkd':
            h = self.hp(1)
            if self.j == 0 or (self.j == 2 and not self.c.g):
                h.varK = None
            h.beta = None
            i, ok = gp.calc_lkd_all(h, calc_grad=True)
            v = np.full(gp.hp_info_optz_lkd.n_hp, 0.2)
            o = [i.ln_lkd, np.copy(i.ln_lkd_grad), gp.return_optz_val(v), np.copy(gp.return_optz_grad(v))] + self.evaluate()
        elif op == 'other':
            self.data(3, 2.0)
            gp.set_hpara('set', 1, self.hp(1))
            o = self.evaluate()
        elif op == 'optz':
            self.data(4, 1.0)
            gp.set_hpara('optz', 0)
            o = [np.copy(gp.hp_vals.theta)] + self.evaluate()
        elif op == 'restored':
            gp.set_hpara('stored', 0)
            o = self.evaluate() + [np.copy(gp.hp_theta_all)]
        self.out.append((op, o))


def interleavings(counts):
    if not any(counts):
        yield ()
        return
    for j, m in enumerate(counts):
        if m:
            rest = list(counts)
            rest[j] -= 1
            for r in interleavings(rest):
                yield (j,) + r


def run_alone(s, kind, j):
    S = Session(s, kind, shared(), j)
    for _ in Session.OPS[kind]:
        S.step()
    return S.out


class Fresh:
    """Runs a function in a process in which no surrogate has been made before: a helper, split off before this process made any, splits off a child for each call."""

    def __init__(self):
        self.pid = os.getpid()
        r1, self.w = os.pipe()
        self.r, w2 = os.pipe()
        if os.fork() == 0:
            try:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                os.close(self.w)
                os.close(self.r)
                with os.fdopen(r1, 'rb') as f:
                    while True:
                        args = pickle.load(f)
                        if os.fork() == 0:
                            signal.alarm(100)
                            try:
                                out = run_alone(*args)
                            except BaseException:
                                out = None
                            data = pickle.dumps(out)
                            with os.fdopen(w2, 'wb') as g:
                                g.write(len(data).to_bytes(8, 'little') + data)
                            os._exit(0)
                        if os.wait()[1]:
                            data = pickle.dumps(None)
                            os.write(w2, len(data).to_bytes(8, 'little') + data)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)

    def __call__(self, *args):
        os.write(self.w, pickle.dumps(args))
        with os.fdopen(os.dup(self.r), 'rb') as f:
            out = pickle.loads(f.read(int.from_bytes(f.read(8), 'little')))
        return run_alone(*args) if out is None else out  # the failure is seen here again


FRESH = None


def run_two(case, rec):
    kind = case['kind']
    L = len(Session.OPS[kind])
    alone = [FRESH(s, kind, j) for j, s in enumerate(case['s'])]
    pure = shared()
    for order in interleavings([L] * len(case['s'])):
        sh = shared()
        S = [Session(s, kind, sh, j) for j, s in enumerate(case['s'])]
        for j in order:
            S[j].step()
            op, o = S[j].out[-1]
            want = alone[j][S[j].pos - 1][1]
            for u, v in zip(o or [], want or []):
                rec.close(f'{op} of surrogate {j} in the interleaving {order}', u, v, rtol=1e-8 if kind != 'optz' else 1e-6, atol=1e-10)
            rec.step()
        for a, b in sh.items():
            rec.check(np.array_equal(b, pure[a]), lambda: f'the shared array {a} was changed in the interleaving {order}')
        rec.state(repr(case), order)
    rec.sample = dict(case=case, interleaving=list(order))


def run_case(case, rec):
    global FRESH
    if FRESH is None or FRESH.pid != os.getpid():
        FRESH = Fresh()
    dict(store=run_store, read=run_read, two=run_two)[case['part']](case, rec)
