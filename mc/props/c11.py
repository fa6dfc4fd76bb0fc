"""Session histories: one long-lived object against a new object after every history."""
import itertools
import numpy as np
import domain as D

BOUNDS = {
    'quick': 'all histories of length <= 3 over 18 operations (3 data sets of different size, mask and noise mode, a fourth that differs from the first in one point, with the same smallest distance; 2 hyperparameter sets; store, restore, reuse; '
             'evaluate with gradient / with Hessian / variance only; likelihood with gradient; optimiser callbacks; closed form; start selection; reports; '
             'switch of the conditioning method with new data) from a prepared object, for kernels(3) x (6 methods with gradients, gradient-free)',
    'thorough': 'length <= 4',
}
ASSUMPTIONS = ['a restored iteration is evaluated with data of the noise mode it was stored for',
               'the optimiser is not part of the alphabet: it changes the units of the hyperparameters under the rescaling methods (C13, C14)']
OPS = ['D0', 'D1', 'D2', 'D3', 'H0', 'H1', 'S', 'R', 'K', 'E', 'EH', 'EV', 'L', 'CB', 'CF', 'X', 'I', 'M']
DATA = [dict(n=3, d=2, lay='gen', mask=[1, 0, 1], nf='zero', ng='zero'), dict(n=4, d=2, lay='grid', mask=None, nf='unk', ng='pp'),
        dict(n=2, d=2, lay='gen', mask=[0, 1], nf='pp', ng='unk'),
        dict(n=3, d=2, lay='gen', mask=[1, 0, 1], nf='zero', ng='zero', moved=1)]
ALT = {'base': 'precon', 'precon': 'rescale_origin', 'rescale_origin': 'rescale_eta_vary', 'rescale_eta_vary': 'base', 'dflt_vmin': 'base', 'dflt_vmax': 'precon'}
CHUNK = 3


def cases(tier):
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for op in OPS:
                yield dict(k=k, w=w, g=g, first=op, depth=4 if tier == 'thorough' else 3)


class Cfg(D.Cfg):
    moved = 0

    def X(self):
        X = super().X()
        if self.moved:          # away from the others: the smallest distance stays the same number
            X[2] *= 1.25
        return X


def cfg(case, w, j):
    c = Cfg(dict(k=case['k'], w=w, g=case['g'], ct=1e6, **{a: b for a, b in DATA[j].items() if case['g'] or a not in ('ng', 'mask')}))
    c.moved = DATA[j].get('moved', 0)
    return c


def hyper(c, i):
    vf, vg = c.noise_hp()
    return dict(beta=np.array([0.4 - i]), theta=c.theta * np.array([1.0, 1.0]) if i == 0 else c.theta * np.array([2.3, 0.4]),
                kernel=None if c.alpha is None else c.alpha + 0.7 * i, varK=2.5 + 4 * i,
                var_fval=None if vf is None else vf * (1 + i), var_fgrad=None if vg is None else vg * (1 + 2 * i))


def fields(h):
    return {a: None if getattr(h, a) is None else np.array(getattr(h, a), float).ravel() for a in ('beta', 'theta', 'kernel', 'varK', 'var_fval', 'var_fgrad')}


Q = np.array([[0.35, 0.6], [-0.4, 0.2], [0.6, 0.3]])
_FRESH = {}


def outputs(gp):
    mu, sig, dmu, dsig, _, _ = gp.eval_model(Q, calc_grad=True)
    H = gp.eval_model(Q[0], calc_grad=True, calc_hess=True)
    return [mu, sig, dmu, dsig, H[4], H[5]]


def likelihood(gp, c, i):
    h = gp.make_hp_class(**hyper(c, i))
    if not c.noisy:
        h.varK = None
    info, ok = gp.calc_lkd_all(h, calc_cond=c.w != 'precon', calc_grad=True)
    return [info.ln_lkd, info.ln_lkd_grad] + ([info.cond, info.cond_grad] if c.w != 'precon' else [])


def fresh(case, w, j, hyp):
    key = (case['k'], case['g'], w, j, hyp)
    if key not in _FRESH:
        c = cfg(case, w, j)
        gp = D.set_data(D.new_gp(c), c)
        if hyp == 'lkd':
            _FRESH[key] = likelihood(gp, c, 1)
        else:
            gp.set_hpara('set', 1, gp.make_hp_class(**hyper(cfg(case, w, hyp[1]), hyp[0])))
            _FRESH[key] = outputs(gp)
    return _FRESH[key]


class Session:
    def __init__(self, case, rec):
        self.case, self.rec = case, rec
        self.w, self.j, self.hyp, self.ready, self.stored = case['w'], 0, None, False, None
        self.c = cfg(case, self.w, 0)
        self.gp = D.new_gp(self.c)
        self.gp.optz_n_x0 = 2
        self.gp.init_optz_surr(4)
        self.handed = []            # every array ever passed in, with a private copy
        self.data(0)
        self.do('H0')

    def data(self, j):
        self.j, self.c, self.ready = j, cfg(self.case, self.w, j), False
        X, f, sf, g, sg = self.c.data()
        args = [X, f, sf, g, sg, None if self.c.mask is None else np.array(self.c.mask, bool)]
        self.handed += [(a, None if a is None else a.copy()) for a in args]
        self.gp.set_data(*args)

    def mode(self, j):
        return (DATA[j]['nf'] == 'unk', self.case['g'] and DATA[j]['ng'] == 'unk')

    def do(self, op):
        """False: not enabled in this state."""
        gp, c = self.gp, self.c
        if op[0] == 'D':
            self.data(int(op[1]))
        elif op in ('H0', 'H1'):
            h = gp.make_hp_class(**hyper(c, int(op[1])))
            gp.set_hpara('set', 1, h)
            self.hyp, self.ready = (int(op[1]), self.j), True
        elif op == 'S':
            h = gp.make_hp_class(**hyper(cfg(self.case, self.w, self.hyp[1]), self.hyp[0]))
            gp.store_new_para_surr(0, h, None, 12.0)
            self.stored = self.hyp
        elif op == 'R':
            if self.stored is None or self.mode(self.stored[1]) != self.mode(self.j):
                return False
            gp.set_hpara('stored', 0)
            self.hyp, self.ready = self.stored, True
        elif op == 'K':
            if self.mode(self.hyp[1]) != self.mode(self.j):
                return False
            gp.set_hpara('current', 1)
            self.ready = True
        elif op in ('E', 'EH', 'EV'):
            if not self.ready:
                return False
            if op == 'EV':
                if c.g and c.w not in ('base', 'precon'):
                    return False
                gp.eval_model_var(Q, calc_grad=True)
            elif op == 'E':
                gp.eval_model(Q[:2], calc_grad=True)
            else:
                gp.eval_model(Q[1], calc_grad=True, calc_hess=True, squeeze_nx=True)
        elif op == 'L':
            likelihood(gp, c, 0)
        elif op == 'CB':
            x = np.log10(np.concatenate([np.ravel(v) for v in self.vec(1)]))
            gp.return_optz_val(x)
            gp.return_optz_grad(x)
            if c.w != 'precon':
                gp.return_cond_val(x * 0.5)
        elif op == 'CF':
            gp.optz_closed_form_hp(gp.make_hp_class(**hyper(c, 1)))
        elif op == 'X':
            gp.select_hp_optz_x0(0, gp.hp_info_optz_lkd)
        elif op == 'I':
            gp.info_surr_options(False)
            gp.info_surr_all_data(False)
        elif op == 'M':
            if not c.g:
                return False
            self.w = ALT[self.w]
            gp.set_wellcond_mtd(self.w)
            self.data(self.j)
        return True

    def vec(self, i):
        h = hyper(self.c, i)
        out = [h['theta']] + ([] if h['kernel'] is None else [h['kernel']])
        if self.c.noisy:
            out.append(h['varK'])
        return out + [h[a] for a in ('var_fval', 'var_fgrad') if h[a] is not None]

    def compare(self, seq):
        gp, rec = self.gp, self.rec
        for a, b in self.handed:
            rec.check(a is None or np.array_equal(a, b), lambda: f'data passed in was changed by {seq}')
        want = hyper(cfg(self.case, self.w, self.hyp[1]), self.hyp[0])
        got = fields(gp.hp_vals)
        for a, v in want.items():
            u = got[a]
            u = None if u is None or np.all(np.isnan(u)) else u
            rec.check((u is None and v is None) or (u is not None and v is not None and np.array_equal(u, np.ravel(v))),
                      lambda: f'hyperparameter {a} is {u} instead of {v} after {seq}')
        names = ('mean', 'deviation', 'mean gradient', 'deviation gradient', 'mean Hessian', 'deviation Hessian')
        if self.ready:
            for nm, x, y in zip(names, outputs(gp), fresh(self.case, self.w, self.j, self.hyp)):
                rec.close(f'{nm} after {seq}', x, y, rtol=1e-8)
        names = ('log likelihood', 'its gradient', 'condition number', 'its gradient')
        for nm, x, y in zip(names, likelihood(gp, self.c, 1), fresh(self.case, self.w, self.j, 'lkd')):
            rec.close(f'{nm} after {seq}', x, y, rtol=1e-8)
        if self.ready:              # evaluating the likelihood left the surrogate alone
            rec.close(f'mean after {seq} and the likelihood', gp.eval_model(Q)[0], fresh(self.case, self.w, self.j, self.hyp)[0], rtol=1e-8)


def run_case(case, rec):
    for L in range(case['depth']):
        for rest in itertools.product(OPS, repeat=L):
            seq = (case['first'],) + rest
            s = Session(case, rec)
            ok = True
            for op in seq:
                if not s.do(op):
                    ok = False
                    break
                rec.step()
            if ok:
                s.compare(list(seq))
                rec.state(case['k'], case['w'], case['g'], seq)
                rec.sample = dict(case=case, history=list(seq))
