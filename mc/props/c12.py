"""Every short history of changes to a prepared surrogate: refused exactly when it is out of date."""
import itertools
import numpy as np
import domain as D

BOUNDS = {
    'quick': 'all histories of length <= 2 over every change of every component of every hyperparameter (in place by one unit in the last place, in place by a '
             'factor, replaced, replaced by an equal copy, undone, removed), new data (same size, other size, identical), store and restore of an iteration, '
             'changes of the arrays passed in, preparation in four ways (one of them refused because of the condition number); the three evaluators after every step; kernels(3) x (6 methods with gradients, gradient-free) x '
             'noise {none, unknown}; histories of length 1 with 6 points in 6 dimensions; also every evaluator before any preparation',
    'thorough': 'length <= 3',
}
ASSUMPTIONS = ['two hyperparameter sets are the same when all their components are bitwise equal']
CHUNK = 2
FIELDS = ['beta', 'theta', 'kernel', 'varK', 'var_fval', 'var_fgrad']


def ops(c):
    out = ['prepare', 'prepare_same', 'prepare_current', 'prepare_fail', 'data_same_size', 'data_other_size', 'data_identical', 'restore', 'undo', 'user_x', 'user_f', 'new_object']
    if c.g:
        out.append('user_g')
    vf, vg = c.noise_hp()
    have = dict(beta=1, theta=c.d, kernel=c.alpha is not None, varK=1, var_fval=vf is not None, var_fgrad=vg is not None)
    for f in FIELDS:
        if not have[f]:
            out.append(f'add:{f}')
            continue
        out += [f'equal:{f}', f'remove:{f}']
        for i in range(c.d if f == 'theta' else 1):
            out += [f'ulp:{f}:{i}', f'scale:{f}:{i}', f'replace:{f}:{i}']
    return out


def cases(tier):
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for nz in ('zero', 'unk'):
                base = dict(k=k, w=w, g=g, n=3, d=2, nf=nz, ng=nz, ct=1e6, depth=3 if tier == 'thorough' else 2)
                wide = dict(base, n=6, d=6, depth=1)
                for op in ['start'] + ops(D.Cfg(wide)):
                    yield dict(wide, first=op)
                for op in ['start'] + ops(D.Cfg(base)):
                    yield dict(base, first=op)


QS = np.array([[0.35, 0.6, 0.9, -0.3, 0.5, 1.2], [-0.4, 0.2, 0.7, 1.1, -0.6, 0.1]])


def snap(h):
    return tuple(None if getattr(h, f) is None else np.array(getattr(h, f), float).ravel().copy() for f in FIELDS)


def same(a, b):
    return all((x is None and y is None) or (x is not None and y is not None and np.array_equal(x, y, equal_nan=True)) for x, y in zip(a, b))


def other_data(c, j):
    X, f, sf, g, sg = D.Cfg(dict(c.__dict__, n=c.n + (j == 'data_other_size'))).data()
    if j == 'data_same_size':
        f = f + np.arange(f.size)
    return X, f, sf, g, sg


class Session:
    def __init__(self, case):
        self.c = c = D.Cfg(case)
        self.gp = gp = D.new_gp(c)
        gp.init_optz_surr(2)
        self.data(c.data())
        gp.store_new_para_surr(0, D.hp(gp, c), None, 7.0)
        self.hp0 = snap(D.hp(gp, c))
        gp.set_hpara('set', 1, D.hp(gp, c))
        self.prepared = self.hp0
        self.kind = 'orig'
        self.fresh = True

    def data(self, args):
        self.args = args
        self.gp.set_data(*args)
        self.fresh = False

    def do(self, op):
        gp, c = self.gp, self.c
        h = gp.hp_vals
        if op == 'prepare':
            if not self.complete():
                return False
            gp.setup_eval_model()
            self.prepared, self.fresh = snap(gp.hp_vals), True
        elif op.startswith('prepare_'):
            if not self.complete():
                return False
            if op == 'prepare_same':
                gp.set_hpara('set', 1, gp.hp_vals)
            elif op == 'prepare_current':
                gp.set_hpara('current', 1)
            else:                       # no factorisation is attempted above this limit
                limit, gp.cond_max_abs = gp.cond_max_abs, 1.0 - 1e-6
                gp.set_hpara('current', 1, calc_cond=True)
                gp.cond_max_abs = limit
            self.prepared, self.fresh = snap(gp.hp_vals), op != 'prepare_fail' or c.w == 'precon' # the preconditioned method has no such limit
        elif op.startswith('data_'):
            self.kind = {'data_identical': 'orig'}.get(op, op)
            self.data(c.data() if op == 'data_identical' else other_data(c, op))
        elif op == 'restore':
            gp.set_hp_from_idx(0)
        elif op == 'undo':
            for f, v in zip(FIELDS, self.hp0):
                setattr(h, f, None if v is None else (v.copy() if f in ('beta', 'theta') else float(v[0])))
        elif op == 'new_object':
            gp.set_custom_hp(*[None if v is None else (v.copy() if f in ('beta', 'theta') else float(v[0])) for f, v in zip(FIELDS, snap(h))])
        elif op.startswith('user_'):
            a = self.args[{'x': 0, 'f': 1, 'g': 3}[op[-1]]]
            a += 0.3 + 0.1 * np.arange(a.size).reshape(a.shape)
        else:
            what, f, i = (op.split(':') + [0])[:3]
            v = getattr(h, f)
            if what == 'add':
                setattr(h, f, 0.37)
                return True
            if v is None:
                return False
            i = int(i)
            arr = isinstance(v, np.ndarray) and v.ndim > 0
            if what == 'remove':
                setattr(h, f, None)
            elif what == 'equal':
                setattr(h, f, v.copy() if arr else float(v))
            else:
                fun = {'ulp': lambda u: np.nextafter(u, np.inf), 'scale': lambda u: u * 1.7, 'replace': lambda u: u * 0.45}[what]
                if arr:
                    if what == 'replace':
                        v = v.copy()
                    v[i] = fun(v[i])
                    setattr(h, f, v)
                else:
                    setattr(h, f, float(fun(v)))
        return True

    def complete(self):
        h, c = self.gp.hp_vals, self.c
        vf, vg = c.noise_hp()
        need = ['beta', 'theta', 'varK'] + (['kernel'] if c.alpha is not None else []) + (['var_fval'] if vf is not None else []) + (['var_fgrad'] if vg is not None else [])
        return all(getattr(h, f) is not None for f in need) and all(getattr(h, f) is None for f in FIELDS if f not in need)

    def current(self):
        return self.fresh and same(self.prepared, snap(self.gp.hp_vals))


def evaluators(gp, c):
    Q = QS[:, :c.d]
    out = [('eval_model', lambda: gp.eval_model(Q)[:2]),
           ('eval_model with gradient', lambda: gp.eval_model(Q, calc_grad=True)[:4]),
           ('eval_model with Hessian', lambda: gp.eval_model(Q[:1], calc_grad=True, calc_hess=True))]
    if not (c.g and c.w not in ('base', 'precon')):
        out.append(('eval_model_var', lambda: [v for v in gp.eval_model_var(Q, calc_grad=True) if v is not None]))
    return out


_REF = {}


def reference(case, s):
    """What a new object gives for the data handed over and the hyperparameters."""
    c = s.c
    key = (c.k, c.w, c.g, c.nf, c.n, c.d, s.kind, repr([None if v is None else v.tolist() for v in s.prepared]))
    if key not in _REF:
        gp = D.new_gp(c)
        gp.set_data(*(c.data() if s.kind == 'orig' else other_data(c, s.kind)))
        gp.set_hpara('set', 1, gp.make_hp_class(*[None if v is None else (v.copy() if f in ('beta', 'theta') else float(v[0])) for f, v in zip(FIELDS, s.prepared)]))
        _REF[key] = [[np.copy(v) for v in fun()] for _, fun in evaluators(gp, c)]
    return _REF[key]


def look(case, s, seq, rec):
    cur = s.current()
    ref = reference(case, s) if cur else None
    for j, (nm, fun) in enumerate(evaluators(s.gp, s.c)):
        if not cur:
            rec.raises(f'{nm} of an out of date surrogate after {seq}', fun)
        else:
            try:
                got = fun()
            except Exception as e:
                rec.fail(f'{nm} refused although nothing has changed, after {seq}: {type(e).__name__} {str(e)[:80]}')
            for v, u in zip(got, ref[j]):
                rec.close(f'{nm} after {seq}', v, u, rtol=1e-8)
    rec.state(case['k'], case['w'], case['g'], case['nf'], tuple(seq))


def run_case(case, rec):
    c = D.Cfg(case)
    if case['first'] == 'start':
        gp = D.new_gp(c)
        for nm, fun in evaluators(gp, c):
            rec.raises(f'{nm} of an empty surrogate', fun)
        D.set_data(gp, c)
        for nm, fun in evaluators(gp, c):
            rec.raises(f'{nm} before any hyperparameters', fun)
        gp.set_custom_hp(**{f: getattr(D.hp(gp, c), f) for f in FIELDS})
        for nm, fun in evaluators(gp, c):
            rec.raises(f'{nm} before the preparation', fun)
        gp.setup_eval_model()
        for nm, fun in evaluators(gp, c):
            fun()
        look(case, Session(case), [], rec)
        rec.step(5)
        return
    # data: the last array handed over is what counts, whatever the user does to it afterwards
    for L in range(case['depth']):
        for rest in itertools.product(ops(c), repeat=L):
            seq = [case['first'], *rest]
            s = Session(case)
            if all(s.do(op) for op in seq):
                look(case, s, seq, rec)
                rec.step(len(seq))
                rec.sample = dict(case=case, history=seq)
