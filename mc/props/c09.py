"""Rescaling of points, data and constraints under every bounded sequence of operations."""
import itertools
import numpy as np
import domain as D
import ref

BOUNDS = {
    'quick': 'all operation sequences of length <= 3 over 20 operations (scaling of x: 6, objective data: 3, objective scaling: 3, nonlinear constraint data: 3, '
             'their scaling: 3, box, linear constraints) on 16 configurations (n 1..4, d 1..3, shift on/off, method none/vmin/vmax, distance default/given, '
             'best point first/last/default, coincident points); every transformation and its inverse compared after each sequence',
    'thorough': 'length <= 4 on 16 configurations',
}
ASSUMPTIONS = ['a nonlinear constraint scale taken from the objective is the one in force when the constraint data was set; '
               'sequences that change the objective scaling afterwards are compared for everything else']

CFG = [dict(n=n, d=d, lay=lay, shift=s, meth=m, dist=q, best=b) for n, d, lay, s, m, q, b in [
    (3, 2, 'gen', True, None, None, None), (3, 2, 'gen', False, None, None, 0), (3, 2, 'gen', True, 'set_vmin', None, None),
    (3, 2, 'grid', True, 'set_vmin', 2.7, 0), (3, 2, 'gen', False, 'set_vmin', 0.3, None), (4, 3, 'gen', True, 'set_vmax', None, 1),
    (4, 3, 'grid', False, 'set_vmax', 5.0, None), (4, 3, 'gen', True, 'set_vmin', 3.1, 2), (2, 1, 'gen', True, 'set_vmin', 1.5, None),
    (2, 1, 'gen', True, 'set_vmax', None, 0), (1, 1, 'gen', True, 'set_vmin', 2.0, None), (1, 2, 'gen', True, None, None, None),
    (1, 3, 'gen', False, 'set_vmax', None, 0), (4, 2, 'far', True, 'set_vmin', None, None), (4, 2, 'close', True, 'set_vmin', 1.0, 3),
    (3, 3, 'dup', True, 'set_vmax', 1.0, None)]]
OPS = ['x.none', 'x.shift', 'x.scale', 'x.both', 'x.scale2', 'x.iso', 'o.full', 'o.plain', 'o.const', 'os.shift', 'os.scale', 'os.both',
       'n.full', 'n.obj', 'n.shift', 'ns.shift', 'ns.scale', 'ns.both', 'box', 'lin']


def cases(tier):
    for i in range(len(CFG)):
        for op in OPS:
            yield dict(cfg=i, first=op, depth=4 if tier == 'thorough' else 3)


def pts(c):
    if c['lay'] == 'dup':
        X = D.points('gen', c['n'], c['d'])
        X[1] = X[0]
        return X
    return D.points(c['lay'], c['n'], c['d'])


class Model:
    """The affine maps the class promises."""

    def __init__(self, c):
        self.c, self.X = c, pts(c)
        self.n, self.d = self.X.shape
        self.best = self.n - 1 if c['best'] is None else c['best']
        self.obj = self.nlc = self.box = self.lin = None
        self.nlc_unsure = False
        self.set_x(None, None)

    def set_x(self, shift, vec):
        self.xs = (self.X[self.best].copy() if self.c['shift'] else np.zeros(self.d)) if shift is None else shift
        vec = np.ones(self.d) if vec is None else vec
        Z = (self.X - self.xs) * vec
        k = 1.0
        if self.n > 1 and self.c['meth'] is not None:
            want = 1.0 if self.c['dist'] is None else self.c['dist']
            have = ref.min_dist(Z) if self.c['meth'] == 'set_vmin' else ref.max_dist(Z)
            k = want / have
        self.s = vec * k


def data(c):
    n, d = c['n'], c['d']
    f, G = D.fdata(n), D.gdata(n, d, None)
    return f, 0.1 + 0.05 * np.arange(n), G, 0.02 + 0.03 * np.arange(n * d).reshape(n, d)


def ndata(c):
    n, d = c['n'], c['d']
    v = np.array([[0.3, -1.2], [1.4, 0.6], [-0.5, 2.2], [0.9, -0.1]])[:n]
    g = np.sin(1.0 + np.arange(n * 2 * d)).reshape(n, 2, d)
    return v, 0.1 + 0.02 * np.arange(n * 2).reshape(n, 2), g, 0.05 + 0.01 * np.arange(n * 2 * d).reshape(n, 2, d)


BB = lambda d: (-1.5 - 0.3 * np.arange(d), 2.0 + 0.7 * np.arange(d))      # noqa: E731
LL = lambda d: (np.array([[1.0, -2.0, 0.5], [0.0, 1.5, 2.5]])[:, :d], np.array([-3.0, 0.5]), np.array([4.0, 9.0]))     # noqa: E731


def apply(op, S, m, c):
    d = m.d
    sh, sc, sc2 = np.array([0.4, -1.1, 2.2])[:d], np.array([0.5, 3.0, 1.7])[:d], np.array([11.0, 0.02, 0.9])[:d]
    if op.startswith('x.'):
        kw = {'none': {}, 'shift': dict(x_shift_in=sh), 'scale': dict(xvec_scale_in=sc), 'both': dict(x_shift_in=sh, xvec_scale_in=sc2),
              'scale2': dict(xvec_scale_in=sc2), 'iso': dict(xvec_scale_in=2.5 * np.ones(d))}[op[2:]]
        S.set_xscale_data(**{k: v.copy() for k, v in kw.items()})
        m.set_x(kw.get('x_shift_in'), kw.get('xvec_scale_in'))
    elif op.startswith('o.'):
        f, sf, G, sG = data(c)
        if op == 'o.full':
            S.set_obj_data(f, sf, G, sG)
            use, auto, stored = True, True, (f, sf, G, sG)
        elif op == 'o.plain':
            S.set_obj_data(f, None, None, None, use_obj_shift=False, obj_scl_method=None)
            use, auto, stored = False, False, (f, None, None, None)
        else:
            f = f * 1e-3 + 7.0
            S.set_obj_data(f, None, G, None, use_obj_shift=False)
            use, auto, stored = False, True, (f, None, G, None)
        m.obj = stored
        m.fs = f[m.best] if use else 0.0
        m.fc = 100.0 / (max(f) - min(f)) if (auto and len(f) > 1) else 1.0
        m.nlc_unsure = m.nlc_unsure or (m.nlc is not None and m.nlc_from_obj)
    elif op.startswith('os.'):
        if m.obj is None:
            return False
        kw = {'shift': dict(obj_shift=-2.5), 'scale': dict(obj_scale=0.3), 'both': dict(obj_shift=0.0, obj_scale=40.0)}[op[3:]]
        S.set_obj_scaling(**kw)
        m.fs, m.fc = kw.get('obj_shift', m.fs), kw.get('obj_scale', m.fc)
        m.nlc_unsure = m.nlc_unsure or (m.nlc is not None and m.nlc_from_obj and 'obj_scale' in kw)
    elif op.startswith('n.'):
        v, sv, g, sg = ndata(c)
        if op == 'n.obj' and m.obj is None:
            return False
        m.nlc_from_obj = False
        if op == 'n.full':
            S.set_nlc_data(v, sv, g, sg, nlc_scl_method=None)
            m.nlc, m.ns, m.nc = (v, sv, g, sg), np.zeros(2), 1.0
        elif op == 'n.obj':
            S.set_nlc_data(v, None, g, None, use_nlc_shift=True)       # scale of the objective (default)
            m.nlc, m.ns, m.nc = (v, None, g, None), v[m.best].copy(), (m.fc if m.n > 1 else 1.0)
            m.nlc_from_obj = True
        else:
            S.set_nlc_data(v, sv, None, None, use_nlc_shift=True, nlc_scl_method=None)
            m.nlc, m.ns, m.nc = (v, sv, None, None), v[m.best].copy(), 1.0
        m.nlc_unsure = False
    elif op.startswith('ns.'):
        if m.nlc is None:
            return False
        kw = {'shift': dict(nlc_shift=np.array([0.7, -0.2])), 'scale': dict(nlc_scale=6.0),
              'both': dict(nlc_shift=np.array([-1.0, 3.0]), nlc_scale=0.25)}[op[3:]]
        S.set_nlc_scaling(**kw)
        m.ns, m.nc = kw.get('nlc_shift', m.ns), kw.get('nlc_scale', m.nc)
        if 'nlc_scale' in kw:
            m.nlc_unsure = m.nlc_from_obj = False
    elif op == 'box':
        m.box = BB(d)
        S.set_boxcon(*m.box)
    elif op == 'lin':
        m.lin = LL(d)
        S.set_lincon(*m.lin)
    return True


def same(rec, name, got, want, tol=1e-12):
    if want is None:
        rec.check(got is None, f'{name}: {got} instead of None')
    else:
        rec.close(name, got, want, rtol=tol)


def mul(a, b):
    return None if a is None else a * b


def compare(S, m, c, rec):
    n, d, s, xs = m.n, m.d, m.s, m.xs
    X0 = pts(c)
    rec.check(np.array_equal(S.get_init_x(), X0), 'the original points were changed')
    Z = (X0 - xs) * s
    rec.close('scaled points', S.get_scl_x(), Z, rtol=1e-12)
    Zs, T = S.get_scl_x_w_dist()
    rec.close('scaled points with differences', Zs, Z, rtol=1e-12)
    rec.close('scaled differences', T, (Z[:, None, :] - Z[None, :, :]).transpose(2, 0, 1), rtol=1e-12)
    rec.close('scale', S.xvec_scale, s, rtol=1e-12)
    rec.close('shift', S.x_shift, xs, rtol=1e-15)
    if n > 1 and c['meth'] is not None:
        want = 1.0 if c['dist'] is None else c['dist']
        rec.close('requested distance', (ref.min_dist if c['meth'] == 'set_vmin' else ref.max_dist)(np.array(S.get_scl_x())), want, rtol=1e-10)
    Q = np.vstack([X0[0] + 0.3, X0[-1] - 1.7 * np.arange(1, d + 1)])
    q2 = S.x_init_2_scl(Q)
    rec.close('scaled queries', q2, (Q - xs) * s, rtol=1e-12)
    rec.close('point to scaled and back', S.x_scl_2_init(q2), Q, rtol=1e-11, scale=np.max(abs(Q)) + np.max(abs(xs)))
    rec.close('scaled single point', S.x_init_2_scl(Q[1]), (Q[1] - xs) * s, rtol=1e-12, scale=np.max(abs(q2)))
    rec.close('single point back', S.x_scl_2_init(q2[1]), Q[1], rtol=1e-11, scale=np.max(abs(Q)) + np.max(abs(xs)))
    rec.close('distance', S.dist_init_2_scl(1.3), 1.3 * np.mean(s), rtol=1e-12)
    rec.close('distance back', S.dist_scl_2_init(S.dist_init_2_scl(np.array([1.3, 0.2]))), np.array([1.3, 0.2]), rtol=1e-12)
    if m.obj is not None:
        f, sf, G, sG = m.obj
        for a, b, nm in zip(S.get_init_obj_data(), m.obj, ('values', 'deviations', 'gradients', 'gradient deviations')):
            same(rec, f'original {nm}', a, b, 0)
        got = S.get_scl_obj_data()
        rec.close('scaled values', got[0], (f - m.fs) * m.fc, rtol=1e-11, scale=m.fc * (np.max(abs(f)) + abs(m.fs)))
        same(rec, 'scaled deviations', got[1], mul(sf, m.fc))
        same(rec, 'scaled gradients', got[2], mul(G, m.fc / s))
        same(rec, 'scaled gradient deviations', got[3], mul(sG, m.fc / s))
        mu, sig = np.array([0.3, -2.0]), np.array([0.4, 1.5])
        g1, g2 = np.array([[1.0, -2, 3], [0.5, 4, -1]])[:, :d], np.array([[0.2, 1, -3], [2.5, -4, 1]])[:, :d]
        H1 = np.array([[2.0, -1, .5], [-1, 3, .7], [.5, .7, -4]])[:d, :d]
        H2 = 1.5 * H1 + np.eye(d)
        full = (mu, sig, g1, g2, H1, H2)
        exp = ((mu - m.fs) * m.fc, sig * m.fc, g1 * m.fc / s, g2 * m.fc / s, H1 * m.fc / np.outer(s, s), H2 * m.fc / np.outer(s, s))
        nms = ('mean', 'deviation', 'mean gradient', 'deviation gradient', 'mean Hessian', 'deviation Hessian')
        got = S.obj_init_2_scl(*full)
        for a, b, nm in zip(got, exp, nms):
            rec.close(f'{nm} to scaled', a, b, rtol=1e-12, scale=m.fc * abs(m.fs))
        for a, b, nm in zip(S.obj_scl_2_init(*got), full, nms):
            rec.close(f'{nm} to scaled and back', a, b, rtol=1e-11, scale=abs(m.fs))
        one = S.obj_scl_2_init(None, exp[1], None, exp[3], None, exp[5])
        for a, b, nm in zip(one, (None, sig, None, g2, None, H2), nms):
            same(rec, f'{nm} alone', a, b, 1e-11)
        one = S.obj_init_2_scl(mu, None, g1, None, H1, None)
        for i, (a, nm) in enumerate(zip(one, nms)):
            if i % 2:
                same(rec, f'{nm} not given', a, None)
            else:
                rec.close(f'{nm} given', a, exp[i], rtol=1e-12, scale=m.fc * abs(m.fs))
    if m.nlc is not None:
        v, sv, g, sg = m.nlc
        for a, b, nm in zip(S.get_init_nlc_data(), m.nlc, ('values', 'deviations', 'gradients', 'gradient deviations')):
            same(rec, f'original constraint {nm}', a, b, 0)
        if m.nlc_unsure:
            rec.skip('constraint scale taken from an objective scale that changed since')
        else:
            got = S.get_scl_nlc_data()
            rec.close('scaled constraint values', got[0], (v - m.ns) * m.nc, rtol=1e-12, scale=m.nc * np.max(abs(m.ns)))
            same(rec, 'scaled constraint deviations', got[1], mul(sv, m.nc))
            same(rec, 'scaled constraint gradients', got[2], mul(g, m.nc / s))
            same(rec, 'scaled constraint gradient deviations', got[3], mul(sg, m.nc / s))
            v2, s2, g2, q2 = ndata(c)
            H = np.array([[[2.0, -1, .5], [-1, 3, .7], [.5, .7, -4]], [[1.0, 2, 3], [2, -5, 1], [3, 1, .1]]])[:, :d, :d]
            full = (v2, s2, g2, q2, H, 2 * H)
            exp = ((v2 - m.ns) * m.nc, s2 * m.nc, g2 * m.nc / s, q2 * m.nc / s, H * m.nc / np.outer(s, s), 2 * H * m.nc / np.outer(s, s))
            got = S.nlc_init_2_scl(*full)
            for i, (a, b) in enumerate(zip(got, exp)):
                rec.close(f'constraint transformation {i}', a, b, rtol=1e-12, scale=m.nc * np.max(abs(m.ns)))
            for i, (a, b) in enumerate(zip(S.nlc_scl_2_init(*got), full)):
                rec.close(f'constraint transformation {i} and back', a, b, rtol=1e-11, scale=np.max(abs(m.ns)))
    if m.box is not None:
        lb, ub = m.box
        for a, b in zip(S.get_init_boxcon(), m.box):
            same(rec, 'original box', a, b, 0)
        got = S.get_scl_boxcon()
        rec.close('scaled lower bounds', got[0], (lb - xs) * s, rtol=1e-12)
        rec.close('scaled upper bounds', got[1], (ub - xs) * s, rtol=1e-12)
    if m.lin is not None:
        A, lb, ub = m.lin
        for a, b in zip(S.get_init_lincon(), m.lin):
            same(rec, 'original linear constraints', a, b, 0)
        As, ls, us = S.get_scl_lincon()
        # value of the constraint minus its bounds is the same in both coordinates, at every point
        for x in np.vstack([Q, X0]):
            z = (x - xs) * s
            sc = np.max(abs(A)) * (np.max(abs(x)) + np.max(abs(xs))) + 10
            rec.close('distance to the lower linear constraint', As @ z - ls, A @ x - lb, rtol=1e-11, scale=sc)
            rec.close('distance to the upper linear constraint', us - As @ z, ub - A @ x, rtol=1e-11, scale=sc)


def run_case(case, rec):
    from gpgradpy.src.base import Rescaling
    c = CFG[case['cfg']]
    for L in range(case['depth']):
        for rest in itertools.product(OPS, repeat=L):
            seq = (case['first'],) + rest
            X = pts(c)
            S = Rescaling(X, c['best'], c['shift'], c['meth'], c['dist'])
            m = Model(c)
            if L == 0:
                compare(S, m, c, rec)
            ok = True
            for op in seq:
                if not apply(op, S, m, c):
                    ok = False          # needs data that is not there yet: the shorter sequence covers it
                    break
                rec.step()
            if not ok:
                continue
            try:
                compare(S, m, c, rec)
            except Exception as e:
                if type(e).__name__ == 'Violation':
                    rec.fail(f'after {list(seq)}: {e}')
                raise
            rec.check(np.array_equal(X, pts(c)), lambda: f'the points passed in were changed by {list(seq)}')
            rec.state(case['cfg'], seq)
    rec.sample = dict(configuration=c, sequence=list(seq), scale=m.s, shift=m.xs)
