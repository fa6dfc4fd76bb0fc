"""Symmetries: relations between two executions of the real code."""
import itertools
import numpy as np
import domain as D
import ref

BOUNDS = {
    'quick': 'kernels(3) x methods(6 + gradient-free) x noise pairs(6) x masks (all of n = 3, d = 2; alternating for n = 4, d = 3; two thirds for n = 9, d = 5 and n = 13, d = 2) x '
             '{all permutations of points (6, 24), all permutations of coordinates (2, 6; of more than 4 objects the exchanges, rotations and the reversal), 6 translations, 6 affine maps of the values, '
             '6 scalings of coordinates} ; all ordered batches of up to 3 of 5 query points and 3 layouts of one point',
    'thorough': 'all noise pairs(16), 24 permutations with every mask of n = 4, length-scale regimes(3), layouts gen/grid',
}
ASSUMPTIONS = ['standard deviations below 1e-10 count as zero noise (as implemented), so the units of values stay above', 'compared to 1e-9 + 600 eps cond plus the rounding of the transformed data itself',
               'scaling a coordinate: the added multiple of the identity of the base method is not invariant by definition, only the preconditioned, '
               'gradient-free and (all coordinates together) rescaled ones are claimed']
NOISE = ['zero', 'uni', 'pp', 'unk']
GROUPS = ['perm', 'coord', 'trans', 'value', 'axis', 'batch']


def cases(tier):
    t = tier == 'thorough'
    pairs = list(itertools.product(NOISE, NOISE)) if t else [('zero', 'zero'), ('uni', 'pp'), ('pp', 'unk'), ('unk', 'zero'), ('unk', 'unk'), ('pp', 'zero')]
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for nf, ng in pairs:
                if not g and ng != 'zero':
                    continue
                for n, d in [(3, 2), (4, 3)]:
                    ms = [None]
                    if g:
                        ms = D.masks(n) if (n == 3 or t) else [None, [1, 0, 1, 0]]
                    for m in ms:
                        for lay in (['gen', 'grid'] if t else ['gen']):
                            for th in (['mod', 'aniso', 'iso'] if t else ['aniso']):
                                for grp in GROUPS:
                                    yield dict(k=k, w=w, g=g, n=n, d=d, mask=m, nf=nf, ng=ng, lay=lay, th=th, grp=grp)
                for n, d in [(9, 5), (13, 2)]:
                    for grp in GROUPS:
                        yield dict(k=k, w=w, g=g, n=n, d=d, mask=[int(i % 3 != 1) for i in range(n)] if g else None, nf=nf, ng=ng, lay='gen', th='aniso', grp=grp)
                for fm, xm in D.UNITS[1:5]:
                    for grp in GROUPS:
                        yield dict(k=k, w=w, g=g, n=3, d=2, mask=[1, 0, 1] if g else None, nf=nf, ng=ng, lay='gen', th='aniso', grp=grp, fm=fm, xm=xm)


def orders(n):
    """All orders; of many objects the exchanges of two (all for the last one), the rotations and the reversal."""
    if n <= 4:
        return list(itertools.permutations(range(n)))
    out = [list(range(n))[::-1]] + [list(range(i, n)) + list(range(i)) for i in (1, n // 2)]
    for i, j in [(i, i + 1) for i in range(0, n - 1, 2)] + [(i, n - 1) for i in range(0, n - 1, 3)]:
        p = list(range(n))
        p[i], p[j] = j, i
        out.append(p)
    return [tuple(p) for p in out]


class P:
    """A problem: data, hyperparameters and queries; transformed copies are built with `but`."""

    def __init__(self, c):
        self.X, self.f, self.sf, self.G, self.sG = c.data()
        self.mask = None if c.mask is None else np.array(c.mask, bool)
        self.vf, self.vg = c.noise_hp()
        self.th, self.al, self.varK, self.beta = c.theta, c.alpha, c.varK, c.beta
        self.Q = np.array([D.queries(c, q) for q in ('gen', 'data', 'share', 'out')])
        self.c = c

    def but(self, **kw):
        o = object.__new__(P)
        o.__dict__.update(self.__dict__)
        o.__dict__.update(kw)
        return o

    def gp(self):
        gp = D.new_gp(self.c)
        gp.set_data(self.X.copy(), self.f.copy(), None if self.sf is None else self.sf.copy(), None if self.G is None else self.G.copy(),
                    None if self.sG is None else self.sG.copy(), None if self.mask is None else self.mask.copy())
        return gp

    def run(self):
        gp = self.gp()
        h = gp.make_hp_class(np.array([self.beta]), self.th.copy(), self.al, self.varK, self.vf, self.vg)
        info, ok = gp.calc_lkd_all(h)
        gp.set_hpara('set', 1, gp.make_hp_class(np.array([self.beta]), self.th.copy(), self.al, self.varK, self.vf, self.vg))
        mu, sig, dmu, dsig, _, _ = gp.eval_model(self.Q, calc_grad=True)
        H = [gp.eval_model(q, calc_grad=True, calc_hess=True, squeeze_nx=True)[4:] for q in self.Q[:1]]
        return dict(mu=mu, var=sig ** 2, dmu=dmu, dvar=2 * sig[:, None] * dsig, d2mu=H[0][0], sig=sig, lkd=info.ln_lkd, beta=np.ravel(info.hp_beta)[0],
                    varK=info.hp_varK)


def rows(o):
    """point index of every gradient row."""
    return np.arange(len(o.X)) if o.mask is None else np.flatnonzero(o.mask)


def permute(o, p):
    p = np.array(p)
    mask = o.mask
    r = rows(o)
    order = [list(r).index(i) for i in p if i in r]
    kw = dict(X=o.X[p], f=o.f[p], sf=None if o.sf is None else o.sf[p])
    if o.G is not None:
        kw.update(G=o.G[order], sG=None if o.sG is None else o.sG[order], mask=None if mask is None else mask[p])
    return kw


def run_case(case, rec):
    c = D.Cfg(case)
    R = D.ref_model(c)
    C = R.Kcov()
    tol = 1e-9 + 600 * D.EPS * np.linalg.cond(C / np.sqrt(np.outer(np.diag(C), np.diag(C))))
    if tol > 1e-5:
        rec.skip('conditioning leaves fewer than five reliable digits')
        return
    o = P(c)
    A = o.run()
    n, d, s = c.n, c.d, R.scl.s
    resc = c.g and c.w not in ('base', 'precon')
    cf = R.scl.c
    sf = np.max(abs(R.y)) / cf + abs(R.scl.fs) + abs(c.beta) / cf
    sv = c.varK / cf ** 2
    thx = np.sqrt(np.max(2 * c.theta)) * np.max(s)      # largest slope of the kernel in user units
    n_g = 0 if o.G is None else len(o.G)
    Ntot = n + n_g * d

    def same(tag, B, mu=lambda v: v, var=1.0, lin=None, co=None, lkd=0.0, extra=0.0, skip=()):
        """B agrees with A transformed: mean mu(A), variance times var, gradients times lin with coordinates co."""
        lin = np.ones(d) if lin is None else lin
        co = list(range(d)) if co is None else co
        t = tol + extra
        lf = np.sqrt(var)
        rec.close(f'{tag}: mean', B['mu'], mu(A['mu']), rtol=t, scale=sf * lf)
        rec.close(f'{tag}: variance', B['var'], A['var'] * var, rtol=t, scale=sv * var)
        g = [lf * lin[k] * A['dmu'][:, k] for k in co]
        rec.close(f'{tag}: mean gradient', B['dmu'], np.array(g).T * np.sign(mu(1.0) - mu(0.0)), rtol=10 * t, scale=sf * lf * thx * np.max(lin))
        g = [var * lin[k] * A['dvar'][:, k] for k in co]
        rec.close(f'{tag}: variance gradient', B['dvar'], np.array(g).T, rtol=10 * t, scale=sv * var * thx * np.max(lin))
        H = A['d2mu'][np.ix_(co, co)] * np.outer(lin[co], lin[co]) * lf * np.sign(mu(1.0) - mu(0.0))
        rec.close(f'{tag}: mean Hessian', B['d2mu'], H, rtol=30 * t, scale=sf * lf * thx ** 2 * np.max(lin) ** 2)
        if 'lkd' not in skip:
            rec.close(f'{tag}: log likelihood', B['lkd'], A['lkd'] + lkd, rtol=10 * t, scale=Ntot + abs(A['lkd']) + abs(np.linalg.slogdet(C)[1]))
        rec.step()
        rec.state(case, tag)

    grp = case['grp']
    if grp == 'perm':
        for p in orders(n):
            kw = permute(o, p)
            if resc:        # values are shifted by the last point's value
                kw['beta'] = o.beta + cf * (o.f[-1] - kw['f'][-1])
            B = o.but(**kw).run()
            same(f'points reordered {p}', B)
            if c.noisy is False:
                rec.close(f'points reordered {p}: process variance', B['varK'], A['varK'], rtol=10 * tol, atol=1e-20)
    elif grp == 'coord':
        for p in orders(d):
            q = list(p)
            kw = dict(X=o.X[:, q], th=o.th[q], Q=o.Q[:, q])
            if o.G is not None:
                kw.update(G=o.G[:, q], sG=None if o.sG is None else o.sG[:, q])
            same(f'coordinates reordered {p}', o.but(**kw).run(), co=q)
    elif grp == 'trans':
        for i, t in enumerate([0.25, -3.0, 17.5, np.arange(1.0, d + 1), -40.0 * np.ones(d) + np.arange(d), 1e3]):
            T = t * np.ones(d)
            ex = 200 * D.EPS * np.max(abs(T)) * thx * np.linalg.cond(C) ** 0.5
            same(f'translation {i}', o.but(X=o.X + T, Q=o.Q + T).run(), extra=min(ex, 1e-5))
    elif grp == 'value':
        for a, b in [(2.0, 0.0), (1.0, -3.5), (0.01, 0.7), (250.0, 20.0), (-1.0, 0.0), (-3.0, 1.0)]:
            q, b = abs(a), b * c.fm
            kw = dict(f=a * o.f + b, sf=None if o.sf is None else q * o.sf)
            if o.G is not None:
                kw.update(G=a * o.G, sG=None if o.sG is None else q * o.sG)
            if resc:            # hyperparameters live in scaled units, which only change sign
                kw.update(beta=np.sign(a) * o.beta)
                lk = 0.0
            else:
                kw.update(beta=a * o.beta + b, varK=a * a * o.varK, vf=None if o.vf is None else a * a * o.vf, vg=None if o.vg is None else a * a * o.vg)
                lk = -Ntot * np.log(q)
            same(f'values times {a} plus {b}', o.but(**kw).run(), mu=lambda v: a * v + b, var=a * a, lkd=lk,
                 extra=100 * D.EPS * (abs(b) / q + sf) / sf + 1e-10)
    elif grp == 'axis':
        if c.g and not resc and c.w != 'precon':
            rec.skip('the nugget of the base method is not invariant to the units of x')
            return
        for t in ([2.0, 0.1, 30.0] + ([] if resc else [np.resize([3.0, 0.5, 1.7], d), np.resize([0.02, 1.0, 8.0], d), np.resize([1.0, 100.0, 0.3], d)])):
            t = t * np.ones(d)
            if o.vg is not None and np.ptp(t) > 0:
                continue
            kw = dict(X=o.X * t, Q=o.Q * t)
            if o.G is not None:
                kw.update(G=o.G / t, sG=None if o.sG is None else o.sG / t)
            if not resc:
                kw.update(th=o.th / t ** 2, vg=None if o.vg is None else o.vg / t[0] ** 2)
            lk = 0.0 if resc else n_g * np.sum(np.log(t))
            same(f'coordinates times {list(t)}', o.but(**kw).run(), lin=1 / t, lkd=lk)
    else:
        gp = o.gp()
        gp.set_hpara('set', 1, gp.make_hp_class(np.array([o.beta]), o.th, o.al, o.varK, o.vf, o.vg))
        Q = np.vstack([o.Q, o.X[:1]])
        one = [gp.eval_model(q[None, :], calc_grad=True)[:4] for q in Q]
        for q, (mu, sig, dmu, dsig) in zip(Q, one):
            for tag, r in [('as a vector', gp.eval_model(q, calc_grad=True)), ('collapsed', gp.eval_model(q, calc_grad=True, squeeze_nx=True)),
                           ('without gradient', gp.eval_model(q[None, :])), ('with Hessian', gp.eval_model(q, calc_grad=True, calc_hess=True))]:
                rec.close(f'mean {tag}', np.ravel(r[0]), mu, rtol=tol, scale=sf)
                rec.close(f'variance {tag}', np.ravel(r[1]) ** 2, sig ** 2, rtol=tol, scale=sv)
                if r[2] is not None:
                    rec.close(f'gradient {tag}', np.ravel(r[2]), dmu[0], rtol=tol, scale=sf * thx)
                rec.step()
        for L in (1, 2, 3):
            for idx in itertools.product(range(len(Q)), repeat=L):
                mu, sig, dmu, dsig, _, _ = gp.eval_model(Q[list(idx)], calc_grad=True)
                for j, i in enumerate(idx):
                    rec.close(f'batch {idx}: mean', mu[j], one[i][0][0], rtol=tol, scale=sf)
                    rec.close(f'batch {idx}: variance', sig[j] ** 2, one[i][1][0] ** 2, rtol=tol, scale=sv)
                    rec.close(f'batch {idx}: mean gradient', dmu[j], one[i][2][0], rtol=10 * tol, scale=sf * thx)
                    rec.close(f'batch {idx}: variance gradient', sig[j] * dsig[j], one[i][1][0] * one[i][3][0], rtol=10 * tol, scale=sv * thx)
                rec.step()
                rec.state(case, idx)
        mu, sig, dmu, dsig, _, _ = gp.eval_model(np.vstack([Q] * 40), calc_grad=True)
        for got, j, t, sc in ((mu, 0, tol, sf), (sig, 1, None, sv), (dmu, 2, 10 * tol, sf * thx), (sig[:, None] * dsig, 3, 10 * tol, sv * thx)):
            if j == 1:
                rec.close('large batch: variance', got.reshape(40, -1) ** 2, np.tile([v[1][0] ** 2 for v in one], (40, 1)), rtol=tol, scale=sc)
                continue
            w = np.array([v[j][0] * (v[1][0] if j == 3 else 1.0) for v in one])
            rec.close(f'large batch: {["mean", "", "mean gradient", "variance gradient"][j]}', got, np.concatenate([w] * 40), rtol=t, scale=sc)
    rec.sample = dict(case=case, lkd=float(A['lkd']), mean=float(A['mu'][0]))
