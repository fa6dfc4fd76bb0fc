"""Small utilities against their definitions, on every small point set."""
import contextlib
import io
import itertools
import math
import numpy as np

JIT = True
BOUNDS = {
    'quick': 'distances: every ordered tuple of 1..5 points of a 1-D, 1..4 of a 2-D (9 points), 1..4 of a 3-D (8) and 1..3 of a 4-D (16) lattice, 4 placements (unit, small and far from the origin, '
             'anisotropic, tiny); tensor: every pair of tuples of up to 3 and 3 points in 1 to 5 dimensions, 3 memory layouts, exponents 1, 2, 3, wrong dimensions; data vector: 1..5 values, 0..5 gradients, '
             '1..5 dimensions, 3 memory layouts; finite differences: 1..4 dimensions, 1..3 functions of degree 0..3, 5 points, 3 steps, both formulas, all forms of input',
    'thorough': 'one more point in each lattice',
}
ASSUMPTIONS = ['the smallest and largest distance of a single point are not a number', 'finite differences are compared exactly, with steps and values for which the arithmetic is exact']
LAT = {1: [[-1.0], [0.0], [1.0], [2.5]], 2: [list(p) for p in itertools.product((0.0, 1.0, 3.0), repeat=2)],
       3: [list(p) for p in itertools.product((0.0, 1.0), repeat=3)], 4: [list(p) for p in itertools.product((0.0, 0.5), repeat=4)],
       5: [[0.0] * 5, [1.0, -2.0, 0.5, 3.0, -0.25], [1.0, 0.0, 0.5, 0.0, -0.25], [-4.0, 2.0, 1.5, -3.0, 0.75]]}
NPTS = {1: 5, 2: 4, 3: 4, 4: 3, 5: 3}
PLACE = {'unit': (1.0, 0.0), 'far': (2.0 ** -10, 2.0 ** 20), 'aniso': ([1.0, 1e-4, 1e5, 3.0, 1e-2], -7.0), 'tiny': (1e-9, 1e-3)}
CHUNK = 4


def cases(tier):
    extra = 1 if tier == 'thorough' else 0
    for d in LAT:
        for pl in PLACE:
            for first in range(len(LAT[d])):
                yield dict(part='dist', d=d, place=pl, first=first, n=NPTS[d] + extra)
        for i in range(len(LAT[d])):
            yield dict(part='tensor', d=d, first=i, n=3 if d in (1, 5) else 2)
    for d in range(1, 6):
        for n in range(1, 6 + extra):
            yield dict(part='vec', d=d, n=n)
    for d in range(1, 5):
        for nf in (1, 2, 3):
            yield dict(part='fd', d=d, nf=nf)


def weight(c):
    return len(LAT.get(c['d'], [1])) ** c.get('n', 1)


def placed(d, place):
    s, o = PLACE[place]
    return np.array(LAT[d]) * np.array(s if np.ndim(s) == 0 else s[:d]) + o


def dist(case, rec):
    from gpgradpy.src.base.CommonFun import CommonFun as F
    P = placed(case['d'], case['place'])
    m = len(P)
    dd = np.array([[math.dist(P[i], P[j]) for j in range(m)] for i in range(m)])
    for n in range(1, case['n'] + 1):
        for rest in itertools.product(range(m), repeat=n - 1):
            idx = [case['first'], *rest]
            X = P[idx]
            keep = X.copy()
            lo, hi = F.calc_dist_min(X), F.calc_dist_max(X)
            if n == 1:
                rec.check(np.isnan(lo) and np.isnan(hi), f'distances of a single point: {lo}, {hi}')
            else:
                pairs = [dd[i, j] for i, j in itertools.combinations(idx, 2)]
                for nm, g, w in (('smallest', lo, min(pairs)), ('largest', hi, max(pairs))):
                    rec.check(np.ndim(g) == 0 and abs(g - w) <= 1e-12 * w, lambda: f'{nm} distance of {X.tolist()}: {g}, is {w}')
            rec.check(np.array_equal(X, keep), 'the points were changed')
            rec.state(case['d'], case['place'], tuple(idx))
            rec.step(2)
    Xf = np.asfortranarray(P)
    rec.check(F.calc_dist_min(Xf) == F.calc_dist_min(P) and F.calc_dist_max(Xf) == F.calc_dist_max(P), 'distances depend on the memory layout')
    rec.sample = dict(case=case, points=P[idx], smallest=float(lo), largest=float(hi))


def tensor(case, rec):
    from gpgradpy.src.base.CommonFun import CommonFun as F
    d, nmax = case['d'], case['n']
    P = np.array(LAT[d])
    m = min(len(P), 9)
    for n1 in range(1, nmax + 1):
        for rest in itertools.product(range(m), repeat=n1 - 1):
            X = P[[case['first'], *rest]]
            for n2 in range(1, (3 if d == 5 else 2) + 1):
                for jdx in itertools.product(range(m), repeat=n2):
                    Y = P[list(jdx)] + 0.125
                    want = X.T[:, :, None] - Y.T[:, None, :]
                    got = F.calc_Rtensor(X, Y, 1)
                    rec.compared += want.size
                    if got.shape != want.shape or not np.array_equal(got, want):
                        rec.fail(f'tensor of {X.tolist()} and {Y.tolist()}: {got.tolist()}')
                    rec.step()
            rec.state('tensor', d, case['first'], rest)
            got = F.calc_Rtensor(X, X, 1)
            rec.check(np.array_equal(got, -np.swapaxes(got, 1, 2)), 'tensor of a set with itself is not antisymmetric')
    Y = P[:2] + 0.125
    want = X.T[:, :, None] - Y.T[:, None, :]
    rec.close('default exponent', F.calc_Rtensor(X, Y), want, rtol=0, atol=0)
    for e in (2, 3):
        rec.close(f'tensor with exponent {e}', F.calc_Rtensor(X, Y, e), want ** e, rtol=1e-14, atol=0)
    big = np.zeros((2 * len(X), 2 * d))
    big[::2, ::2] = X
    for nm, A in (('column order', np.asfortranarray(X)), ('strided view', big[::2, ::2]), ('reversed view', X[::-1][::-1])):
        rec.close('tensor, ' + nm, F.calc_Rtensor(A, Y, 1), want, rtol=0, atol=0)
        rec.close('tensor, second argument in ' + nm, F.calc_Rtensor(Y, A, 1), -np.swapaxes(want, 1, 2), rtol=0, atol=0)
    for wrong in {d - 1, d + 1, 1} - {0, d}:
        rec.raises(f'{wrong} and {d} dimensions', lambda: F.calc_Rtensor(X, np.ones((2, wrong)), 1))
        rec.raises(f'{d} and {wrong} dimensions', lambda: F.calc_Rtensor(np.ones((2, wrong)), X, 1))


def vec(case, rec):
    from gpgradpy.src.base.CommonFun import CommonFun as F
    d, n = case['d'], case['n']
    f = 100.0 + np.arange(n)
    rec.close('values only', F.make_data_vec(f), f, rtol=0, atol=0)
    rec.close('values only, by name', F.make_data_vec(f, None), f, rtol=0, atol=0)
    rec.close('values in a strided view', F.make_data_vec(np.repeat(f, 2)[::2]), f, rtol=0, atol=0)
    for ng in range(0, n + 1):
        G = np.array([[10.0 * i + j + 0.5 for j in range(d)] for i in range(ng)]).reshape(ng, d)
        want = np.array(list(f) + [G[i, j] for j in range(d) for i in range(ng)])
        big = np.zeros((2 * ng, 3 * d))
        big[::2, ::3] = G
        for nm, A in (('row order', G), ('column order', np.asfortranarray(G)), ('strided view', big[::2, ::3]), ('transposed', np.ascontiguousarray(G.T).T)):
            keep = A.copy()
            rec.close(f'values and gradients in {nm}', F.make_data_vec(f, A), want, rtol=0, atol=0)
            rec.check(np.array_equal(A, keep), 'the gradients were changed')
            rec.state('vec', n, ng, d, nm)
            rec.step()


def fd(case, rec):
    from gpgradpy.src.base.CommonFun import CommonFun as F
    d, nf = case['d'], case['nf']
    pts = [np.zeros(d), np.ones(d), np.arange(d) * 0.5 - 1, -2.0 * np.ones(d), np.array([(-1.0) ** i * (i + 1) for i in range(d)])]
    A = np.array([[1.0 + i + 2 * k for i in range(d)] for k in range(nf)])
    for deg in range(4):
        def val(x, k):
            return sum(A[k, i] * x[i] ** deg for i in range(d)) + (x[0] * x[-1] if deg > 1 else 0.0)

        def slope(x, k, i):          # exact derivative
            return A[k, i] * deg * x[i] ** max(deg - 1, 0) + ((x[-1] if i == 0 else 0.0) + (x[0] if i == d - 1 else 0.0) if deg > 1 else 0.0)
        for x0 in pts:
            for eps in (0.5, 2.0 ** -6, 2.0 ** -12):
                forms = [('array', x0), ('column order', np.repeat(x0, 2)[::2])]
                if np.array_equal(x0, np.round(x0)):
                    forms.append(('integers', x0.astype(int)))
                forms.append(('list', list(x0)))
                if d == 1:
                    forms.append(('number', float(x0[0])))
                for nm, xin in forms:
                    for cent in (True, False):
                        want = np.zeros((nf, d))
                        for i in range(d):
                            e = np.zeros(d)
                            e[i] = eps
                            for k in range(nf):
                                want[k, i] = (val(x0 + e, k) - val(x0 - e, k)) / (2 * eps) if cent else (val(x0 + e, k) - val(x0, k)) / eps
                        exact = np.array([[slope(x0, k, i) for i in range(d)] for k in range(nf)])
                        if deg <= (2 if cent else 1):
                            extra = 0.0 if not (d == 1 and deg == 2 and not cent) else eps
                            rec.close('difference quotient of the oracle', want, exact + extra, rtol=1e-12)
                        outs = [('matrix', lambda x: np.array([val(x, k) for k in range(nf)]), lambda x: exact.copy(), want, exact)]
                        if nf == 1:
                            outs += [('vector', lambda x: val(x, 0), lambda x: exact[0].copy(), want[0], exact[0]),
                                     ('vector of one value', lambda x: np.array([val(x, 0)]), lambda x: exact[0].copy(), want[0], exact[0])]
                            if d == 1:
                                outs.append(('number', lambda x: val(x, 0), lambda x: exact[0, 0], want[0], exact[0]))
                        for on, fun, grad, w, ex in outs:
                            for show in (False, True):
                                seen = []
                                keep = np.array(xin, float).copy()

                                def g2(x):
                                    seen.append(np.array(x, float))
                                    return grad(x)
                                buf = io.StringIO()
                                with contextlib.redirect_stdout(buf):
                                    got, gx = F.test_grad_calc(xin, fun, g2, eps, show, cent)
                                rec.close(f'difference quotient, {on}, {nm}, degree {deg}', got, w, rtol=1e-12)
                                rec.close(f'gradient handed through, {on}', gx, ex, rtol=0, atol=0)
                                rec.check(bool(buf.getvalue()) == show, 'result is printed when it is asked for')
                                rec.check(np.array_equal(np.array(xin, float), keep), 'the point was changed')
                                rec.check(len(seen) >= 1 and all(np.array_equal(np.atleast_1d(s), np.atleast_1d(keep)) for s in seen), 'the gradient is evaluated at the point')
                                rec.step()
                    rec.state('fd', d, nf, deg, tuple(x0), eps, nm)
                if nf == 1 and deg == 2:
                    g1 = F.test_grad_calc(x0, lambda x: val(x, 0), lambda x: exact[0].copy(), print_calc=False)[0]
                    rec.close('default step and formula', g1, np.array([slope(x0, 0, i) for i in range(d)]), rtol=1e-6, atol=1e-5)
                if nf > 1:
                    rec.raises('gradient of several functions as a vector', lambda: F.test_grad_calc(x0, lambda x: np.array([val(x, k) for k in range(nf)]), lambda x: exact[0].copy(), eps, False))


def run_case(case, rec):
    dict(dist=dist, tensor=tensor, vec=vec, fd=fd)[case['part']](case, rec)
