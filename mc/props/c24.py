"""The choice of the hyperparameters when the numerical optimiser may answer anything: the optimiser is the environment of the model and
every answer of a finite alphabet is given at every call."""
import itertools
import sys
import numpy as np
import scipy.optimize
import domain as D

BOUNDS = {
    'quick': 'the optimiser is replaced by an environment that returns, at every call, any answer of {start itself, two other feasible points, point just above the limit but within 1 %, point above the limit, '
             'point where the matrix cannot be factorised, lower bound, upper bound} x {success, failure}, after visiting nothing / other points; all sequences of two answers (two starts) x kernels(3) x (5 methods '
             'without loop and gradient-free) x noise pairs {none, known, unknown} ; rescaling loop: all sequences of three answers from a 4 letter alphabet of anisotropies x {feasible, not} at the first call and the '
             'last one x iteration limits {2, 3} x both rescaling methods x kernels x noise',
    'thorough': 'three starts; loops of up to four iterations; dimension 3; gradient subsets; Frobenius norm',
}
ASSUMPTIONS = ['the answer of the environment is honest: the reported value is the objective at the returned point',
               'a returned point counts as feasible within 1 % of the limit on the condition number (tolerance used by the implementation)',
               'with an unknown gradient noise the rescaling loop keeps its value, which has no equivalent in other units; only length scales are compared there']

_real = scipy.optimize.minimize


class Env:
    active = None


def minimize(fun, x0, *a, **k):
    if Env.active is None:
        return _real(fun, x0, *a, **k)
    return Env.active(fun, np.array(x0, float), k)


minimize.__wrapped__ = _real


def install():
    """Take the place of the optimiser wherever gpgradpy holds a reference to it."""
    import gpgradpy.src.GaussianProcess  # noqa: F401
    scipy.optimize.minimize = minimize
    for nm, m in list(sys.modules.items()):
        if nm.startswith('gpgradpy') and m is not None:
            for a, b in list(vars(m).items()):
                if b is _real:
                    setattr(m, a, minimize)


class Script:
    """answers: list of (function of (x0, call number) -> x, success)"""

    def __init__(self, answers, last, detour=()):
        self.answers, self.last, self.detour, self.calls = answers, last, detour, []

    def __call__(self, fun, x0, k):
        n = len(self.calls)
        pick, ok = self.answers[n] if n < len(self.answers) else self.last
        bd, jac, con = k.get('bounds'), k.get('jac'), k.get('constraints')
        x = np.clip(np.array(pick(x0, n), float), bd.lb, bd.ub)
        fun(x0)
        val = float(fun(x))
        for p in self.detour:                      # the last point that is visited is not the one returned
            p = np.clip(np.array(p(x0, n), float), bd.lb, bd.ub)
            fun(p)
            if callable(jac):
                jac(p)
            if con:
                con.fun(p)
        self.calls.append(dict(x0=x0, x=x.copy(), fun=val, ok=ok, nit=3 + 2 * n, lb=np.array(bd.lb), ub=np.array(bd.ub)))
        return scipy.optimize.OptimizeResult(x=x, fun=val, success=ok, nit=3 + 2 * n, nfev=5, message='stopped')


LETTERS = ['x0', 'a', 'b', 'edge', 'over', 'fail', 'lb', 'ub']
NOISE = [('zero', 'zero'), ('pp', 'pp'), ('unk', 'unk')]


def cases(tier):
    t = tier == 'thorough'
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for nf, ng in NOISE:
                for d in (1, 2, 3) if t else (2,):
                    for norm in (2, 'fro') if t and d == 2 else (2,):
                        base = dict(kind='pick', k=k, w=w, g=g, nf=nf, ng=ng if g else 'zero', d=d, n=4, norm=norm)
                        for first in LETTERS:
                            yield dict(base, first=first, depth=3 if d == 2 and norm == 2 and (t or (D.KERNELS.index(k) + (D.METHODS.index(w) if g else 1) + NOISE.index((nf, ng)) + LETTERS.index(first)) % 3 == 0) else 2)
                        if g and t:
                            yield dict(base, first='a', depth=2, mask=[1, 0, 1, 0])
    for k in D.KERNELS:
        for w in ('rescale_origin', 'rescale_eta_vary'):
            for nf, ng in NOISE:
                for d in (1, 2, 3) if t else (2,):
                    for m in (2, 3, 4) if t else (2, 3):
                        for feas in ('yes', 'first', 'last', 'no', 'raw', 'tight'):
                            for first in range(4):
                                yield dict(kind='loop', k=k, w=w, nf=nf, ng=ng, d=d, n=4, m=m, feas=feas, first=first)
                                if t:
                                    yield dict(kind='loop', k=k, w=w, nf=nf, ng=ng, d=d, n=4, m=m, feas=feas, first=first, mask=[0, 1, 1, 0])


def weight(c):
    return 6 if c['kind'] == 'loop' else 2


CHUNK = 4


def make(case, **opts):
    c = D.Cfg(dict(case, lay='gen', ct=1e6))
    gp = D.new_gp(c, **dict(dict(lkd_hp_best_n_eval=6), **opts))
    gp.cond_max_target = 1e8
    gp.cond_max = (60.0 if c.nf == 'pp' else 1e4) if case['kind'] == 'pick' else case.get('limit', 1e6)
    gp.cond_max_abs = 1e7
    gp.set_wellcond_mtd(c.w if c.g else 'base')
    gp.init_optz_surr(2)
    D.set_data(gp, c)
    return c, gp


def bisect(f, a, b, n=60):
    """point between a (f < 0) and b (f > 0) with |f| small"""
    for _ in range(n):
        m = (a + b) / 2
        if f(m) < 0:
            a = m
        else:
            b = m
    return (a + b) / 2


def letters(case, info, x0, lim, cond, bd):
    """Points of the alphabet as functions of nothing but the problem."""
    it = info.idx_theta
    base = np.array(x0, float)
    base[it] = np.log10([0.8, 1.1, 0.6][:it.size])
    other = base.copy()
    other[it] = np.log10([3.0, 2.2, 4.0][:it.size])
    if info.has_varK:
        base[info.idx_varK] = 0.2
        other[info.idx_varK] = -0.3
    out = dict(x0=np.array(x0, float), a=base, b=other)

    def at(s):
        v = base.copy()
        v[it] = s
        return v
    s = np.linspace(1.5, -12, 55)
    if lim is not None:
        v = np.array([cond(at(z)) for z in s])
        j = np.nonzero(v > lim)[0]
        if j.size and j[0] > 0:
            z = bisect(lambda z: cond(at(z)) - 1.005 * lim, s[j[0] - 1], s[j[0]])
            out['edge'] = at(z)
            z = bisect(lambda z: cond(at(z)) - 3 * lim, s[j[0] - 1], -12.0)
            out['over'] = at(z)
        out['fail'] = at(-12.0)
    out['lb'], out['ub'] = bd.lb.copy(), bd.ub.copy()
    return out


def run_case(case, rec):
    install()
    try:
        (run_pick if case['kind'] == 'pick' else run_loop)(case, rec)
    finally:
        Env.active = None


def run_pick(case, rec):
    starts = case['depth']
    c, gp = make(case, lkd_optz_start_mtd='lhs', optz_n_x0=starts, cond_vreq_max_iter=1, cond_norm=case['norm'])
    info = gp.hp_info_optz_lkd
    x0, bd, _ = gp.select_hp_optz_x0(0, info)
    starts = x0.shape[0]
    con = gp.wellcond_mtd != 'precon'
    lim = gp.cond_max if con else None
    memo = {}

    def look(v):
        """(objective to be maximised, condition number, factorised) from an object that does nothing else"""
        key = np.asarray(v).tobytes()
        if key not in memo:
            with np.errstate(all='ignore'):
                r, ok = look.gp.calc_lkd_all(look.gp.hp_vec2dataclass(info, np.array(v, float)), calc_cond=con)
            cond = float(r.cond) if con else np.nan
            memo[key] = (float(r.ln_lkd) if ok else -cond, cond, bool(ok))
        return memo[key]
    look.gp = make(case, lkd_optz_start_mtd='lhs', optz_n_x0=starts, cond_vreq_max_iter=1, cond_norm=case['norm'])[1]
    L = letters(case, info, x0[0], lim, lambda v: look(v)[1], bd)
    if case['first'] not in L:
        rec.skip('the point does not exist for this matrix')
        return
    names = [a for a in LETTERS if a in L]
    if not con:
        names = [a for a in names if look(np.clip(L[a], bd.lb, bd.ub))[2]]
        if case['first'] not in names:
            rec.skip('the matrix cannot be factorised and nothing limits its condition number')
            return
    for word in itertools.product([case['first']], *[names] * (starts - 1)):
        for oks in itertools.product([True, False], repeat=starts) if starts < 3 else ([True] * starts, [False] * starts, [False] + [True] * (starts - 1)):
            det = [] if oks[0] else [lambda x0, n: L['b'], lambda x0, n: L['a'] if n else L['lb']]
            S = Script([((lambda z, n, a=a: z if a == 'x0' else L[a]), ok) for a, ok in zip(word, oks)], ((lambda z, n: z), True), det)
            key = repr((word, oks))
            c, gp = make(case, lkd_optz_start_mtd='lhs', optz_n_x0=starts, cond_vreq_max_iter=1, cond_norm=case['norm'])
            Env.active = S
            try:
                gp.set_hpara('optz', 0)
            finally:
                Env.active = None
            rec.step(starts)
            rec.state(repr(case), key)
            rec.check(len(S.calls) == starts, lambda: f'{key}: {len(S.calls)} optimisations for {starts} starts')
            for j, call in enumerate(S.calls):
                rec.check(np.array_equal(call['x0'], x0[j]), lambda: f'{key}: optimisation {j} starts at {call["x0"]}, not at {x0[j]}')
                rec.check(np.array_equal(call['lb'], bd.lb) and np.array_equal(call['ub'], bd.ub), lambda: f'{key}: bounds of optimisation {j}')
            got = vec(gp, info)
            ans = [call['x'] for call in S.calls]
            la, ls = [look(v) for v in ans], [look(v) for v in x0]
            good = [not con or a[1] < 1.01 * lim for a in la]
            cand = [v for v, b in zip(ans, good) if b]
            if con:
                cand += [v for v, s in zip(x0, ls) if s[1] <= lim]
            if not cand:
                cand = ans
                rec.skip('no answer and no start is feasible: the best of the answers is expected')
            best = max(look(v)[0] for v in cand)
            rec.check(any(np.allclose(got, v, rtol=1e-12, atol=1e-12) for v in cand),
                      lambda: f'{key}: the chosen vector {got} is none of the {len(cand)} admissible ones {cand}')
            val = min((np.max(np.abs(got - v)), look(v)[0]) for v in cand)[1]
            rec.check(val >= best - 1e-9 * (1 + abs(best)), lambda: f'{key}: chosen likelihood {val}, an admissible vector has {best}')
            # record of the optimisation
            h = gp.export_data_surr(save2file=False)
            p = gp.surr_name
            nit = [call['nit'] for call in S.calls]
            want = dict(hp_optz_success=np.mean(oks), hp_optz_iter_mean=np.mean(nit), hp_optz_iter_max=max(nit), hp_optz_con_good=np.mean(good))
            if con:
                want.update(optz_n_cond2big_all=sum(s[1] > lim for s in ls), optz_n_cho_fail_all=sum(not s[2] for s in ls), optz_max_init_cond_all=max(s[1] for s in ls))
                rec.close(f'{key}: recorded condition number', h[p + 'Kcov_cond_all'][0], look(got)[1] if got.tobytes() in memo else look(min(cand, key=lambda v: np.max(np.abs(got - v))))[1],
                          rtol=1e-5)
            for a, b in want.items():
                rec.close(f'{key}: recorded {a}', h[p + a][0], float(b), rtol=1e-6, scale=max(1.0, abs(float(b))))
    rec.sample = dict(case=case, answers=names, starts=starts)


def vec(gp, info):
    h = gp.hp_vals
    v = np.zeros(info.n_hp)
    for f in ('theta', 'kernel', 'varK', 'var_fval', 'var_fgrad'):
        if getattr(info, 'has_' + f):
            v[getattr(info, 'idx_' + f)] = np.asarray(getattr(h, f), float).ravel() if f in ('theta', 'kernel') else float(np.ravel(getattr(h, f))[0])
    b = np.asarray(info.bvec_log_optz, bool)
    v[b] = np.log10(v[b])
    return v


RAW = [np.array([0.0, 0.1, -0.1]), np.array([0.9, -0.4, 0.2]), np.array([-1.2, 0.8, 0.5]), np.array([1.1, 0.7, 1.3])]
RATIO = [np.array([0.0, 0.0, 0.0]), np.array([0.8, -0.5, 0.1]), np.array([-1.5, 1.1, 0.6]), np.array([0.02, -0.02, 0.01])]


def run_loop(case, rec):
    d, m = case['d'], case['m']
    seen, paths = set(), {}
    case = dict(case, limit=1e9 if case['feas'] in ('yes', 'raw', 'tight') else 2e3)
    if case['feas'] == 'tight':
        gp = make(case, cond_vreq_max_iter=1)[1]
        info = gp.hp_info_optz_lkd
        x = np.clip(gp.select_hp_optz_x0(0, info)[0][0], -3, 3)
        x[info.idx_theta] = RAW[case['first']][:d]
        case['limit'] = 1.0005 * cond_at(case, 10 ** x[info.idx_theta], gp.DataScl.xvec_scale, dict(x=x))
    for word in itertools.product([case['first']], *[range(4)] * m):
        if any(word[:len(u)] == u for u in seen):
            continue                             # the loop had ended before: the same history
        c, gp = make(case, cond_vreq_max_iter=m, lkd_hp_best_n_eval=1, lkd_optz_start_mtd='hp_best')
        info = gp.hp_info_optz_lkd
        it = info.idx_theta
        X = c.X()
        s0 = np.array(gp.DataScl.xvec_scale, float)
        vreq = float(gp.DataScl.dist_set)
        lev = {'yes': lambda n: 0.0, 'raw': None, 'tight': None, 'first': lambda n: 1.0 if n == 0 else -6.0, 'last': lambda n: -6.0 if n < m else 1.0, 'no': lambda n: -6.0}[case['feas']]
        scales = []

        def answer(x0, n, word=word, s0=s0, gp=gp, scales=scales, lev=lev):
            v = np.array(x0, float)
            if case['feas'] == 'raw':                # length scales given in the original units, whatever the scaling is at the time
                v[it] = RAW[word[min(n, m)]][:d] + 2 * np.log10(s0 / np.array(gp.DataScl.xvec_scale, float))
            elif case['feas'] == 'tight':            # a first answer just below the limit, afterwards anything
                a = word[min(n, m)]
                if n == 0:
                    v[it] = RAW[a][:d]
                elif a < 2:
                    v[it] = -6 + RATIO[a][:d]
                elif a == 3:
                    v[it] = 2.0 + RATIO[1][:d]
            else:
                v[it] = lev(n) + RATIO[word[min(n, m)]][:d]
            scales.append(np.array(gp.DataScl.xvec_scale, float))
            return v
        S = Script([], (answer, True))
        Env.active = S
        try:
            gp.set_hpara('optz', 0)
        finally:
            Env.active = None
        rec.step(len(S.calls))
        word = word[:len(S.calls)]
        seen.add(word)
        rec.state(repr(case), word)
        key = repr(word)
        tol = gp.cond_vreq_iter_tol

        # one pass of the loop from the definition: same covariances, isotropic, required distance
        def iso(th, s):
            w = np.sqrt(th) * s
            w = w * (vreq / min_dist(X * w))
            return w, th * (s / w) ** 2
        ths = [10 ** call['x'][it] for call in S.calls]
        # the point that each pass settles on: the better one of the answer and a feasible start
        dist, state = [], []
        s, n = s0, 0
        best = chosen(case, gp, S.calls[0], s0, it)
        first = (best, s0)
        while True:
            rec.close(f'{key}: scaling during optimisation {n}', scales[n], s, rtol=1e-10)
            lt = np.log10(best)
            dist.append(float(np.sum((lt - lt.mean()) ** 2)))
            w, tn = iso(best, s)
            state.append((w, tn))
            n += 1
            if n == m or dist[-1] < tol * (1 + 1e-9):
                break
            rec.check(len(S.calls) > n, lambda: f'{key}: the loop stopped after {n} optimisations, distance {dist[-1]}, limit {m}')
            rec.close(f'{key}: length scales at the start of optimisation {n}', 10 ** S.calls[n]['x0'][it], tn, rtol=1e-9)
            rest = [i for i in range(info.n_hp) if i not in it]
            rec.close(f'{key}: other hyperparameters at the start of optimisation {n}', S.calls[n]['x0'][rest], S.calls[n - 1]['x'][rest], rtol=1e-12)
            s = w
            best = chosen(case, gp, S.calls[n], s, it)
        paths[f'{n} passes'] = paths.get(f'{n} passes', 0) + 1
        paths[f'pass {int(np.argmin(dist))} kept'] = paths.get(f'pass {int(np.argmin(dist))} kept', 0) + 1
        if abs(dist[-1] - tol) < 1e-9:
            rec.skip('distance on the tolerance')
            continue
        j = int(np.argmin(dist))
        if sum(abs(z - dist[j]) < 1e-9 for z in dist) > 1:
            cands = [state[i] for i in range(len(dist)) if abs(dist[i] - dist[j]) < 1e-9]
        else:
            cands = [state[j]]
        got_s, got_t = np.array(gp.DataScl.xvec_scale, float), np.array(gp.hp_vals.theta, float)
        lim = 1.01 * gp.cond_max
        c0 = cond_at(case, first[0], first[1], S.calls[0])
        cf = cond_at(case, got_t, got_s, S.calls[-1])
        if len(S.calls) > n + 1:
            rec.check(False, f'{key}: {len(S.calls)} optimisations, {n} passes')
            return
        if len(S.calls) == n + 1:                # the last change of units broke the limit
            w, tn = cands[-1] if len(cands) == 1 else min(cands, key=lambda z: np.max(np.abs(np.log(S.calls[n]['x0'][it] * 0 + z[1]) - np.log(10 ** S.calls[n]['x0'][it]))))
            rec.close(f'{key}: length scales at the start of the last optimisation', 10 ** S.calls[n]['x0'][it], tn, rtol=1e-9)
            rec.close(f'{key}: scaling during the last optimisation', scales[n], w, rtol=1e-10)
            paths['extra optimisation'] = paths.get('extra optimisation', 0) + 1
            last = chosen(case, gp, S.calls[n], w, it)
            cl = cond_at(case, last, w, S.calls[n])
            ok = [(w, last)]
            if cl > lim and c0 <= lim:
                paths['restored'] = paths.get('restored', 0) + 1
                ok = [(first[1], first[0])]
            rec.check(any(close2(got_s, a) and close2(got_t, b) for a, b in ok), lambda: f'{key}: final scaling {got_s}, length scales {got_t}; expected {ok}')
        else:
            rec.check(any(close2(got_s, a) and close2(got_t, b) for a, b in cands) or (case['feas'] not in ('yes', 'raw', 'tight') and close2(got_s, first[1]) and close2(got_t, first[0]) and c0 <= lim),
                      lambda: f'{key}: final scaling {got_s}, length scales {got_t}; expected {cands}, distances {dist}')
        if c0 <= lim:
            rec.check(cf <= lim * (1 + 1e-6), lambda: f'{key}: condition number {cf:.4e} above the limit {gp.cond_max:.3e}, that of the first pass is {c0:.4e}')
        rec.close(f'{key}: smallest distance of the scaled points', min_dist(np.array(gp.DataScl.x_scl)), vreq, rtol=1e-10)
        xs = np.array(gp.DataScl.x_scl)
        rec.close(f'{key}: scaled points, relative to the first', xs - xs[0], (X - X[0]) * got_s, rtol=1e-10)
        # record and restoration
        h = gp.export_data_surr(save2file=False)
        p = gp.surr_name
        rec.check(np.array_equal(h[p + 'xvec_rescaling_all'][0], got_s), lambda: f'{key}: recorded scaling {h[p + "xvec_rescaling_all"][0]}, in use {got_s}')
        rec.check(np.array_equal(np.ravel(h[p + 'hp_theta_all'][0]), got_t), lambda: f'{key}: recorded length scales')
        rec.close(f'{key}: recorded condition number', h[p + 'Kcov_cond_all'][0], cf, rtol=1e-5)
        Q = np.array([D.queries(c, q) for q in ('gen', 'out')])
        if cf < 1e9:
            out = [np.copy(z) for z in gp.eval_model(Q, calc_grad=True)[:4]]
            D.set_data(gp, c)
            gp.set_hpara('stored', 0)
            for nm, a, b in zip(('mean', 'deviation', 'mean gradient', 'deviation gradient'), gp.eval_model(Q, calc_grad=True)[:4], out):
                rec.close(f'{key}: {nm} after restoring', a, b, rtol=1e-6, scale=1.0)
    rec.sample = dict(case=case, last=key, distances=dist, paths=paths)


def close2(a, b):
    return np.allclose(a, b, rtol=1e-8, atol=0)


def min_dist(X):
    return min(float(np.sqrt(np.sum((X[i] - X[j]) ** 2))) for i in range(len(X)) for j in range(i))


def fresh(case, s):
    c, gp = make(case, cond_vreq_max_iter=1)
    gp.DataScl.set_xscale_data(xvec_scale_in=np.array(s, float))
    return gp


def look(case, th, s, call, x=None):
    gp = fresh(case, s)
    v = np.array(call['x'] if x is None else x, float)
    v[gp.hp_info_optz_lkd.idx_theta] = np.log10(th)
    with np.errstate(all='ignore'):
        r, ok = gp.calc_lkd_all(gp.hp_vec2dataclass(gp.hp_info_optz_lkd, v), calc_cond=True)
    return (float(r.ln_lkd) if ok else -float(r.cond)), float(r.cond)


def cond_at(case, th, s, call):
    return look(case, th, s, call)[1]


def chosen(case, gp, call, s, it):
    """Length scales a single optimisation settles on: its answer, or the start when that one is feasible and better."""
    th, t0 = 10 ** call['x'][it], 10 ** call['x0'][it]
    va, ca = look(case, th, s, call)
    vs, cs = look(case, t0, s, call, call['x0'])
    if cs <= gp.cond_max and (ca >= 1.01 * gp.cond_max or vs > va):
        return t0
    return th
