"""Bounds and starting points for every short history of recorded iterations."""
import itertools
import numpy as np
import domain as D

BOUNDS = {
    'quick': 'histories: all of 0 to 4 recorded iterations over 3 hyperparameter sets (one without noise variances), looked at from every iteration, median over 1, 2 or 5 '
             'iterations, 3 pairs of factors, 4 absolute ranges (wide, below, above and inside the history), kernels(3) x noise {none, known, value unknown, both unknown} x '
             'logarithms on/off x dimensions {1,2,3}, 1, 2, 5 and 40 starts; up to 2 iterations in 5 dimensions; selection: kernels(3) x (6 methods, gradient-free) x noise {none, unknown} x 7 condition '
             'number limits (from always to never satisfied) x 3 numbers of candidates x 2 layouts of the data',
    'thorough': 'up to 6 recorded iterations, dimensions {1,2,3,5}',
}
ASSUMPTIONS = ['the iterations before the current one are considered whether or not they hold a value; iterations without one do not enter the median',
               'a condition number within 20 % of the limit is acceptable for a start (the optimiser enforces the limit); when no candidate is acceptable the best '
               'conditioned one is used']
FACT = [(1e3, 1e5), (10.0, 10.0), (2.0, 1e3)]
RANGES = dict(wide=None, low=(1e-6, 1e-1), high=(20.0, 1e5), mid=(0.3, 5.0))
SETS = [dict(theta=[0.7, 3.1, 0.2, 9.0, 1.4], kernel=2.3, varK=2.5, vf=0.02, vg=0.3),
        dict(theta=[0.05, 11.0, 1.7, 0.4, 6.1], kernel=0.6, varK=40.0, vf=0.5, vg=0.001),
        dict(theta=[14.0, 0.9, 5.0, 2.2, 0.03], kernel=7.5, varK=0.3, vf=None, vg=None)]


def cases(tier):
    hmax = 6 if tier == 'thorough' else 4
    for k in D.KERNELS:
        for nz in (('zero', 'zero'), ('uni', 'uni'), ('unk', 'pp'), ('unk', 'unk')):
            for lg in (True, False):
                for d in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 5):
                    yield dict(kind='history', k=k, nf=nz[0], ng=nz[1], lg=lg, d=d, hmax=hmax)
                if tier == 'quick':
                    yield dict(kind='history', k=k, nf=nz[0], ng=nz[1], lg=lg, d=5, hmax=2)
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for nz in ('zero', 'unk'):
                for lay in ('gen', 'close'):
                    yield dict(kind='select', k=k, w=w, g=g, nf=nz, ng=nz, n=4, d=2, lay=lay, ct=1e10)


RNAMES = ['hp_theta_range', 'hp_kernel_range', 'hp_varK_range', 'hp_var_fval_range', 'hp_var_fgrad_range']
FLD = ['theta', 'kernel', 'varK', 'vf', 'vg']


def expected(gp, info, hist, i_optz, nmed, fact, case, c):
    """Bounds from the definition; hist: list of indices into SETS."""
    d = case['d']
    init = [np.full(d, gp.hp_theta_init), gp.hp_kernel_default, gp.hp_varK_init, gp.hp_var_fval_init, gp.hp_var_fgrad_init]
    has = [True, info.has_kernel, info.has_varK, info.has_var_fval, info.has_var_fgrad]
    idx = [info.idx_theta, info.idx_kernel, info.idx_varK, info.idx_var_fval, info.idx_var_fgrad]
    out = np.full((4, info.n_hp), np.nan)
    for j, f in enumerate(FLD):
        if not has[j]:
            continue
        past = []
        for s in hist[max(0, i_optz - nmed):i_optz]:
            v = SETS[s][f]
            if f in ('vf', 'vg') and not has[j]:
                v = None
            if v is not None:
                past.append(v[:d] if f == 'theta' else v)
        m = np.median(np.array(past), axis=0) if past else np.array(init[j], float)
        lo, hi = getattr(gp, RNAMES[j])
        m = np.minimum(np.maximum(m, lo), hi)
        for q, fa in enumerate(fact):
            out[2 * q, idx[j]] = np.maximum(m / fa, lo)
            out[2 * q + 1, idx[j]] = np.minimum(m * fa, hi)
    b = np.asarray(info.bvec_log_optz, bool)
    out[:, b] = np.log10(out[:, b])
    return out


def strata(x0, lo, hi):
    n = x0.shape[0]
    for j in range(x0.shape[1]):
        if hi[j] - lo[j] <= 1e-12 * max(1.0, abs(hi[j])):
            if not np.allclose(x0[:, j], lo[j], rtol=1e-9):
                return False
            continue
        u = (x0[:, j] - lo[j]) / (hi[j] - lo[j])
        if sorted(np.clip(np.floor(u * n + 1e-9), 0, n - 1).astype(int)) != list(range(n)) or u.min() < -1e-12 or u.max() > 1 + 1e-12:
            return False
    return True


def run_history(case, rec):
    c = D.Cfg(dict(case, w='base', n=3, ct=1e6))
    lg = dict(optz_log_hp_theta=case['lg'], optz_log_hp_kernel=case['lg'], optz_log_hp_var=case['lg'])
    hists = [h for L in range(case['hmax'] + 1) for h in itertools.product(range(3), repeat=L)]
    gp0 = D.set_data(D.new_gp(c, **lg), c)
    x0, _ = gp0.get_hp_x0_lhs_median(0, gp0.hp_info_optz_lkd, 3)        # no history kept at all
    gp = D.new_gp(c, **lg)
    gp.init_optz_surr(8)
    D.set_data(gp, c)
    info = gp.hp_info_optz_lkd
    base = {r: list(getattr(gp, r)) for r in RNAMES}
    rec.close('starts without a history', x0, gp.get_hp_x0_lhs_median(0, info, 3)[0], rtol=1e-14)
    unk_f, unk_g = c.nf == 'unk', c.g and c.ng == 'unk'
    for hist in hists:
        gp.init_optz_surr(8)
        for i, s in enumerate(hist):
            h = SETS[s]
            gp.store_new_para_surr(i, gp.make_hp_class(np.array([0.1]), np.array(h['theta'][:case['d']]), h['kernel'] if c.alpha is not None else None, h['varK'],
                                                       h['vf'] if unk_f else None, h['vg'] if unk_g else None))
        rec.step(len(hist))
        last = len(hist)
        combos = list(itertools.product((1, 2, 5), range(3), RANGES))
        if last and last < 3:
            pick = combos
        elif last >= 3:                     # every pair of options still occurs
            pick = [(m, f, r) for j, (m, f, r) in enumerate(combos) if (j + sum(hist)) % 3 == 0]
        else:
            pick = combos
        for m, fi, rg in pick:
            gp.hp_median_n_idx = m
            gp.hp_lhs_bound_factor, gp.hp_box_bound_factor = FACT[fi]
            for r in RNAMES:
                if RANGES[rg] is None:
                    setattr(gp, r, list(base[r]))
                elif not (r == 'hp_kernel_range' and c.alpha is None):
                    setattr(gp, r, list(RANGES[rg]))
            for i_optz in ([last] if last < 2 else [last, last - 1]):
                n = (1, 2, 5, 40)[(last + fi + m) % 4]
                np.random.seed(7 * m + n)
                x0, bd = gp.get_hp_x0_lhs_median(i_optz, info, n)
                want = expected(gp, info, hist, i_optz, m, FACT[fi], case, c)
                what = f'history {hist} from iteration {i_optz}, median over {m}, factors {FACT[fi]}, range {rg}'
                rec.close(f'lower bound, {what}', bd.lb, want[2], rtol=1e-12)
                rec.close(f'upper bound, {what}', bd.ub, want[3], rtol=1e-12)
                rec.check(np.all(bd.lb <= bd.ub), f'bounds not ordered, {what}')
                rec.check(x0.shape == (n, info.n_hp), lambda: f'{x0.shape} starting points instead of {n}, {what}')
                rec.check(np.all(x0 >= bd.lb[None, :] - 1e-12) and np.all(x0 <= bd.ub[None, :] + 1e-12), f'starting point outside of the bounds, {what}')
                rec.check(strata(x0, want[0], want[1]), lambda: f'starting points do not cover the range evenly, {what}: {x0.tolist()} in {want[:2].tolist()}')
                np.random.seed(3)
                rec.check(np.array_equal(gp.get_hp_x0_lhs_median(i_optz, info, n)[0], x0), f'starting points not reproducible, {what}')
                if (m, fi) == (5, 0):
                    gp.lkd_optz_start_mtd, gp.optz_n_x0 = 'lhs', n
                    y0, b2, _ = gp.select_hp_optz_x0(i_optz, info)
                    rec.check(np.array_equal(y0, x0) and np.array_equal(b2.lb, bd.lb) and np.array_equal(b2.ub, bd.ub), f'the optimiser is given other starting points, {what}')
                rec.state(repr(case), hist, m, fi, rg, i_optz)
        for r in RNAMES:
            setattr(gp, r, list(base[r]))
    rec.sample = dict(case=case, history=list(hist), bounds=[want[2].tolist(), want[3].tolist()])


def run_select(case, rec):
    c = D.Cfg(case)
    gp = D.new_gp(c)
    gp.init_optz_surr(3)
    D.set_data(gp, c)
    info = gp.hp_info_optz_lkd
    useK = gp.wellcond_mtd != 'precon'
    for start in ('none', 'stored'):
        i_optz = 0
        if start == 'stored':
            h = D.hp(gp, c)
            gp.store_new_para_surr(0, h)
            i_optz = 1
        for n in (1, 4, 40):
            gp.lkd_optz_start_mtd, gp.lkd_hp_best_n_eval = 'hp_best', n
            gp.cond_max_abs = 1e16
            cand, bd = gp.get_hp_x0_lhs_median(i_optz, info, n)
            full = [gp.calc_lkd_all(gp.hp_vec2dataclass(info, v), calc_cond=useK) for v in cand]
            lk = np.array([i.ln_lkd if ok else np.nan for i, ok in full], float)
            cd = np.array([i.cond if useK else np.nan for i, ok in full], float)
            lim = [(1e300, 1e16)] if not useK else [(1e300, 1e16)] + [(np.quantile(cd, q) * 1.0001, 1e16) for q in (0.0, 0.3, 0.7)] + \
                [(0.5 * cd.min(), 1e16), (0.5 * cd.min(), np.quantile(cd, 0.6) * 1.0001), (np.quantile(cd, 0.2) * 1.0001, np.quantile(cd, 0.6) * 1.0001)]
            for cm, ca in lim:
                gp.cond_max, gp.cond_max_abs = cm, ca
                x0, b2, _ = gp.select_hp_optz_x0(i_optz, info)
                good = ~np.isnan(lk) & ((cd <= ca) if useK else True)
                acc = good & ((cd <= 1.2 * cm) if useK else True)
                what = f'start {start}, {n} candidates, limit {cm:.3e} / {ca:.3e}'
                rec.check(x0.ndim == 2 and x0.shape == (1, info.n_hp), lambda: f'shape {x0.shape}, {what}')
                j = np.nonzero(np.all(cand == x0[0][None, :], axis=1))[0]
                rec.check(j.size > 0, f'the start is none of the candidates, {what}')
                j = int(j[0])
                if acc.any():
                    rec.check(acc[j], lambda: f'start with condition number {cd[j]:.3e} although {acc.sum()} candidates are acceptable, {what}')
                    best = np.max(lk[acc])
                    rec.check(lk[j] >= best - 1e-9 * abs(best), lambda: f'log likelihood {lk[j]} of the start is below {best} of another candidate, {what}')
                elif np.any(np.isfinite(cd)):
                    rec.check(cd[j] <= np.nanmin(cd) * (1 + 1e-6), lambda: f'no candidate is acceptable and the start is not the best conditioned one, {what}')
                rec.check(np.array_equal(b2.lb, bd.lb) and np.array_equal(b2.ub, bd.ub), f'bounds changed by the selection, {what}')
                rec.state(repr(case), start, n, cm, ca)
                rec.step(n)
    rec.sample = dict(case=case, start=x0.tolist())


def run_case(case, rec):
    (run_history if case['kind'] == 'history' else run_select)(case, rec)
