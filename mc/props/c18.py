"""Layout of the optimised vector after every short sequence of data sets."""
import itertools
import numpy as np
import domain as D

BOUNDS = {
    'quick': 'all sequences of 1 and 2 data sets over value noise {zero, below the threshold, uniform, one point only, unknown, partly NaN} x gradient noise {same} x size/mask, '
             'kernels(3) x gradients or not x dimensions {1,3} x the 8 choices of logarithms x kernel parameter optimised or not; every explicit choice of entries; one data set in 7 dimensions',
    'thorough': 'sequences of up to 3, dimensions {1,2,3,5}',
}
ASSUMPTIONS = ['data without gradients is used by gradient-free objects only', 'standard deviations below 1e-10 count as no noise (documented in set_data)']
FM = ['zero', 'tiny', 'uni', 'one', 'unk', 'nan']
LOGS = list(itertools.product([True, False], repeat=3))


def cases(tier):
    for k in D.KERNELS:
        for g in (True, False):
            for d in (1, 3) if tier == 'quick' else (1, 2, 3, 5):
                for bk in (True, False) if k == 'RatQu' else (True,):
                    for f0 in FM:
                        for g0 in FM if g else ['zero']:
                            yield dict(k=k, g=g, d=d, bk=bk, first=[f0, g0], length=2 if tier == 'quick' else 3, logs='one')
                    for lg in range(8):
                        if tier == 'quick' and d == 3:
                            yield dict(k=k, g=g, d=7, bk=bk, first=None, length=1, logs=lg)
                        yield dict(k=k, g=g, d=d, bk=bk, first=None, length=1, logs=lg)


def std(mode, shape):
    if mode == 'unk':
        return None
    s = np.zeros(shape)
    if mode == 'tiny':
        s += 3e-11
    elif mode == 'uni':
        s += 0.12
    elif mode == 'one':
        s.flat[-1] = 3e-3
    elif mode == 'nan':
        s += 0.2
        s.flat[0] = np.nan
    return s


SIZES = [(3, None), (2, [1, 0]), (4, [0, 1, 1, 0])]


def put(gp, case, fm, gm, j):
    n, mask = SIZES[j % 3]
    d = case['d']
    X = D.points('gen', n, d)
    if case['g']:
        G = D.gdata(n, d, mask)
        gp.set_data(X, D.fdata(n), std(fm, n), G, std(gm, G.shape), None if mask is None else np.array(mask, bool))
    else:
        gp.set_data(X, D.fdata(n), std(fm, n))


def expected(case, fm, gm):
    uf, ug = fm in ('unk', 'nan'), case['g'] and gm in ('unk', 'nan')
    noisy = fm not in ('zero', 'tiny') or (case['g'] and gm not in ('zero', 'tiny'))
    return dict(theta=case['d'], kernel=int(case['k'] == 'RatQu' and case['bk']), varK=int(noisy), var_fval=int(uf), var_fgrad=int(ug))


def look(gp, info, exp, logs, rec, what, case):
    d = case['d']
    n = sum(exp.values())
    rec.check(info.n_hp == n, lambda: f'{what}: {info.n_hp} optimised entries instead of {n}')
    used = []
    is_log = np.zeros(n, bool)
    lg = dict(theta=logs[0], kernel=logs[1], varK=logs[2], var_fval=logs[2], var_fgrad=logs[2])
    pos = {}
    for f, m in exp.items():
        rec.check(bool(getattr(info, 'has_' + f)) == (m > 0), lambda: f'{what}: {f} {"missing" if m else "present although it is known"}')
        ix = np.atleast_1d(getattr(info, 'idx_' + f)).ravel()
        rec.check(ix.size == m, lambda: f'{what}: {f} has {ix.size} entries instead of {m}')
        ix = [int(i) for i in ix]
        pos[f] = ix
        used += ix
        is_log[ix] = lg[f]
    rec.check(sorted(used) == list(range(n)), lambda: f'{what}: entries {used} do not tile the vector')
    rec.check(np.array_equal(np.asarray(info.bvec_log_optz, bool), is_log), lambda: f'{what}: logarithms applied to {info.bvec_log_optz} instead of {is_log}')
    for probe in range(2):
        vec = np.array([0.3 + 0.17 * i for i in range(n)]) * (1 if probe else -1)
        if not probe:
            vec[~is_log] *= -1
        keep = vec.copy()
        h = gp.hp_vec2dataclass(info, vec)
        rec.check(np.array_equal(vec, keep), f'{what}: the vector was changed by the conversion')
        for f, m in exp.items():
            v = getattr(h, f)
            if m == 0:
                if f == 'kernel' and case['k'] == 'RatQu':
                    rec.check(v is None or v == gp.hp_kernel_default, lambda: f'{what}: kernel parameter {v}')
                else:
                    rec.check(v is None, lambda: f'{what}: {f} = {v} although it is not optimised')
            else:
                want = keep[pos[f]]
                want = 10.0 ** want if lg[f] else want
                rec.close(f'{what}: {f}', np.asarray(v, float).ravel(), want, rtol=1e-14, atol=0)
        back = np.empty(n)
        for f, m in exp.items():
            if m:
                v = np.asarray(getattr(h, f), float).ravel()
                back[pos[f]] = np.log10(v) if lg[f] else v
        rec.close(f'{what}: converted back', back, keep, rtol=1e-13)
        h.theta *= 3.0
        rec.check(np.array_equal(vec, keep), f'{what}: the vector shares memory with the hyperparameters')
    rec.step(2)


def new(case, logs):
    c = D.Cfg(dict(k=case['k'], g=case['g'], d=case['d'], w='base', ct=1e6))
    return D.new_gp(c, optz_log_hp_theta=logs[0], optz_log_hp_kernel=logs[1], optz_log_hp_var=logs[2], b_optz_hp_kernel=case['bk'])


def run_case(case, rec):
    modes = list(itertools.product(FM, FM if case['g'] else ['zero']))
    if case['first'] is None:
        logs = LOGS[case['logs']]
        for j, (fm, gm) in enumerate(modes):
            for s in range(3):
                gp = new(case, logs)
                put(gp, case, fm, gm, s)
                look(gp, gp.hp_info_optz_lkd, expected(case, fm, gm), logs, rec, f'data {fm}/{gm}', case)
                rec.state(repr(case), fm, gm, s)
                if fm in ('unk', 'nan') and (not case['g'] or gm in ('unk', 'nan')):
                    for flags in itertools.product([0, 1], repeat=5):
                        if flags[1] and case['k'] != 'RatQu' or (flags[4] and not case['g']) or not flags[0]:
                            continue
                        exp = dict(zip(('theta', 'kernel', 'varK', 'var_fval', 'var_fgrad'), (case['d'] * flags[0],) + flags[1:]))
                        look(gp, gp.set_hp_optz_info(*[bool(v) for v in flags]), exp, logs, rec, f'explicit {flags}', case)
        return
    logs = LOGS[0]
    for L in range(1, case['length'] + 1):
        for rest in itertools.product(modes, repeat=L - 1):
            seq = [tuple(case['first'])] + list(rest)
            gp = new(case, logs)
            for j, (fm, gm) in enumerate(seq):
                put(gp, case, fm, gm, j)
                rec.step()
            look(gp, gp.hp_info_optz_lkd, expected(case, *seq[-1]), logs, rec, f'data sequence {seq}', case)
            # what the optimiser is given
            x0, bound = gp.get_hp_x0_lhs_median(0, gp.hp_info_optz_lkd, 3)
            n = sum(expected(case, *seq[-1]).values())
            rec.check(x0.shape == (3, n) and bound.lb.shape == (n,), lambda: f'starting points of shape {x0.shape} for {n} unknowns after {seq}')
            vec = np.full(n, 0.2)
            val = gp.return_optz_val(vec)
            h = gp.make_hp_class(None, np.full(case['d'], 10 ** 0.2), None if case['k'] != 'RatQu' else (10 ** 0.2 if case['bk'] else gp.hp_kernel_default),
                                 *[10 ** 0.2 if expected(case, *seq[-1])[f] else None for f in ('varK', 'var_fval', 'var_fgrad')])
            info, ok = gp.calc_lkd_all(h)
            rec.close(f'objective after {seq}', val, -info.ln_lkd, rtol=1e-9)
            rec.state(repr(case), tuple(seq))
            rec.sample = dict(case=case, sequence=[list(s) for s in seq])
