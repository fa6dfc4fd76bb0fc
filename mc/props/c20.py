"""Saved optimisation runs: loading and running best, against their definitions."""
import itertools
import os
import shutil
import tempfile
import numpy as np

BOUNDS = {
    'quick': 'running best: every vector of length 1 to 6 over {missing, -2, 0, 0.5, +inf} (and every order of 7 distinct values), min and max, numbers as float64, float32 and int; '
             'loader: every ordered collection of 0 to 3 files out of 7 (runs x iterations (1,1), (1,3), (2,2), (3,1), (2,5) with gaps, (4,4) float32/int/bool, all missing), limits on '
             'iterations {none given, None, 1, 2, 3, 5, 9}, with/without noise, initial number of runs {default, exact}; 6 collections of large files (up to 1300 iterations and 25 runs); '
             'plot: every ordered pair of 8 runs of 4 iterations, 2-D and 3-D, min and max, with and without area',
    'thorough': 'vectors up to length 8, collections of up to 4 files, ordered triples of runs',
}
ASSUMPTIONS = ['the arrays of one file have one shape (runs x iterations)', 'an explicit limit on the number of iterations cuts the runs to it',
               'the shaded area is compared at the iterations at which every run of the case has a value']
NAN = float('nan')
LET = [NAN, -2.0, 0.0, 0.5, float('inf')]
KEYS = ['merit', 'opt', 'fsb']
SHAPES = [(1, 1), (1, 3), (2, 2), (3, 1), (2, 5), (4, 4), (2, 3)]
BIG = [[(2, 1000)], [(2, 1300)], [(21, 2)], [(25, 3), (1, 4)], [(2, 1001), (1, 3)], [(3, 4), (22, 1100)]]
RUNS = [[3, 1, 2, 0.5], [1, 2, 3, 4], [4, 3, 2, 1], [2, NAN, 1, NAN], [NAN, 2, 3, 1], [5, 4, NAN, NAN], [NAN] * 4, [2, 2, 2, 2]]


def cases(tier):
    th = tier == 'thorough'
    for a, b in itertools.product(range(len(LET)), repeat=2):
        yield dict(part='best', pre=[a, b], n=8 if th else 6)
    for a in range(len(LET)):
        yield dict(part='best', pre=[a], n=1)
    for a in range(7):
        yield dict(part='order', first=a)
    for n in range(0, (4 if th else 3) + 1):
        for first in range(len(SHAPES)) if n else [0]:
            yield dict(part='load', n=n, first=first)
    for i in range(len(BIG)):
        yield dict(part='big', i=i)
    for i in range(len(RUNS)):
        yield dict(part='plot', i=i, triple=th)


def weight(c):
    return {'plot': 100, 'best': 5, 'load': 10 * c.get('n', 0) ** 3}.get(c['part'], 30)


def best_ref(vec, method):
    """Running best from the definition."""
    vec = [float(v) for v in vec]
    last = max([i for i, v in enumerate(vec) if v == v], default=-1)
    out = []
    for i in range(len(vec)):
        seen = [v for v in vec[:i + 1] if v == v]
        if i > last or not seen:
            out.append(NAN)
        else:
            out.append(min(seen) if method == 'min' else max(seen))
    return np.array(out)


def same(rec, what, got, want):
    rec.compared += max(1, want.size)
    got = np.asarray(got)
    if got.shape != want.shape or not np.array_equal(got.astype(float), want, equal_nan=True):
        rec.fail(f'{what}: got {got.tolist() if got.size < 30 else got.shape}, expected {want.tolist() if want.size < 30 else want.shape}')


def check_best(rec, P, vec):
    for m in ('min', 'max'):
        want = best_ref(vec, m)
        forms = [np.array(vec, float), np.array(vec, np.float32)]
        if not np.any(np.isnan(vec)) and not np.any(np.isinf(vec)) and np.array_equal(vec, np.round(vec)):
            forms.append(np.array(vec, int))
        for a in forms:
            keep = a.copy()
            same(rec, f'best so far ({m}) of {list(vec)} as {a.dtype}', P.best_at_all_iter(a, m), want)
            rec.check(np.array_equal(a, keep, equal_nan=True), 'the data of the run was changed')
        rec.state('best', m, tuple(str(v) for v in vec))
    same(rec, f'best so far (default) of {list(vec)}', P.best_at_all_iter(np.array(vec, float)), best_ref(vec, 'min'))
    rec.step(len(vec))


def content(i, shape):
    """Arrays of file i: every entry identifies its file, array, run and iteration."""
    r, t = shape
    out = {}
    for q, key in enumerate(KEYS):
        for wo in (False, True):
            a = np.array([[100000 * (i + 1) + 10000 * q + 5000 * wo + 100.25 * (x + 1) + 0.5 * y for y in range(t)] for x in range(r)])
            if i % 3 == 1:
                a = -a
            out[key + ('_wo_noise_all' if wo else '_all')] = a
    if shape == (2, 5):           # runs of different length and gaps
        for a in out.values():
            a[0, 3:] = NAN
            a[1, [0, 2]] = NAN
    if shape == (2, 3):
        for k in out:
            out[k][:] = NAN
    if shape == (4, 4):
        out['merit_all'] = np.round(out['merit_all']).astype(int)
        out['opt_wo_noise_all'] = (np.arange(16).reshape(4, 4) / 8).astype(np.float32)
        out['fsb_wo_noise_all'] = (np.arange(16).reshape(4, 4) % 3 == 0)
        out['opt_all'][2, 1] = np.inf
        out['merit_wo_noise_all'][0, 0] = -np.inf
    return out


def loaded_ref(data, limit, free):
    """What has to come back: limit None -> as many iterations as the longest file has."""
    shapes = [d['merit_all'].shape for d in data]
    r = max([s[0] for s in shapes], default=0)
    t = limit if limit is not None else max([s[1] for s in shapes], default=0)
    out = []
    for key in KEYS:
        a = np.full((len(data), r, t), np.nan)
        for i, d in enumerate(data):
            src = d[key + ('_wo_noise_all' if free else '_all')]
            for x in range(src.shape[0]):
                for y in range(min(src.shape[1], t)):
                    a[i, x, y] = float(src[x, y])
        out.append(a)
    return out


def check_load(rec, P, folder, names, data, limits):
    for limit in limits:
        for free in (True, False):
            for nx0 in (None, 'exact'):
                kw = dict(load_noise_free_data=free)
                if nx0 is not None:
                    kw['n_x0_init'] = max([d['merit_all'].shape[0] for d in data], default=1)
                if limit != 'default':
                    kw['n_iter_max'] = limit
                want = loaded_ref(data, 1000 if limit == 'default' else limit, free)
                got = P.load_npz_data(folder, names, **kw)
                rec.check(len(got) == 3, 'three arrays are returned')
                for n, g, w in zip(KEYS, got, want):
                    same(rec, f'{n} of files {[d["merit_all"].shape for d in data]} with {kw}', g, w)
                    rec.check(np.asarray(g).dtype == np.float64, 'numbers are double precision')
                rec.step()
                rec.state('load', tuple(names), str(limit), free, nx0)
        got = P.load_npz_data(folder, names, **({} if limit == 'default' else dict(n_iter_max=limit)))
        for g, w in zip(got, loaded_ref(data, 1000 if limit == 'default' else limit, True)):
            same(rec, 'default of the noise', g, w)


def run_case(case, rec):
    import matplotlib
    matplotlib.use('Agg')
    from gpgradpy.results.PltOptzResults import PltOptzResults as P
    if case['part'] == 'best':
        pre = case['pre']
        for n in range(len(pre), case['n'] + 1):
            for rest in itertools.product(range(len(LET)), repeat=n - len(pre)):
                check_best(rec, P, [LET[i] for i in list(pre) + list(rest)])
        rec.raises('2-D data', lambda: P.best_at_all_iter(np.ones((2, 2))))
        rec.raises('unknown method', lambda: P.best_at_all_iter(np.array([1.0, 2.0]), 'best'))
        return
    if case['part'] == 'order':
        vals = [-3, -2, -1, 1, 2, 3, 4]
        f = vals.pop(case['first'])
        for p in itertools.permutations(vals):
            check_best(rec, P, [f, *p])
        return
    if case['part'] == 'plot':
        return plots(case, rec, P)
    folder = tempfile.mkdtemp(prefix='verif-c20-')
    try:
        if case['part'] == 'big':
            data = [content(i, s) for i, s in enumerate(BIG[case['i']])]
            names = [f'run.{i}.npz' for i in range(len(data))]
            for n, d in zip(names, data):
                np.savez(os.path.join(folder, n), **d)
            check_big(rec, P, folder, names, data)
            return
        data = [content(i, s) for i, s in enumerate(SHAPES)]
        names = [f'run_{chr(97 + i)}{i}.npz' for i in range(len(SHAPES))]
        for i, (n, d) in enumerate(zip(names, data)):
            (np.savez if i % 2 else np.savez_compressed)(os.path.join(folder, n), **d)
        for rest in itertools.product(range(len(SHAPES)), repeat=max(0, case['n'] - 1)):
            idx = ([case['first']] + list(rest)) if case['n'] else []
            small = case['n'] <= 2
            check_load(rec, P, folder, [names[i] for i in idx], [data[i] for i in idx],
                       ((None, 1, 2, 3, 5, 9) if small else (None, 2, 9)) + (('default',) if case['n'] == 1 else ()) if case['n'] else (1, 3))
        with open(os.path.join(folder, 'a.txt'), 'w') as fl:
            fl.write('x')
        rec.raises('file of another format', lambda: P.load_npz_data(folder, ['a.txt']))
        rec.raises('file that does not exist', lambda: P.load_npz_data(folder, ['none.npz']))
        rec.raises('second file that does not exist', lambda: P.load_npz_data(folder, [names[0], 'none.npz']))
        np.savez(os.path.join(folder, 'free.npz'), **{k: v for k, v in data[2].items() if 'wo_noise' not in k})
        rec.raises('noise-free data that was not stored', lambda: P.load_npz_data(folder, ['free.npz']))
        for g, w in zip(P.load_npz_data(folder, ['free.npz'], 4, load_noise_free_data=False), loaded_ref([data[2]], 4, False)):
            same(rec, 'file without noise-free data', g, w)
    finally:
        shutil.rmtree(folder)


def check_big(rec, P, folder, names, data):
    for limit in (None, 7, 1000, 'default', 2000):
        for free in (True, False):
            kw = {} if limit == 'default' else dict(n_iter_max=limit)
            got = P.load_npz_data(folder, names, load_noise_free_data=free, **kw)
            for n, g, w in zip(KEYS, got, loaded_ref(data, 1000 if limit == 'default' else limit, free)):
                same(rec, f'{n} of large files {[d["merit_all"].shape for d in data]} with {kw}', g, w)
            rec.step()
            rec.state('big', str(limit), free, tuple(d['merit_all'].shape for d in data))


def plots(case, rec, P):
    import matplotlib.pyplot as plt
    folder = tempfile.mkdtemp(prefix='verif-c20-')
    first = True
    try:
        for rest in itertools.product(range(len(RUNS)), repeat=2 if case['triple'] else 1):
            runs = np.array([RUNS[case['i']]] + [RUNS[j] for j in rest], float)
            for three in (False, True):
                data = runs if not three else np.stack([runs, runs[::-1] * 2])
                for m, area in itertools.product(('min', 'max'), (False, True)):
                    plt.close('all')
                    keep = data.copy()
                    kw = dict(fig_name2save=os.path.join(folder, 'f.png')) if first else {}
                    if first:       # the figure is written once per case (slow)
                        kw['xlim'] = [0, 3]
                    P.plt_conv_nx0(False, 'y', data, b_plt_area=area, str_data_minmax=m, label_vec=['a', 'b'], **kw)
                    rec.check(np.array_equal(keep, data, equal_nan=True), 'the data was changed by the plot')
                    if first:
                        rec.check(os.path.getsize(os.path.join(folder, 'f.png')) > 0, 'figure is written')
                        first = False
                    ax = plt.gcf().axes[0]
                    d3 = data if three else data[None]
                    want = [best_ref(r, m) for c in d3 for r in c]
                    lines = ax.get_lines()
                    rec.check(len(lines) == len(want), f'{len(lines)} lines drawn for {len(want)} runs')
                    for ln, w in zip(lines, want):
                        same(rec, f'line drawn ({m})', np.array(ln.get_ydata(), float), w)
                        same(rec, 'iterations of the line', np.array(ln.get_xdata(), float), np.arange(4.0))
                    if area:
                        for i, poly in enumerate(ax.collections):
                            b = np.array([best_ref(r, m) for r in d3[i]])
                            ok = [t for t in range(4) if not np.any(np.isnan(b[:, t]))]
                            v = np.vstack([p.vertices for p in poly.get_paths()]) if poly.get_paths() else np.zeros((0, 2))
                            for t in ok:
                                if not {t - 1, t + 1} & set(ok):
                                    continue
                                y = v[np.isclose(v[:, 0], t), 1]
                                rec.check(y.size and np.isclose(y.min(), b[:, t].min()) and np.isclose(y.max(), b[:, t].max()),
                                          lambda: f'area at iteration {t}: {y.tolist()}, runs are {b[:, t].tolist()}')
                    rec.step()
                    rec.state('plot', case['i'], rest, three, m, area)
    finally:
        plt.close('all')
        shutil.rmtree(folder)
