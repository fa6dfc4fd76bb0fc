"""Figures of surrogates and acquisition functions: what is drawn is what was given."""
import itertools
import math
import os
import warnings
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba

BOUNDS = {
    'quick': 'surrogates: every set of parts (minimum, exact, points, mean, deviation: 2^5) x legend place {best, upper left, lower right, out} x font size {default, given} x '
             'data {7 grid points with a minimum in the middle, at an end, twice; with a deviation of zero at the points; 1 to 4 points; 2 grid points} x number of deviations {0.5, 1, 2, 3}; '
             'acquisitions: every ordered choice of 1 to 3 out of 7 functions (tied minimum, constant, large offset, ranges down to 6e-6) x scaled or not x minimum drawn or not x legend place; '
             'two figures drawn one after the other on one object and on one pair of axes',
    'thorough': 'larger products of the above (all data x all deviations), choices of 4 functions',
}
ASSUMPTIONS = ['functions without missing values; colours of one letter for acquisition functions', 'which of the legend columns and sizes are used is only compared for the legend font size']
X = {'mid': [-2, -1.2, -0.4, 0.1, 0.7, 1.5, 2.4], 'two': [0.5, 4.0]}
FUN = {'mid': [3, 1.5, 0.25, -0.75, 0.1, 1, 2], 'end': [3, 2, 1, 0.5, 0.25, 0.1, -1], 'start': [-4, 2, 1, 0.5, 0.25, 0.1, -1], 'tie': [2, -1, 0, 3, -1, 0, 2]}
ACQ = [[3, 1.5, 0.25, -0.75, 0.1, 1, 2], [-4, 2, 1, 0.5, 0.25, 0.1, -1], [2, -1, 0, 3, -1, 0, 2], [5, 5, 5, 5, 5, 5, 5], [1e4 + 1, 1e4 + 2, 1e4, 1e4 + 7, 1e4 + 3, 1e4 + 2, 1e4 + 9],
       [3e-4, 1.5e-4, 2.5e-5, -7.5e-5, 1e-5, 1e-4, 2e-4], [-4e-6, 2e-6, 1e-6, 5e-7, 2.5e-7, 1e-7, -1e-6]]
PARTS = ['b_plt_fmin', 'b_plt_exact', 'b_plt_eval', 'b_plt_surr_mu', 'b_plt_surr_sig']
LOC = {'best': 0, 'upper right': 1, 'upper left': 2, 'lower right': 4}
COL = [('g', 'palegreen'), ('r', 'pink'), ('b', 'cyan')]


def cases(tier):
    th = tier == 'thorough'
    for bits in itertools.product([False, True], repeat=5):
        for d in range(10 if th else 5):
            yield dict(part='surr', bits=list(bits), d=d, th=th)
    for n in range(1, 5 if th else 4):
        for first in range(len(ACQ)):
            yield dict(part='acq', n=n, first=first, th=th)
    for a in range(4):
        yield dict(part='twice', a=a)


def weight(c):
    return 10


def data_of(d):
    """One set of arrays for a surrogate plot."""
    if d % 5 == 4:
        x, f = X['two'], [1.0, -2.0]
    else:
        x, f = X['mid'], FUN[['mid', 'end', 'start', 'tie'][d % 5]]
    x, f = np.array(x, float)[:, None], np.array(f, float)
    k = np.arange(x.size)
    mu = f + 0.3 * np.cos(2.0 * k + d)
    sig = np.abs(0.5 * np.sin(1.0 + k * 1.7)) + 0.05
    ne = [3, 1, 4, 2, 1][d % 5]
    idx = (k[::2])[:ne]
    if d % 5 in (0, 3):
        sig[idx] = 0.0
        mu[idx] = f[idx]
    if d >= 5:                          # other magnitudes
        f, mu, sig, x = 1e3 * f + 1e4, 1e3 * mu + 1e4, 1e3 * sig, x * 1e-3
    return dict(x_model=x, obj_exa=f, xeval=x[idx], obj_xeval=f[idx], gp_mu=mu, gp_sig=sig)


class Drawn:
    """What is on the axes: curves, single markers and shaded areas."""

    def __init__(self, ax, skip_lines=0, skip_coll=0):
        self.curves, self.areas = [], []
        for ln in ax.lines[skip_lines:]:
            if not ln.get_visible():
                continue
            xy = np.column_stack([np.asarray(v, float).ravel() for v in ln.get_data()])
            mark = ln.get_marker() not in (None, 'None', '', ' ')
            line = ln.get_linestyle() not in (None, 'None', '', ' ')
            self.curves.append(dict(xy=xy, line=line, mark=ln.get_marker() if mark else None, ms=ln.get_markersize(), z=ln.get_zorder(), label=str(ln.get_label()),
                                    color=to_rgba(ln.get_color()), mcolor=to_rgba(ln.get_markerfacecolor()) if mark else None))
        for co in ax.collections[skip_coll:]:
            self.areas.append(dict(paths=[p.vertices for p in co.get_paths()], label=str(co.get_label()), color=[tuple(c[:3]) for c in co.get_facecolor()]))


def eq(a, b, tol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol * (1 + np.max(np.abs(b), initial=0))))


def pts(x, y):
    return np.column_stack([np.ravel(np.asarray(x, float)), np.ravel(np.asarray(y, float))])


def match(rec, what, drawn, want):
    """Every expected curve is there, and nothing else (the same curve may be drawn more than once)."""
    used = [False] * len(drawn.curves)
    for name, xy, kind, color, more in want:
        found = False
        for i, c in enumerate(drawn.curves):
            if not eq(c['xy'], xy) or (kind == 'line') != c['line'] or (kind == 'mark') != (c['mark'] is not None):
                continue
            if color is not None and (c['mcolor'] if kind == 'mark' else c['color']) != to_rgba(color):
                continue
            if any(c[k] != v for k, v in more.items()):
                continue
            used[i] = found = True
        rec.compared += xy.size
        if not found:
            rec.fail(f'{what}: {name} is not drawn as given; drawn: {[(c["xy"].tolist(), c["line"], c["mark"]) for c in drawn.curves][:6]}, expected {xy.tolist()}')
    for i, c in enumerate(drawn.curves):
        rec.check(used[i], lambda: f'{what}: something is drawn that was not asked for: {c["xy"].tolist()}')


def check_area(rec, what, areas, x, lo, hi, color):
    """The vertices of the area are exactly the lower and upper ends at every grid point."""
    rec.check(len(areas) == 1, f'{what}: {len(areas)} shaded areas instead of one')
    if len(areas) != 1:
        return
    v = np.vstack(areas[0]['paths'])
    want = np.vstack([pts(x, lo), pts(x, hi)])
    span = np.ptp(want, axis=0) + 1e-300
    dist = np.abs(v[:, None, :] - want[None, :, :]) / span
    d = np.max(dist, axis=2)
    rec.compared += want.size
    rec.check(np.max(np.min(d, axis=0)) < 1e-9 and np.max(np.min(d, axis=1)) < 1e-9, f'{what}: the shaded area is not the band between the given limits')
    # no end is left out: the area equals the integral of the band
    if len(areas[0]['paths']) == 1:
        p = areas[0]['paths'][0]
        a = 0.5 * abs(np.sum(p[:-1, 0] * p[1:, 1] - p[1:, 0] * p[:-1, 1]))
        rec.close(f'{what}: size of the shaded area', a, np.trapezoid(np.ravel(hi - lo), np.ravel(x)), rtol=1e-9, atol=1e-12 * np.max(np.abs(want)) ** 2)
    rec.check(all(c == tuple(to_rgba(color)[:3]) for c in areas[0]['color']), f'{what}: colour of the shaded area')


def check_legend(rec, what, ax, labels, loc, fs=None):
    leg = ax.get_legend()
    rec.check(leg is not None, f'{what}: no legend')
    if leg is None:
        return
    got = sorted(t.get_text() for t in leg.get_texts())
    rec.check(len(got) == len(labels), f'{what}: the legend has {got}, expected {len(labels)} entries')
    for key in labels:
        rec.check(any(key in t for t in got), f'{what}: the legend has no entry for {key}: {got}')
    if loc == 'out':
        box = leg.get_bbox_to_anchor().transformed(ax.transAxes.inverted())
        rec.check(box.x0 >= 1 - 1e-9, f'{what}: the legend is not outside the axes')
    else:
        rec.check(leg._get_loc() == LOC[loc] if hasattr(leg, '_get_loc') else leg._loc == LOC[loc], f'{what}: the legend is not placed at {loc}')
    if fs is not None:
        for t in leg.get_texts():
            rec.check(t.get_fontsize() == fs, f'{what}: font size of the legend {t.get_fontsize()}, expected {fs}')


def wanted_surr(D, n_sig, bits, cm, ms_e, ms_f):
    fmin, exact, ev, mu, sg = bits
    x, want, labels = D['x_model'], [], []
    if sg:
        want += [('lower limit', pts(x, D['gp_mu'] - n_sig * D['gp_sig']), 'line', None, {}), ('upper limit', pts(x, D['gp_mu'] + n_sig * D['gp_sig']), 'line', None, {})]
        labels.append('sigma')
    if exact:
        want.append(('exact function', pts(x, D['obj_exa']), 'line', 'k', {}))
        labels.append('$f(x)$')
    if mu:
        want.append(('mean of the surrogate', pts(x, D['gp_mu']), 'line', cm, {}))
        labels.append('mu_f')
    if ev:
        want.append(('evaluated points', pts(D['xeval'], D['obj_xeval']), 'mark', cm, {'ms': ms_e}))
        labels.append('eval')
    if fmin:
        i = int(np.argmin(D['obj_exa']))
        want.append(('minimum of the function', pts(x[i], D['obj_exa'][i]), 'mark', 'r', {'ms': ms_f}))
        labels.append('min')
    return want, labels


def draw_surr(rec, what, S, ax, D, n_sig, bits, loc, opt, skip=(0, 0)):
    keep = {k: v.copy() for k, v in D.items()}
    kw = dict(zip(PARTS, bits))
    if loc is not None:
        kw['legend_loc'] = loc
    cm, cs = COL[0]
    if 'col' in opt:
        cm, cs = opt['col']
        kw.update(color_mean=cm, color_std=cs)
    if 'fs' in opt:
        kw['fs_legend'] = opt['fs']
    if 'ms' in opt:
        kw.update(xeval_ms=opt['ms'][0], fmin_ms=opt['ms'][1])
    S.plot_surr(ax, D['x_model'], D['obj_exa'], D['xeval'], D['obj_xeval'], D['gp_mu'], D['gp_sig'], n_sig, **kw)
    for k in keep:
        rec.check(np.array_equal(keep[k], D[k]), f'{what}: the array {k} was changed')
    ms = opt.get('ms', (8, 14))
    want, labels = wanted_surr(D, n_sig, bits, cm, *ms)
    dr = Drawn(ax, *skip)
    match(rec, what, dr, want)
    if bits[4]:
        check_area(rec, what, dr.areas, D['x_model'], D['gp_mu'] - n_sig * D['gp_sig'], D['gp_mu'] + n_sig * D['gp_sig'], cs)
    else:
        rec.check(len(dr.areas) == 0, f'{what}: a shaded area without being asked for')
    if bits[0]:                 # the minimum stays visible: nothing is drawn after it
        rec.check(dr.curves and dr.curves[-1]['mark'] is not None and len(dr.curves[-1]['xy']) == 1 and eq(dr.curves[-1]['xy'], want[-1][1]), f'{what}: the minimum is drawn below the other parts')
    if skip == (0, 0):
        check_legend(rec, what, ax, labels, loc or 'best', opt.get('fs', S.fs_legend))
        if bits[4]:
            rec.check(any(str(n_sig) in t.get_text() and 'sigma' in t.get_text() for t in ax.get_legend().get_texts()), f'{what}: the legend does not tell the number of deviations')
    rec.state('surr', tuple(bits), what)
    rec.step()


def norm_acq(a):
    a = np.array(a, float)
    lo, hi = a.min(axis=0), a.max(axis=0)
    return (a - lo) / np.where(hi - lo > 0, hi - lo, 1.0)


def draw_acq(rec, what, S, fig, ax, x, acq, names, scl, pmin, loc, opt=None, skip=0):
    opt = opt or {}
    keep, keepx = acq.copy(), x.copy()
    kw = dict(opt)
    if loc is not None:
        kw['legend_loc'] = loc
    if scl is not None:
        kw['b_scl_data'] = scl
    if pmin is not None:
        kw['b_plt_min_acq'] = pmin
    plt.figure(fig.number)
    S.plot_acq(ax, x, acq, names, **kw)
    rec.check(np.array_equal(keep, acq) and np.array_equal(keepx, x), f'{what}: the data was changed')
    val = norm_acq(acq) if scl else acq
    cols = opt.get('color_vec', ['r', 'g', 'b'])
    want, labels = [], []
    for i in range(acq.shape[1]):
        want.append((f'function {i}', pts(x, val[:, i]), 'line', cols[i], {'label': names[i]}))
        labels.append(names[i])
        if pmin is None or pmin:
            j = int(np.argmin(acq[:, i]))
            want.append((f'minimum of function {i}', pts(x[j], val[j, i]), 'mark', cols[i], {'ms': opt.get('ms_acq_min', 14)}))
            labels.append(names[i])
    dr = Drawn(ax, skip)
    match(rec, what, dr, want)
    if skip == 0:
        check_legend(rec, what, ax, labels, loc or 'upper right')
    rec.state('acq', what)
    rec.step()


def run_case(case, rec):
    from gpgradpy.plt import SurrPlt
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            if case['part'] == 'surr':
                run_surr(case, rec, SurrPlt)
            elif case['part'] == 'acq':
                run_acq(case, rec, SurrPlt)
            else:
                run_twice(case, rec, SurrPlt)
        finally:
            plt.close('all')


def run_surr(case, rec, SurrPlt):
    bits, d, S = case['bits'], case['d'], SurrPlt()
    sigs = [0.5, 1, 2, 3]
    locs = [None, 'upper left', 'lower right', 'out']
    opts = [{}, {'fs': 7}, {'col': COL[1]}, {'ms': (5, 11)}, {'col': COL[2], 'fs': 9, 'ms': (6, 12)}]
    if case['th']:
        combos = list(itertools.product(range(4), range(4), range(5)))
    else:
        combos = [(i, (i + j) % 4, (i + 2 * j) % 5) for i in range(4) for j in range(5)]
    for a, b, o in combos:
        fig, ax = plt.subplots()
        draw_surr(rec, f'data {d} n_sig {sigs[a]} legend {locs[b]} options {opts[o]}', S, ax, data_of(d), sigs[a], bits, locs[b], opts[o])
        plt.close(fig)


def run_acq(case, rec, SurrPlt):
    x, S = np.array(X['mid'], float)[:, None], SurrPlt()
    names = ['mean', 'lower', 'improve', 'other', 'last', 'small', 'tiny']
    rest = [i for i in range(len(ACQ)) if i != case['first']]
    for more in itertools.permutations(rest, case['n'] - 1):
        idx = (case['first'],) + more
        acq = np.array([ACQ[i] for i in idx], float).T
        nm = [names[i] for i in idx]
        for k, (scl, pmin, loc) in enumerate(itertools.product([None, False, True], [None, False, True], [None, 'upper left', 'lower right', 'out'])):
            if not case['th'] and case['n'] == 3 and k % 12 != sum(idx) % 12:
                continue
            opt = {} if k % 2 == 0 and case['n'] <= 3 else {'color_vec': ['m', 'k', 'c', 'y'], 'ms_acq_min': 9}
            fig, ax = plt.subplots()
            draw_acq(rec, f'functions {idx} scaled {scl} minimum {pmin} legend {loc}', S, fig, ax, x, acq, nm, scl, pmin, loc, opt)
            plt.close(fig)


def run_twice(case, rec, SurrPlt):
    """One object used for several figures, and several surrogates on one pair of axes."""
    a, S = case['a'], SurrPlt()
    for b in range(4):
        for bits in ([True] * 5, [False, True, True, True, False], [True, False, False, True, True]):
            fig, (ax1, ax2) = plt.subplots(2, sharex=True)
            d1, d2 = data_of(a), data_of(b)
            draw_surr(rec, f'first of two figures {a}', S, ax1, d1, 2, bits, None, {})
            n = (len(ax1.lines), len(ax1.collections))
            draw_surr(rec, f'second of two figures {b} after {a}', S, ax2, d2, 1, bits, 'out', {'col': COL[1]})
            rec.check((len(ax1.lines), len(ax1.collections)) == n, 'drawing on one pair of axes changed another')
            draw_surr(rec, f'{b} on the axes of {a}', S, ax1, d2, 3, bits, None, {'col': COL[2]}, skip=n)
            acq = np.array([ACQ[a], ACQ[b]], float).T
            m = len(ax2.lines)
            draw_acq(rec, f'acquisitions on the axes of {b}', S, fig, ax2, np.array(X['mid'], float)[:, None], acq, ['one', 'two'], True, True, None, skip=m)
            plt.close(fig)
