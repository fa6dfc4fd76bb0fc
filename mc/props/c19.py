"""Textual reports against the state they describe."""
import ast
import contextlib
import io
import itertools
import os
import shutil
import tempfile
import numpy as np
import domain as D

BOUNDS = {
    'quick': 'options: kernels(3) x (6 methods with gradients, gradient-free) x stages {constructed, data without noise, known noise, unknown noise of values, of gradients, of '
             'both} x every reported option changed alone (38 changes) ; tables: all sequences of length <= 3 (2 in some dimensions) over store (3 slots x 2 hyperparameter sets, with and without optimiser '
             'information), restore, truncate, load into a new session, new data with another noise mode, for kernels x methods x dimensions 1..5 x noise modes; optimised histories '
             'for kernels x methods',
    'thorough': 'length <= 4',
}
ASSUMPTIONS = ['the tables of the history are requested after the history was initialised', 'numbers are compared to the precision the report prints (4 decimals, options 1 to 2)',
               'layout, order of the lines and wording are not compared, only names, numbers and column titles']
CHUNK = 4
OPTS = dict(optz_mtd='trust-constr', optz_n_x0=7, optz_iter_max=123, optz_tol_obj=3e-7, optz_tol_x=5e-8, optz_log_hp_theta=False, optz_log_hp_var=False, optz_log_hp_kernel=False,
            lkd_optz_start_mtd='lhs', lkd_hp_best_n_eval=17, lkd_varK_pnlt_use=True, lkd_varK_pnlt_lb_var=0.37, lkd_varK_pnlt_c1=4.5, lkd_varK_pnlt_c2=31.0,
            hp_const_n_eval=3, hp_lhs_bound_factor=250.0, hp_box_bound_factor=4e6, hp_median_n_idx=9, hp_theta_init=0.6, hp_varK_init=2.2, hp_kernel_init=1.9, hp_var_fval_init=0.015,
            hp_var_fgrad_init=0.027, hp_theta_range=[2e-9, 7e8], hp_varK_range=[3e-7, 6e6], hp_kernel_range=[4e-3, 8e2], hp_var_fval_range=[5e-6, 9e4], hp_var_fgrad_range=[6e-5, 3e5],
            cond_eta_set_mtd='Kbase_eta_w_dim', cond_eta_is_const=False, cond_eta_dflt=3e-6, cond_max_target=4.2e7, cond_max=6.4e8, cond_max_abs=8.3e14, cond_norm='fro',
            cond_dist_min_dflt=3, cond_dist_max_dflt=6, cond_vreq_max_iter=8, cond_vreq_iter_tol=0.42, surr_name='nlc3_')
KEYS = list(OPTS) + ['dim', 'use_grad', 'wellcond_mtd', 'kernel_type', 'mean_fun_type', 'b_has_noisy_data', 'b_optz_var_fval', 'b_optz_var_fgrad', 'lkd_optz_start_avail']
STAGES = {'new': None, 'zero': ('zero', 'zero'), 'known': ('pp', 'pp'), 'fval': ('unk', 'zero'), 'fgrad': ('pp', 'unk'), 'both': ('unk', 'unk')}
NMAX = 4


def cases(tier):
    for k in D.KERNELS:
        for g, w in [(True, w) for w in D.METHODS] + [(False, 'base')]:
            for s in STAGES:
                if g or s != 'fgrad':
                    yield dict(part='options', k=k, w=w, g=g, s=s)
            for d in range(1, 6):
                for s in list(STAGES)[1:]:
                    if g or s != 'fgrad':
                        yield dict(part='tables', k=k, w=w, g=g, d=d, s=s, depth=4 if tier == 'thorough' and d in (2, 4) else (3 if d == 2 or (d == 4 and s == 'both') or tier == 'thorough' else 2))
            yield dict(part='empty', k=k, w=w, g=g)
            for s in ('zero', 'both'):
                yield dict(part='optz', k=k, w=w, g=g, d=2, s=s)


def weight(c):
    return {'tables': 4 ** c.get('depth', 0), 'optz': 60}.get(c['part'], 10)


def same(rec, key, text, want):
    """Does the text state the value?"""
    if isinstance(want, list) and len(want) == 2 and not isinstance(want[0], str):
        a = [p for p in text.split(' - ')]
        rec.check(len(a) == 2 and all(np.isclose(float(x), y, rtol=0.06, equal_nan=True) for x, y in zip(a, want)), lambda: f'option {key} reported as {text}, is {want}')
        return
    try:
        val = ast.literal_eval(text)
    except (ValueError, SyntaxError):
        val = float(text) if text in ('nan', 'inf', '-inf') else text
    if isinstance(want, (bool, str, type(None), list)) or isinstance(val, (bool, str, type(None))):
        if isinstance(want, float) and np.isnan(want):
            rec.check(isinstance(val, float) and np.isnan(val), lambda: f'option {key} reported as {text}, is {want}')
            return
        rec.check(type(val) is type(want) and val == want, lambda: f'option {key} reported as {text}, is {want}')
    else:
        rec.check(np.isclose(val, want, rtol=6e-3, atol=0, equal_nan=True), lambda: f'option {key} reported as {text}, is {want}')


def parse_options(text):
    out = {}
    for l in text.splitlines():
        if ' = ' in l:
            a, b = l.split(' = ', 1)
            out[a.strip()] = b.strip()
    return out


def parse_table(text, title):
    """Column titles and rows of the table that follows the title."""
    lines = text.split(title, 1)[1].splitlines()
    rows = []
    for l in lines:
        if l.startswith('|'):
            rows.append(l)
        elif rows:
            break
    cut = lambda l: [p.strip() for p in l.strip().strip('|').split('|')]
    head = [p.strip() for p in rows[0].strip()[1:-1].split('|')]
    return head, [[num(v) for v in cut(r)] for r in rows[2:]]


def num(s):
    s = s.strip()
    if s in ('True', 'False'):
        return float(s == 'True')
    return float('nan') if s in ('nan', '') else float(s)


def quiet(gp, f, show):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        t = f(print2screen=show)
    return t, buf.getvalue()


def snapshot(gp):
    """Everything a user can see of the state."""
    out = {k: (list(v) if isinstance(v, list) else v) for k in KEYS for v in [getattr(gp, k)]}
    if gp.__dict__.get('hp_theta_all') is not None:
        out.update({k: np.copy(v) for k, v in gp.export_data_surr(save2file=False).items()})
    h = getattr(gp, 'hp_vals', None)
    out['hp'] = None if h is None else repr(h)
    return out


def unchanged(rec, a, b):
    for k in a:
        s = np.array_equal(a[k], b[k], equal_nan=True) if isinstance(a[k], np.ndarray) else (a[k] == b[k] or a[k] != a[k])
        rec.check(s, f'the report changed {k}')


def check_options(gp, rec, expect):
    before = snapshot(gp)
    text, out = quiet(gp, gp.info_surr_options, False)
    rec.check(out == '', 'printed although not requested')
    shown, out = quiet(gp, gp.info_surr_options, True)
    rec.check(shown == text and text.strip() in out, 'the printed report is not the returned one')
    unchanged(rec, before, snapshot(gp))
    got = parse_options(text)
    for k, v in expect.items():
        rec.check(k in got, f'option {k} is not reported')
        same(rec, k, got[k], v)
    rec.step()


def run_options(case, rec):
    k, w, g, s = case['k'], case['w'], case['g'], case['s']
    pair = STAGES[s]
    c = D.Cfg(dict(k=k, w=w, g=g, nf=pair[0], ng=pair[1] if g else 'zero') if pair else dict(k=k, w=w, g=g))
    gp = D.new_gp(c)
    if pair:
        D.set_data(gp, c)
    uf, ug = (None, None) if not pair else (pair[0] == 'unk', bool(g and pair[1] == 'unk'))
    noisy = None if not pair else (pair[0] != 'zero' or bool(g and pair[1] != 'zero'))
    base = dict(dim=c.d, use_grad=g, wellcond_mtd=w, kernel_type=k, mean_fun_type='poly_ord_0', b_has_noisy_data=noisy, b_optz_var_fval=uf, b_optz_var_fgrad=ug,
                lkd_optz_start_avail=['hp_best', 'lhs'], cond_max_target=c.ct)
    for o in OPTS:
        base.setdefault(o, getattr(gp, o))
    check_options(gp, rec, base)
    rec.state('options', repr(case))
    for o, v in OPTS.items():
        old = getattr(gp, o)
        setattr(gp, o, v)
        check_options(gp, rec, dict(base, **{o: v}))
        setattr(gp, o, old)
        rec.state('options', repr(case), o)


def column(rec, head, rows, title, want, rtol):
    js = [j for j, h in enumerate(head) if h == title]
    rec.check(len(js) == 1, lambda: f'column {title!r} appears {len(js)} times in {head}')
    got = [r[js[0]] for r in rows]
    want = np.asarray(want, float)
    ok = len(got) == want.size and all((np.isnan(a) and np.isnan(b)) or abs(a - b) <= rtol * abs(b) + 1e-300 for a, b in zip(got, want))
    rec.check(ok, lambda: f'column {title!r} states {got}, the history holds {want.tolist()}')


def check_tables(gp, rec, model, c, tmp):
    """model: iteration -> dict of expected values (independent bookkeeping)."""
    before = snapshot(gp)
    n = model['n']

    def col(name):
        return np.array([model['rows'].get(i, {}).get(name, np.nan) for i in range(n)], float)
    th = np.array([model['rows'].get(i, {}).get('theta', np.full(c.d, np.nan)) for i in range(n)], float).reshape(n, c.d)
    texts = {}
    for nm in ('info_surr_summary', 'info_surr_theta', 'info_surr_optz', 'info_surr_all_data'):
        t, out = quiet(gp, getattr(gp, nm), False)
        rec.check(out == '', f'{nm} printed although not requested')
        t2, out = quiet(gp, getattr(gp, nm), True)
        rec.check(t == t2 and (nm == 'info_surr_all_data' or t.strip() in out), f'{nm}: the printed report is not the returned one')
        texts[nm] = t
    rec.check(all(texts[a].strip() in texts['info_surr_all_data'] for a in texts), 'a table is missing in the complete report')
    head, rows = parse_table(texts['info_surr_summary'], 'hyperparameters')
    rec.check(len(rows) == n, lambda: f'{len(rows)} iterations reported, {n} exist')
    rec.check([int(r[0]) for r in rows] == list(range(n)), 'numbers of the iterations')
    p = 1e-4
    cols = [('Kernel', col('kernel')), ('Mu', col('beta')), ('varK', col('varK')), ('varK / var_f', col('ratio'))]
    if model['uf']:
        cols.append(('hp var fun', col('vf')))
    if model['ug']:
        cols.append(('hp var grad', col('vg')))
    if c.d <= 3:
        cols += [(f'theta {i}', th[:, i]) for i in range(c.d)]
    else:
        cols += [('theta min', th.min(1)), ('theta max', th.max(1)), ('theta median', np.median(th, 1))]
    rec.check(sorted(h for h in head if h) == sorted(t for t, _ in cols), lambda: f'columns {head}, expected {[t for t, _ in cols]}')
    for t, v in cols:
        column(rec, head, rows, t, v, p)
    head, rows = parse_table(texts['info_surr_theta'], 'theta')
    rec.check(len(rows) == n, 'number of iterations in the table of length scales')
    for i in range(c.d):
        column(rec, head, rows, f'th{i}', th[:, i], p)
    head, rows = parse_table(texts['info_surr_optz'], 'optimization')
    rec.check(len(rows) == n and [int(r[0]) for r in rows] == list(range(n)), 'iterations in the table of the optimisation')
    at = np.array([float(model['rows'].get(i, {}).get('cond', 0.0) >= 0.99 * gp.cond_max) for i in range(n)])
    for t, v in [('Time', col('time')), ('Success (%)', 100 * col('success')), ('Mean i', col('imean')), ('Max i', col('imax')), ('Con good %', 100 * col('good')),
                 ('Cond', col('cond')), ('At cond max?', at)]:
        column(rec, head, rows, t, v, 1e-5)
    # the complete text, on the screen and in the file
    t, out = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out):
        full = gp.get_txt_info_surr(print2screen=True, save2file=True)
    rec.check(full.strip() in out.getvalue(), 'the complete report is not printed')
    with open(gp.path_surr_txt) as f:
        rec.check(f.read().strip() == full.strip(), 'the file does not hold the complete report')
    with contextlib.redirect_stdout(io.StringIO()) as o2:
        again = gp.get_txt_info_surr(print2screen=False, save2file=False)
    rec.check(again == full and o2.getvalue() == '', 'the complete report changes when repeated, or is printed although not requested')
    with contextlib.redirect_stdout(io.StringIO()):
        opt = gp.info_surr_options(False)
    rec.check(opt.strip() in full and texts['info_surr_all_data'].strip() in full, 'the complete report does not contain its parts')
    unchanged(rec, before, snapshot(gp))
    rec.step()


def hyper(c, v):
    i = 'ab'.index(v)
    vf, vg = c.noise_hp()
    return dict(beta=np.array([0.4 - 0.7 * i]), theta=c.theta * (1 + i) + 0.11 * i, kernel=None if c.alpha is None else c.alpha + 0.7 * i, varK=2.5 + 4 * i,
                var_fval=None if vf is None else vf * (1 + i), var_fgrad=None if vg is None else vg * (1 + 2 * i))


def run_tables(case, rec):
    k, w, g, s, d = case['k'], case['w'], case['g'], case['s'], case['d']
    pairs = [STAGES[s]] + [p for p in [('unk', 'unk'), ('zero', 'zero')] if p != STAGES[s]][:1]
    cs = [D.Cfg(dict(k=k, w=w, g=g, d=d, n=3, nf=p[0], ng=p[1] if g else 'zero', ct=1e6)) for p in pairs]
    tmp = tempfile.mkdtemp(prefix='c19-')
    ops = ['s0a', 's1b', 's2a', 'n1a', 'n0b', 'r0', 'fin2', 'load', 'data']
    try:
        for L in range(case['depth'] + 1):
            for seq in itertools.product(ops, repeat=L):
                if sum(o[0] == 'r' for o in seq) > 1 or seq.count('load') > 1 or seq.count('data') > 1 or (L and seq[0] in ('r0', 'load', 'fin2')):
                    continue
                c = cs[0]
                gp = D.new_gp(c, path=os.path.join(tmp, 'h'))
                gp.init_optz_surr(NMAX)
                D.set_data(gp, c)
                m = dict(n=NMAX, rows={}, uf=c.nf == 'unk', ug=g and c.ng == 'unk')
                bad = False
                for op in seq:
                    if op[0] in 'sn':
                        i = int(op[1])
                        if i >= m['n']:
                            bad = True
                            break
                        h = hyper(c, op[2])
                        if op[0] == 's':
                            info = dict(hp_optz_success=0.75 - 0.1 * i, hp_optz_iter_mean=11.5 + i, hp_optz_iter_max=17.0 + i, hp_optz_con_good=0.5 + 0.1 * i, optz_n_cho_fail=2,
                                        optz_n_cond2big=3, optz_max_init_cond=4.5e7)
                            if m['rows'].get(i, {}).get('success') is not None:
                                pass
                            cond = 3.3e5 if i else 1e10
                            gp.store_new_para_surr(i, gp.make_hp_class(**h), info, cond, time_hp_optz=1.25 + i)
                            row = dict(success=info['hp_optz_success'], imean=info['hp_optz_iter_mean'], imax=info['hp_optz_iter_max'], good=info['hp_optz_con_good'])
                        else:
                            if 'success' in m['rows'].get(i, {}):
                                bad = True                      # statistics of an iteration stored again without any: not specified
                                break
                            cond = 7.7e4
                            gp.store_new_para_surr(i, gp.make_hp_class(**h), None, cond, time_hp_optz=2.5)
                            row = {}
                        row.update(theta=h['theta'], beta=h['beta'][0], varK=h['varK'], kernel=np.nan if h['kernel'] is None else h['kernel'],
                                   vf=np.nan if h['var_fval'] is None else h['var_fval'], vg=np.nan if h['var_fgrad'] is None else h['var_fgrad'],
                                   ratio=h['varK'] / np.var(D.fdata(c.n)), cond=cond, time=1.25 + i if op[0] == 's' else 2.5)
                        m['rows'][i] = row
                    elif op == 'r0':
                        if 0 not in m['rows'] or 'data' in seq:
                            bad = True
                            break
                        gp.set_hpara('stored', 0)
                    elif op == 'fin2':
                        gp.finish_optz_surr(2)
                        m['n'] = min(m['n'], 2)
                        m['rows'] = {i: r for i, r in m['rows'].items() if i < 2}
                    elif op == 'load':
                        gp.export_data_surr()
                        gp = D.new_gp(c, path=os.path.join(tmp, 'h'))
                        gp.init_optz_surr(m['n'])
                        D.set_data(gp, c)
                        gp.load_data_surr()
                    else:
                        c = cs[1]
                        D.set_data(gp, c)
                        m['uf'], m['ug'] = c.nf == 'unk', bool(g and c.ng == 'unk')
                if bad:
                    continue
                check_tables(gp, rec, m, c, tmp)
                rec.state('tables', repr(case), seq)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_empty(case, rec):
    """History initialised, data not set yet."""
    tmp = tempfile.mkdtemp(prefix='c19-')
    try:
        for d in (1, 2, 4):
            for n in (1, 3):
                c = D.Cfg(dict(k=case['k'], w=case['w'], g=case['g'], d=d))
                gp = D.new_gp(c, path=os.path.join(tmp, 'h'))
                gp.init_optz_surr(n)
                check_tables(gp, rec, dict(n=n, rows={}, uf=False, ug=False), c, tmp)
                rec.state('empty', repr(case), d, n)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_optz(case, rec):
    pair = STAGES[case['s']]
    c = D.Cfg(dict(k=case['k'], w=case['w'], g=case['g'], d=2, n=4, nf=pair[0], ng=pair[1] if case['g'] else 'zero', ct=1e10))
    tmp = tempfile.mkdtemp(prefix='c19-')
    try:
        gp = D.new_gp(c, path=os.path.join(tmp, 'h'), optz_iter_max=15, lkd_hp_best_n_eval=6)
        gp.init_optz_surr(3)
        D.set_data(gp, c)
        for i in range(2):
            gp.set_hpara('optz', i)
        h = gp.export_data_surr(save2file=False)
        p = gp.surr_name
        names = dict(kernel='hp_kernel_all', varK='hp_varK_all', vf='hp_var_fval_all', vg='hp_var_fgrad_all', cond='Kcov_cond_all', time='time_hp_optz_all',
                     success='hp_optz_success', imean='hp_optz_iter_mean', imax='hp_optz_iter_max', good='hp_optz_con_good')
        rows = {}
        for i in range(2):
            rows[i] = {a: h[p + b][i] for a, b in names.items()}
            rows[i].update(beta=h[p + 'hp_beta_all'][i, 0], theta=np.copy(h[p + 'hp_theta_all'][i]), ratio=h[p + 'hp_varK_all'][i] / np.var(D.fdata(c.n)))
        check_tables(gp, rec, dict(n=3, rows=rows, uf=c.nf == 'unk', ug=bool(c.g and c.ng == 'unk')), c, tmp)
        rec.state('optz', repr(case))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_case(case, rec):
    globals()['run_' + case['part']](case, rec)
    rec.sample = dict(case=case)
