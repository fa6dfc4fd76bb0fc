"""Bounded exhaustive explorer.

A property module enumerates *every* case of a finite, explicitly bounded space
(a case is a configuration, an operation sequence or a crash point) and drives
the real code and the reference model through it in lockstep.  Nothing is
sampled: the enumeration order is fixed and the whole space is always visited,
unless a violation is found (the rest is then still visited, reports are
limited).
"""
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
from contextlib import redirect_stdout

VERIF = os.environ.get('VERIF_DIR') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MAX_REPORT = int(os.environ.get("VERIF_MAX_REPORT", "5"))
CASE_TIMEOUT = 150
NO_RESULT = 'no result after'
SLOW = None


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


class Rec:
    """What one case visited and compared."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.compared = 0
        self.traces = 0
        self.maxerr = 0.0
        self.sample = None
        self.skipped = {}
        self.keys = []

    def state(self, *key):
        self.states.add(int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), 'big'))

    def step(self, n=1):
        self.transitions += n

    def skip(self, why):
        self.skipped[why] = self.skipped.get(why, 0) + 1

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        self.compared += 1
        if not bool(cond):
            raise Violation(msg() if callable(msg) else msg)

    def close(self, name, got, want, rtol=1e-9, atol=1e-12, scale=None):
        """got equals want: |got - want| <= atol + rtol * max(scale, |want|)."""
        import numpy as np
        got, want = np.asarray(got), np.asarray(want)
        self.compared += int(max(1, want.size))
        if got.shape != want.shape:
            raise Violation(f'{name}: shape {got.shape}, expected {want.shape}')
        if got.size == 0:
            return
        if np.iscomplexobj(got):
            raise Violation(f'{name}: complex result')
        got = got.astype(float)
        want = want.astype(float)
        s = max(float(np.max(np.abs(want[np.isfinite(want)]), initial=0.0)), 0.0 if scale is None else float(scale))
        bad = ~(np.abs(got - want) <= atol + rtol * s)
        bad &= ~((got == want) | (np.isnan(got) & np.isnan(want)))
        if np.any(bad):
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            raise Violation(f'{name}{list(i)}: got {got[i]!r}, expected {want[i]!r} (tolerance {atol + rtol * s:.2e}, '
                            f'{int(np.sum(bad))} of {bad.size} entries differ)')
        d = np.abs(got - want)
        d = d[np.isfinite(d)]
        if d.size:
            self.maxerr = max(self.maxerr, float(np.max(d)) / max(atol + rtol * s, 1e-300))

    def raises(self, name, fun, types=(Exception,)):
        self.compared += 1
        try:
            out = fun()
        except types:
            return
        raise Violation(f'{name}: accepted instead of being rejected (returned {str(out)[:80]})')


def _jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): _jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    return o


def run_one(mod, case, timeout=CASE_TIMEOUT):
    """Returns (Rec, message or None)."""
    rec = Rec()
    msg = None
    # processor time, so that a busy machine is no reason for a verdict; the wall clock only catches a case that sleeps
    old = [signal.signal(s, _alarm) for s in (signal.SIGPROF, signal.SIGALRM)]
    signal.setitimer(signal.ITIMER_PROF, timeout)
    signal.alarm(5 * timeout)
    try:
        with redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.run_case(case, rec)
        rec.traces += 1
    except Violation as e:
        msg = str(e)
    except CaseTimeout:
        msg = f'{NO_RESULT} {timeout} s of processor time'
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        repo = [f for f in tb if f.filename.startswith(REPO)]
        if not repo and isinstance(e, (AttributeError, ImportError, NameError)) and 'NoneType' not in str(e):
            raise          # the interface our machinery binds to is missing: no answer, never a violation
        f = (repo or tb)[-1]
        msg = (f'{type(e).__name__} raised where a result is required: {str(e).strip().splitlines()[:1]} '
               f'at {os.path.basename(f.filename)}:{f.lineno}')
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        signal.signal(signal.SIGPROF, old[0])
        signal.signal(signal.SIGALRM, old[1])
    return rec, msg


def _worker(args):
    global SLOW
    modname, cases = args
    mod = importlib.import_module(modname)
    out = []
    for idx, case in cases:
        rec, msg = run_one(mod, case, SLOW or CASE_TIMEOUT)
        if msg is not None and msg.startswith(NO_RESULT):
            SLOW = 25               # a violation is certain by now; the others should not use up the time of the check
        out.append((idx, rec, msg))
    return out


def load_known(prop):
    """known_findings.txt: 'finding: property=<id> case=<regex of the case key> <text>' lines suppress,
    'fixed: ...' lines never do."""
    path = os.path.join(VERIF, 'known_findings.txt')
    known = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:') and f'property={prop} ' in line:
                rest = line.split(f'property={prop} ', 1)[1]
                key, _, text = rest.partition(' ')
                assert key.startswith('case='), line
                known.append((key[5:], text))
    return known


def case_key(case):
    return json.dumps(_jsonable(case), sort_keys=True, separators=(',', ':'))


def main(prop, tier, replay=None):
    t0 = time.time()
    modname = 'props.' + prop.lower()
    mod = importlib.import_module(modname)
    if replay:
        case = json.load(open(replay))['case']
        rec, msg = run_one(mod, case)
        print('replay:', 'VIOLATION ' + msg if msg else 'held')
        return 1 if msg else 0

    cases = list(mod.cases(tier))
    n = len(cases)
    jobs = int(os.environ.get('VERIF_JOBS', '8'))
    chunk = getattr(mod, 'CHUNK', None) or max(1, min(200, n // (jobs * 6) + 1))
    order = list(enumerate(cases))
    weight = getattr(mod, 'weight', None)
    if weight:
        order.sort(key=lambda ic: -weight(ic[1]))
    groups = getattr(mod, 'group', None)
    if groups:              # cases that share an expensive warm-up stay in one worker
        by = {}
        for ic in order:
            by.setdefault(groups(ic[1]), []).append(ic)
        chunks = list(by.values())
    else:
        stride = (n + chunk - 1) // chunk
        chunks = [order[i::stride] for i in range(stride)]
    total = Rec()
    violations = []
    samples = []
    ctx = mp.get_context('fork')
    with ctx.Pool(min(jobs, max(1, len(chunks)))) as pool:
        for res in pool.imap_unordered(_worker, [(modname, c) for c in chunks]):
            for idx, rec, msg in res:
                total.states |= rec.states
                total.transitions += rec.transitions
                total.compared += rec.compared
                total.traces += rec.traces
                total.maxerr = max(total.maxerr, rec.maxerr)
                for k, v in rec.skipped.items():
                    total.skipped[k] = total.skipped.get(k, 0) + v
                if rec.sample is not None:
                    samples.append((idx, rec.sample))
                if msg is not None:
                    violations.append((idx, msg))
    violations.sort()
    samples.sort(key=lambda s: s[0])
    step = max(1, len(samples) // 6)
    import re
    known = load_known(prop)
    hit = {}
    fresh = []
    for idx, msg in violations:
        key = case_key(cases[idx])
        for k, text in known:
            if re.search(k, key):
                hit[k] = text
                break
        else:
            fresh.append((idx, msg))
    rdir = os.path.join(VERIF, 'replays')
    reported = []
    if fresh:
        os.makedirs(rdir, exist_ok=True)
    for idx, msg in fresh[:MAX_REPORT]:
        key = case_key(cases[idx])
        p = os.path.join(rdir, f'{prop}-{hashlib.sha1(key.encode()).hexdigest()[:10]}.json')
        json.dump({'property': prop, 'case': _jsonable(cases[idx]), 'violation': msg}, open(p, 'w'), indent=1)
        print(f'VIOLATION property={prop} replay={p}')
        print(f'  {msg}')
        reported.append({'replay': p, 'what': msg})
    for k, text in hit.items():
        print(f'KNOWN-FINDING: property={prop} {text}')
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': {
            'states': len(total.states), 'transitions': total.transitions,
            'traces_validated_against_impl': total.traces,
            'values_compared': total.compared,
            'largest_difference_over_tolerance': total.maxerr,
            'exhaustive': True, 'bounds': mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
            'samples': [s for _, s in samples[::step]][:8] or [_jsonable(c) for c in cases[:3]],
        },
        'wall_s': round(wall, 2),
        'assumptions': mod.ASSUMPTIONS,
        'violations': len(fresh),
    }
    if reported:
        ev['coverage']['violation_reports'] = reported
    if total.skipped:
        ev['coverage']['excluded_by_precondition'] = total.skipped
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    json.dump(_jsonable(ev), open(os.path.join(edir, f'{prop}.json'), 'w'), indent=1)
    print(f'{prop} {tier}: {n} cases, {len(total.states)} states, {total.transitions} transitions, '
          f'{total.compared} comparisons, max diff/tol {total.maxerr:.1e}, {len(fresh)} violations, {wall:.1f} s')
    if total.skipped:
        print('  excluded by precondition:', total.skipped)
    return 1 if fresh else 0
