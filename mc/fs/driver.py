"""Saves histories with the real code while shim.so records every change of the scratch directory.
Commands (JSON) on stdin, answers on stdout; runs with LD_PRELOAD=shim.so."""
import contextlib
import ctypes
import gc
import io
import json
import os
import sys
import warnings

warnings.simplefilter('ignore')
out = os.fdopen(os.dup(1), 'w')
import numpy as np
import domain as D
import gpgradpy

lib = ctypes.CDLL(None)
lib.ct_data.restype = ctypes.c_void_p
lib.ct_size.restype = ctypes.c_size_t
SRC = os.path.dirname(gpgradpy.__file__)


def history(cfg, folder, size, version, custom=None):
    """A session whose history depends on the version: size iterations."""
    c = D.Cfg(cfg)
    gp = D.set_data(D.new_gp(c, path=os.path.join(folder, 'h')), c)
    gp.init_optz_surr(size)
    vf, vg = c.noise_hp()
    for i in range(size):
        gp.store_new_para_surr(i, gp.make_hp_class(beta=np.array([version + 0.001 * i]), theta=c.theta * (1 + version + i), kernel=c.alpha, varK=1.0 + version + i / 7,
                                                   var_fval=vf, var_fgrad=vg), None, 1e3 + version, 0.1 * version, 0.2, 0.3)
    return gp


def save(cmd, gp):
    if cmd['kind'] == 'npz':
        gp.export_data_surr()
    elif cmd['kind'] == 'named':
        gp.export_data_surr(True, os.path.join(cmd['dir'], 'c.npz'), os.path.join(cmd['dir'], 'c_prev.npz'))
    elif cmd['kind'] == 'txt':
        gp.get_txt_info_surr(False, True)
    else:
        raise ValueError(cmd['kind'])


class Interrupt(KeyboardInterrupt):
    pass


def traced(n, everywhere):
    """Raises a keyboard interrupt at the n-th executed line (None: only counts)."""
    cnt = [0]

    def loc(frame, event, arg):
        if event == 'line':
            if cnt[0] == n:
                cnt[0] += 1
                raise Interrupt()
            cnt[0] += 1
        return loc

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(SRC) or (everywhere and ('zipfile' in f or 'numpy' in f)):
            return loc
        return None
    return cnt, glob


sessions = {}
for line in sys.stdin:
    cmd = json.loads(line)
    ans = {}
    with contextlib.redirect_stdout(io.StringIO()):
        if cmd['do'] == 'content':          # what a complete history of this version is
            gp = history(cmd['cfg'], cmd['dir'], cmd['size'], cmd['version'])
            gc.collect()
            gc.freeze()
            ans = dict(text=gp.get_txt_info_surr(False, False),
                       data={k: [list(np.shape(v)), np.asarray(v, float).tobytes().hex()] for k, v in gp.export_data_surr(False).items()})
        elif cmd['do'] == 'save':
            key = (cmd['dir'], cmd.get('keep'))
            if not cmd.get('keep') or key not in sessions:
                sessions.clear()
                sessions[key] = (history(cmd['cfg'], cmd['dir'], cmd['size'], cmd['version']), cmd['version'])
            gp, v = sessions[key]
            assert v == cmd['version']
            at, err = cmd.get('fail') or (-1, 0)
            cnt, tr = traced(cmd.get('line'), cmd.get('everywhere', False))
            lib.ct_start(cmd['dir'].encode(), at, err)
            try:
                if 'line' in cmd:
                    sys.settrace(tr)
                save(cmd, gp)
                ans['error'] = None
            except BaseException as e:
                ans['error'] = type(e).__name__
            finally:
                sys.settrace(None)
                if ans['error']:
                    gc.collect()        # files that an error left open are closed now, while still recorded
                ans['count'] = lib.ct_stop()
            ans['lines'] = cnt[0]
            ans['log'] = ctypes.string_at(lib.ct_data(), lib.ct_size()).hex() if lib.ct_size() else ''
    out.write(json.dumps(ans) + '\n')
    out.flush()
