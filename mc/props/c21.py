"""Every way of interrupting a save: crash at every operation, torn write, failing operation, interrupt at every line.

The real code runs once under a shim that records the operations on the scratch directory; a model of the directory
(files, inodes) replays every prefix of the recording, with torn writes, and the files of each such state are read back
with the real code.  The model is bound to the implementation by comparing its final state with the directory."""
import errno
import hashlib
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import numpy as np
import core
import domain as D

BOUNDS = {
    'quick': 'files: history (default names), history (given names), text report; 3 configurations; chains of 3 saves of histories of 2, 30 and 5 iterations in all orders, a crash after every '
             'operation and inside every write (1st byte, every 512 bytes, last byte) of every save, each restarted up to the last save; every operation failing (ENOSPC, EIO, EACCES) or writing '
             'only half, each followed by a repetition; keyboard interrupt at every executed line of the package, each followed by a repetition',
    'thorough': 'chains of 4 saves, torn writes every 64 bytes, interrupts also at every line of numpy and zipfile',
}
ASSUMPTIONS = ['a crash ends the process; what was passed to the operating system before is kept in order (no power failure, nothing is flushed to disk explicitly)',
               'a file of the history is readable when the real code loads it and every array is the one of a saved version; the text report when it is one of the saved texts',
               'when an operation fails and saving reports no error, the main file has to be the new one']
CFG = [dict(k='SqExp', w='precon', g=True, nf='zero', ng='zero', n=4, d=2), dict(k='RatQu', w='base', g=True, nf='unk', ng='unk', n=3, d=3),
       dict(k='Ma5f2', w='base', g=False, nf='uni', ng='zero', n=3, d=1)]
MAIN = dict(npz='h.npz', named='c.npz', txt='h.txt')
BACK = dict(npz='h_old.npz', named='c_prev.npz', txt='h_old.txt')
NMAX = 40
CHUNK = 1


def cases(tier):
    th = tier == 'thorough'
    for kind in MAIN:
        for i in range(len(CFG)):
            for sizes in itertools.permutations((2, 30, 5)):
                sz = list(sizes) + [11] * th
                yield dict(mode='crash', kind=kind, cfg=i, sizes=sz, block=64 if th else 512)
            for sizes in ((2, 30, 5), (30, 5, 2), (5, 2, 30)):
                yield dict(mode='fail', kind=kind, cfg=i, sizes=list(sizes), all=th)
            yield dict(mode='line', kind=kind, cfg=i, sizes=[30, 5, 2], everywhere=False)
            if th:
                yield dict(mode='line', kind=kind, cfg=i, sizes=[5, 2, 3], everywhere=True)


def weight(c):
    return dict(crash=50, fail=30, line=300 if c.get('everywhere') else 20)[c['mode']]


# ---------------------------------------------------------------- the driver and the model of the directory

class Server:
    def __init__(self, tmp):
        here = os.path.join(core.VERIF, 'mc')
        so = os.path.join(tmp, 'shim.so')
        r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', so, os.path.join(here, 'fs', 'shim.c'), '-ldl'], capture_output=True)
        if r.returncode:
            raise AttributeError('shim does not compile: ' + r.stderr.decode()[:300])
        env = dict(os.environ, LD_PRELOAD=so, NUMBA_DISABLE_JIT='1', PYTHONPATH=os.pathsep.join([here, core.REPO]), PYTHONDONTWRITEBYTECODE='1')
        self.p = subprocess.Popen([sys.executable, os.path.join(here, 'fs', 'driver.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True)

    def ask(self, **cmd):
        self.p.stdin.write(json.dumps(cmd) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise AttributeError('the saving process ended')        # machinery, not a verdict
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait()
        self.p.stdout.close()


def parse(log):
    """Recorded operations: (kind, a, b, path, path2, data)."""
    raw = bytes.fromhex(log)
    i, out = 0, []
    while i < len(raw):
        j = raw.index(b'\n', i)
        kind, a, b, n1, n2, n = raw[i:j].split(b' ')
        n1, n2, n = int(n1), int(n2), int(n)
        i = j + 1
        out.append((kind.decode(), int(a), int(b), os.path.normpath(raw[i:i + n1].decode()), os.path.normpath(raw[i + n1:i + n1 + n2].decode()), raw[i + n1 + n2:i + n1 + n2 + n]))
        i += n1 + n2 + n
    return out


class Dir:
    """Names -> inodes -> contents."""

    def __init__(self, root, names=None, data=None):
        self.root, self.names, self.data = root, names or {}, data or {}

    @classmethod
    def read(cls, root):
        d = cls(root)
        for f in sorted(os.listdir(root)):
            p = os.path.join(root, f)
            i = os.stat(p).st_ino
            d.names[p] = i
            d.data[i] = open(p, 'rb').read()
        return d

    def copy(self):
        return Dir(self.root, dict(self.names), dict(self.data))

    def files(self):
        return {os.path.relpath(p, self.root): self.data[i] for p, i in self.names.items()}

    def apply(self, op, cut=None):
        kind, a, b, p, q, data = op
        if kind == 'o':
            if self.names.get(p) != a:
                self.names[p] = a
                self.data[a] = b''
            elif b:
                self.data[a] = b''
        elif kind == 'w':
            data = data if cut is None else data[:cut]
            old = self.data[a]
            if len(old) < b:
                old = old + b'\0' * (b - len(old))
            self.data[a] = old[:b] + data + old[b + len(data):]
        elif kind == 't':
            self.data[a] = self.data[a][:b].ljust(b, b'\0')
        elif kind == 'T':
            i = self.names[p]
            self.data[i] = self.data[i][:b].ljust(b, b'\0')
        elif kind == 'r':
            if p not in self.names:
                raise AttributeError(f'operation outside the model: {kind} {p} {q}')
            i = self.names.pop(p)
            if q.startswith(self.root + os.sep):
                self.names[q] = i
        elif kind == 'x':
            self.names[p], self.names[q] = self.names[q], self.names[p]
        elif kind == 'l':
            self.names[q] = self.names[p]
        elif kind == 'u':
            self.names.pop(p)
        elif kind not in 'sc':
            raise AttributeError(f'operation outside the model: {kind} {p} {q}')
        return self


def states(start, ops, block):
    """All states in which a crash can leave the directory, with a description; the last one is the complete run."""
    d = start.copy()
    yield 'before the first operation', True, d.files()
    for n, op in enumerate(ops):
        if op[0] in 'sc':
            continue
        if op[0] == 'w':
            size = len(op[5])
            cuts = sorted({c for c in (1, size - 1, *range(block, size, block)) if 0 < c < size})
            for c in cuts:
                yield f'after {c} of {size} bytes of write {n}', c in (1, cuts[len(cuts) // 2]), d.copy().apply(op, c).files()
        d.apply(op)
        yield f'after operation {n} ({op[0]} {os.path.basename(op[3])} {os.path.basename(op[4])})', True, d.files()


class Session:
    def __init__(self, case, rec, tmp):
        self.case, self.rec, self.kind = case, rec, case['kind']
        self.cfg = dict(CFG[case['cfg']])
        self.dir = os.path.join(tmp, 'work')
        self.reader = os.path.join(tmp, 'read')
        os.mkdir(self.dir)
        os.mkdir(self.reader)
        self.server = Server(tmp)
        self.c = D.Cfg(self.cfg)
        self.want = []
        for v, n in enumerate(case['sizes']):
            w = self.server.ask(do='content', cfg=self.cfg, dir=self.dir, size=n, version=v)
            self.want.append((n, w['text'], {k: np.frombuffer(bytes.fromhex(b)).reshape(a) for k, (a, b) in w['data'].items()}))
        rec.check(len({w[1] for w in self.want}) == len(self.want), 'texts of the versions differ')
        self.cache = {}

    # -- what a file holds, decided by the real code
    def version(self, name, content):
        if content is None:
            return None
        key = (name == MAIN[self.kind], hashlib.blake2b(content, digest_size=16).digest())
        if key not in self.cache:
            self.cache[key] = self.read(name, content)
        return self.cache[key]

    def read(self, name, content):
        if self.kind == 'txt':
            for v, (n, text, data) in enumerate(self.want):
                if content == text.encode():
                    return v
            return None
        # no name but the one under test exists in this directory
        for f in os.listdir(self.reader):
            os.remove(os.path.join(self.reader, f))
        path = os.path.join(self.reader, 'h.npz')
        with open(path, 'wb') as f:
            f.write(content)
        gp = D.set_data(D.new_gp(self.c, path=os.path.join(self.reader, 'h')), self.c)
        gp.init_optz_surr(NMAX)
        try:
            if name == 'h.npz':
                gp.load_data_surr()
            else:
                with np.load(path) as z:
                    gp.load_data_surr({k: z[k] for k in z.files})
        except Exception:
            return None
        got = gp.export_data_surr(save2file=False)
        for v, (n, text, data) in enumerate(self.want):
            if all(np.array_equal(np.asarray(got[k])[:n], w, equal_nan=True) for k, w in data.items()):
                k = next(k for k in data if k.endswith('hp_beta_all'))
                if np.isnan(np.asarray(got[k])[n:]).all():
                    return v
        return None

    def newest(self, files):
        v = [self.version(f, files.get(f)) for f in (MAIN[self.kind], BACK[self.kind])]
        return max([x for x in v if x is not None], default=None)

    # -- running
    def put(self, files):
        for f in os.listdir(self.dir):
            os.remove(os.path.join(self.dir, f))
        for f, b in files.items():
            with open(os.path.join(self.dir, f), 'wb') as h:
                h.write(b)

    def save(self, v, **kw):
        return self.server.ask(do='save', cfg=self.cfg, dir=self.dir, kind=self.kind, size=self.case['sizes'][v], version=v, **kw)

    def now(self):
        return Dir.read(self.dir).files()

    def complete(self, files, v, last, what, backup=True):
        m, b = self.version(MAIN[self.kind], files.get(MAIN[self.kind])), self.version(BACK[self.kind], files.get(BACK[self.kind]))
        self.rec.check(m == v, lambda: f'{what}: the main file holds {name(m)} instead of the new history {v}')
        if backup and last is not None:
            self.rec.check(b == last, lambda: f'{what}: the backup holds {name(b)} instead of the previous history {last}')

    def kept(self, files, v, last, what):
        if last is not None:
            got = self.newest(files)
            self.rec.check(got in (last, v), lambda: f'{what}: the last saved history {last} can no longer be read (newest readable: {name(got)})')


def name(v):
    return 'no complete history' if v is None else f'history {v}'


def crash(s, rec, case):
    todo = [({}, [])]
    for v in range(len(case['sizes'])):
        nxt, seen = [], set()
        for files, trail in todo:
            s.put(files)
            last = s.newest(files)
            start = Dir.read(s.dir)
            ans = s.save(v)
            what = f'save {v} after {trail or "nothing"}'
            rec.check(ans['error'] is None, lambda: f'{what}: {ans["error"]}')
            ops = parse(ans['log'])
            end = s.now()
            st = list(states(start, ops, case['block']))
            if st[-1][2] != end:
                raise AttributeError('the model of the directory and the directory differ')
            rec.step(len(ops))
            s.complete(end, v, last, what)
            groups = {}
            for text, branch, f in st:
                if branch:
                    groups.setdefault((s.version(MAIN[s.kind], f.get(MAIN[s.kind])), s.version(BACK[s.kind], f.get(BACK[s.kind])), tuple(sorted(f))), []).append(text)
            keep = {t for g in groups.values() for t in ((g[0], g[len(g) // 2], g[-1]) if case['block'] > 64 else g[::8] + g[-1:])}
            for text, branch, f in st:
                branch = branch and text in keep
                key = hashlib.blake2b(repr(sorted(f.items())).encode(), digest_size=12).digest()
                rec.state(case['kind'], v, key)
                s.kept(f, v, last, f'{what}, crash {text}')
                if branch and key not in seen:
                    seen.add(key)
                    nxt.append((f, trail + [f'save {v} crashed {text}' if f != end else f'save {v}']))
        todo = nxt
    rec.sample = dict(case=case, states_before_last_save=len(todo), trail=todo[-1][1])


def starts(s, case):
    """Directories before the save that is disturbed: nothing, one complete save, two, and a crash between the two renames."""
    s.put({})
    yield 0, {}
    s.save(0)
    a = s.now()
    yield 1, a
    start = Dir.read(s.dir)
    ops = parse(s.save(1)['log'])
    b = s.now()
    for text, branch, f in states(start, ops, 10 ** 9):
        if MAIN[s.kind] not in f:
            yield 2, f
    yield 2, b


def fail(s, rec, case):
    for v, files in list(starts(s, case)):
        s.put(files)
        last = s.newest(files)
        n = s.save(v)['count']
        for at in range(n):
            for err in (errno.ENOSPC, errno.EIO, errno.EACCES, -1) if case['all'] else (errno.ENOSPC, -1):
                s.put(files)
                ans = s.save(v, fail=[at, err], keep=f'{v}{at}{err}')
                f = s.now()
                what = f'save {v}, operation {at} ' + ('writes half' if err < 0 else f'fails with {errno.errorcode[err]}')
                if err < 0:
                    rec.check(ans['error'] is None, lambda: f'{what}: {ans["error"]}')
                if ans['error'] is None:
                    s.complete(f, v, last, what, backup=err < 0)
                else:
                    s.kept(f, v, last, what)
                before = s.newest(f)
                rec.step(ans['count'])
                rec.state(case['kind'], case['cfg'], v, at, err, tuple(sorted(f)))
                again = s.save(v, keep=f'{v}{at}{err}')
                rec.check(again['error'] is None, lambda: f'{what}, saved again: {again["error"]}')
                s.complete(s.now(), v, before, what + ', saved again')
                rec.step(again['count'])
    rec.sample = dict(case=case)


def line(s, rec, case):
    ev = case['everywhere']
    for v, files in list(starts(s, case)):
        s.put(files)
        last = s.newest(files)
        n = s.save(v, line=None, everywhere=ev)['lines']
        if not ev:
            rec.check(n > 0, 'no line of the package was executed')
        for at in range(n):
            s.put(files)
            ans = s.save(v, line=at, everywhere=ev, keep=f'{v}{at}')
            f = s.now()
            what = f'save {v} interrupted at its executed line {at}'
            if ans['error'] is None:
                s.complete(f, v, last, what)
            else:
                s.kept(f, v, last, what)
            rec.step(ans['count'])
            rec.state(case['kind'], case['cfg'], v, at, tuple(sorted(f)))
            if not ev or at % 7 == 0:
                before = s.newest(f)
                again = s.save(v, keep=f'{v}{at}')
                rec.check(again['error'] is None, lambda: f'{what}, saved again: {again["error"]}')
                s.complete(s.now(), v, before, what + ', saved again')
    rec.sample = dict(case=case, lines=n)


def run_case(case, rec):
    tmp = tempfile.mkdtemp(prefix='verif-c21-')
    s = None
    try:
        s = Session(case, rec, tmp)
        dict(crash=crash, fail=fail, line=line)[case['mode']](s, rec, case)
    finally:
        if s is not None:
            s.server.close()
        shutil.rmtree(tmp)
