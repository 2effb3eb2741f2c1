#!/usr/bin/env python3
"""Simulator of the Python parts (C12-C16). Run by pycheck.py under python3-vt with
shim.so preloaded:

  psim.py run --prop C12 --seed 1 --runs N --secs T --workers 8 --out F --replay F
  psim.py one --prop C12 --seed 1 --index 3
  psim.py replay FILE [--trace]

A run is (property, seed, index). Three recorded lists of choices decide
everything: workload, faults, schedule; 0 is always the simplest choice.
"""
import argparse, ctypes, errno, hashlib, importlib, json, os, pickle, shutil, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
W, F, S = 0, 1, 2
OPS = ['none', 'open', 'openw', 'read', 'write', 'close', 'closew', 'rename', 'unlink', 'mkdir', 'stat', 'sync', 'trunc',
       'meta', 'link', 'lock', 'net', 'sleep', 'mark', 'exit']
OP = {n: i for i, n in enumerate(OPS)}
WRITE_CLASS = {OP[n] for n in ('openw', 'write', 'closew', 'rename', 'mkdir', 'sync', 'trunc', 'meta', 'link')}
READ_CLASS = {OP[n] for n in ('open', 'read', 'stat')}
GO, FAIL, PART, DIE, PART_DIE, DIE_AFTER = range(6)


def mix(z):
    z = (z + 0x9e3779b97f4a7c15) & (2**64 - 1)
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & (2**64 - 1)
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & (2**64 - 1)
    return z ^ (z >> 31)


class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig, self.msg = sig, msg


class Internal(Exception):
    pass


class Choices:
    def __init__(self, seed=0, lists=None):
        self.replay = lists
        self.lists = [[], [], []]
        self.state = [mix(seed * 4 + i + 1) for i in range(3)]

    def draw(self, which, n):
        if n <= 1:
            return 0
        out = self.lists[which]
        if self.replay is not None:
            src = self.replay[which]
            v = src[len(out)] % n if len(out) < len(src) else 0
        else:
            self.state[which] = mix(self.state[which])
            v = (self.state[which] >> 16) % n
        out.append(v)
        return v

    def w(self, n): return self.draw(W, n)
    def f(self, n): return self.draw(F, n)
    def s(self, n): return self.draw(S, n)
    def chance(self, n, which=W): return self.draw(which, n) == n - 1
    def pick(self, seq, which=W): return seq[self.draw(which, len(seq))]


lib = None


def load_lib():
    global lib
    lib = ctypes.CDLL(os.environ['PSIM_SHIM'])
    lib.shim_ctl.restype = ctypes.c_void_p
    lib.shim_roots.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
    lib.shim_reset.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_uint64, ctypes.c_int]
    lib.shim_wait.argtypes = [ctypes.c_int, ctypes.c_int]
    lib.shim_arg.argtypes = [ctypes.c_int]
    lib.shim_arg.restype = ctypes.c_int64
    lib.shim_path.argtypes = [ctypes.c_int]
    lib.shim_path.restype = ctypes.c_char_p
    lib.shim_grant.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_int64]
    lib.shim_clock_add.argtypes = [ctypes.c_int, ctypes.c_int64]
    lib.shim_clock.argtypes = [ctypes.c_int]
    lib.shim_clock.restype = ctypes.c_int64
    lib.shim_result.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int]
    lib.shim_enter.argtypes = [ctypes.c_int]
    lib.shim_event.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int64, ctypes.POINTER(ctypes.c_int64)]
    lib.shim_finish.argtypes = [ctypes.c_char_p, ctypes.c_int]


def child_event(op, what, arg=0):
    """In a simulated process: an event of the harness part."""
    out = ctypes.c_int64(0)
    a = lib.shim_event(OP[op], what.encode()[:200], arg, ctypes.byref(out))
    return a, out.value


# ---------------------------------------------------------------- faults
class Plan:
    """What goes wrong in one simulated process."""

    def __init__(self):
        self.kind = 'none'
        self.n = 0
        self.err = 0
        self.frac = 0
        self.budget = 0
        self.jump = None         # (event index, nanoseconds)
        self.short_writes = self.short_reads = False
        self.xdev = False
        # state
        self.events = self.after_net = self.writes = self.reads = 0
        self.refreshing = False
        self.fired = []          # what really went wrong
        self.killed = False

    def describe(self):
        t = self.kind
        if self.kind != 'none':
            t += f' n={self.n} err={self.err} frac={self.frac} budget={self.budget}'
        for k in ('short_writes', 'short_reads', 'xdev'):
            if getattr(self, k):
                t += ' ' + k
        if self.jump:
            t += f' clock jump {self.jump[1] / 86400e9:+.1f} d at event {self.jump[0]}'
        return t

    def decide(self, op, arg, path, count):
        """(action, argument) for the pending event."""
        self.events += 1
        if op == OP['net']:
            self.refreshing = True
        if self.refreshing:
            self.after_net += 1
        wr, rd = op in WRITE_CLASS, op in READ_CLASS and self.refreshing
        self.writes += wr
        self.reads += rd
        k = self.kind
        if k in ('kill', 'kill-refresh'):
            at = self.events if k == 'kill' else self.after_net
            if at == self.n + 1 and op not in (OP['exit'], ):
                self.fired.append(f'killed at {OPS[op]} {path}')
                self.killed = True
                if op == OP['write'] and self.frac:
                    count('killed_mid_write')
                    return PART_DIE, max(0, arg * self.frac // 8)
                count('killed')
                return (DIE_AFTER if self.frac == 1 else DIE), 0
        elif k == 'write-once' and wr and self.writes == self.n + 1:
            return self.fail(op, path, count)
        elif k == 'write-from' and wr and self.writes > self.n:
            return self.fail(op, path, count)
        elif k == 'read-once' and rd and self.reads == self.n + 1:
            count('read_error')
            self.fired.append(f'{OPS[op]} {path} fails')
            return FAIL, errno.EIO if op != OP['open'] else self.err
        elif k == 'read-only' and (wr or op == OP['unlink']) and op not in (OP['write'], OP['closew'], OP['sync']):
            count('read_only_installation')
            self.fired.append(f'{OPS[op]} {path} refused')
            return FAIL, errno.EEXIST if op == OP['mkdir'] else self.err
        elif k == 'disk-full' and op == OP['write']:
            if arg > self.budget:
                count('disk_full')
                self.fired.append('disk full')
                left, self.budget = self.budget, 0
                return (PART, left) if left else (FAIL, errno.ENOSPC)
            self.budget -= arg
        if self.xdev and op == OP['rename'] and arg:
            count('rename_across_filesystems')
            self.fired.append('rename across file systems')
            return FAIL, errno.EXDEV
        if op == OP['write'] and self.short_writes and arg > 1:
            count('short_write')
            return PART, (arg + 1) // 2
        if op == OP['read'] and self.short_reads and arg > 1:
            count('short_read')
            return PART, 7 + (self.events * 37) % 200
        return GO, 0

    def fail(self, op, path, count):
        count('write_error')
        self.fired.append(f'{OPS[op]} {path} fails')
        if op == OP['mkdir'] and self.err != errno.EROFS:
            return FAIL, errno.EEXIST
        return FAIL, self.err


def draw_plan(c, disk=True, kill=True):
    p = Plan()
    kinds = ['none']
    if disk:
        kinds += ['write-once', 'write-from', 'disk-full', 'read-only', 'read-once']
    if kill:
        kinds += ['kill-refresh', 'kill-refresh', 'kill']
    p.kind = c.pick(kinds, F)
    if p.kind in ('write-once', 'write-from'):
        p.n = c.f(6)
        p.err = c.pick([errno.ENOSPC, errno.EIO, errno.EROFS, errno.EACCES, errno.EDQUOT, errno.EMFILE], F)
    elif p.kind == 'read-once':
        p.n = c.f(8)
        p.err = c.pick([errno.EIO, errno.EMFILE, errno.ESTALE], F)
    elif p.kind == 'read-only':
        p.err = c.pick([errno.EACCES, errno.EROFS, errno.EPERM], F)
    elif p.kind == 'disk-full':
        p.budget = c.pick([0, 1, 100, 700, 2000, 4096], F)
    elif p.kind == 'kill-refresh':
        p.n, p.frac = c.f(24), c.f(8)
    elif p.kind == 'kill':
        p.n, p.frac = c.f(40), c.f(8)
    if disk:
        p.short_writes = c.chance(6, F)
        p.short_reads = c.chance(6, F)
        p.xdev = c.chance(3, F)
    return p


# ---------------------------------------------------------------- kernel
class Kernel:
    """Runs groups of simulated processes, one at a time, as the choices say."""

    def __init__(self, scratch):
        self.root = os.path.join(scratch, 'inst')
        self.tmp = os.path.join(scratch, 'tmp')
        os.makedirs(self.root, exist_ok=True)
        os.makedirs(self.tmp, exist_ok=True)
        lib.shim_ctl()           # one controller per worker
        lib.shim_roots(self.root.encode(), self.tmp.encode())
        self.begin(None)

    def begin(self, choices, trace=False):
        self.c = choices
        self.hash = 0x1234567
        self.ihash = 0
        self.events = self.switches = self.procs = self.checks = 0
        self.sim_ns = 0
        self.faults = {}
        self.features = set()
        self.nontrivial = False
        self.note = ''
        self.trace = [] if trace else None
        self.pidnext = 1000

    def log(self, *a):
        h = hashlib.blake2b(repr(a).encode(), digest_size=8, key=self.hash.to_bytes(8, 'little'))
        self.hash = int.from_bytes(h.digest(), 'little')
        if self.trace is not None:
            self.trace.append(' '.join(str(x) for x in a))

    def count(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def feature(self, *a):
        self.features.add(hashlib.blake2b(repr(a).encode(), digest_size=8).digest())

    def run(self, specs, main):
        """specs: list of dict(clock, plan, ...); main(k, spec) runs in the process
        and returns a picklable result. Fills spec['result'] (None: killed)."""
        c = self.c
        n = len(specs)
        pids, state = [], []
        for k, s in enumerate(specs):
            pid = s.get('pid')
            if pid is None:
                self.pidnext += 1
                pid = self.pidnext
            lib.shim_reset(k, s['clock'], mix(mix(s['entropy']) + self.procs), pid)
            p = os.fork()
            if p == 0:
                try:
                    signal.alarm(200)
                    lib.shim_enter(k)
                    try:
                        r = main(k, s)
                    except BaseException as e:
                        r = ('crash', type(e).__name__, traceback.format_exc()[-1500:])
                    b = pickle.dumps(r)
                    lib.shim_finish(b, len(b))
                finally:
                    os._exit(3)
            pids.append(p)
            state.append([OP['none'], 0, ''])
            s['result'] = None
            s['trail'] = []
            self.procs += 1
        alive = list(range(n))
        cur = 0
        spin = 0
        try:
            while alive:
                if cur not in alive:
                    cur = alive[0] if len(alive) == 1 else alive[c.s(len(alive))]
                elif len(alive) > 1:
                    others = [a for a in alive if a != cur]
                    if spin > 12:
                        cur, spin = others[0] if len(others) == 1 else others[c.s(len(others))], 0
                    elif c.s(3) == 2:
                        nxt = others[0] if len(others) == 1 else others[c.s(len(others))]
                        self.switches += 1
                        self.ihash = mix(self.ihash ^ (cur << 8 | nxt) ^ state[cur][0] << 16 ^ state[nxt][0] << 32)
                        cur = nxt
                k = cur
                s, plan = specs[k], specs[k]['plan']
                op, arg, path = state[k]
                act, aarg = (GO, 0) if op in (OP['none'], OP['mark']) else plan.decide(op, arg, path, self.count)
                if plan.jump and plan.events == plan.jump[0]:
                    self.count('clock_jump')
                    lib.shim_clock_add(k, plan.jump[1])
                self.log(k, OPS[op], path, arg, act, aarg)
                if op == OP['exit']:
                    buf = ctypes.create_string_buffer(262144)
                    m = lib.shim_result(k, buf, 262144)
                    s['result'] = pickle.loads(buf.raw[:m])
                    s['clock_end'] = lib.shim_clock(k)
                    self.sim_ns += abs(s['clock_end'] - s['clock'])
                lib.shim_grant(k, act, aarg)
                if op == OP['exit'] or act in (DIE, PART_DIE, DIE_AFTER):
                    _, st = os.waitpid(pids[k], 0)
                    pids[k] = 0
                    alive.remove(k)
                    continue
                op = lib.shim_wait(k, pids[k])
                if op == -1:
                    _, st = os.waitpid(pids[k], 0)
                    pids[k] = 0
                    raise Violation('process-died', f'process {k} died unexpectedly (status {st:#x})')
                if op == -2:
                    raise Violation('hang', f'process {k} makes no progress')
                state[k] = [op, lib.shim_arg(k), lib.shim_path(k).decode(errors='replace')]
                s['trail'].append((op, state[k][2]))
                self.events += 1
                if op == OP['net'] and state[k][2].startswith('hang'):
                    raise Violation('hang', f'process {k} waits forever for the network: {state[k][2]}')
                spin = spin + 1 if op in (OP['lock'], OP['sleep']) else 0
                if len(s['trail']) > 4000:
                    raise Violation('hang', f'process {k} made {len(s["trail"])} system calls without ending')
        finally:
            for p in pids:
                if p:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
        self.log('results', [s['result'] for s in specs])
        return specs


# ---------------------------------------------------------------- driver
def scenarios():
    import leap, conf, entry, conv
    return ({'C12': leap.c12, 'C13': leap.c13, 'C14': conf.c14, 'C15': entry.c15, 'C16': conv.c16},
            {'C12': leap, 'C13': leap, 'C14': conf, 'C15': entry, 'C16': conv})


def run_seed(seed, prop, index):
    return mix(mix(seed) ^ mix(int(prop[1:])) ^ index)


def execute(kern, fn, choices, trace=False):
    kern.begin(choices, trace)
    try:
        fn(kern, choices)
        return None
    except Violation as v:
        kern.log('violation', v.sig)
        return v


def minimise(kern, fn, lists, sig, budget):
    t0, tries = time.time(), 0

    def still(cand):
        nonlocal tries
        tries += 1
        c = Choices(0, cand)
        v = execute(kern, fn, c)
        return c.lists if v is not None and v.sig == sig else None
    best = lists
    for which in (S, F, W):          # cut the end
        size = len(best[which])
        while size > 0 and time.time() - t0 < budget:
            cand = [list(l) for l in best]
            cand[which] = cand[which][:max(0, len(cand[which]) - size)]
            if still(cand):
                best = cand
            else:
                size //= 2
                continue
            size = min(size, len(best[which]))
    for which in (S, F, W):          # simplest choices
        size = max(1, len(best[which]))
        while size >= 1 and time.time() - t0 < budget:
            i = 0
            while i < len(best[which]) and time.time() - t0 < budget:
                cand = [list(l) for l in best]
                blk = cand[which][i:i + size]
                if any(blk):
                    cand[which][i:i + size] = [0] * len(blk)
                    if still(cand):
                        best = cand
                i += size
            size //= 2
    for which in (W, F, S):          # smaller values
        for i in range(len(best[which])):
            while best[which][i] > 1 and time.time() - t0 < budget:
                cand = [list(l) for l in best]
                cand[which][i] //= 2
                if not still(cand):
                    break
                best = cand
    for l in best:
        while l and l[-1] == 0:
            l.pop()
    return best, tries


def scratch_dir():
    base = os.environ['PSIM_SCRATCH']
    d = os.path.join(base, f'p{os.getpid()}')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def worker(prop, seed, runs, secs, w, nw, gate, best, conn):
    fns, mods = scenarios()
    fn = fns[prop]
    d = scratch_dir()
    kern = Kernel(d)
    mods[prop].prepare(kern)
    o = dict(runs=0, nontrivial=0, checks=0, events=0, switches=0, procs=0, sim_ns=0, faults={}, faulty=0, gate_runs=0,
             gate_bad=0, internal='', notes=[], seen=set(), inter=set(), feats=set(), violation=None)
    t0 = time.time()
    try:
        for i in range(w, runs, nw):
            if time.time() - t0 > secs or i > best.value:
                break
            c = Choices(run_seed(seed, prop, i))
            v = execute(kern, fn, c)
            o['runs'] += 1
            o['nontrivial'] += kern.nontrivial
            for a in ('checks', 'events', 'switches', 'procs', 'sim_ns'):
                o[a] += getattr(kern, a)
            for k, n in kern.faults.items():
                o['faults'][k] = o['faults'].get(k, 0) + n
            o['faulty'] += bool(kern.faults)
            if kern.nontrivial:
                o['seen'].add(kern.hash)
                if len(o['notes']) < 4:
                    o['notes'].append(f'run {i}: {kern.note}'[:400])
            if kern.switches:
                o['inter'].add(kern.ihash)
            o['feats'] |= kern.features
            if v is not None:
                o['violation'] = dict(index=i, sig=v.sig, msg=v.msg, lists=c.lists)
                with best.get_lock():
                    best.value = min(best.value, i)
                break
            if gate and (i // nw) % gate == 0:
                h = kern.hash
                o['gate_runs'] += 1
                for c2 in (Choices(run_seed(seed, prop, i)), Choices(0, c.lists)):
                    execute(kern, fn, c2)
                    if kern.hash != h:
                        o['gate_bad'] += 1
                        o['internal'] = f'run {i} is not repeatable'
    except Exception:
        o['internal'] = traceback.format_exc()[-3000:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    conn.send(o)
    conn.close()


def do_run(a):
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    best = ctx.Value('q', 2**62)
    t0 = time.time()
    procs = []
    for w in range(a.workers):
        r, s = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(a.prop, a.seed, a.runs, a.secs, w, a.workers, a.gate, best, s))
        p.start()
        s.close()
        procs.append((p, r))
    outs = []
    internal = ''
    for p, r in procs:
        try:
            outs.append(r.recv())
        except EOFError:
            internal = 'a worker of the simulator died'
        p.join()
    wall = time.time() - t0
    t = {k: sum(o[k] for o in outs) for k in ('runs', 'nontrivial', 'checks', 'events', 'switches', 'procs', 'sim_ns',
                                              'faulty', 'gate_runs', 'gate_bad')}
    faults = {}
    for o in outs:
        internal = internal or o['internal']
        for k, n in o['faults'].items():
            faults[k] = faults.get(k, 0) + n
    t['distinct_executions'] = len(set().union(*[o['seen'] for o in outs])) if outs else 0
    t['distinct_interleavings'] = len(set().union(*[o['inter'] for o in outs])) if outs else 0
    t['distinct_states'] = len(set().union(*[o['feats'] for o in outs])) if outs else 0
    viols = [o['violation'] for o in outs if o['violation']]
    viol = None
    if viols:
        v = min(viols, key=lambda x: x['index'])
        fns, mods = scenarios()
        d = scratch_dir()
        try:
            kern = Kernel(d)
            mods[a.prop].prepare(kern)
            v2 = execute(kern, fns[a.prop], Choices(0, v['lists']))
            reproduced = v2 is not None and v2.sig == v['sig']
            lists, tries = v['lists'], 0
            if reproduced:
                lists, tries = minimise(kern, fns[a.prop], v['lists'], v['sig'], a.minimise)
            c = Choices(0, lists)
            v3 = execute(kern, fns[a.prop], c, trace=True) if reproduced else None
            h = kern.hash
            with open(a.replay, 'w') as fh:
                json.dump({'property': a.prop, 'seed': a.seed, 'index': v['index'], 'signature': v['sig'],
                           'hash': f'{h:016x}', 'note': kern.note, 'message': v3.msg if v3 else v['msg'],
                           'workload': lists[W], 'faults': lists[F], 'schedule': lists[S],
                           'trace': (kern.trace or [])[-400:]}, fh, indent=1)
                fh.write('\n')
            r = os.spawnv(os.P_WAIT, sys.executable, [sys.executable, os.path.abspath(__file__), 'replay', a.replay, '--quiet'])
            viol = dict(index=v['index'], signature=v['sig'], message=v3.msg if v3 else v['msg'], note=kern.note,
                        reproduced=bool(reproduced), verified=r == 1, tries=tries, before=[len(l) for l in v['lists']],
                        after=[len(l) for l in lists], nonzero=[sum(x != 0 for x in l) for l in lists],
                        trace=(kern.trace or [])[-40:])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    t.update(property=a.prop, seed=a.seed, wall=wall, faults=faults, samples=[n for o in outs for n in o['notes'][:2]],
             internal=internal, violation=viol)
    with open(a.out, 'w') as fh:
        json.dump(t, fh)
    return 1 if viol else 2 if internal or t['gate_bad'] else 0


def do_single(prop, choices, trace, expect=None, quiet=False):
    fns, mods = scenarios()
    d = scratch_dir()
    try:
        kern = Kernel(d)
        mods[prop].prepare(kern)
        v = execute(kern, fns[prop], choices, True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if trace:
        print('\n'.join(kern.trace))
    if not quiet:
        print(f'{prop}: {kern.note}\nhash {kern.hash:016x} events {kern.events} processes {kern.procs} faults {kern.faults}')
        print(f'VIOLATED {v.sig}: {v.msg}' if v else 'held')
    if expect is None:
        return 1 if v else 0
    same = v is not None and v.sig == expect['signature'] and f'{kern.hash:016x}' == expect['hash']
    if not quiet:
        print('exact reproduction' if same else 'NOT the recorded execution')
    return 1 if same else 4 if v else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('mode', choices=['run', 'one', 'replay'])
    ap.add_argument('file', nargs='?')
    ap.add_argument('--prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--index', type=int, default=0)
    ap.add_argument('--runs', type=int, default=1000)
    ap.add_argument('--secs', type=float, default=60)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--gate', type=int, default=16)
    ap.add_argument('--minimise', type=float, default=25)
    ap.add_argument('--out', default='/dev/stdout')
    ap.add_argument('--replay', default='/tmp/out.replay')
    ap.add_argument('--trace', action='store_true')
    ap.add_argument('--quiet', action='store_true')
    a = ap.parse_args()
    load_lib()
    if a.mode == 'run':
        return do_run(a)
    if a.mode == 'one':
        return do_single(a.prop, Choices(run_seed(a.seed, a.prop, a.index)), a.trace)
    with open(a.file) as fh:
        d = json.load(fh)
    return do_single(d['property'], Choices(0, [d['workload'], d['faults'], d['schedule']]), a.trace, d, a.quiet)


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    sys.modules['psim'] = sys.modules['__main__']
    sys.exit(main())
