"""C15: the Python entry points (prediction, angles, wave tables) of the real package in simulated
processes: leap-second table in any state, refreshes that fail, several threads."""
import _thread, datetime, os, random, sys, threading, time, warnings
import numpy
import leap, fakecore, fakenc
from leap import DAY, SLOTS, Violation, child_event, clean, draw_clock, draw_net, draw_table, expired, identify, merge, reset
from psim import F, S, W, Plan, draw_plan

MODELS = []
NAMES = []


def prepare(kern):
    leap.prepare(kern)
    fakecore.module()
    fakenc.module()
    K = fakecore.module.core.constituents
    NAMES[:] = K.known()
    MODELS[:] = [model(k) for k in range(4)]


def noise(n, seed):
    x = numpy.sin(numpy.arange(1, n + 1) * 12.9898 + seed * 78.233) * 43758.5453
    return x - numpy.floor(x)


def model(k):
    """Small models; enough constituents for every part of the prediction."""
    T = fakecore.module.core.tidal_model
    names = [['M2', 'S2', 'K1', 'O1', 'N2', 'K2', 'Q1', '2N2'], ['M2', 'K1', 'Mf', 'M4', 'S1'], ['O1', 'M2', 'Mm', 'Ssa', 'P1', 'Nu2'], ['M2']][k]
    if k == 3:
        lon, lat = numpy.array([0., 10, 10, 0]), numpy.array([0., 0, 10, 10])
        tri = numpy.array([[0, 1, 2], [0, 2, 3]], numpy.int32)
        m = T.LGP1Complex128(fakecore.Index(lon, lat, tri), tri)
        n = 4
    else:
        x, y = fakecore.Axis(numpy.arange(0., 11, 2.5)), fakecore.Axis(numpy.arange(-10., 11, 5))
        m = (T.CartesianComplex64 if k == 1 else T.CartesianComplex128)(x, y, fakecore.TideType.kRadial if k == 1 else fakecore.TideType.kTide)
        n = 25
    for i, name in enumerate(names):
        v = (noise(n, i + 10 * k) - .5 + 1j * (noise(n, i + 10 * k + 5) - .5)) * 80
        if i == 0 and k == 0:
            v[7] = complex('nan')
        m.add_constituent(name, v)
    if k == 2:
        C = fakecore.module.core.constituents
        m.dynamic = [C.parse(x) for x in ('S2', 'M4')]
    return m


# ---------------------------------------------------------------- threads
class Baton:
    """Several threads of one process; one runs at a time and the plan says for how many lines."""

    def __init__(self, n, plan):
        self.locks = [_thread.allocate_lock() for _ in range(n)]
        for l in self.locks:
            l.acquire()
        self.end = _thread.allocate_lock()
        self.end.acquire()
        self.alive = list(range(n))
        self.cur, self.plan, self.switched = 0, list(plan), 0
        self.left = self.plan[0][0] if self.plan else -1

    def point(self):
        if not self.plan or len(self.alive) < 2:
            return
        self.left -= 1
        if self.left < 0:
            _, who = self.plan.pop(0)
            self.left = self.plan[0][0] if self.plan else -1
            others = [a for a in self.alive if a != self.cur]
            self.switch(others[who % len(others)])

    def switch(self, to):
        me = self.cur
        self.cur = to
        self.switched += 1
        self.locks[to].release()
        self.locks[me].acquire()

    def blocked(self):
        if len(self.alive) < 2:
            raise RuntimeError('deadlock: the only running thread waits for a lock')
        i = self.alive.index(self.cur)
        self.switch(self.alive[(i + 1) % len(self.alive)])

    def finish(self):
        i = self.alive.index(self.cur)
        self.alive.remove(self.cur)
        if self.alive:
            self.cur = self.alive[i % len(self.alive)]
            self.locks[self.cur].release()
        else:
            self.end.release()

    def run(self, fns, prefix):
        def local(frame, event, arg):
            if event == 'line' and frame.f_code.co_name != '<module>':
                self.point()
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(prefix) else None

        def body(k, fn):
            self.locks[k].acquire()
            sys.settrace(tracer)
            try:
                fn()
            finally:
                sys.settrace(None)
                self.finish()
        for k, fn in enumerate(fns):
            _thread.start_new_thread(body, (k, fn))
        self.locks[0].release()
        self.end.acquire()


def cooperative_locks(baton):
    class Lock:
        def __init__(self):
            self.held = False
            self.owner, self.count = None, 0

        def acquire(self, blocking=True, timeout=-1):
            tries = 0
            while self.held:
                if not blocking or timeout >= 0 and tries > 20:
                    return False
                tries += 1
                if tries > 20000:
                    raise RuntimeError('deadlock: a lock is never released')
                baton.blocked()
            self.held = True
            return True

        def release(self):
            if not self.held:
                raise RuntimeError('release unlocked lock')
            self.held = False

        def locked(self): return self.held
        def __enter__(self): return self.acquire()
        def __exit__(self, *a): self.release()

    class RLock(Lock):
        def acquire(self, blocking=True, timeout=-1):
            me = _thread.get_ident()
            if self.held and self.owner == me:
                self.count += 1
                return True
            if not super().acquire(blocking, timeout):
                return False
            self.owner, self.count = me, 1
            return True

        def release(self):
            if self.owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self.count -= 1
            if not self.count:
                self.owner = None
                super().release()

        __enter__ = acquire
        def _is_owned(self): return self.held and self.owner == _thread.get_ident()

        def _release_save(self):
            n, self.count, self.owner = self.count, 0, None
            Lock.release(self)
            return n

        def _acquire_restore(self, n):
            Lock.acquire(self)
            self.owner, self.count = _thread.get_ident(), n
    threading.Lock = threading._allocate_lock = Lock
    threading.RLock = RLock


# ---------------------------------------------------------------- operations
UNITS = {'s': 1, 'ms': 10**3, 'us': 10**6, 'ns': 10**9}


def draw_dates(c, newest, n=None, fine=False):
    edges = [t for t, _ in newest.entries]
    n = [1, 3, 8, 20][c.w(4)] if n is None else n
    unit = 'us' if fine else c.pick(['s', 'us', 'ns', 'ms', 'D', 'h', 'm'])
    secs = []
    for _ in range(n):
        k = c.w(3)
        s = c.pick(edges) + c.pick([0, -1, 1, 43200, -86400, 86399]) if k == 0 else SLOTS[0] + c.w(2**30) if k == 1 else edges[-1] + c.w(10**8)
        secs.append(min(max(s, SLOTS[0]), 2**31 - 10**6))
    order = c.w(3)
    if order:
        secs.sort(reverse=order == 2)
    if unit in ('D', 'h', 'm'):
        q = {'D': DAY, 'h': 3600, 'm': 60}[unit]
        vals = [s // q for s in secs]
        secs = [v * q for v in vals]
    else:
        q = UNITS[unit]
        frac = [c.w(q) if q > 1 and c.chance(2) else 0 for _ in secs]
        vals = [s * q + f for s, f in zip(secs, frac)]
    arr = numpy.array(vals, dtype='int64').astype(f'datetime64[{unit}]')
    if c.chance(5):      # a view
        arr = numpy.repeat(arr, 2)[::2]
    return arr, secs, f'{n} dates [{unit}] {("as drawn", "sorted", "reversed")[order]}'


def vary(c, op, newest):
    """The dates of an earlier operation, nearly."""
    arr, secs = op['dates'].copy(), list(op['sec'])
    n, unit = len(secs), numpy.datetime_data(arr.dtype)[0]
    step = {'D': DAY, 'h': 3600, 'm': 60}.get(unit, 1)
    how = c.w(5)
    if how in (1, 2) and n > 1:                   # in another order
        order = list(range(n))
        if how == 1:
            order.reverse()
        else:
            for i in range(n - 2, 1, -1):
                j = 1 + c.w(i)
                order[i], order[j] = order[j], order[i]
        arr, secs = arr[order], [secs[i] for i in order]
    elif how == 3:                                # one of them, inside, is another one
        i = c.w(n) if n < 3 else 1 + c.w(n - 2)
        e = c.pick(newest.entries)[0]
        secs[i] = e // step * step
        arr[i] = numpy.datetime64(secs[i], 's').astype(arr.dtype)
    elif how == 4:                                # each a little later
        d = step * (1 + c.w(3))
        secs = [x + d for x in secs]
        arr = arr + numpy.timedelta64(d, 's').astype(f'timedelta64[{unit}]')
    return arr, secs, f'{n} dates [{unit}] of an earlier call {("again", "reversed", "reordered", "but one", "later")[how]}'


def draw_datetime(c, newest, last=None):
    if last is not None:
        k = c.w(4)
        if k == 0:
            return last, int((last - datetime.datetime(1970, 1, 1)).total_seconds() // 1)
        if k == 1:
            d = last + datetime.timedelta(seconds=c.pick([-1, 1, -43200, 3600, 86399]))
            return d, int((d - datetime.datetime(1970, 1, 1)).total_seconds() // 1)
        if k == 2:
            e = c.pick([t for t, _ in newest.entries]) + c.pick([-1, 0, 1, -3600, 3600])
            return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=max(e, SLOTS[0])), max(e, SLOTS[0])
    arr, secs, _ = draw_dates(c, newest, 1, True)
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=int(arr[0].astype('int64'))), secs[0]


FORM = ['kSchuremanOrder1', 'kSchuremanOrder3', 'kMeeus']


def draw_settings(c):
    """None, or (formulae or None, tolerance or None, excluded or None): None means not given."""
    if c.chance(3):
        return None
    ex = None
    if c.chance(2):
        ex = [c.pick(['M2', 'k1', 'MF', 'S2', 'Ssa', 'o1', 'Q1', 'N2']) for _ in range(1 + c.w(3))]
        ex = sorted(set(ex), key=ex.index)
    return c.pick([None] + FORM), c.pick([None, 0.0, 600.0, 90000.0]), ex


def draw_op(c, newest, earlier=(), k=None):
    k = c.w(8) if k is None else k
    again = [o for o in earlier if o['kind'] in ('evaluate', 'modulations', 'series', 'analysis') and len(o['sec']) > 0]

    def dates(fine=False):
        if again and not fine and c.chance(3):
            return vary(c, c.pick(again), newest)
        return draw_dates(c, newest, fine=fine)
    angles = [o['date'] for o in earlier if o['kind'] == 'angle']
    op = dict(kind=['evaluate', 'angle', 'modulations', 'series', 'now', 'leap', 'analysis', 'refused'][k], need=True, slot=c.w(2))
    kind = op['kind']
    if kind == 'refused':
        op['how'] = c.pick(['early', 'sizes', 'excluded', 'early-angle', 'few'])
    op['formulae'] = c.pick([None] + FORM)
    if kind in ('evaluate', 'refused'):
        op['dates'], op['sec'], op['text'] = dates()
        n = len(op['sec'])
        op['model'] = c.w(len(MODELS))
        op['settings'] = draw_settings(c)
        op['lon'] = numpy.array([c.w(1200) / 100. - .7 for _ in range(n)])
        op['lat'] = numpy.array([c.w(2200) / 100. - 11. for _ in range(n)])
        if c.chance(4):
            op['lon'] = numpy.repeat(op['lon'], 3)[::3]
        op['threads'] = c.pick([0, 1, 2, 5, None])
        op['text'] = f'evaluate_tide(model {op["model"]}, {op["text"]}, settings {op["settings"]})'
        if kind == 'refused':
            op['text'] = f'refused ({op["how"]}): ' + op['text']
            if op['how'] == 'early':
                i = c.w(n)
                op['dates'] = op['dates'].copy()
                op['dates'][i] = numpy.datetime64(c.pick(['1971-12-31', '1900-01-01', '1969-07-20']))
    elif kind == 'angle':
        if c.chance(3):
            op['slot'], op['formulae'] = 0, None
        op['date'], s = draw_datetime(c, newest, c.pick(angles) if angles and c.chance(2) else None)
        if c.chance(8):
            op['date'], s = datetime.datetime(1971, 12, 31, 23, 59, 59) - datetime.timedelta(days=c.w(3) * 100), None
        op['sec'] = [s if s is not None and s >= SLOTS[0] else None]
        op['text'] = f'AstronomicAngle({op["formulae"]}).update({op["date"]})'
    elif kind == 'now':
        op['text'] = f'AstronomicAngle({op["formulae"]}).update()'
    elif kind in ('modulations', 'series', 'analysis'):
        op['names'] = None if c.chance(4) else sorted({c.pick(NAMES) for _ in range(1 + c.w(6))})
        op['dict'] = bool(c.w(2))
        op['dates'], op['sec'], t = dates(kind == 'modulations' and c.chance(2))
        op['list'] = kind == 'modulations' and numpy.datetime_data(op['dates'].dtype)[0] == 'us'
        op['shuffle'] = c.w(1000)
        op['text'] = f'{"WaveDict" if op["dict"] else "WaveTable"}({op["names"]}) {kind} {t}{" as a list" if op["list"] else ""}, {op["formulae"]}'
    else:
        op.update(identify(newest), kind='leap')
        op['text'] = 'get_leap_seconds, every entry'
    return op


def coefficients(n):
    return (noise(n, 3) - .5 + 1j * (noise(n, 4) - .5)) * 100


class Now:
    """A value that depends on the microseconds of the clock: not part of the log."""

    def __init__(self, value): self.value = value
    def __repr__(self): return 'now'


def perform(pyfes, op, env):
    """The operation through the package. Returns arrays and plain values."""
    F = pyfes.Formulae
    kw = {} if op['formulae'] is None else {'formulae': getattr(F, op['formulae'])} if 'formulae' in op else {}
    kind = op['kind']
    if kind in ('evaluate', 'refused'):
        how = op.get('how')
        if how == 'early-angle':
            a = pyfes.AstronomicAngle()
            a.update(datetime.datetime(1971, 12, 31, 23, 59, 59))
            return [a._get()]
        s = op['settings']
        if s is not None:
            key = 's', s[0], s[1], tuple(s[2] or ())
            if how == 'excluded':
                return [str(pyfes.Settings(excluded=['M2', 'M2bis']).excluded)]
            if key not in env:
                args = {}
                if s[0]:
                    args['astronomic_formulae'] = getattr(F, s[0])
                if s[1] is not None:
                    args['time_tolerance'] = s[1]
                if s[2] is not None:
                    args['excluded'] = list(s[2])
                env[key] = pyfes.Settings(**args)
            s = env[key]
        elif how == 'excluded':
            return [str(pyfes.Settings(excluded=['nothing']).excluded)]
        dates, lon, lat = op['dates'], op['lon'], op['lat']
        if how == 'sizes':
            lon = numpy.append(lon, 1.0)
        if how == 'few':
            dates = dates[:0] if len(dates) == 1 else dates[1:]
        before = dates.tobytes(), lon.tobytes(), lat.tobytes()
        args = {'settings': s} if s is not None else {}
        if op['threads'] is not None:
            args['num_threads'] = op['threads']
        r = pyfes.evaluate_tide(MODELS[op['model']], dates, lon, lat, **args)
        if (dates.tobytes(), lon.tobytes(), lat.tobytes()) != before:
            raise AssertionError('the arguments were modified')
        return list(r)
    if kind in ('angle', 'now'):
        key = 'a', op['formulae'], op['slot'], _thread.get_ident()
        if key not in env:
            env[key] = pyfes.AstronomicAngle(**kw)
        a = env[key]
        if kind == 'angle':
            a.update(op['date'])
            if a.date != op['date']:
                raise AssertionError(f'date is {a.date} after update({op["date"]})')
            return [a._get()]
        t0 = time.time()
        a.update()
        t1 = time.time()
        return [Now(a._get()), (Now((a.date, t0, t1)))]
    if kind == 'leap':
        return [pyfes.get_leap_seconds(op['arg'].copy())]
    key = 't', op['dict'], tuple(op['names'] or ['*'])
    if key not in env:
        env[key] = (pyfes.WaveDict if op['dict'] else pyfes.WaveTable)(*([op['names']] if op['names'] is not None else []))
    t = env[key]
    dates = op['dates']
    ls = pyfes.get_leap_seconds(dates)
    if kind == 'modulations':
        d = [datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=int(x)) for x in dates.astype('int64')] if op['list'] else dates
        f, vu = t.compute_nodal_modulations(d, ls, **kw)
        fr = t.freq()
        return [f, vu, numpy.array(list(fr.values()) if op['dict'] else fr), list(fr) if op['dict'] else t.keys(), repr(t)[:1]]
    if kind == 'series':
        names = t.keys()
        w = coefficients(len(names))
        if op['dict']:
            items = list(zip(names, w))
            random.Random(op['shuffle']).shuffle(items)
            w = dict(items)
        return [t.tide_from_tide_series(dates, ls, w, **kw)]
    f, vu = fakecore.WaveTable.compute_nodal_modulations(t, dates, ls)
    h = noise(len(dates), op['shuffle'])
    r = t.harmonic_analysis(h, f, vu)
    if op['dict']:
        if list(r) != t.keys():
            raise AssertionError(f'names {list(r)} instead of {t.keys()}')
        r = numpy.array(list(r.values()))
    return [r]


def expected(op, table, got):
    """What the library gives for the same arguments with the leap seconds of the table."""
    C = fakecore
    kind = op['kind']
    form = C.Formulae[op['formulae'] or 'kSchuremanOrder1'] if 'formulae' in op else None
    if kind == 'leap':
        return [numpy.array([table(s) for s in op['sec']])]
    if kind == 'now':
        date = got[1][0]
        s = (date - datetime.datetime(1970, 1, 1)) // datetime.timedelta(seconds=1)
        a = C.AstronomicAngle(form)
        a.update(date, table(s))
        return [a._get()]
    if kind == 'angle':
        a = C.AstronomicAngle(form)
        a.update(op['date'], table(op['sec'][0]))
        return [a._get()]
    ls = numpy.array([table(s) for s in op['sec']], numpy.uint16)
    if kind == 'evaluate':
        s = op['settings']
        if s is not None:
            K = C.module.core.constituents
            s = C.Settings(C.Formulae[s[0] or 'kSchuremanOrder1'], s[1] or 0.0, [K.parse(x) for x in s[2] or []])
        return list(C.evaluate_tide(MODELS[op['model']], numpy.ascontiguousarray(op['dates']), ls, op['lon'], op['lat'], s))
    t = C.WaveTable(*([op['names']] if op['names'] is not None else []))
    if kind == 'modulations':
        f, vu = t.compute_nodal_modulations(op['dates'], ls, form)
        return [f, vu, numpy.array([w.freq for w in t]), t.keys()]
    if kind == 'series':
        return [t.tide_from_tide_series(op['dates'], ls, coefficients(len(t)), C.Formulae[op['formulae'] or 'kSchuremanOrder3'])]
    f, vu = t.compute_nodal_modulations(op['dates'], ls)
    return [t.harmonic_analysis(noise(len(ls), op['shuffle']), f, vu)]


def same(want, got):
    for w, g in zip(want, got):
        if isinstance(w, list):
            if w != list(g):
                return False
            continue
        w, g = numpy.asarray(w), numpy.asarray(g)
        if w.shape != g.shape or not numpy.allclose(g, w, rtol=1e-9, atol=1e-12, equal_nan=True):
            return False
    return True


# ---------------------------------------------------------------- process
def main_of(kern):
    def main(k, spec):
        random.seed(spec['entropy'])
        state = dict(connects=0, path='')
        leap.install_network(spec['net'], state)
        out = [None] * len(spec['ops'])
        groups = spec['groups']
        baton = Baton(len(groups), spec['schedule']) if len(groups) > 1 else None
        if baton:
            cooperative_locks(baton)
            real = Baton.point
            inner = leap.child_event

            def event(op, what, arg=0):
                if op == 'net':
                    real(baton)
                return inner(op, what, arg)
            leap.child_event = event
        for name in [n for n in sys.modules if n == 'pyfes' or n.startswith('pyfes.') and not n.startswith('pyfes.core')]:
            del sys.modules[name]
        sys.path.insert(0, kern.root)
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            import pyfes
            env = {}

            def go(ids):
                for i in ids:
                    op = spec['ops'][i]
                    fakecore.faults.update(calls=0, fail_at=op.get('nomem'), fired=None)
                    try:
                        out[i] = ('ok', perform(pyfes, op, env), fakecore.faults['fired'])
                    except Exception as e:
                        out[i] = ('exc', type(e).__name__, clean(kern, e), fakecore.faults['fired'])
            if baton:
                baton.run([lambda g=g: go(g) for g in groups], os.path.join(kern.root, 'pyfes'))
            else:
                go(groups[0])
        fakecore.faults.update(fail_at=None)
        return dict(out=out, connects=state['connects'], switched=baton.switched if baton else 0,
                    warnings=[(w.category.__name__, clean(kern, w.message)) for w in caught])
    return main


def check(kern, spec, tables, missing, what):
    """Every result is the one of a table known to the process; with one thread, of one table."""
    r = spec['result']
    if isinstance(r, tuple):
        raise Violation('process-died', f'{what}: {r[1]}: {clean(kern, r[2])}')
    for g in spec['groups']:
        fits = list(tables)
        for i in g:
            op, o = spec['ops'][i], r['out'][i]
            kern.checks += 1
            if op['kind'] == 'refused' or op.get('sec') == [None]:
                if o[0] == 'ok':
                    raise Violation('accepted', f'{what}: {op["text"]}: answered {str(o[1])[:300]}')
                continue
            if o[-1] and o[0] == 'exc' and o[1] == 'MemoryError':
                continue
            if o[0] == 'exc':
                if missing and o[1] != 'AssertionError':
                    continue
                if len(spec['groups']) > 1 and o[1] == 'OSError' and spec['plan'].kind == 'read-once' and spec['plan'].fired:
                    continue        # the last good table itself could not be read
                if op['kind'] == 'now' and o[1] == 'ValueError' and not all(SLOTS[0] <= t < 2**31 for t in spec['clocks']):
                    continue
                raise Violation('raises', f'{what}: {op["text"]}: {o[1]}: {o[2]}')
            got = o[1]
            if op['kind'] == 'now':
                got = [x.value for x in got]
                date, t0, t1 = got[1]
                at = (date - datetime.datetime(1970, 1, 1)).total_seconds()
                if not min(t0, t1) - 1 <= at <= max(t0, t1) + 1:
                    raise Violation('clock', f'{what}: {op["text"]}: used {date}, the clock said {t0} before and {t1} after')
            before = fits
            fits = [t for t in fits if same(expected(op, t, got), got)]
            if not fits:
                want = expected(op, before[0], got)if before else None
                raise Violation('wrong-answer', f'{what}: {op["text"]}: got {str(got)[:400]}; no table among '
                                f'{[t.name for t in before]} explains it, with {before[0].name if before else None}: {str(want)[:400]}')
            if len(spec['groups']) > 1:
                fits = list(tables)


def c15(kern, c):
    main = main_of(kern)
    current = draw_table(c)
    gone = c.chance(8)
    reset(kern, None if gone else current)
    acc = [] if gone else [current]
    newest = current
    notes = []
    for rnd in range(1 + c.w(2)):
        newest = draw_table(c, newest, f'v{rnd + 1}')
        good = c.f(3) != 2
        clk = min(draw_clock(c, current), 2**31 - 10**7)
        specs = []
        for g in range(2 if c.chance(6) else 1):
            net = draw_net(c, newest, current, good)
            if gone and net['kind'] in ('old', 'cut-silent'):
                net['kind'] = 'dns'      # without a table, nothing tells that one is old
            plan = draw_plan(c)
            if c.chance(4, F):
                plan.jump = (1 + c.f(60), c.pick([1, -1, 400, -400, 3000], F) * DAY * 10**9)
            threads = c.pick([1, 1, 2, 3])
            ops = []
            for _ in range(2 + c.w(4) + threads):
                ops.append(draw_op(c, newest, ops))
                if ops[-1]['kind'] == 'angle' and c.chance(2):
                    for _ in range(1 + c.w(3)):
                        ops.append(draw_op(c, newest, ops, 1))
                        ops[-1].update(slot=ops[-2]['slot'], formulae=ops[-2]['formulae'])
                if c.chance(8):
                    ops.append(dict(ops[-1]))
            groups = [[i for i in range(len(ops)) if i % threads == t] for t in range(threads)]
            if threads == 1:
                for op in ops:
                    if c.chance(8, F):
                        op['nomem'] = 1 + c.f(2)
            schedule = [(c.s(c.pick([8, 40, 200], S)), c.s(3)) for _ in range(c.s(9))] if threads > 1 else []
            s = leap.spec_of(c, clk, net, None, plan)
            s.update(ops=ops, groups=groups, schedule=schedule)
            specs.append(s)
            notes.append(f'{net["kind"]}, {plan.describe()}, {threads} threads: ' + '; '.join(o['text'] for o in ops))
        kern.note = ' | '.join(notes)[-380:]
        had = list(acc)
        missing = not os.path.exists(kern.table)
        kern.run(specs, main)
        served = [newest] if good else []
        for g, s in enumerate(specs):
            if not good:
                kern.count('net_' + s['net']['kind'])
            if s['result'] is not None:
                s['clocks'] = [s['clock'] // 10**9, s['clock_end'] // 10**9]
            what = f'process {g} of round {rnd} ({s["net"]["kind"]}, {"; ".join(s["plan"].fired) or "no fault"}, {len(s["groups"])} threads)'
            if s['result'] is None:
                continue
            fresh = not any(expired(t, clk) for t in acc) and not s['plan'].jump and len(specs) == 1 and not missing
            check(kern, s, had if fresh else merge(had + served), missing, what)
            if not isinstance(s['result'], tuple):
                kern.switches += s['result']['switched']
                kern.count('allocation_refused', sum(1 for o in s['result']['out'] if o[-1]))
                if s['result']['switched']:
                    kern.count('thread_switch', s['result']['switched'])
                    kern.ihash ^= hash((tuple(s['schedule']), tuple(o['text'] for o in s['ops']))) & (2**60 - 1)
                for op, o in zip(s['ops'], s['result']['out']):
                    kern.feature(op['kind'], o[0], s['net']['kind'], len(s['groups']), op['formulae'] if 'formulae' in op else '')
            kern.nontrivial = True
        acc = merge(acc + served)
        if not acc:
            acc = []
    for k in [k for k, v in kern.faults.items() if not v]:
        del kern.faults[k]
