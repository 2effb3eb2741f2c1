"""C12, C13: the real leap_seconds.py in simulated processes."""
import calendar, datetime, re, errno, glob, importlib, io, os, py_compile, shutil, socket, ssl, sys, time, warnings
import http.client, tempfile, uuid, urllib.request, urllib.error, urllib.parse, hashlib, json, random, threading, fcntl, contextlib, logging, email, email.parser, gzip, zlib, subprocess, secrets, stat, struct, math, itertools, collections, dataclasses, enum, traceback, bisect, zoneinfo, concurrent.futures, queue, weakref, copy, operator, string, types, typing, platform, locale
import numpy
from psim import (OP, FAIL, GO, Violation, child_event, draw_plan, Plan, F, W, S)

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'python', 'pyfes')
NTP = 2208988800
DAY = 86400


def install_package(kern):
    dst = os.path.join(kern.root, 'pyfes')
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(SRC, dst, ignore=shutil.ignore_patterns('*.so', '__pycache__'))
    # written by the build of the package
    with open(os.path.join(dst, 'version.py'), 'w') as fh:
        fh.write("__version__ = '0.0.0'\n")
    for f in glob.glob(os.path.join(dst, '**', '*.py'), recursive=True):
        try:
            py_compile.compile(f)
        except py_compile.PyCompileError:
            pass
    kern.data = os.path.join(dst, 'data')
    kern.table = os.path.join(kern.data, 'leap-seconds.txt')


def prepare(kern):
    install_package(kern)
    ssl.create_default_context()
    os.environ['TMPDIR'] = kern.tmp
    tempfile.tempdir = None


# ---------------------------------------------------------------- tables
# dates at which a leap second may come into force: 1 Jan and 1 Jul
SLOTS = [int(calendar.timegm((y, m, 1, 0, 0, 0))) for y in range(1972, 2040) for m in (1, 7)]
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November',
          'December']


def text_of(entries, expires, style):
    """The IERS file."""
    L = ['#\tATOMIC TIME.', '#\tCoordinated Universal Time (UTC) is the reference time scale derived',
         '#$\t 3676924800', '#']
    if style & 4:
        L += [f'#\tfiller line {i} of the header, with numbers 3345062400 33 # in it' for i in range(40)]
    d = datetime.date.fromordinal(719163 + expires // DAY)
    mon = MONTHS[d.month - 1] if style & 1 else MONTHS[d.month - 1][:3]
    head = f'#\tFile expires on:  {d.day} {mon} {d.year}' if style & 2 else f'#\tFile expires on {d.day:02d} {mon} {d.year}'
    L += [head, '#@\t' + str(expires + NTP), '#']
    for t, v in entries:
        g = time.gmtime(t)
        L.append(f'{t + NTP}{"\t" if style & 8 else "      "}{v}\t# 1 {MONTHS[g.tm_mon - 1][:3]} {g.tm_year}')
    L += ['#', '#h\t9dac5845 8acd32c0 2947d462 daf4a943 f58d9391']
    return ('\n'.join(L) + '\n').encode()


class Table:
    def __init__(self, entries, expires, style, name):
        self.entries, self.expires, self.name = entries, expires, name
        self.bytes = text_of(entries, expires, style)

    def __call__(self, sec):
        r = None
        for t, v in self.entries:
            if t <= sec:
                r = v
        return r

    def answer(self, lk):
        if lk['early']:
            return None
        return [self(s) for s in lk['sec']]


def draw_table(c, previous=None, name='v0'):
    """A table; a newer one has all the entries of the previous one and more."""
    if previous is None:
        e = [(SLOTS[0], 10)]
        i = 0
        for _ in range(c.w(8)):
            i += 1 + c.w(6)
            if i >= len(SLOTS) - 40:
                break
            e.append((SLOTS[i], e[-1][1] + (-1 if c.chance(8) else 1)))
    else:
        e = list(previous.entries)
        i = SLOTS.index(e[-1][0])
        for _ in range(1 + c.w(2)):
            i = min(i + 1 + c.w(4), len(SLOTS) - 1)
            if SLOTS[i] > e[-1][0]:
                e.append((SLOTS[i], e[-1][1] + (-1 if c.chance(8) else 1)))
    base = max(e[-1][0], previous.expires if previous else 0)
    expires = (base // DAY + 1 + c.pick([179, 1, 0, 400, 3000])) * DAY
    return Table(e, expires, c.w(32), name)


# ---------------------------------------------------------------- network
NET_GOOD = ['good', 'good-slow', 'good-chunked', 'good-redirect', 'good-close', 'good-small-pieces']
NET_BAD = ['refused', 'dns', 'unreachable', 'connect-timeout', 'ssl', 'ssl-cert', '404', '503', '403', '204', '206', '301-loop', 'reset',
           'reset-headers', 'cut-length', 'cut-chunked', 'cut-silent', 'stall', 'stall-headers', 'bad-status-line', 'empty', 'html',
           'no-expiry', 'bad-expiry', 'no-entries', 'not-utf8', 'old', 'chunk-garbage', 'no-content-type-garbage',
           'connect-stall', 'send-reset', 'http-error-html']


def draw_net(c, table, current, good):
    """A scripted server. 'usable' says whether it serves a table that is usable."""
    kind = c.pick(NET_GOOD, F) if good else c.pick(NET_BAD, F)
    body = table.bytes
    n = dict(kind=kind, usable=good, table=table, cut=c.f(1000))
    if kind == 'html' or kind == 'http-error-html':
        body = b'<!DOCTYPE html><html><head><title>Captive portal</title></head><body>Please log in</body></html>'
    elif kind == 'no-expiry':
        body = body.replace(b'File expires', b'File exp.')
    elif kind == 'bad-expiry':
        body = b'\n'.join(b'# File expires on 45 Foo 2030' if b'File expires' in l else l for l in body.split(b'\n'))
    elif kind == 'no-entries':
        body = b'\n'.join(l for l in body.split(b'\n') if not l[:1].isdigit())
    elif kind == 'not-utf8':
        body = body[:40] + b'\xff\xfe\xe9' + body[40:]
    elif kind == 'empty':
        body = b''
    elif kind == 'old':
        body = Table(current.entries[:-1] or current.entries[:0], table.expires, 0, 'old').bytes
    elif kind == 'cut-silent':       # no length: nothing but the contents shows the cut
        first = body.index(b'\n' + str(current.entries[-1][0] + NTP).encode())
        body = body[:first * n['cut'] // 1000]
    n['body'] = body
    return n


class Raw(io.RawIOBase):
    def __init__(self, sock):
        self.s = sock

    def readable(self):
        return True

    def readinto(self, b):
        s = self.s
        act, arg = child_event('net', f'recv {s.kind}')
        if act == FAIL:
            raise OSError(arg, os.strerror(arg))
        s.nrecv += 1
        if s.pos >= s.stop:
            if s.end == 'reset':
                raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
            if s.end == 'stall':
                s.stall('recv')
            return 0
        n = min(len(b), s.stop - s.pos, s.piece)
        if s.slow:
            time.sleep(3)
        b[:n] = s.data[s.pos:s.pos + n]
        s.pos += n
        return n


class FakeSocket:
    def __init__(self, net, timeout, path):
        self.kind = kind = net['kind']
        self.timeout = timeout
        self.pos = self.nrecv = 0
        body, cut = net['body'], net['cut']
        self.end, self.piece, self.slow = 'eof', 1 << 20, False
        status, extra = '200 OK', ''
        length = f'Content-Length: {len(body)}\r\n'
        if kind == 'good-redirect' and not path.endswith('/moved'):
            status, extra, body, length = '302 Found', 'Location: https://data.iana.org/elsewhere/moved\r\n', b'', 'Content-Length: 0\r\n'
        if kind == '301-loop':
            status, extra, body, length = '301 Moved Permanently', 'Location: https://data.iana.org/loop\r\n', b'', 'Content-Length: 0\r\n'
        if kind in ('404', '503', '403', '204', '206'):
            status = {'404': '404 Not Found', '503': '503 Service Unavailable', '403': '403 Forbidden', '204': '204 No Content',
                      '206': '206 Partial Content'}[kind]
            body = b'' if kind == '204' else body[:len(body) // 2]
            length = f'Content-Length: {len(body)}\r\n'
        if kind == 'http-error-html':
            status = '500 Internal Server Error'
        if kind in ('good-chunked', 'cut-chunked', 'chunk-garbage'):
            length = 'Transfer-Encoding: chunked\r\n'
            step = 50 + cut
            body = b''.join(b'%x\r\n%s\r\n' % (len(body[i:i + step]), body[i:i + step]) for i in range(0, len(body), step)) + b'0\r\n\r\n'
            if kind == 'chunk-garbage':
                body = body[:len(body) // 2] + b'zz\r\n'
        if kind in ('good-close', 'cut-silent', 'no-content-type-garbage'):
            length = ''
        if kind == 'no-content-type-garbage':
            body = bytes((i * 37 + cut) & 0xff for i in range(600))
        head = f'HTTP/1.1 {status}\r\n{length}{extra}Connection: close\r\n\r\n'.encode()
        if kind == 'bad-status-line':
            head = b'\x15\x03\x01garbage\r\n\r\n'
        self.data = head + body
        self.stop = len(self.data)
        if kind in ('cut-length', 'cut-chunked', 'reset', 'stall'):
            self.stop = len(head) + max(0, min(len(body) - 8, len(body) * cut // 1000))
        if kind in ('reset', 'stall'):
            self.end = kind
        if kind in ('reset-headers', 'stall-headers'):
            self.stop, self.end = len(head) * cut // 1000, kind.split('-')[0]
        if kind == 'good-slow':
            self.slow, self.piece = True, 997
        if kind == 'good-small-pieces':
            self.piece = 113

    def stall(self, what):
        if self.timeout is None or self.timeout is socket._GLOBAL_DEFAULT_TIMEOUT and socket.getdefaulttimeout() is None:
            child_event('net', f'hang in {what}')
        t = self.timeout if isinstance(self.timeout, (int, float)) else socket.getdefaulttimeout()
        time.sleep(t)
        raise TimeoutError('The read operation timed out')

    def sendall(self, data, *a):
        child_event('net', 'send')
        if self.kind == 'send-reset':
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')

    send = sendall

    def makefile(self, mode='rb', *a, **k):
        return io.BufferedReader(Raw(self))

    def settimeout(self, t): self.timeout = t
    def gettimeout(self): return self.timeout
    def setsockopt(self, *a): pass
    def close(self): pass
    def shutdown(self, *a): pass
    def fileno(self): return -1


def install_network(net, state):
    def connect(self):
        act, arg = child_event('net', f'connect {self.host}')
        state['connects'] += 1
        kind = net['kind'] if net else 'refused'
        if act == FAIL:
            raise OSError(arg, os.strerror(arg))
        if kind == 'refused':
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        if kind == 'unreachable':
            raise OSError(errno.ENETUNREACH, 'Network is unreachable')
        if kind == 'dns':
            raise socket.gaierror(socket.EAI_AGAIN, 'Temporary failure in name resolution')
        if kind == 'connect-timeout':
            time.sleep(120)
            raise TimeoutError(errno.ETIMEDOUT, 'Connection timed out')
        if kind == 'ssl':
            raise ssl.SSLError(1, '[SSL: WRONG_VERSION_NUMBER] wrong version number')
        if kind == 'ssl-cert':
            raise ssl.SSLCertVerificationError(1, '[SSL: CERTIFICATE_VERIFY_FAILED] certificate verify failed: certificate is not yet valid')
        s = FakeSocket(net, self.timeout, state['path'])
        if kind == 'connect-stall':
            s.stall('connect')
        self.sock = s

    def putrequest(self, method, url, *a, **k):
        state['path'] = url
        return real_putrequest(self, method, url, *a, **k)

    real_putrequest = http.client.HTTPConnection.putrequest
    real_request = http.client.HTTPConnection.request

    def request(self, method, url, *a, **k):
        state['path'] = url
        return real_request(self, method, url, *a, **k)
    http.client.HTTPConnection.request = request
    http.client.HTTPConnection.putrequest = putrequest
    http.client.HTTPConnection.connect = connect
    http.client.HTTPSConnection.connect = connect
    ssl.SSLContext.load_default_certs = lambda self, *a, **k: None


# ---------------------------------------------------------------- process
def import_module(kern, name, core=None):
    import types
    pkg = types.ModuleType('pyfes')
    pkg.__path__ = [os.path.join(kern.root, 'pyfes')]
    pkg.__file__ = os.path.join(kern.root, 'pyfes', '__init__.py')
    sys.modules['pyfes'] = pkg
    if core is not None:
        pkg.core = core
    return importlib.import_module('pyfes.' + name)


def clean(kern, s):
    return re.sub('0x[0-9a-f]{6,}', '0x', str(s)).replace(kern.root, '<inst>').replace(kern.tmp, '<tmp>')


def main_of(kern):
    def main(k, spec):
        random.seed(spec['entropy'])
        state = dict(connects=0, path='')
        install_network(spec['net'], state)
        out = []
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            mod = import_module(kern, 'leap_seconds')
            for i, lk in enumerate(spec['lookups']):
                child_event('mark', f'lookup {i}')
                c0 = state['connects']
                try:
                    kw = {} if lk.get('sorter') is None else {'sorter': lk['sorter']}
                    arg = lk['arg'].copy() if isinstance(lk['arg'], numpy.ndarray) else lk['arg']
                    r = mod.get_leap_seconds(arg, **kw)
                    same = not isinstance(arg, numpy.ndarray) or arg.tobytes() == lk['arg'].tobytes()
                    r = numpy.asarray(r)
                    out.append(('ok', r.shape, [int(x) for x in r.ravel()], state['connects'] - c0, bool(same)))
                except Exception as e:
                    out.append(('exc', type(e).__name__, clean(kern, e), state['connects'] - c0))
            child_event('mark', 'end')
        return dict(out=out, connects=state['connects'], warnings=[(w.category.__name__, clean(kern, w.message)) for w in caught])
    return main


UNITS = {'s': 1, 'ms': 10**3, 'us': 10**6, 'ns': 10**9}


def draw_lookup(c, newest, simple=False):
    """A call of get_leap_seconds: its argument, and the dates as whole seconds."""
    edges = [t for t, _ in newest.entries]

    def sec():
        k = c.w(4)
        if k == 0:
            return c.pick(edges) + c.pick([0, -1, 1, 43200, -86400])
        if k == 1:
            return SLOTS[0] + c.w(2**31)
        if k == 2:
            return c.pick([int(calendar.timegm((2005, 12, 31, 23, 59, 59))), SLOTS[0], 4102444800, 7258118400])
        return c.pick(edges)

    shape = 1 if simple else c.w(9)
    lk = dict(sorter=None, early=False)
    if shape in (0, 1, 2, 3, 4, 5):
        n = [3, 12, 1, 0, 6, 40][shape]
        unit = c.pick(['s', 'ms', 'us', 'ns', 'D', 'h', 'm'])
        secs = [max(sec(), SLOTS[0]) for _ in range(n)]
        order = c.w(4)
        if order == 1:
            secs.sort()
        elif order == 2:
            secs.sort(reverse=True)
        if not simple and c.chance(8) and n:
            secs[c.w(n)] = SLOTS[0] - 1 - c.w(10**8)
        if unit in ('D', 'h', 'm'):
            q = {'D': DAY, 'h': 3600, 'm': 60}[unit]
            vals = [s // q for s in secs]
            secs = [v * q for v in vals]
        else:
            frac = c.w(2)
            q = UNITS[unit]
            if unit == 'ns':
                secs = [min(s, 9 * 10**9) for s in secs]
            vals = [s * q + (q - 1 if frac and q > 1 else 0) for s in secs]
        arr = numpy.array(vals, dtype='int64').astype(f'datetime64[{unit}]')
        if shape == 4:
            arr = arr.reshape(2, 3)
        lk['arg'] = arr
        lk['sec'] = secs
        lk['shape'] = arr.shape
        if shape != 4 and n > 1 and c.chance(4):
            lk['sorter'] = numpy.argsort(arr, kind='stable')
        lk['early'] = any(s < SLOTS[0] for s in secs)
        if not simple and n > 1 and c.chance(5):
            # undefined dates: nothing is required of their elements
            lk['nat'] = {c.w(n) for _ in range(1 + c.w(2))}
            flat = arr.reshape(-1)
            for k in lk['nat']:
                if secs[k] >= SLOTS[0]:
                    flat[k] = numpy.datetime64('NaT')
            lk['nat'] = {k for k in lk['nat'] if secs[k] >= SLOTS[0]}
            if lk['sorter'] is not None:
                lk['sorter'] = numpy.argsort(arr, kind='stable')
        lk['text'] = f'{n} dates [{unit}]{" 2x3" if shape == 4 else ""}{" sorter" if lk["sorter"] is not None else ""}{" one before 1972" if lk["early"] else ""}{" some undefined" if lk.get("nat") else ""}'
        return lk
    s = sec()
    if shape == 6 or shape == 8:
        if c.chance(6):
            s = c.pick([SLOTS[0] - 1, 0, -10**9])
        if c.chance(8):
            s = c.pick([9300000000, 253402300799])     # beyond what nanoseconds reach
        d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=s, microseconds=c.pick([0, 1, 999999]))
        if shape == 6:
            lk['arg'] = d
        else:
            lk['arg'] = numpy.datetime64(d)
        lk['sec'], lk['text'] = [s], f'{type(lk["arg"]).__name__} {d}'
    else:
        unit = c.pick(['s', 'ns', 'ms', 'D', 'M', 'Y'])
        if unit == 'ns':
            s = min(s, 9 * 10**9)
        a = numpy.datetime64(s, 's').astype(f'datetime64[{unit}]')
        lk['arg'] = a
        s = int(a.astype('datetime64[s]').astype('int64'))
        lk['sec'], lk['text'] = [s], f'datetime64[{unit}] {a}'
    lk['early'] = s < SLOTS[0]
    lk['shape'] = (1,)
    return lk


def identify(newest):
    """A lookup that tells the tables apart."""
    secs = []
    for t, _ in newest.entries:
        secs += [t - 1, t] if t > SLOTS[0] else [t]
    secs.append(newest.entries[-1][0] + 10**8)
    return dict(arg=numpy.array(secs, dtype='int64').astype('datetime64[s]'), sec=secs, early=False, sorter=None,
                shape=(len(secs),), text='every entry')


def agrees(want, got, lk):
    nat = lk.get('nat')
    if not nat:
        return want == got
    return len(want) == len(got) and all(w == g for k, (w, g) in enumerate(zip(want, got)) if k not in nat)


def check_process(kern, spec, tables, what):
    """The lookups of a process agree with one of the tables; returns it."""
    r = spec['result']
    if isinstance(r, tuple):
        raise Violation('process-died', f'{what}: {r[1]}: {clean(kern, r[2])}')
    fits = list(tables)
    for lk, o in zip(spec['lookups'], r['out']):
        kern.checks += 1
        if lk['early']:
            if o[0] == 'ok':
                raise Violation('early-date', f'{what}: {lk["text"]}: accepted and answered {o[2]}')
            if o[1] != 'ValueError':
                raise Violation('raises', f'{what}: {lk["text"]}: {o[1]}: {o[2]}')
            continue
        if o[0] == 'exc':
            if lk.get('nat') and o[1] == 'ValueError':
                continue
            raise Violation('raises', f'{what}: {lk["text"]}: {o[1]}: {o[2]}')
        if tuple(o[1]) != tuple(lk['shape']):
            raise Violation('shape', f'{what}: {lk["text"]}: shape {o[1]} instead of {lk["shape"]}')
        if not o[4]:
            raise Violation('argument-changed', f'{what}: {lk["text"]}: the dates were modified')
        before = fits
        fits = [t for t in fits if agrees(t.answer(lk), o[2], lk)]
        if not fits:
            want = before[0].answer(lk)
            bad = [(str(numpy.datetime64(s, 's')), g, w) for s, g, w in zip(lk['sec'], o[2], want) if g != w][:4]
            raise Violation('wrong-answer', f'{what}: {lk["text"]}: (date, answer, table {before[0].name}) {bad}; '
                            f'no table among {[t.name for t in tables]} explains all the answers of the process')
    return fits


def once(kern, spec, what):
    """A process loads the table once."""
    marks = [i for i, (op, p) in enumerate(spec['trail']) if op == OP['mark']]
    seen_good = False
    for j, (lk, o) in enumerate(zip(spec['lookups'], spec['result']['out'])):
        if seen_good:
            ev = [x for x in spec['trail'][marks[j] + 1:marks[j + 1]] if x[0] in (OP['open'], OP['net'], OP['read'])]
            kern.checks += 1
            if ev:
                raise Violation('loaded-again', f'{what}: lookup {j} read the table again: {[(OPSN[a], b) for a, b in ev[:3]]}')
        if not lk['early'] and o[0] == 'ok':
            seen_good = True


OPSN = {v: k for k, v in OP.items()}


def reset(kern, table):
    for d in (kern.data, kern.tmp):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    if table is not None:
        with open(kern.table, 'wb') as fh:
            fh.write(table.bytes)


def spec_of(c, clock, net, lookups, plan):
    return dict(clock=clock * 10**9, net=net, lookups=lookups, plan=plan, entropy=c.w(2**30))


def draw_clock(c, table):
    return c.pick([table.expires + 200 * DAY, table.expires - 100 * DAY, table.expires + DAY, table.expires, table.expires - 1,
                   table.expires + DAY - 1, table.expires + 9000 * DAY])


def expired(table, clock):
    return clock // DAY * DAY > table.expires


def merge(acc):
    out = []
    for t in acc:
        if not any(u.entries == t.entries for u in out):
            out.append(t)
    return out


# ---------------------------------------------------------------- C12
def c12(kern, c):
    main = main_of(kern)
    current = draw_table(c)
    reset(kern, current)
    newest = current
    acc = [current]
    note = []
    if c.chance(5):
        kern.pidnext = 4000
    lives = 1 + c.w(5)
    for life in range(lives):
        group = 2 if c.chance(5) else 1
        good = c.f(3) != 2
        newest = draw_table(c, newest, f'v{life + 1}')
        specs = []
        clk = draw_clock(c, acc[0])
        for g in range(group):
            net = draw_net(c, newest, acc[-1], good)
            plan = draw_plan(c)
            lookups = [draw_lookup(c, newest, True) for _ in range(c.w(2))] + [identify(newest)]
            s = spec_of(c, clk, net, lookups, plan)
            if c.chance(6):
                s['pid'] = 999          # the same process identifier again
            specs.append(s)
            note.append(f'life {life}: {net["kind"]}, {plan.describe()}')
        kern.note = '; '.join(note)[-380:]
        kern.run(specs, main)
        served = [newest] if any(s['net']['usable'] for s in specs) else []
        must = None
        for g, s in enumerate(specs):
            kind = s['net']['kind']
            if not good:
                kern.count('net_' + kind)
            what = f'process {g} of life {life} ({kind}, {"; ".join(s["plan"].fired) or "no fault"})'
            if s['result'] is None:
                kern.feature('killed', s['plan'].fired[-1][:40], kind)
                continue
            fits = check_process(kern, s, merge(acc + served), what)
            if all(expired(t, clk) for t in acc):
                kern.nontrivial = True
                kern.feature(kind, s['plan'].kind, len(s['plan'].fired), group)
                if group == 1 and good and not s['plan'].fired:
                    kern.checks += 1
                    if newest.entries not in [t.entries for t in fits]:
                        raise Violation('not-refreshed', f'{what}: the table expired and the new one was available, but was not used')
                    must = newest
                if group == 1 and not any(w == 'UserWarning' for w, _ in s['result']['warnings']) and not s['result']['connects']:
                    raise Violation('no-refresh', f'{what}: the table expired and no refresh was attempted')
        # what a later process finds
        probe = spec_of(c, draw_clock(c, newest), None, [identify(newest)], Plan())
        kern.run([probe], main)
        fired = [f for s in specs for f in s['plan'].fired]
        fits = check_process(kern, probe, merge(acc + served), f'a later process, after life {life} ({specs[0]["net"]["kind"]}, {"; ".join(fired) or "no fault"})')
        if must is not None:
            kern.checks += 1
            if must.entries not in [t.entries for t in fits]:
                raise Violation('not-kept', f'after life {life}: the refresh succeeded but a later process does not use the new table')
        acc = fits
    if c.chance(4):
        c12_lost(kern, c, main, acc[-1])


def c12_lost(kern, c, main, previous):
    """The table was removed: nothing to fall back on until a refresh works, but it does work as soon as it can."""
    os.unlink(kern.table)
    newest = draw_table(c, previous, 'lost')
    clk = newest.expires - c.pick([100 * DAY, 0, 1])
    note = []
    for life in range(1 + c.w(2)):
        good = c.f(4) == 3
        net = draw_net(c, newest, previous, good)
        if net['kind'] in ('old', 'cut-silent'):     # nothing tells these from a good table
            net = draw_net(c, newest, previous, True)
        plan = draw_plan(c)
        s = spec_of(c, clk, net, [identify(newest), identify(newest)], plan)
        note.append(f'{net["kind"]}, {plan.describe()}')
        kern.note = ('table removed; ' + '; '.join(note))[-380:]
        kern.run([s], main)
        what = f'process {life} after the table was removed ({net["kind"]}, {"; ".join(plan.fired) or "no fault"})'
        if s['result'] is None:
            continue
        if isinstance(s['result'], tuple):
            raise Violation('process-died', f'{what}: {s["result"][1]}: {clean(kern, s["result"][2])}')
        kern.nontrivial = True
        kern.feature('lost', net['kind'], plan.kind)
        for lk, o in zip(s['lookups'], s['result']['out']):
            kern.checks += 1
            if o[0] == 'ok' and newest.answer(lk) != o[2]:
                raise Violation('wrong-answer', f'{what}: there is no table, and yet {o[2]} was answered instead of {newest.answer(lk)}')
            if o[0] != 'ok' and net['usable'] and not plan.fired:
                raise Violation('raises', f'{what}: {o[1]}: {o[2]}')
    s = spec_of(c, clk, draw_net(c, newest, previous, True), [identify(newest)], Plan())
    kern.run([s], main)
    check_process(kern, s, [newest], f'a process with a working network, after the table was removed ({"; ".join(note)})')


# ---------------------------------------------------------------- C13
def c13(kern, c):
    main = main_of(kern)
    current = draw_table(c)
    reset(kern, current)
    tables = [current]
    mode = c.w(3)
    group = [2, 1, 3][mode] + (c.w(2) if mode != 1 else 0)
    kern.note = ''
    rounds = 1 + (c.w(3) if mode != 1 else 0)
    notes = []
    for rnd in range(rounds):
        specs = []
        served_all = []
        for g in range(group):
            newest = tables[-1]
            if c.chance(2) or len(tables) == 1:
                tables.append(draw_table(c, newest, f'v{len(tables)}'))
            t = c.pick(tables[1:][::-1])
            net = draw_net(c, t, current, True)
            plan = Plan()
            plan.short_reads, plan.short_writes = c.chance(4, F), c.chance(4, F)
            if c.chance(4, F):
                plan.jump = (1 + c.f(30), c.pick([1, -1, 400, -400, 20000, -40000], F) * DAY * 10**9)
            lookups = [draw_lookup(c, tables[-1]) for _ in range(1 + c.w(4))]
            lookups.insert(c.w(len(lookups) + 1), identify(tables[-1]))
            clk = draw_clock(c, current)
            if c.chance(8):
                clk = c.pick([0, 4102444800, 16725225600, 86400 * 200])
                kern.count('absurd_clock')
            s = spec_of(c, clk, net, lookups, plan)
            specs.append(s)
            served_all.append(t)
            notes.append(f'{"refresh" if expired(current, clk) else "fresh"} {net["kind"]} [{"; ".join(l["text"] for l in lookups)}]')
        kern.note = ' | '.join(notes)[-380:]
        kern.run(specs, main)
        known = merge(tables)
        refreshed = []
        for g, s in enumerate(specs):
            what = f'process {g} of {group} in round {rnd}'
            fits = check_process(kern, s, known, what)
            once(kern, s, what)
            # the clock of this process, all along
            ends = [s['clock'] // 10**9, s['clock_end'] // 10**9]
            kern.checks += 1
            if s['result']['connects'] and not any(expired(current, x) for x in ends) and not s['plan'].jump:
                raise Violation('downloaded-again', f'{what}: the table had not expired (clock {ends[0]}, expiry {current.expires}) and was downloaded')
            if expired(current, ends[0]) and expired(current, ends[1]) and not s['plan'].jump:
                kern.checks += 1
                if not any(t.entries != current.entries for t in fits) and len(merge(served_all)) == 1 and served_all[0].entries != current.entries:
                    raise Violation('not-refreshed', f'{what}: the table expired and newer ones were available, but the old one was used')
                refreshed.append(g)
            kern.feature(group, bool(refreshed), s['net']['kind'], len(s['lookups']))
        kern.nontrivial = True
        probe = spec_of(c, current.expires - 10 * DAY, None, [identify(tables[-1])], Plan())
        kern.run([probe], main)
        fits = check_process(kern, probe, known, f'a later process, after round {rnd}')
        if refreshed:
            kern.checks += 1
            if not any(t.entries != current.entries for t in fits) and len(merge(served_all)) == 1 and served_all[0].entries != current.entries:
                raise Violation('not-kept', f'after round {rnd}: processes {refreshed} refreshed the table but a later process does not use it')
        new = [t for t in tables if t.entries == fits[0].entries]
        current = new[-1]
        tables = [current] + [t for t in tables if len(t.entries) > len(current.entries)]
