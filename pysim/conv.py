"""C16: the real fes_convert_mesh.py in simulated processes whose disk fails and which are killed."""
import contextlib, errno, io, os, random, sys, warnings
import numpy
import conf, fakenc, leap
from psim import DIE, DIE_AFTER, FAIL, GO, OP, PART, PART_DIE, WRITE_CLASS, F, Plan, Violation, child_event, draw_plan

# constituent of the files -> constituent of the library
WAVES = {'S4': 'S4', 'MKS2': 'MKS2', 'R2': 'R2', 'O1': 'O1', 'MSqm': 'Msqm', 'E2': 'Eps2', 'Mm': 'Mm', 'S2': 'S2', 'M4': 'M4', 'M3': 'M3',
         'Q1': 'Q1', 'Ssa': 'Ssa', 'P1': 'P1', 'M8': 'M8', 'N4': 'N4', 'S1': 'S1', 'K2': 'K2', 'Mtm': 'Mtm', 'MN4': 'MN4', 'MSf': 'MSf',
         'MS4': 'MS4', 'N2': 'N2', 'J1': 'J1', 'T2': 'T2', 'K1': 'K1', 'M6': 'M6', 'Sa': 'Sa', 'Mu2': 'Mu2', 'Mf': 'Mf', 'La2': 'Lambda2',
         'M2': 'M2', 'L2': 'L2', '2N2': '2N2', 'Nu2': 'Nu2'}
NAMES = list(WAVES)
FLAWS = ['absent', 'cut', 'garbage', 'empty', 'directory', 'unknown-wave', 'no-lon', 'no-lat', 'no-element', 'no-C-LGP2', 'no-a_eta_LGP2',
         'no-G_eta_LGP2', 'short', 'long', 'other-lon', 'other-lat', 'other-triangles', 'other-codes', 'more-triangles', 'more-nodes', 'short-phase', 'long-phase']


def prepare(kern):
    conf.prepare(kern)


class ConvPlan(Plan):
    """Faults of one conversion; the death of the process at one of its writes."""

    def decide(self, op, arg, path, count):
        if self.kind == 'kill-write':
            self.events += 1
            self.writes += op in WRITE_CLASS
            if op in WRITE_CLASS and self.writes == self.n + 1:
                self.killed = True
                self.fired.append('killed')
                if op == OP['write'] and self.frac:
                    count('killed_mid_write')
                    return PART_DIE, arg * self.frac // 8
                count('killed')
                return (DIE_AFTER if self.frac == 1 else DIE), 0
            return GO, 0
        a, b = super().decide(op, arg, path, count)
        if op == OP['meta'] and a == FAIL:       # permissions are not essential
            return GO, 0
        return a, b


def conv_plan(c):
    p = ConvPlan()
    k = c.pick(['none', 'none', 'disk', 'kill', 'kill-write', 'kill-write', 'write', 'write', 'read'], F)
    if k == 'disk':
        p.__dict__.update(draw_plan(c).__dict__)
    elif k == 'kill':
        p.kind, p.n, p.frac = 'kill-refresh', c.f(160), c.f(8)
    elif k == 'kill-write':
        p.kind, p.n, p.frac = 'kill-write', c.f(1 << c.f(7)), c.f(8)
    elif k == 'write':
        p.kind, p.n = c.pick(['write-once', 'write-from'], F), c.f(1 << c.f(7))
        p.err = c.pick([errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EROFS], F)
    elif k == 'read':
        p.kind, p.err = 'read-once', c.pick([errno.EIO, errno.EMFILE, errno.ESTALE, errno.EACCES], F)
    if p.kind == 'disk-full':
        p.budget = c.f(1 << (4 + c.f(13)))
    if p.kind == 'read-once':
        p.n = c.f(80)
    return p


def draw_codes(c, t):
    r = numpy.random.default_rng(c.w(1 << 30))
    codes = numpy.arange(t * 6).reshape(t, 6)
    if c.w(2):
        codes = r.permutation(t * 6)[codes] % (t + 5)
        codes[0, 0] = t + 4
    return codes


class Source:
    """A mesh, and the values of each constituent on it."""

    def __init__(self, c, mesh, codes):
        self.mesh, self.codes, self.nd = mesh, codes, int(codes.max()) + 1
        self.axis, self.int, self.dt, self.mask = c.pick(['f8', 'f4']), c.pick(['i4', 'i8']), c.pick(['f4', 'f8']), c.chance(3)
        self.times = 1 + c.chance(8)
        if c.w(2):               # positions that are not round
            mesh.lon = mesh.lon + 1 / 7
            mesh.lat = mesh.lat + 1 / 3
        mesh.lon, mesh.lat = mesh.lon.astype(self.axis).astype('f8'), mesh.lat.astype(self.axis).astype('f8')

    def file(self, c, flaw=''):
        r = numpy.random.default_rng(c.w(1 << 30))
        nd = self.nd + {'short': -1, 'long': 1}.get(flaw, 0)
        amp = r.uniform(0.001, 2.0, (self.times, nd)).astype(self.dt)
        pha = r.uniform(-180, 360, (self.times, self.nd + {'short': -1, 'long': 1}.get(flaw.split('-')[0], 0))).astype(self.dt)
        if self.mask:
            amp = numpy.ma.MaskedArray(amp, mask=r.random(amp.shape) < 0.15)
            pha = numpy.ma.MaskedArray(pha, mask=r.random(pha.shape) < 0.15)
        lon, lat, tri, codes = self.mesh.lon, self.mesh.lat, self.mesh.tri, self.codes
        if flaw == 'other-lon':
            lon = lon.copy()
            lon[c.w(len(lon))] += c.pick([0.25, 1.0])
        elif flaw == 'other-lat':
            lat = lat.copy()
            lat[c.w(len(lat))] -= c.pick([0.25, 1.0])
        elif flaw == 'other-triangles':
            tri = tri.copy()
            tri[c.w(len(tri))] = numpy.roll(tri[0], 1) + 1
            if (tri == self.mesh.tri).all():
                tri[-1] = tri[-1][::-1]
        elif flaw == 'other-codes':
            codes = codes.copy()
            i = c.w(len(codes))
            codes[i] = codes[i][::-1]
            if (codes == self.codes).all():
                codes[i, 0] = (codes[i, 0] + 1) % self.nd
        elif flaw == 'more-triangles':
            tri, codes = numpy.vstack([tri, tri[:1]]), numpy.vstack([codes, codes[:1]])
        elif flaw == 'more-nodes':
            lon, lat = numpy.append(lon, lon[-1] + 1), numpy.append(lat, lat[-1] + 1)
        v = {'lon': (('node', ), lon.astype(self.axis), {}), 'lat': (('node', ), lat.astype(self.axis), {}),
             'element': (('cell', 'three'), tri.astype(self.int), {}), 'C-LGP2': (('cell', 'six'), codes.astype(self.int), {}),
             'a_eta_LGP2': (('time', 'dof'), amp, {'units': 'm'}), 'G_eta_LGP2': (('time', 'dof'), pha, {'units': 'degrees'})}
        if flaw.startswith('no-'):
            del v[flaw[3:]]
        return fakenc.encode(v), (amp[0], pha[0])


def judge(data, srcs, waves):
    """'' or how the file differs from the complete conversion of these files (name -> (amplitude, phase))."""
    if data[:len(fakenc.JOURNAL)] != fakenc.JOURNAL:
        return 'the file is not one of the conversion'
    vs, dims, _, closed = fakenc.replay(data)
    if not closed:
        return 'the file was not written to its end'
    val = {}
    for k, (h, a) in vs.items():
        fill = h['attrs'].get('_FillValue', fakenc.FILL[a.dtype.str[1:]])
        val[k] = numpy.ma.MaskedArray(a, mask=a == a.dtype.type(fill))
    m = srcs.mesh
    for k, want in (('lon', m.lon), ('lat', m.lat), ('triangle', m.tri), ('lgp2', srcs.codes)):
        a = val.get(k)
        if a is None:
            return f'no variable {k}'
        if a.shape != want.shape or numpy.ma.is_masked(a) or not numpy.array_equal(a.data, want.astype(srcs.axis if want.dtype.kind == 'f' else want.dtype)):
            return f'the values of {k} are not those of the files'
    got = sorted(k[:-10] for k in val if k.endswith('_amplitude'))
    if got != sorted(waves):
        return f'constituents {got} instead of {sorted(waves)}'
    for n, (amp, pha) in waves.items():
        for k, want, f in (('amplitude', amp, 100.0), ('phase', pha, 1.0)):
            a = val.get(f'{n}_{k}')
            if a is None:
                return f'no {k} of {n}'
            if a.shape != want.shape:
                return f'{k} of {n}: {a.shape} values instead of {want.shape}'
            ma, mw = numpy.ma.getmaskarray(a), numpy.ma.getmaskarray(want)
            na = numpy.isnan(a.data)
            if ((ma | na) != mw).any():
                return f'{k} of {n}: missing nodes are not the same'
            x, y = a.data[~mw].astype(float), numpy.ma.getdata(want)[~mw].astype(float) * f
            if (abs(x - y) > 1e-6 * abs(y) + 1e-30).any():
                return f'the {k} of {n} is not that of its file'
    return ''


def converter(kern):
    def main(k, spec):
        random.seed(spec['entropy'])
        fakenc.module()
        fakenc.buffered[0] = spec['buffered']
        sys.argv = ['fes_convert_mesh'] + spec['args']
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter('ignore')
            mod = leap.import_module(kern, 'console_script.fes_convert_mesh')
            child_event('net', 'convert')
            try:
                r = mod.main()
                r = ('ok', ) if r is None or r is True or r == 0 else ('error', 'status', str(r))
            except SystemExit as e:
                r = ('ok', ) if e.code in (None, 0) else ('error', 'exit', leap.clean(kern, e.code)[:160])
            except Exception as e:
                r = ('error', type(e).__name__, leap.clean(kern, e)[:160])
            for d in list(fakenc.open_files):
                d.__del__()
            child_event('mark', 'end')
        return r
    return main


def loader(kern, out, names, src):
    """The converted file as a configured model: values at points of the triangles."""
    def main(k, spec):
        import fakecore
        fakenc.module()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            core = fakecore.module()
            mod = leap.import_module(kern, 'config', core=core)
            p = os.path.join(kern.tmp, 'conf.yaml')
            with open(p, 'w') as fh:
                fh.write(f'tide:\n  lgp:\n    path: {out}\n    codes: lgp2\n    type: lgp2\n    constituents: [{", ".join(repr(n) for n in names)}]\n')
            try:
                m = mod.load(p)['tide']
                t = src.mesh.tri
                b = numpy.array([0.5, 0.3, 0.2])
                lon, lat = src.mesh.lon[t] @ b, src.mesh.lat[t] @ b
                v, q = m.interpolate(lon, lat, num_threads=1)
                return 'ok', {int(k): numpy.asarray(a) for k, a in v.items()}
            except Exception as e:
                return 'error', f'{type(e).__name__}: {leap.clean(kern, e)[:200]}'
    return main


def snapshot(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as fh:
                out[p] = fh.read()
    return out


def c16(kern, c):
    import shutil
    for d in (kern.data, kern.tmp):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    ins, outd = os.path.join(kern.data, 'in'), os.path.join(kern.data, 'out')
    os.makedirs(outd)
    out = os.path.join(outd, c.pick(['mesh.nc', 'fes2014', 'a.b.nc']))
    prev = None
    k = c.w(3)
    if k:
        prev = b'previous contents' * (1 if k == 1 else 400)
        with open(out, 'wb') as fh:
            fh.write(prev)
    mesh = conf.draw_mesh(c)
    src = Source(c, mesh, draw_codes(c, len(mesh.tri)))
    every = c.chance(40)
    names = NAMES if every else []
    while len(names) < (1 << c.w(3)) and not every:
        x = c.pick(NAMES)
        while x in names:
            x = NAMES[(NAMES.index(x) + 1) % len(NAMES)]
        names.append(x)
    if not every and c.w(2) and 'O1' not in names:
        names[c.w(len(names))] = 'O1'
    paths, waves = {}, {}
    for n in names:
        d = ins if c.w(3) else os.path.join(ins, c.pick(['x.y', n, 'O1.d']))
        p = os.path.join(d, n + c.pick(['.nc', '.FES2014b.nc', '.1.2.nc', '']))
        os.makedirs(d, exist_ok=True)
        b, waves[n] = src.file(c)
        with open(p, 'wb') as fh:
            fh.write(b)
        paths[n] = p
    # a file that must be refused
    flaw, bad = '', None
    if c.chance(4):
        flaw = c.pick(FLAWS)
        n = c.pick(names)
        if flaw in ('unknown-wave', 'absent'):
            bad = os.path.join(ins, c.pick(['XX9', 'tide', 'Z0', 'M22']) + '.nc') if flaw == 'unknown-wave' else os.path.join(ins, 'bad', n + '.nc')
        else:
            bad = os.path.join(ins, 'bad', n + '.nc')
        os.makedirs(os.path.join(ins, 'bad'), exist_ok=True)
        b, _ = src.file(c, flaw if flaw in FLAWS[6:] else '')
        if flaw == 'directory':
            os.makedirs(bad)
        elif flaw != 'absent':
            with open(bad, 'wb') as fh:
                fh.write({'cut': b[:len(b) * c.w(60) // 128], 'garbage': bytes((i * 131 + 7) & 255 for i in range(300)), 'empty': b''}.get(flaw, b))
    inputs = snapshot(ins)
    rounds = 1 + c.w(3)
    kern.note = f'{len(names)} constituents ({",".join(names[:6])}), {len(mesh.tri)} triangles, {rounds} rounds, previous output {k}' + (f', flaw {flaw}' if flaw else '')
    for i in range(rounds):
        specs = []
        last = i == rounds - 1
        for j in range(1 + c.chance(4)):
            use = [n for n in names]
            if len(use) > 1 and c.w(2):
                r = random.Random(c.w(1 << 20))
                r.shuffle(use)
                use = use[:1 + c.w(len(use))]
            args = [paths[n] for n in use]
            alone = flaw.startswith(('short', 'long', 'other', 'more'))      # only wrong next to a good file
            flawed = bool(bad) and (c.w(2) == 0)
            if flawed:
                n = os.path.basename(bad).split('.')[0]
                at = c.w(len(args))
                if n in use:
                    at = use.index(n)
                if alone and len(args) < 2:
                    o = next((x for x in names if x != n), None)
                    if o is None:
                        flawed = False
                    else:
                        args, use, at = [paths[n], paths[o]], [n, o], 0
                if flawed:
                    args[at] = bad
            plan = conv_plan(c) if not (last and c.w(2)) else ConvPlan()
            specs.append(dict(clock=1700000000 * 10**9, plan=plan, entropy=c.w(1000), args=args + [out], flawed=flawed, buffered=not c.chance(3),
                              waves={WAVES[n]: waves[n] for n in use}))
        kern.note += f'; {len(specs)} x ' + ' | '.join(f"{len(s['waves'])} files{' flawed' if s['flawed'] else ''} {s['plan'].describe()}" for s in specs)
        kern.run(specs, converter(kern))
        kern.checks += 1
        where = f'round {i + 1}: '
        now = None
        if os.path.isdir(out):
            raise Violation('output', where + 'the output is a directory')
        if os.path.exists(out):
            with open(out, 'rb') as fh:
                now = fh.read()
        if snapshot(ins) != inputs:
            raise Violation('inputs', where + 'the input files were modified')
        good = [s for s in specs if s['result'] is not None and s['result'][0] == 'ok']
        for j, s in enumerate(specs):
            r = s['result']
            if r is not None and r[0] == 'crash':
                raise Violation('crash', where + f'the conversion ended with {r}')
            if r is not None and r[0] == 'error' and not s['flawed'] and not s['plan'].fired:
                raise Violation('refused', where + f'process {j}: a valid conversion is refused: {r[1:]}')
            if r is not None and r[0] == 'ok' and s['flawed']:
                raise Violation('accepted', where + f'process {j}: succeeded although an input is flawed: {flaw}')
            kern.feature(r[:2] if r else r, s['plan'].kind, flaw if s['flawed'] else '', len(specs), i, prev is None, s['buffered'])
        if good or any(s['plan'].fired for s in specs) or any(s['flawed'] for s in specs):
            kern.nontrivial = True
        whole = ''
        match = None
        for s in specs:
            if not s['flawed'] and now is not None:
                whole = judge(now, src, s['waves'])
                if not whole:
                    match = s
                    break
        state = 'a process was killed or failed' if not good else 'a conversion succeeded'
        if match is None and (good or now != prev):
            if now is None:
                whole = 'there is no output'
            elif all(s['flawed'] for s in specs):
                whole = 'the output was modified'
            raise Violation('incomplete' if not good else 'wrong-output', where + f'{state}, and the output is neither complete nor what it was: {whole}')
        prev = now
        if match is not None and c.chance(3):
            ls = [dict(clock=1700000000 * 10**9, plan=Plan(), entropy=0)]
            kern.run(ls, loader(kern, out, sorted(match['waves']), src))
            r = ls[0]['result']
            kern.checks += 1
            if r[0] != 'ok':
                raise Violation('unusable-output', where + f'the converted file is not loaded: {r[1]}')
            b = numpy.array([0.5, 0.3, 0.2])
            x, y = b[1], b[2]
            l0 = b[0]
            be = numpy.array([l0 * (2 * l0 - 1), 4 * l0 * x, x * (2 * x - 1), 4 * x * y, y * (2 * y - 1), 4 * l0 * y])
            for n, (amp, pha) in match['waves'].items():
                z = 100.0 * numpy.ma.filled(amp.astype(float), numpy.nan) * numpy.exp(1j * numpy.radians(numpy.ma.filled(pha.astype(float), numpy.nan)))
                e = z[src.codes] @ be
                v = r[1].get(conf.IDENT[n.lower()])
                if v is None or not conf.close(v, e, 2e-3):
                    raise Violation('wrong-model', where + f'the model loaded from the converted file does not hold {n}')
