"""C14: the real config.py in simulated processes, its files changing and failing."""
import errno, hashlib, os, random, re, sys, warnings
import numpy
import yaml
import leap, fakecore, fakenc
from psim import FAIL, GO, OP, PART, READ_CLASS, F, S, W, Plan, Violation, child_event, mix


def prepare(kern):
    leap.install_package(kern)
    kern.data = os.path.join(kern.root, 'data')
    fakecore.module()
    fakenc.module()
    K = sys.modules['pyfes.core'].constituents
    global KNOWN, IDENT
    KNOWN = K.known()
    IDENT = {n.lower(): int(K.parse(n)) for n in KNOWN}


class ConfPlan(Plan):
    """Faults of the reads of one load; also keeps the order of the events of all the processes."""

    def __init__(self, timeline, who):
        super().__init__()
        self.timeline, self.who, self.load, self.at, self.hit = timeline, who, -1, -1, []

    def decide(self, op, arg, path, count):
        if op == OP['net']:
            self.load = int(path.split()[1]) if path.startswith('load') else -1
            self.reads = 0 if self.load == self.at else self.reads
        self.timeline.append((self.who, op, path))
        self.events += 1
        if self.load == self.at >= 0 and op in READ_CLASS:
            self.reads += 1
            if self.kind == 'read-once' and self.reads == self.n + 1:
                count('read_error_' + ('open' if op == OP['open'] else 'stat' if op == OP['stat'] else 'data'))
                self.hit.append(self.load)
                return FAIL, self.err if op == OP['open'] else errno.EIO
        if op == OP['read'] and self.short_reads and arg > 1:
            count('short_read')
            return PART, arg // 3 + (self.events * 37) % 90 + 1
        return GO, 0

    def describe(self):
        t = f'{self.kind} n={self.n} load={self.at} err={self.err}' if self.kind != 'none' else 'none'
        return t + (' short_reads' if self.short_reads else '')


# ---------------------------------------------------------------- files
class Ver:
    """One version of a file. 'good': a valid model file; fields: (discretisation, constituent) -> values."""

    def __init__(self, data, good=True, flaw='', grid=None, fields=None, disc=None):
        self.data, self.good, self.flaw, self.grid, self.fields, self.disc = data, good, flaw, grid, fields or {}, disc or {}


class Grid:
    def __init__(self, lon, lat, circular, near=False, eps=None):
        self.lon, self.lat, self.circular, self.near, self.eps = lon, lat, circular, near, eps

    def same(self, o):
        return self.lon.shape == o.lon.shape and self.lat.shape == o.lat.shape and numpy.allclose(self.lon, o.lon, atol=1e-3) \
            and numpy.allclose(self.lat, o.lat, atol=1e-3)


def draw_grid(c, square=False):
    circular = c.chance(2)
    if circular:
        n = c.pick([5, 4, 6, 8, 12])
        lon = c.pick([0, -180, 10]) + 360.0 / n * numpy.arange(n)
    else:
        n = 3 + c.w(5)
        lon = c.pick([10.0, -20.0, 350.0, 170.0]) + c.pick([1.0, 0.5, 0.25, 2.0]) * numpy.arange(n)
    m = n if square else c.pick([4, 3, 5, 6])
    lat = c.pick([-3.0, -40.0, 20.0]) + c.pick([1.0, 0.5, 2.0]) * numpy.arange(m)
    if c.chance(3):
        lat = lat[::-1].copy()
    if c.chance(8):
        lon = lon[::-1].copy()
    eps = None
    if circular and c.chance(4):     # nearly global: the tolerance of the configuration decides
        lon = lon[0] + (lon - lon[0]) * (1 + 5e-4 / 360)
        eps = c.pick([1.0e-2, None])
        return Grid(lon, lat, eps is not None, True, eps)
    return Grid(lon, lat, circular)


def other_grid(c, g):
    """A grid that does not agree with the first one."""
    k = c.w(5)
    lon, lat = g.lon, g.lat
    step = abs(lon[1] - lon[0])
    if k == 0:
        lon = lon + step / 2
    elif k == 1:
        lat = lat + abs(lat[1] - lat[0]) / 2
    elif k == 2:
        lat = numpy.append(lat, 2 * lat[-1] - lat[-2])
    elif k == 3 and not g.circular and not g.near and len(lon) > 3:
        lon = lon[:-1]
    elif k == 4 and not g.circular and not g.near:
        lon = lon[0] + (lon - lon[0]) * 1.5
    else:
        lat = lat[0] + (lat - lat[0]) * 1.25
    return Grid(lon, lat, g.circular, g.near, g.eps)


DEG = ['degrees', 'degree', 'deg', 'Degrees', 'DEG', 'Degree']
RAD = ['radians', 'radian', 'rad', 'Radians']


def draw_values(c, shape, dt, mask):
    """Amplitude, phase in radians (as the file rounds them) and what the file holds."""
    r = numpy.random.default_rng(c.w(1 << 30))
    amp = r.uniform(0.05, 2.0, shape).astype(dt)
    unit = c.pick(DEG) if not c.chance(2) else c.pick(RAD)
    deg = unit in DEG
    pha = (r.uniform(-180, 360, shape) if deg else r.uniform(-3.1, 6.2, shape)).astype(dt)
    rad = numpy.radians(pha.astype(float)) if deg else pha.astype(float)
    wave = amp.astype(float) * numpy.exp(1j * rad)
    if mask:
        how = c.w(4)
        a, p = r.random(shape) < 0.15, r.random(shape) < 0.15
        if how == 3:             # undefined without a mask
            amp[a] = numpy.nan
            wave[a] = numpy.nan
        else:
            if how != 1:
                amp = numpy.ma.MaskedArray(amp, mask=a)
                wave[a] = numpy.nan
            if how != 0:
                pha = numpy.ma.MaskedArray(pha, mask=p)
                wave[p] = numpy.nan
    return amp, pha, wave, unit


def cartesian_file(c, g, st, flaw=''):
    """st: names of the variables, layout and types of the files of one model."""
    dt = c.pick(st['dtypes'])
    shape = (len(g.lon), len(g.lat))
    amp, pha, wave, unit = draw_values(c, shape, dt, st['mask'] and c.chance(2))
    axt = st['axis_dtype'] if not g.near else 'f8'
    dims = ('x_' + st['lon'], 'y_' + st['lat']) if st['dim_names'] else (st['lon'], st['lat'])
    order = dims
    if st['lat_major']:
        amp, pha, order = amp.T, pha.T, dims[::-1]
    v = {}
    if st['decoys']:             # other variables under the usual names
        r = numpy.random.default_rng(c.w(1 << 30))
        for n in ('amplitude', 'phase'):
            v[n] = (order, r.uniform(0, 1, amp.shape).astype('f4'), {'units': 'degrees'})
    v |= {st['lon']: ((dims[0], ), g.lon.astype(axt), {'units': 'degrees_east'}),
         st['lat']: ((dims[1], ), g.lat.astype(axt), {'units': 'degrees_north'}),
         st['amp']: (order, amp, {'units': c.pick(['cm', 'm', 'degrees'])}),
         st['pha']: (order, pha, {'units': unit})}
    if flaw.startswith('no-'):
        del v[st[flaw[3:]]]
    elif flaw == 'short-amp':
        v[st['amp']] = (order[:1] + ('other', ), amp[:, :-1], {'units': 'cm'})
        v[st['pha']] = (order[:1] + ('other', ), pha[:, :-1], {'units': unit})
    b = fakenc.encode(v)
    return Ver(b, not flaw, flaw, g, {('', ''): wave}, {'': 0})


class Mesh:
    def __init__(self, lon, lat, tri):
        self.lon, self.lat, self.tri = lon, lat, tri

    def same(self, o):
        return self.lon.shape == o.lon.shape and self.tri.shape == o.tri.shape and numpy.allclose(self.lon, o.lon) \
            and numpy.allclose(self.lat, o.lat) and (self.tri == o.tri).all()


def draw_mesh(c):
    n, m = 3 + c.w(3), 3 + c.w(2)
    step = c.pick([1.0, 0.5, 2.0])
    x0, y0 = c.pick([10.0, -30.0, 100.0]), c.pick([-5.0, 0.0, 30.0])
    lon = x0 + step * numpy.repeat(numpy.arange(n), m)
    lat = y0 + step * numpy.tile(numpy.arange(m), n)
    tri = []
    for i in range(n - 1):
        for j in range(m - 1):
            a, b, d, e = i * m + j, (i + 1) * m + j, (i + 1) * m + j + 1, i * m + j + 1
            tri += [[a, b, d], [a, d, e]] if c.w(2) == 0 else [[a, b, e], [b, d, e]]
    return Mesh(lon, lat, numpy.array(tri))


def lgp_file(c, mesh, st, names, flaw=''):
    t = len(mesh.tri)
    lon, lat, tri = mesh.lon, mesh.lat, mesh.tri
    if flaw == 'tri-range':
        tri = tri.copy()
        tri[c.w(t), c.w(3)] = c.pick([len(lon), -1, len(lon) + 1000])
    if flaw == 'lat-size':
        lat = lat[:-1]
    it = st['int']
    v = {st['lon']: (('node', ), lon.astype(st['axis_dtype']), {}), st['lat']: (('node_' if flaw == 'lat-size' else 'node', ), lat.astype(st['axis_dtype']), {}),
         st['triangle']: (('cell', 'three'), tri.astype(it), {})}
    fields, disc = {}, {}
    for codes_name, order, patterns in st['disc']:
        r = numpy.random.default_rng(c.w(1 << 30))
        codes = numpy.arange(t * 3 * order).reshape(t, 3 * order)
        if c.w(2):               # shared between the triangles
            codes = r.permutation(t * 3 * order)[codes] % (t + 5)
            codes[0, 0] = t + 4
        nd = int(codes.max()) + 1
        ft = codes
        if flaw == 'codes-rows':
            ft = codes[:-1]
        elif flaw == 'codes-negative':
            ft = codes.copy()
            ft[c.w(t), c.w(3)] = -1
        elif flaw == 'codes-columns':
            ft = codes[:, :-1]
        v[codes_name] = (('cell_' + codes_name if flaw == 'codes-rows' else 'cell', f'c{order}{flaw}'), ft.astype(it), {})
        disc[codes_name] = (order, codes)
        if flaw == 'no-codes':
            del v[codes_name]
        dt = c.pick(st['dtypes'])
        bad = c.w(len(names)) if flaw else -1
        for i, n in enumerate(names):
            dtn = dt
            amp, pha, wave, unit = draw_values(c, (nd, ), dtn, st['mask'] and c.chance(3))
            fields[codes_name, n.lower()] = wave
            if flaw == 'short-amp' and i == bad:
                amp, pha = amp[:-1], pha[:-1]
            if flaw == 'long-amp' and i == bad:
                amp, pha = numpy.append(amp, dtn(1) if callable(dtn) else numpy.dtype(dtn).type(1)), numpy.append(pha, numpy.dtype(dtn).type(1))
            d = (f'dof{codes_name}{len(amp)}', )
            if not (flaw == 'no-amp' and i == bad):
                v[patterns[0].format(constituent=n)] = (d, amp, {'units': 'm'})
            if not (flaw == 'no-pha' and i == bad):
                v[patterns[1].format(constituent=n)] = (d, pha, {'units': unit})
    for k in ('lon', 'lat', 'triangle'):
        if flaw == 'no-' + k:
            del v[st[k]]
    return Ver(fakenc.encode(v), not flaw, flaw, mesh, fields, disc)


def broken(c, v):
    """A version of the file that cannot be read."""
    k = c.pick(['absent', 'cut', 'garbage', 'empty', 'directory'])
    d = v.data
    data = {'absent': None, 'garbage': bytes((i * 131 + 7) & 255 for i in range(300)), 'empty': b'', 'directory': 'dir',
            'cut': d[:len(d) * c.w(64) // 128]}[k]
    return Ver(data, False, k, v.grid)


# ---------------------------------------------------------------- worlds
class World:
    def __init__(self, kern, c):
        self.kern, self.c = kern, c
        self.files = {}          # path -> [Ver]
        self.updates = []        # (who or before-load, path, version)
        self.configs = {}        # path -> [(text, description)]
        self.env = {}

    def rel(self, p): return p[len(self.kern.data) + 1:]


def spell(c, name):
    return c.pick([name, name, name.lower(), name.upper()])


def draw_names(c, n):
    out = []
    for _ in range(n):
        x = c.pick(KNOWN)
        while x in out:
            x = KNOWN[(KNOWN.index(x) + 1) % len(KNOWN)]
        out.append(x)
    return out


def indirect(c, w, s):
    """The text written with variables of the environment."""
    if not c.chance(3) or not s or '$' in s:
        return s
    depth = 1 + c.w(3)
    i = c.w(len(s))
    j = i + 1 + c.w(len(s) - i)
    for _ in range(depth):
        name = f'VAR_{len(w.env)}' if c.w(2) else f'x{len(w.env)}'
        w.env[name] = s[i:j]
        s = s[:i] + '${' + name + '}' + s[j:]
        j = i + len(name) + 3
    return s


CONF_FLAWS = ['unknown-constituent', 'unknown-dynamic', 'empty-paths', 'empty-name', 'unknown-key', 'tidal-type', 'unknown-section',
              'both-kinds', 'no-kind', 'unknown-kind', 'empty-file', 'undefined-env', 'self-env', 'lgp-type', 'bad-pattern', 'malformed']
FILE_FLAWS_C = ['unreadable', 'other-grid', 'no-lon', 'no-lat', 'no-amp', 'no-pha', 'short-amp']
FILE_FLAWS_L = ['unreadable', 'no-lon', 'no-lat', 'no-triangle', 'no-codes', 'no-amp', 'no-pha', 'short-amp', 'long-amp', 'codes-rows',
                'codes-negative', 'codes-columns', 'tri-range', 'lat-size']


def write_key(c, d, key, value, default):
    if value != default or c.chance(4):
        d[key] = value


def draw_section(c, w, sec, flaw):
    """Files of one section; its configuration with the variables not yet in place."""
    kind = c.pick(['cartesian', 'lgp'])
    dtypes = c.pick([['f8'], ['f4'], ['f8']])
    mask = c.chance(2)
    conf, desc = {}, dict(kind=kind)
    base = os.path.join(w.kern.data, sec)
    file_flaw = ''
    if kind == 'cartesian':
        if flaw == 'file':
            file_flaw = c.pick(FILE_FLAWS_C)
        st = dict(lon='lon', lat='lat', amp='amplitude', pha='phase', lat_major=c.chance(2), axis_dtype=c.pick(['f8', 'f4']), dtypes=dtypes,
                  mask=mask, decoys=False, dim_names=c.chance(4))
        if c.chance(3):
            st.update(lon='longitude', lat='latitude')
        if c.chance(3):
            st.update(amp='Ha', pha='Hg', decoys=c.chance(2))
        if c.chance(16):         # names the other way round
            st.update(lon='lat', lat='lon')
        g = draw_grid(c, c.chance(3))
        names = draw_names(c, 1 + c.w(4))
        if file_flaw == 'other-grid' and len(names) < 2:
            names = draw_names(c, 2)
        paths, desc['files'] = {}, {}
        bad = 1 + c.w(len(names) - 1) if file_flaw == 'other-grid' else c.w(len(names)) if file_flaw else -1
        for i, n in enumerate(names):
            p = os.path.join(base, f'{n}.nc')
            if i == bad and file_flaw == 'other-grid':
                v = cartesian_file(c, other_grid(c, g), st)
            elif i == bad and file_flaw != 'unreadable':
                v = cartesian_file(c, g, st, file_flaw)
            else:
                v = cartesian_file(c, g, st)
                if i == bad:
                    v = broken(c, v)
            w.files[p] = [v]
            key = spell(c, n)
            paths[key] = p
            desc['files'][n.lower()] = p
        make = lambda p, same: cartesian_file(c, g if same else other_grid(c, g), st)
        write_key(c, conf, 'longitude', st['lon'], 'lon')
        write_key(c, conf, 'latitude', st['lat'], 'lat')
        write_key(c, conf, 'amplitude', st['amp'], 'amplitude')
        write_key(c, conf, 'phase', st['pha'], 'phase')
        if g.eps:
            conf['epsilon'] = g.eps
        elif c.chance(6) and not g.near:
            conf['epsilon'] = 1.0e-5
        conf['paths'] = paths
        desc['lpath'] = None
    else:
        if flaw == 'file':
            file_flaw = c.pick(FILE_FLAWS_L)
        st = dict(lon='lon', lat='lat', triangle='triangle', axis_dtype=c.pick(['f8', 'f4']), int=c.pick(['i4', 'i8']), dtypes=dtypes, mask=mask)
        if c.chance(3):
            st.update(lon='longitude', lat='latitude')
        if c.chance(3):
            st.update(triangle='triangles')
        order = c.pick([1, 2])
        codes_name = c.pick(['codes', f'lgp{order}'])
        pats = c.pick([('{constituent}_amplitude', '{constituent}_phase'), ('{constituent}_amp', '{constituent}_pha'), ('Ha_{constituent}', 'Hg_{constituent}')])
        st['disc'] = [(codes_name, order, pats)]
        if c.chance(3) and not file_flaw:    # both discretisations in the file
            o2 = 3 - order
            st['disc'].insert(0, (f'other{o2}', o2, ('z_{constituent}_a', 'z_{constituent}_p')))
        mesh = draw_mesh(c)
        every = c.chance(10)
        names = list(KNOWN) if every else [spell(c, n) for n in draw_names(c, 1 + c.w(4))]
        p = os.path.join(base, 'mesh.nc')
        if file_flaw and file_flaw != 'unreadable':
            v = lgp_file(c, mesh, st, names, file_flaw)
        else:
            v = lgp_file(c, mesh, st, names)
            if file_flaw:
                v = broken(c, v)
        w.files[p] = [v]
        make = lambda q, same: lgp_file(c, mesh if same else draw_mesh(c), st, names)
        write_key(c, conf, 'longitude', st['lon'], 'lon')
        write_key(c, conf, 'latitude', st['lat'], 'lat')
        write_key(c, conf, 'triangle', st['triangle'], 'triangle')
        write_key(c, conf, 'codes', codes_name, 'codes')
        write_key(c, conf, 'amplitude', pats[0], '{constituent}_amplitude')
        write_key(c, conf, 'phase', pats[1], '{constituent}_phase')
        write_key(c, conf, 'type', f'lgp{order}', 'lgp1')
        used = names if every or file_flaw or c.w(3) else names[:max(1, len(names) - 1)]
        if not (every and c.w(4)):
            conf['constituents'] = list(used)
        desc.update(kind=f'lgp{order}', lpath=p, disc=codes_name, files={n.lower(): p for n in used}, max_distance=0.0)
        conf['path'] = p
        if c.w(2):
            desc['max_distance'] = conf['max_distance'] = c.pick([30e3, 300e3, 30000])
    desc['flawed'] = file_flaw
    desc['double'] = dtypes == ['f8']
    dyn = draw_names(c, c.w(3)) if c.chance(3) else []
    if dyn:
        conf['dynamic'] = dyn
    desc['dynamic'] = [IDENT[x.lower()] for x in dyn]
    desc['base'] = base
    if c.chance(4) and not file_flaw and not flaw:     # the environment says where the files are
        w.where[sec] = [c.w(2) for _ in range(3)]
        move = lambda x: '${WHERE_%s}' % sec + x[len(base):]
        if kind == 'cartesian':
            conf['paths'] = {k: move(x) for k, x in conf['paths'].items()}
        else:
            conf['path'] = move(conf['path'])
        for x in list(dict.fromkeys(desc['files'].values())):
            w.files[base + '-2' + x[len(base):]] = [make(x, True)]
    # versions that may come later
    for p in list(desc['files'].values())[:4]:
        if p in w.pending:
            continue
        w.pending[p] = make
    return kind, conf, desc


def spoil(c, w, text, kind, conf, sec, flaw):
    """Breaks the configuration; returns the sections or the text."""
    body = text[sec][kind]
    if flaw == 'unknown-constituent':
        bad = c.pick(['XX9', 'M2 ', '', 'M22', 'kM2', 'tide'])
        if kind == 'cartesian':
            k = list(body['paths'])[c.w(len(body['paths']))]
            body['paths'] = {(bad if x == k else x): v for x, v in body['paths'].items()}
        else:
            body.setdefault('constituents', list(KNOWN))
            body['constituents'][c.w(len(body['constituents']))] = bad
    elif flaw == 'unknown-dynamic':
        body['dynamic'] = body.get('dynamic', []) + [c.pick(['XX9', 'Z', 'M2M', ''])]
    elif flaw == 'empty-paths':
        body['paths' if kind == 'cartesian' else 'path'] = {} if kind == 'cartesian' else ''
    elif flaw == 'empty-name':
        body[c.pick(['amplitude', 'phase', 'longitude', 'latitude'] + ([] if kind == 'cartesian' else ['codes', 'triangle']))] = ''
    elif flaw == 'unknown-key':
        body[c.pick(['amplitudes', 'lons', 'dtype', 'max_distance' if kind == 'cartesian' else 'epsilon', 'Phase'])] = 'x'
    elif flaw == 'tidal-type':
        body['tidal_type'] = sec
    elif flaw == 'unknown-section':
        text[c.pick(['current', 'Tide', 'load', 'tides'])] = text[sec]
        if c.w(2):
            del text[sec]
    elif flaw == 'both-kinds':
        text[sec]['lgp' if kind == 'cartesian' else 'cartesian'] = dict(body)
    elif flaw == 'no-kind':
        text[sec] = {}
    elif flaw == 'unknown-kind':
        text[sec] = {c.pick(['fem', 'Cartesian', 'LGP', 'grid']): body}
    elif flaw == 'undefined-env':
        if c.w(3) == 2:
            body['amplitude'] = body.get('amplitude', 'x') + '${NOT_THERE}'
        else:                    # a file exists under the name as it is written
            w.literal = ['NOT_THERE']
            name = '${NOT_THERE}'
            if kind == 'cartesian':
                k = list(body['paths'])[c.w(len(body['paths']))]
                body['paths'][k] = os.path.join(os.path.dirname(conf['paths'][k]), name, os.path.basename(conf['paths'][k]))
            else:
                body['path'] = os.path.join(os.path.dirname(conf['path']), name, 'mesh.nc')
    elif flaw == 'self-env':
        n = c.w(2)
        w.env['LOOP'] = '${LOOP}' if n == 0 else 'a/${LOOP2}'
        w.env['LOOP2'] = '${LOOP}'
        if c.w(3) == 2:
            body['phase'] = 'p${LOOP}'
        else:
            w.literal = ['LOOP', 'LOOP2', 'a']
            if kind == 'cartesian':
                k = list(body['paths'])[c.w(len(body['paths']))]
                body['paths'][k] = os.path.join(os.path.dirname(conf['paths'][k]), '${LOOP}', os.path.basename(conf['paths'][k]))
            else:
                body['path'] = os.path.join(os.path.dirname(conf['path']), '${LOOP}', 'mesh.nc')
    elif flaw == 'lgp-type':
        if kind == 'cartesian':
            body['type'] = 'lgp1'
        else:
            body['type'] = c.pick(['lgp3', 'LGP1', '', 'lgp'])
    elif flaw == 'bad-pattern':
        if kind == 'cartesian':
            body['latitude'] = 'not_there'
        else:
            body[c.pick(['amplitude', 'phase'])] = '{name}_x'
    if flaw == 'empty-file':
        return c.pick(['', '# nothing\n', '{}\n', '---\n'])
    out = yaml.safe_dump(text, default_flow_style=c.chance(3) or None, sort_keys=False)
    if flaw == 'malformed':
        return c.pick([out + '\n  ]: [', 'tide: [1, 2', '\t' + out, '%!\n' + out])
    return out


def wrap_env(c, w, x):
    if isinstance(x, dict):
        return {k: wrap_env(c, w, v) for k, v in x.items()}
    if isinstance(x, list):
        return [wrap_env(c, w, v) for v in x]
    return indirect(c, w, x) if isinstance(x, str) else x


def draw_world(kern, c):
    w = World(kern, c)
    w.pending, w.where = {}, {}
    # 0: none, 1: files, 2: configuration
    what = c.pick([0, 0, 1, 2])
    secs = c.pick([['tide'], ['radial'], ['tide', 'radial'], ['radial', 'tide']])
    victim = c.pick(secs)
    text, desc = {}, {}
    kinds, plain = {}, {}
    w.literal = []
    for s in secs:
        kind, conf, d = draw_section(c, w, s, 'file' if what == 1 and s == victim else '')
        text[s] = {kind: wrap_env(c, w, conf)}
        plain[s] = conf
        desc[s], kinds[s] = d, kind
    flaw = c.pick(CONF_FLAWS) if what == 2 else ''
    body = spoil(c, w, text, kinds[victim], plain[victim], victim, flaw)
    w.cfg = os.path.join(kern.data, 'conf.yaml')
    w.configs = [(body, desc, flaw)]
    w.flaw = flaw or ''.join(d['flawed'] for d in desc.values())
    w.note = f"{'+'.join(s + ':' + desc[s]['kind'] + '(' + ','.join(desc[s]['files'])[:40] + ')' for s in secs)}" + \
             (f' flaw {w.flaw}' if w.flaw else '')
    w.nload = 1 + c.w(3)
    # what changes meanwhile
    if c.chance(2):
        paths = list(w.pending)
        for _ in range(1 + c.w(3)):
            p = c.pick(paths)
            k = c.w(6)
            if k == 5:
                v = broken(c, w.files[p][0]) if w.files[p][0].data else Ver(None, False, 'absent')
            else:
                v = w.pending[p](p, k != 4)
            w.files[p].append(v)
            w.updates.append((c.pick(['meanwhile'] + ['before'] * (w.nload > 1)), 1 + c.w(max(1, w.nload - 1)), p, len(w.files[p]) - 1))
    return w


def setup(kern, w):
    import shutil
    shutil.rmtree(kern.data, ignore_errors=True)
    shutil.rmtree(kern.tmp, ignore_errors=True)
    os.makedirs(kern.data)
    os.makedirs(kern.tmp)
    w.sources = {}
    for p, vs in w.files.items():
        for n in w.literal:      # directories named as the variables are written
            for d in ('${%s}' % n, 'a/${%s}' % n, n, ''):
                q = os.path.join(os.path.dirname(p), d, os.path.basename(p))
                if q != p:
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    put(q, vs[0].data)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        put(p, vs[0].data)
        for i, v in enumerate(vs[1:], 1):
            if isinstance(v.data, bytes):
                q = os.path.join(os.path.dirname(p), f'.new{len(w.sources)}')
                put(q, v.data)
                w.sources[p, i] = q
    with open(w.cfg, 'w') as fh:
        fh.write(w.configs[0][0])


def put(p, data):
    if data == 'dir':
        os.makedirs(p, exist_ok=True)
    elif data is not None:
        with open(p, 'wb') as fh:
            fh.write(data)


def apply(w, p, i):
    v = w.files[p][i]
    try:
        if os.path.isdir(p):
            os.rmdir(p)
        if isinstance(v.data, bytes):
            os.rename(w.sources[p, i], p)
        else:
            os.unlink(p)
    except OSError:
        pass


# ---------------------------------------------------------------- comparison (in the loading process)
def close(a, b, tol):
    na, nb = numpy.isnan(a.real) | numpy.isnan(a.imag), numpy.isnan(b.real) | numpy.isnan(b.imag)
    return bool((na == nb).all() and (abs(a - b)[~na] <= tol).all())


def cartesian_queries(g):
    """Positions, and the four corners of each (equal: the node itself)."""
    n, m = len(g.lon), len(g.lat)
    q, corners = [], []
    for i in range(n if g.circular else n - 1):
        k = (i + 1) % n
        step = g.lon[1] - g.lon[0]
        for j in range(m - 1):
            q.append((g.lon[i] + step / 2, (g.lat[j] + g.lat[j + 1]) / 2))
            corners.append(((i, j), (i, j + 1), (k, j), (k, j + 1)))
    if not g.near:
        for i in range(n):
            for j in range(m):
                q.append((g.lon[i], g.lat[j]))
                corners.append(((i, j), ) * 4)
    a = numpy.array(q)
    return a[:, 0].copy(), a[:, 1].copy(), corners


def expected_cartesian(wave, corners):
    ii = numpy.array([[p[0] for p in k] for k in corners])
    jj = numpy.array([[p[1] for p in k] for k in corners])
    z = wave[ii, jj]
    ok = ~numpy.isnan(z.real)
    n = ok.sum(1)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = numpy.where(ok, z, 0).sum(1) / n
    r[n == 0] = numpy.nan
    return r


def describe(model, w):
    """What the model holds: for each constituent, the versions of the files it agrees with."""
    out = dict(kind=getattr(model, 'kind', type(model).__name__), dbl=type(model).__name__.endswith('128'), ids=[int(i) for i in model.identifiers()],
               dynamic=[int(i) for i in model.dynamic], tide_type=int(model.tide_type), matches={}, far={})
    h = hashlib.blake2b(digest_size=8)
    tol = 1e-9 if out['dbl'] else 2e-5
    cache = {}
    for p, vs in w.files.items():
        for vi, v in enumerate(vs):
            if not v.good:
                continue
            g = v.grid
            if isinstance(g, Grid) != (out['kind'] == 'cartesian'):
                continue
            if isinstance(g, Grid):
                x, y = model.lon(), model.lat()
                if len(x) != len(g.lon) or len(y) != len(g.lat):
                    continue
                mx, my = numpy.array([x[i] for i in range(len(x))]), numpy.array([y[i] for i in range(len(y))])
                if abs((mx - g.lon + 180) % 360 - 180).max() > 1e-4 or abs(my - g.lat).max() > 1e-6 or x.is_circular != g.circular:
                    continue
                if id(g) not in cache:
                    lon, lat, corners = cartesian_queries(g)
                    cache[id(g)] = model.interpolate(lon, lat, num_threads=1)[0], corners
                vals, corners = cache[id(g)]
                if not g.circular and ('o', id(g)) not in cache:
                    step = abs(g.lon[1] - g.lon[0])
                    _, q = model.interpolate([g.lon.max() + 0.7 * step, g.lon[0], g.lon[0]], [g.lat[0], g.lat.max() + 0.7, g.lat.min() - 0.7], num_threads=1)
                    cache['o', id(g)] = [int(i) for i in q]
                if not g.circular and any(cache['o', id(g)]):
                    continue
                e = expected_cartesian(v.fields['', ''], corners)
                for k, a in vals.items():
                    if close(a, e, tol if not g.near else 1e-4):
                        out['matches'].setdefault(int(k), []).append((w.rel(p), vi, ''))
            else:
                if id(g) not in cache:
                    ix = model.index()
                    a = numpy.allclose(ix.lon(), g.lon) and numpy.allclose(ix.lat(), g.lat) if len(ix.lon()) == len(g.lon) else False
                    cache[id(g)] = None
                    if a and ix.triangles().shape == g.tri.shape and (ix.triangles() == g.tri).all():
                        X, Y = g.lon[g.tri], g.lat[g.tri]
                        b = [numpy.array([1, 1, 1]) / 3, numpy.array([0.5, 0.3, 0.2])]
                        lon, lat = numpy.concatenate([X @ k for k in b]), numpy.concatenate([Y @ k for k in b])
                        far = g.lon.max() + numpy.array([0.1, 1.0, 20.0])
                        _, q = model.interpolate(far, numpy.full(3, g.lat.max()), num_threads=1)
                        cache[id(g)] = model.interpolate(lon, lat, num_threads=1)[0], [bool(i) for i in q]
                if cache[id(g)] is None:
                    continue
                vals, far = cache[id(g)]
                out['far'][w.rel(p), vi] = far
                for d, (order, codes) in v.disc.items():
                    if f'lgp{order}' != out['kind']:
                        continue
                    for (dd, name), wave in v.fields.items():
                        k = next((i for i in vals if int(i) == IDENT[name]), None)
                        if dd != d or k is None:
                            continue
                        z = wave[codes]
                        e = []
                        for bx, by in ((1 / 3, 1 / 3), (0.3, 0.2)):
                            if order == 1:
                                be = numpy.array([1 - bx - by, bx, by])
                            else:
                                l0 = 1 - bx - by
                                be = numpy.array([l0 * (2 * l0 - 1), 4 * l0 * bx, bx * (2 * bx - 1), 4 * bx * by, by * (2 * by - 1), 4 * l0 * by])
                            e.append(z @ be)
                        if close(vals[k], numpy.concatenate(e), max(tol, 1e-7)):
                            out['matches'].setdefault(int(k), []).append((w.rel(p), vi, d))
    for key, got in sorted(cache.items(), key=lambda t: str(type(t[0]))):
        if isinstance(got, tuple):
            for k, a in got[0].items():
                h.update(a.tobytes())
    out['digest'] = h.hexdigest()
    return out


def loader(kern, w):
    def main(k, spec):
        random.seed(spec['entropy'])
        for v in list(os.environ):
            if v.startswith(('VAR_', 'x', 'LOOP')):
                del os.environ[v]
        os.environ.update(w.env)
        fakenc.module()
        out = []
        mod = None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            core = fakecore.module()
            mod = leap.import_module(kern, 'config', core=core)
            for i in range(w.nload):
                for who, at, p, vi in w.updates:
                    if who == 'before' and at == i:
                        apply(w, p, vi)
                for sec, v in w.where.items():
                    os.environ['WHERE_' + sec] = os.path.join(kern.data, sec) + ('-2' if v[i] else '')
                child_event('net', f'load {i}')
                fakecore.faults.update(calls=0, fired=None, fail_at=spec['alloc'][1] if spec['alloc'] and spec['alloc'][0] == i else None)
                models = None
                try:
                    models = mod.load(w.cfg)
                    r = ('ok', )
                except Exception as e:
                    r = ('error', type(e).__name__, leap.clean(kern, e)[:160])
                fakecore.faults['fail_at'] = None
                child_event('net', f'done {i}')
                if models is not None:
                    try:
                        r = ('ok', {str(s): describe(m, w) for s, m in models.items()})
                    except Exception as e:
                        r = ('unusable', type(e).__name__, leap.clean(kern, e)[:160])
                out.append((r, fakecore.faults['fired']))
                models = None
        return out
    return main


def judge(desc, got, versions, w):
    """'' or what is wrong with the loaded models, the files being in these versions."""
    if sorted(got) != sorted(desc):
        return f'sections {sorted(got)} instead of {sorted(desc)}'
    for s, d in desc.items():
        m = got[s]
        if m['kind'] != d['kind']:
            return f"{s}: model of kind {m['kind']} instead of {d['kind']}"
        want = sorted(IDENT[n] for n in d['files'])
        if sorted(m['ids']) != want:
            return f"{s}: constituents {sorted(m['ids'])} instead of {want}"
        if m['dynamic'] != d['dynamic']:
            return f"{s}: dynamic list {m['dynamic']} instead of {d['dynamic']}"
        if m['tide_type'] != (2 if s == 'radial' else 1):
            return f"{s}: tide type {m['tide_type']}"
        for n, p in d['files'].items():
            ms = m['matches'].get(IDENT[n], [])
            ok = [x for x in ms if x[0] == w.rel(p) and x[1] in versions[p] and (d['kind'] == 'cartesian' or x[2] == d['disc'])]
            if not ok:
                return f"{s}: the values of {n} are not those of its file" + (f' (they are those of {[x[:2] for x in ms]})' if ms else '')
            if d['kind'] != 'cartesian':
                md = d['max_distance']
                want = [md > 25e3, md > 200e3, False]
                if not any(m['far'].get((x[0], x[1])) == want for x in ok):
                    return f"{s}: extrapolation distance {md}: defined {[m['far'].get((x[0], x[1])) for x in ok]} instead of {want}"
    return ''


def compatible(desc, versions, w):
    """Every choice of versions gives models that can be loaded."""
    for d in desc.values():
        grids = [w.files[p][i].grid for p in set(d['files'].values()) for i in versions[p]]
        if not all(w.files[p][i].good for p in set(d['files'].values()) for i in versions[p]):
            return False
        if d['kind'] == 'cartesian' and not all(g.same(grids[0]) for g in grids):
            return False
    return True


def c14(kern, c):
    w = draw_world(kern, c)
    setup(kern, w)
    timeline = []
    plan = ConfPlan(timeline, 'loader')
    alloc = None
    k = c.pick(['none', 'none', 'read', 'alloc'], F)
    if k == 'read':
        plan.kind, plan.at, plan.n = 'read-once', c.f(w.nload), c.f(24)
        plan.err = c.pick([errno.EIO, errno.EMFILE, errno.ESTALE, errno.EACCES, errno.ENFILE], F)
    elif k == 'alloc':
        alloc = (c.f(w.nload), 1 + c.f(8))
    plan.short_reads = c.chance(6, F)
    specs = [dict(clock=1700000000 * 10**9, plan=plan, entropy=c.w(1000), alloc=alloc)]
    mean = [u for u in w.updates if u[0] == 'meanwhile']
    if mean:
        specs.append(dict(clock=1700000000 * 10**9, plan=ConfPlan(timeline, 'updater'), entropy=1, alloc=None))
        kern.count('files_replaced_meanwhile', len(mean))
    load = loader(kern, w)

    def main(k, spec):
        if k == 0:
            return load(k, spec)
        for _, _, p, i in mean:
            apply(w, p, i)
    kern.note = f'{w.note}; {w.nload} loads; faults {plan.describe()} alloc {alloc}; updates ' + \
                ','.join(f'{u[0]}{u[1]}:{os.path.basename(u[2])}={w.files[u[2]][u[3]].flaw or "v" + str(u[3])}' for u in w.updates)
    kern.run(specs, main)
    res = specs[0]['result']
    if not isinstance(res, list):
        raise Violation('crash', f'loading ended with {res}')
    # which versions each load could see
    rel = {p[len(kern.root):]: p for p in w.files}
    src = {q[len(kern.root):]: (p, i) for (p, i), q in w.sources.items()}
    current = {p: 0 for p in w.files}
    seen = {}
    load_no = -1
    gone = {p: next((i for i, v in enumerate(vs) if i and not isinstance(v.data, bytes)), None) for p, vs in w.files.items()}
    for who, op, path in timeline:
        if op == OP['net']:
            a, i = path.split()
            load_no = int(i) if a == 'load' else -1
            if a == 'load':
                seen[load_no] = {p: {v} for p, v in current.items()}
        ch = None
        if op == OP['rename']:
            ch = src.get(path.split(' > ')[0])
        elif op == OP['unlink'] and path in rel and not (w.files[rel[path]][0].data == 'dir' and current[rel[path]] == 0 and False):
            ch = rel[path], gone[rel[path]]
        if ch and ch[0] in current:
            current[ch[0]] = ch[1]
            if load_no >= 0:
                seen[load_no][ch[0]].add(ch[1])
    body, desc, flaw = w.configs[0]
    plain = desc
    for i, (r, fired) in enumerate(res):
        desc = {s: dict(d, files={n: d['base'] + '-2' + p[len(d['base']):] for n, p in d['files'].items()})
                if w.where.get(s, [0, 0, 0])[i] else d for s, d in plain.items()}
        kern.checks += 1
        versions = {p: {-1 if v is None else v for v in s} for p, s in seen[i].items()}
        sane = {p: {v for v in s if v >= 0 and w.files[p][v].good} for p, s in versions.items()}
        disturbed = i in plan.hit or fired is not None
        if fired:
            kern.count('allocation_refused')
        full = all(v >= 0 for s in versions.values() for v in s)
        valid = not flaw and full and compatible(desc, versions, w)
        kern.feature(r[0], r[1] if r[0] == 'error' else '', w.flaw, bool(disturbed), i > 0, len(w.updates), [d['kind'] for d in desc.values()], fired,
                     any(len(s) > 1 for s in versions.values()))
        where = f'load {i + 1}: '
        if r[0] == 'unusable':
            raise Violation('unusable', where + f'the model cannot be used: {r[1:]}')
        if r[0] == 'error':
            if valid and not disturbed:
                raise Violation('refused', where + f'a valid configuration is refused: {r[1]}: {r[2]}')
            kern.nontrivial = True
            continue
        kern.nontrivial = True
        if flaw:
            raise Violation('accepted', where + f'the configuration is accepted although: {flaw}')
        if fired:
            raise Violation('failed-allocation', where + f'succeeded although {fired} failed')
        bad = judge(desc, r[1], sane, w)
        if bad:
            flaws = sorted({w.files[p][v].flaw for p, s in versions.items() for v in s if v >= 0} - {''})
            raise Violation('wrong-model', where + bad + (f' (file: {flaws})' if flaws else ''))
