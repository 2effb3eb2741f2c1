"""pyfes.core for the simulator: the C++ classes of the repository through core.cpp,
with the calling conventions of the bindings (src/python/core)."""
import ctypes, datetime, enum, os, sys, types
import numpy

_lib = None
faults = dict(calls=0, fail_at=None, fired=None)      # failing allocation


def _load():
    global _lib
    L = ctypes.CDLL(os.environ['PSIM_CORE'])
    P, I, D, Q = ctypes.c_void_p, ctypes.c_int, ctypes.c_double, ctypes.c_int64
    S = ctypes.c_char_p
    for name, res, args in [
            ('core_error', S, []), ('core_known', I, [S, I]), ('core_parse', I, [S]), ('core_name', S, [I]),
            ('core_axis', P, [P, I, D, I]), ('core_axis_free', None, [P]), ('core_axis_size', Q, [P]),
            ('core_axis_at', D, [P, Q]), ('core_axis_get', D, [P, I]), ('core_axis_find', Q, [P, D, I]),
            ('core_axis_eq', I, [P, P]), ('core_index', P, [P, I, P, I, P, I]), ('core_index_free', None, [P]),
            ('core_index_n', I, [P, I]), ('core_index_get', None, [P, P, P, P]), ('core_cartesian', P, [I, P, P, I, I]),
            ('core_lgp', P, [I, I, P, P, I, I, D]), ('core_model_free', None, [P]), ('core_model_add', I, [P, S, P, Q]),
            ('core_model_set_dynamic', None, [P, P, I]), ('core_model_dynamic', I, [P, P, I]), ('core_model_ids', I, [P, P, I]),
            ('core_model_tide_type', I, [P]), ('core_model_clear', None, [P]),
            ('core_model_interpolate', I, [P, I, P, P, I, P, P]), ('core_model_axis', P, [P, I]), ('core_model_index', P, [P]),
            ('core_evaluate', I, [P, P, P, P, P, I, I, D, P, I, P, P, P]), ('core_angle', P, [I]), ('core_angle_free', None, [P]),
            ('core_angle_update', I, [P, D, I]), ('core_angle_get', None, [P, P]), ('core_table', P, [P, I]),
            ('core_table_free', None, [P]), ('core_table_size', I, [P]), ('core_table_ids', I, [P, P, I]),
            ('core_wave_get', D, [P, I, I]), ('core_table_corrections', None, [P, P]),
            ('core_table_modulations', I, [P, P, P, I, I, P, P]), ('core_table_series', I, [P, P, P, I, P, I, I, P]),
            ('core_table_analysis', I, [P, I, P, P, I, P])]:
        f = getattr(L, name)
        f.restype, f.argtypes = res, args
    _lib = L


def _failed():
    t = _lib.core_error().decode()
    if t:
        raise {'M': MemoryError, 'I': IndexError, 'V': ValueError}.get(t[0], RuntimeError)(t[1:])


def _call(what):
    """Every call that allocates may be refused."""
    faults['calls'] += 1
    if faults['fail_at'] is not None and faults['calls'] == faults['fail_at']:
        faults['fired'] = what
        raise MemoryError('std::bad_alloc')


def _array(x, dtype, ndim=1, columns=None):
    """Conversion of the arguments that are Eigen objects."""
    try:
        a = numpy.asarray(x)
        if a.dtype == object or a.dtype.kind in 'SUmM':
            raise TypeError
    except Exception:
        raise TypeError('incompatible function arguments') from None
    if ndim == 1 and a.ndim == 2 and a.shape[1] == 1:
        a = a[:, 0]
    if a.ndim != ndim or columns is not None and a.shape[1] != columns:
        raise TypeError('incompatible function arguments')
    if a.dtype.kind == 'c' and numpy.dtype(dtype).kind != 'c':
        a = a.real
    return numpy.ascontiguousarray(a.astype(dtype, casting='unsafe'))


def _ptr(a):
    return a.ctypes.data_as(ctypes.c_void_p)


def _flag(x):
    if isinstance(x, (bool, numpy.bool_)) or x is None:
        return int(bool(x))
    raise TypeError('incompatible function arguments')


def _number(x):
    if isinstance(x, (str, bytes)) or x is None:
        raise TypeError('incompatible function arguments')
    return float(x)


class Axis:
    def __init__(self, points, epsilon=1e-6, is_circular=False, *, _h=None):
        if _h is not None:
            self._h = _h
            return
        self._h = None
        a = _array(points, numpy.float64)
        _call('Axis')
        self._h = _lib.core_axis(_ptr(a), len(a), _number(epsilon), _flag(is_circular))
        if not self._h:
            _failed()

    def __del__(self):
        if getattr(self, '_h', None):
            _lib.core_axis_free(self._h)

    def __len__(self): return _lib.core_axis_size(self._h)

    def __getitem__(self, i):
        if not isinstance(i, (int, numpy.integer)):
            raise TypeError('incompatible function arguments')
        if i < 0 or i >= len(self):
            raise IndexError('axis index out of range')
        return _lib.core_axis_at(self._h, i)

    def __eq__(self, o):
        return bool(_lib.core_axis_eq(self._h, o._h)) if isinstance(o, Axis) else NotImplemented
    __hash__ = None
    start = property(lambda s: _lib.core_axis_get(s._h, 0))
    step = property(lambda s: _lib.core_axis_get(s._h, 1))
    is_ascending = property(lambda s: bool(_lib.core_axis_get(s._h, 2)))
    is_circular = property(lambda s: bool(_lib.core_axis_get(s._h, 3)))

    def end(self): return _lib.core_axis_get(self._h, 4)
    def min_value(self): return _lib.core_axis_get(self._h, 5)
    def max_value(self): return _lib.core_axis_get(self._h, 6)
    def find_index(self, value, bounded=True): return _lib.core_axis_find(self._h, _number(value), _flag(bounded))


class Index:
    def __init__(self, lon, lat, triangles, *, _h=None):
        if _h is not None:
            self._h = _h
            return
        self._h = None
        x, y, t = _array(lon, numpy.float64), _array(lat, numpy.float64), _array(triangles, numpy.int32, 2, 3)
        _call('Index')
        self._h = _lib.core_index(_ptr(x), len(x), _ptr(y), len(y), _ptr(t), len(t))
        if not self._h:
            _failed()

    def __del__(self):
        if getattr(self, '_h', None):
            _lib.core_index_free(self._h)

    def _get(self):
        n, m = _lib.core_index_n(self._h, 0), _lib.core_index_n(self._h, 1)
        x, y, t = numpy.empty(n), numpy.empty(n), numpy.empty((m, 3), numpy.int32)
        _lib.core_index_get(self._h, _ptr(x), _ptr(y), _ptr(t))
        return x, y, t

    def lon(self): return self._get()[0]
    def lat(self): return self._get()[1]
    def triangles(self): return self._get()[2]


class TideType(enum.IntEnum):
    kTide = 1
    kRadial = 2


class Quality(enum.IntEnum):
    kUndefined = 0
    kExtrapolated1 = 1
    kExtrapolated2 = 2
    kExtrapolated3 = 3
    kInterpolated = 4


class _Base:
    _dtype = None

    def _made(self, h):
        self._h = h
        if not h:
            _failed()

    def __del__(self):
        if getattr(self, '_h', None):
            _lib.core_model_free(self._h)

    def add_constituent(self, name, wave):
        if not isinstance(name, str):
            raise TypeError('incompatible function arguments')
        v = _array(wave, self._dtype)
        _call('add_constituent')
        v = numpy.ascontiguousarray(v.astype(numpy.complex128))
        if _lib.core_model_add(self._h, name.encode(), _ptr(v), len(v)):
            _failed()

    def _list(self, f):
        a = numpy.empty(512, numpy.int32)
        n = f(self._h, _ptr(a), 512)
        return [Constituent(int(i)) for i in a[:n]]

    @property
    def dynamic(self):
        return self._list(_lib.core_model_dynamic)

    @dynamic.setter
    def dynamic(self, ids):
        if isinstance(ids, (str, bytes)) or not hasattr(ids, '__iter__') or not hasattr(ids, '__len__'):
            raise TypeError('incompatible function arguments')
        if not all(isinstance(i, Constituent) for i in ids):
            raise TypeError('incompatible function arguments')
        a = numpy.array([int(i) for i in ids], numpy.int32)
        _lib.core_model_set_dynamic(self._h, _ptr(a), len(a))

    def identifiers(self): return self._list(_lib.core_model_ids)
    def clear(self): _lib.core_model_clear(self._h)
    def __len__(self): return len(self.identifiers())
    def __bool__(self): return len(self) > 0
    tide_type = property(lambda s: TideType(_lib.core_model_tide_type(s._h)))

    def interpolate(self, lon, lat, num_threads=0):
        x, y = _array(lon, numpy.float64), _array(lat, numpy.float64)
        if len(x) != len(y):
            raise ValueError('lon and lat must have the same size')
        q = numpy.zeros(len(x), numpy.int8)
        out = {}
        for i in self.identifiers():
            v = numpy.empty(len(x), numpy.complex128)
            if _lib.core_model_interpolate(self._h, int(i), _ptr(x), _ptr(y), len(x), _ptr(v), _ptr(q)):
                _failed()
            out[i] = v
        return out, q


class AbstractTidalModelComplex64(_Base):
    _dtype = numpy.complex64


class AbstractTidalModelComplex128(_Base):
    _dtype = numpy.complex128


def _tide_type(t):
    if not isinstance(t, TideType):
        raise TypeError('incompatible function arguments')
    return int(t)


def _cartesian(dbl):
    def init(self, lon, lat, tide_type=TideType.kTide, longitude_major=True):
        if not isinstance(lon, Axis) or not isinstance(lat, Axis):
            raise TypeError('incompatible function arguments')
        t, m = _tide_type(tide_type), _flag(longitude_major)
        _call('Cartesian')
        self._made(_lib.core_cartesian(dbl, lon._h, lat._h, t, m))
    base = AbstractTidalModelComplex128 if dbl else AbstractTidalModelComplex64
    return type(f'CartesianComplex{128 if dbl else 64}', (base, ), {
        '__init__': init, 'lon': lambda s: Axis(None, _h=_lib.core_model_axis(s._h, 0)),
        'lat': lambda s: Axis(None, _h=_lib.core_model_axis(s._h, 1)), 'kind': 'cartesian'})


def _lgp(order, dbl):
    def init(self, index, codes, tide_type=TideType.kTide, max_distance=0):
        if not isinstance(index, Index):
            raise TypeError('incompatible function arguments')
        c, t, d = _array(codes, numpy.int32, 2, 3 * order), _tide_type(tide_type), _number(max_distance)
        _call('LGP')
        self._made(_lib.core_lgp(order, dbl, index._h, _ptr(c), len(c), t, d))
    base = AbstractTidalModelComplex128 if dbl else AbstractTidalModelComplex64
    return type(f'LGP{order}Complex{128 if dbl else 64}', (base, ), {
        '__init__': init, 'index': lambda s: Index(None, None, None, _h=_lib.core_model_index(s._h)), 'kind': f'lgp{order}'})


class Formulae(enum.IntEnum):
    kSchuremanOrder1 = 0
    kSchuremanOrder3 = 1
    kMeeus = 2


def _formulae(x):
    if not isinstance(x, Formulae):
        raise TypeError('incompatible function arguments')
    return int(x)


def _integer(x):
    if isinstance(x, bool) or not hasattr(x, '__index__'):
        raise TypeError('incompatible function arguments')
    return int(x.__index__())


SCALE = {'as': 1e-18, 'fs': 1e-15, 'ps': 1e-12, 'ns': 1e-9, 'us': 1e-6, 'ms': 1e-3, 's': 1, 'm': 60, 'h': 3600, 'D': 86400}


def epoch_of(dates):
    """npdatetime64_to_epoch"""
    if not isinstance(dates, numpy.ndarray):
        raise TypeError('incompatible function arguments')
    if dates.dtype.kind != 'M':
        raise ValueError('array must be a numpy array of datetime64 items')
    unit, step = numpy.datetime_data(dates.dtype)
    if unit not in SCALE or step != 1:
        raise ValueError('array has wrong datetime unit')
    if dates.ndim != 1:
        raise ValueError('array has incorrect number of dimensions')
    return numpy.ascontiguousarray(dates.astype('int64') * float(SCALE[unit]))


def _split(d):
    if not isinstance(d, datetime.datetime):
        raise ValueError('a datetime.datetime is required')
    if d.tzinfo is not None:
        raise ValueError('only the naive datetime object can be converted to timestamp')
    x = d - datetime.datetime(1970, 1, 1)
    sec = x.days * 86400 + x.seconds
    if abs(sec) > 2**31 - 1:
        raise ValueError('timestamp out of range for platform time_t')
    return sec, x.microseconds


def as_int64(date):
    a, b = _split(date)
    return a * 1000000 + b


def as_float64(date):
    a, b = _split(date)
    return a + b * 1e-6


class Settings:
    def __init__(self, astronomic_formulae=Formulae.kSchuremanOrder1, time_tolerance=0.0, excluded=None):
        _formulae(astronomic_formulae)
        self._s = astronomic_formulae, _number(time_tolerance), list(excluded or [])
        if not all(isinstance(i, Constituent) for i in self._s[2]):
            raise TypeError('incompatible function arguments')
    astronomic_formulae = property(lambda s: s._s[0])
    time_tolerance = property(lambda s: s._s[1])
    excluded = property(lambda s: list(s._s[2]))


def evaluate_tide(tidal_model, date, leap_seconds, longitude, latitude, settings=None, num_threads=0):
    if not isinstance(tidal_model, _Base) or settings is not None and not isinstance(settings, Settings):
        raise TypeError('incompatible function arguments')
    if _integer(num_threads) < 0:
        raise TypeError('incompatible function arguments')
    if not isinstance(date, numpy.ndarray):
        raise TypeError('incompatible function arguments')
    leap = _array(leap_seconds, numpy.uint16)
    x, y = _array(longitude, numpy.float64), _array(latitude, numpy.float64)
    if not date.size == len(leap) == len(x) == len(y):
        raise ValueError('epoch, leap_seconds, longitudes and latitudes must have the same size')
    e = epoch_of(date)
    f, tol, ex = (settings or Settings())._s
    _call('evaluate_tide')
    n = len(e)
    tide, lp, q = numpy.empty(n), numpy.empty(n), numpy.empty(n, numpy.int8)
    ids = numpy.array([int(i) for i in ex], numpy.int32)
    if _lib.core_evaluate(tidal_model._h, _ptr(e), _ptr(leap), _ptr(x), _ptr(y), n, int(f), tol, _ptr(ids), len(ids), _ptr(tide),
                          _ptr(lp), _ptr(q)):
        _failed()
    return tide, lp, q


ANGLES = ['t', 'n', 'h', 's', 'p1', 'p', 'i', 'xi', 'nu', 'x1ra', 'r', 'nuprim', 'nusec']


class AstronomicAngle:
    def __init__(self, formulae=Formulae.kSchuremanOrder1):
        self._h = None
        self._h = _lib.core_angle(_formulae(formulae))

    def __del__(self):
        if getattr(self, '_h', None):
            _lib.core_angle_free(self._h)

    def update(self, date, leap_seconds):
        leap = _integer(leap_seconds)
        if not -32768 <= leap < 32768:
            raise TypeError('incompatible function arguments')
        t = as_float64(date)
        _call('update')
        if _lib.core_angle_update(self._h, t, leap):
            _failed()

    def _get(self):
        a = numpy.empty(len(ANGLES))
        _lib.core_angle_get(self._h, _ptr(a))
        return a


for _i, _n in enumerate(ANGLES):
    setattr(AstronomicAngle, _n, property(lambda s, i=_i: float(s._get()[i])))


class Wave:
    def __init__(self, table, ident):
        self._t, self.ident = table, ident

    def _get(self, what):
        return _lib.core_wave_get(self._t._h, int(self.ident), what)
    freq = property(lambda s: s._get(0))
    f = property(lambda s: s._get(1))
    u = property(lambda s: s._get(2))

    def v(self): return self._get(3)
    def vu(self): return self._get(4)
    def period(self): return self._get(5)
    def name(self): return _lib.core_name(int(self.ident)).decode()


class WaveTable:
    def __init__(self, waves=()):
        self._h = None
        if isinstance(waves, (str, bytes)) or not all(isinstance(w, str) for w in waves):
            raise TypeError('incompatible function arguments')
        _call('WaveTable')
        b = [w.encode() for w in waves]
        self._h = _lib.core_table((ctypes.c_char_p * len(b))(*b), len(b))
        if not self._h:
            _failed()

    def __del__(self):
        if getattr(self, '_h', None):
            _lib.core_table_free(self._h)

    def _ids(self):
        a = numpy.empty(512, numpy.int32)
        return [Constituent(int(i)) for i in a[:_lib.core_table_ids(self._h, _ptr(a), 512)]]

    def keys(self): return [_lib.core_name(int(i)).decode() for i in self._ids()]
    def values(self): return [Wave(self, i) for i in self._ids()]
    def __len__(self): return _lib.core_table_size(self._h)
    def __iter__(self): return iter(self.values())

    def __getitem__(self, ident):
        if not isinstance(ident, Constituent):
            raise TypeError('incompatible function arguments')
        return Wave(self, ident) if ident in self._ids() else None

    def find(self, ident):
        i = module.core.constituents.parse(ident)
        return Wave(self, i) if i in self._ids() else None

    def compute_nodal_corrections(self, angles):
        if not isinstance(angles, AstronomicAngle):
            raise TypeError('incompatible function arguments')
        _lib.core_table_corrections(self._h, angles._h)

    def compute_nodal_modulations(self, dates, leap_seconds, formulae=Formulae.kSchuremanOrder3):
        f, e, leap = _formulae(formulae), epoch_of(dates), _array(leap_seconds, numpy.uint16)
        _call('compute_nodal_modulations')
        shape = len(self._ids()), len(e)
        a, b = numpy.empty(shape), numpy.empty(shape)
        if len(e) != len(leap):
            raise ValueError('epoch and leap_seconds must have the same size')
        if _lib.core_table_modulations(self._h, _ptr(e), _ptr(leap), len(e), f, _ptr(a), _ptr(b)):
            _failed()
        return a, b

    def tide_from_tide_series(self, dates, leap_seconds, wave, formulae=Formulae.kSchuremanOrder3):
        f, e, leap, w = _formulae(formulae), epoch_of(dates), _array(leap_seconds, numpy.uint16), _array(wave, numpy.complex128)
        _call('tide_from_tide_series')
        if len(e) != len(leap) or len(w) != len(self):
            raise ValueError('inconsistent sizes')
        out = numpy.empty(len(e))
        if _lib.core_table_series(self._h, _ptr(e), _ptr(leap), len(e), _ptr(w), len(w), f, _ptr(out)):
            _failed()
        return out

    @staticmethod
    def harmonic_analysis(h, f, vu):
        x, a, b = _array(h, numpy.float64), _array(f, numpy.float64, 2), _array(vu, numpy.float64, 2)
        if a.shape != b.shape or a.shape[1] != len(x):
            raise ValueError('inconsistent sizes')
        _call('harmonic_analysis')
        out = numpy.empty(a.shape[0], numpy.complex128)
        if _lib.core_table_analysis(_ptr(x), len(x), _ptr(a), _ptr(b), a.shape[0], _ptr(out)):
            _failed()
        return out


Constituent = None


def module():
    """The modules pyfes.core, pyfes.core.tidal_model, ..."""
    global Constituent
    if _lib is None:
        _load()
        b = ctypes.create_string_buffer(8192)
        _lib.core_known(b, 8192)
        names = b.value.decode().split()
        Constituent = enum.IntEnum('Constituent', [('k' + n, _lib.core_parse(n.encode())) for n in names])

        def known(): return list(names)

        def parse(name):
            if not isinstance(name, str):
                raise TypeError('incompatible function arguments')
            r = _lib.core_parse(name.encode())
            if r < 0:
                _failed()
            return Constituent(r)

        def name(ident): return _lib.core_name(int(ident)).decode()
        core = types.ModuleType('pyfes.core')
        core.__path__ = []
        sub = {n: types.ModuleType('pyfes.core.' + n) for n in ('constituents', 'tidal_model', 'mesh', 'datemanip')}
        for n, m in sub.items():
            setattr(core, n, m)
        for f in (known, parse, name):
            setattr(sub['constituents'], f.__name__, f)
        sub['mesh'].Index = Index
        sub['datemanip'].as_int64, sub['datemanip'].as_float64 = as_int64, as_float64
        for dbl in (0, 1):
            for c in (_cartesian(dbl), _lgp(1, dbl), _lgp(2, dbl)):
                setattr(sub['tidal_model'], c.__name__, c)
        for c in (Axis, TideType, Quality, Constituent, Formulae, AbstractTidalModelComplex64, AbstractTidalModelComplex128, AstronomicAngle,
                  Settings, Wave, WaveTable, evaluate_tide):
            setattr(core, c.__name__, c)
        for e in (TideType, Quality, Constituent, Formulae):
            for m in e:
                setattr(core, m.name, m)
        module.core, module.sub = core, sub
    sys.modules['pyfes.core'] = module.core
    for n, m in module.sub.items():
        sys.modules['pyfes.core.' + n] = m
    return module.core
