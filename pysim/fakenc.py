"""netCDF4 for the simulator: a reader and a writer of a simple container with the
same interface. Variables are read from the file when indexed. A file that is
being written is a journal of records: one that was not closed can still be
opened, what was not written being undefined."""
import errno, json, os, struct, sys, types, weakref
import numpy

MAGIC = b'SIMNC\x00\x01\n'
JOURNAL = b'SIMNC\x00\x02\n'
# values of the cells never written, by type
FILL = {'i1': -127, 'u1': 255, 'i2': -32767, 'u2': 65535, 'i4': -2147483647, 'u4': 4294967295, 'i8': -9223372036854775806,
        'u8': 18446744073709551614, 'f4': 9.969209968386869e+36, 'f8': 9.969209968386869e+36}
buffered = [True]                # written when closed, or at once


def encode(variables, dimensions=None):
    """variables: name -> (dims, array or masked array, attributes)"""
    head, blobs, off = {}, [], 0
    dims = dict(dimensions or {})
    for name, (d, a, attrs) in variables.items():
        attrs = dict(attrs)
        raw = a
        if isinstance(a, numpy.ma.MaskedArray):
            fill = attrs.setdefault('_FillValue', float(numpy.dtype(a.dtype).type(1.8446744073709552e+19)) if a.dtype.kind == 'f' else -2147483647)
            raw = a.filled(fill)
        b = numpy.ascontiguousarray(raw).tobytes()
        for k, n in zip(d, raw.shape):
            dims.setdefault(k, n)
        head[name] = dict(dims=list(d), shape=list(raw.shape), dtype=raw.dtype.str, off=off, n=len(b), attrs=attrs)
        blobs.append(b)
        off += len(b)
    h = json.dumps(dict(vars=head, dims=dims)).encode()
    return MAGIC + struct.pack('<I', len(h)) + h + b''.join(blobs)


class Dimension:
    def __init__(self, name, size): self.name, self.size = name, size
    def __len__(self): return self.size
    def isunlimited(self): return False


class Variable:
    def __init__(self, ds, name, h):
        self.__dict__.update(_ds=ds, name=name, _h=h, dimensions=tuple(h['dims']), shape=tuple(h['shape']),
                             dtype=numpy.dtype(h['dtype']), ndim=len(h['shape']), mask=True, _auto=True)
        self.__dict__['size'] = int(numpy.prod(h['shape'])) if h['shape'] else 1

    def __getattr__(self, k):
        try:
            return self.__dict__['_h']['attrs'][k]
        except KeyError:
            raise AttributeError(f'NetCDF: Attribute not found: {k}') from None

    def ncattrs(self): return list(self._h['attrs'])

    def getncattr(self, k, encoding='utf-8'): return self.__getattr__(k)
    def get_dims(self): return tuple(self._ds.dimensions[d] for d in self.dimensions)
    def group(self): return self._ds
    def chunking(self): return 'contiguous'
    def endian(self): return 'little'
    def get_fill_value(self): return self._h['attrs'].get('_FillValue', FILL.get(self.dtype.str[1:]))
    def set_auto_mask(self, m): self._auto = bool(m)
    set_auto_maskandscale = set_auto_mask
    set_always_mask = set_auto_scale = lambda self, m: None
    datatype = property(lambda s: s.dtype)
    def __len__(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __getitem__(self, key):
        try:
            b = self._ds._read(self._ds._data + self._h['off'], self._h['n'])
        except OSError:
            raise RuntimeError('NetCDF: HDF error') from None
        a = numpy.frombuffer(b, self.dtype).reshape(self.shape).copy()
        if not self._auto:
            return a[key]
        fill = self._h['attrs'].get('_FillValue', FILL.get(self.dtype.str[1:]) if self.dtype.itemsize > 1 else None)
        mask = numpy.zeros(a.shape, bool) if fill is None else a == self.dtype.type(fill)
        m = numpy.ma.MaskedArray(a, mask=mask if mask.any() else False, fill_value=fill)
        return m[key]

    def __array__(self, dtype=None, copy=None):
        a = self[...]
        return numpy.asarray(a.data if isinstance(a, numpy.ma.MaskedArray) else a, dtype=dtype)


class Written(Variable):
    """A variable of a file that is being written."""

    def __init__(self, ds, name, h, a):
        super().__init__(ds, name, h)
        self.__dict__['_a'] = a

    def _growing(self): return any(self._ds.dimensions[d].isunlimited() for d in self.dimensions)

    def _shape(self): return tuple(len(self._ds.dimensions[d]) for d in self.dimensions)

    shape = property(_shape)
    size = property(lambda s: int(numpy.prod(s._shape())))

    def _values(self):
        s = self._shape()
        if s != self._a.shape:
            a = numpy.full(s, self._fill(), self.dtype)
            a[tuple(slice(n) for n in self._a.shape)] = self._a
            self.__dict__['_a'] = a
        return self._a

    def _fill(self): return self.dtype.type(self._h['attrs'].get('_FillValue', FILL[self.dtype.str[1:]]))

    def __setattr__(self, k, v):
        if k in ('_auto', ):
            self.__dict__[k] = v
        else:
            self.setncattr(k, v)

    def setncattr(self, k, v):
        self._ds._live()
        if k == '_FillValue':
            raise AttributeError('NetCDF: Attempt to define fill value when data already exists.')
        v = plain(v)
        self._h['attrs'][k] = v
        self._ds._record(dict(k='attr', var=self.name, name=k, value=v))
    setncattr_string = setncattr

    def setncatts(self, d):
        for k, v in d.items():
            self.setncattr(k, v)

    def __setitem__(self, key, value):
        self._ds._live()
        v = numpy.ma.asanyarray(value)
        a = self._values()
        whole = isinstance(key, slice) and key == slice(None) or key is Ellipsis or key == ()
        if self._growing() and v.ndim and (whole or isinstance(key, slice)):
            d = self._ds.dimensions[self.dimensions[0]]
            start = (key.start or 0) if isinstance(key, slice) else 0
            if d.isunlimited() and start + v.shape[0] > d.size:
                d.size = start + v.shape[0]
            a = self._values()
            key = (slice(start, start + v.shape[0]), ) if d.isunlimited() else key
        elif self._growing() and isinstance(key, tuple) and key and isinstance(key[0], (int, numpy.integer)):
            d = self._ds.dimensions[self.dimensions[0]]
            if d.isunlimited() and key[0] >= d.size:
                d.size = int(key[0]) + 1
            a = self._values()
        elif self._growing() and isinstance(key, (int, numpy.integer)):
            d = self._ds.dimensions[self.dimensions[0]]
            if d.isunlimited() and key >= d.size:
                d.size = int(key) + 1
            a = self._values()
        target = a[key]
        if v.ndim and v.size != 1 and v.size != numpy.size(target):
            raise IndexError('size of data array does not conform to slice')
        with numpy.errstate(all='ignore'):
            raw = v.filled(self._fill()) if numpy.ma.is_masked(v) else numpy.asarray(v.data if isinstance(v, numpy.ma.MaskedArray) else v)
            a[key] = numpy.reshape(raw, numpy.shape(target)) if raw.size == numpy.size(target) else raw
        self._ds._record(dict(k='data', var=self.name, shape=list(a.shape)), numpy.ascontiguousarray(a).tobytes())

    def __getitem__(self, key):
        self._ds._live()
        a = self._values().copy()
        if not self._auto:
            return a[key]
        fill = self._fill()
        mask = a == fill
        return numpy.ma.MaskedArray(a, mask=mask if mask.any() else False, fill_value=fill)[key]


def plain(v):
    return v.tolist() if isinstance(v, (numpy.generic, numpy.ndarray)) else v


def replay(b):
    """The variables and dimensions of a file written as a journal; whether it was closed."""
    dims, vs, blobs, attrs, closed, i = {}, {}, {}, {}, False, len(JOURNAL)
    while i + 8 <= len(b):
        n, m = struct.unpack('<II', b[i:i + 8])
        if i + 8 + n + m > len(b):
            break
        try:
            r = json.loads(b[i + 8:i + 8 + n])
        except ValueError:
            break
        blob, at = b[i + 8 + n:i + 8 + n + m], i + 8 + n
        i = at + m
        if r['k'] == 'dim':
            dims[r['name']] = r['size'] or 0
        elif r['k'] == 'var':
            vs[r['name']] = dict(dims=r['dims'], dtype=r['dtype'], attrs=r['attrs'])
        elif r['k'] == 'attr':
            (vs[r['var']]['attrs'] if r['var'] else attrs)[r['name']] = r['value']
        elif r['k'] == 'data':
            blobs[r['var']] = (r['shape'], blob)
            for d, s in zip(vs[r['var']]['dims'], r['shape']):
                dims[d] = max(dims[d], s)
        elif r['k'] == 'end':
            closed = True
    out = {}
    for k, h in vs.items():
        shape = tuple(dims[d] for d in h['dims'])
        dt = numpy.dtype(h['dtype'])
        a = numpy.full(shape, h['attrs'].get('_FillValue', FILL[dt.str[1:]]), dt)
        if k in blobs:
            s, blob = blobs[k]
            a[tuple(slice(x) for x in s)] = numpy.frombuffer(blob, dt).reshape(s)
        out[k] = (h, a)
    return out, dims, attrs, closed


open_files = weakref.WeakSet()


class Dataset:
    def __new__(cls, filename=None, mode='r', *a, **k):
        return super().__new__(Writer if cls is Dataset and mode[:1] in ('w', 'x', 'a') or mode.startswith('r+') else cls)

    def __init__(self, filename, mode='r', *a, **k):
        self._fd = -1
        self._path = os.fspath(filename)
        if not self._path:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', self._path)
        self._fd = os.open(self._path, os.O_RDONLY)
        try:
            try:
                h = self._read(0, len(MAGIC) + 4)
                if h[:len(MAGIC)] == JOURNAL:
                    self._journal()
                    return
                if h[:len(MAGIC)] != MAGIC:
                    raise RuntimeError
                n = struct.unpack('<I', h[-4:])[0]
                j = json.loads(self._read(len(MAGIC) + 4, n))
            except IsADirectoryError:
                raise
            except OSError as e:
                raise OSError(e.errno, os.strerror(e.errno), self._path) from None
            except (RuntimeError, ValueError):
                raise OSError(-51, 'NetCDF: Unknown file format', self._path) from None
        except BaseException:
            self.close()
            raise
        self._data = len(MAGIC) + 4 + n
        self._open(j)

    def _journal(self):
        b, off = b'', os.lseek(self._fd, 0, os.SEEK_SET)
        while True:
            x = os.read(self._fd, 1 << 20)
            if not x:
                break
            b += x
        vs, dims, _, _ = replay(b)
        self._image, self._data, j, off = [], 0, dict(vars={}, dims=dims), 0
        for k, (h, a) in vs.items():
            raw = a.tobytes()
            j['vars'][k] = dict(h, shape=list(a.shape), off=off, n=len(raw))
            off += len(raw)
            self._image.append(raw)
        self._image = b''.join(self._image)
        self._open(j)

    def _open(self, j):
        self.variables = {k: Variable(self, k, v) for k, v in j['vars'].items()}
        self.dimensions = {k: Dimension(k, v) for k, v in j['dims'].items()}
        self.groups, self.name, self.parent = {}, '/', None
        self.data_model = self.disk_format = self.file_format = 'NETCDF4'

    def _read(self, off, n):
        if self._fd < 0:
            raise RuntimeError('NetCDF: Not a valid ID')
        if getattr(self, '_image', None) is not None:
            return self._image[off:off + n]
        out = b''
        while len(out) < n:
            os.lseek(self._fd, off + len(out), os.SEEK_SET)
            b = os.read(self._fd, n - len(out))
            if not b:
                raise RuntimeError('NetCDF: HDF error')
            out += b
        return out

    def __getitem__(self, k):
        try:
            return self.variables[k]
        except KeyError:
            raise IndexError(f'{k} not found in /') from None

    def set_auto_mask(self, m):
        for v in self.variables.values():
            v.set_auto_mask(m)
    set_auto_maskandscale = set_auto_mask
    set_always_mask = set_auto_scale = lambda self, m: None
    groups, parent, data_model, file_format, disk_format = {}, None, 'NETCDF4', 'NETCDF4', 'HDF5'
    name, path = '/', '/'
    set_ncstring_attrs = set_always_mask

    def get_variables_by_attributes(self, **kw):
        def fits(v, k, x):
            a = v._h['attrs'].get(k)
            return x(a) if callable(x) else a == x
        return [v for v in self.variables.values() if all(fits(v, k, x) for k, x in kw.items())]

    def ncattrs(self): return []
    def filepath(self, *a): return self._path
    def isopen(self): return self._fd >= 0

    def close(self):
        if self._fd >= 0:
            fd, self._fd = self._fd, -1
            os.close(fd)

    def __enter__(self): return self
    def __exit__(self, *a): self.close()

    def __del__(self):
        if getattr(self, '_fd', -1) >= 0:
            os.close(self._fd)


class Writer(Dataset):
    def __init__(self, filename, mode='r', clobber=True, *a, **k):
        self._fd, self._pending, self._bad = -1, [], False
        self._path = os.fspath(filename)
        self._now = not buffered[0]
        flags = os.O_CREAT | os.O_RDWR | (os.O_TRUNC if mode[0] == 'w' else 0)
        if mode[0] == 'x' or mode[0] == 'w' and not clobber:
            flags |= os.O_EXCL
        if mode[0] in 'ar':
            raise NotImplementedError('appending to a file is not simulated')
        try:
            self._fd = os.open(self._path, flags, 0o666)
        except OSError as e:
            e = errno.EACCES if e.errno == errno.ENOENT else e.errno
            raise OSError(e, os.strerror(e), self._path) from None
        self.variables, self.dimensions, self.groups, self.name, self.parent, self._attrs = {}, {}, {}, '/', None, {}
        self.data_model = self.disk_format = self.file_format = 'NETCDF4'
        open_files.add(self)
        self._put(JOURNAL)

    def _live(self):
        if self._fd < 0:
            raise RuntimeError('NetCDF: Not a valid ID')

    def _put(self, b):
        self._pending.append(b)
        if self._now:
            self._flush()

    def _flush(self):
        b, self._pending = b''.join(self._pending), []
        while b:
            try:
                n = os.write(self._fd, b[:4096])
            except OSError:
                self._bad = True
                raise RuntimeError('NetCDF: HDF error') from None
            b = b[n:]

    def _record(self, r, blob=b''):
        if self._bad:            # nothing after the first failure makes sense
            return
        j = json.dumps(r).encode()
        self._put(struct.pack('<II', len(j), len(blob)) + j + blob)

    def createDimension(self, name, size=None):
        self._live()
        if name in self.dimensions:
            raise RuntimeError('NetCDF: String match to name in use')
        d = Dimension(name, int(size) if size is not None else 0)
        if size is None or size == 0:
            d.isunlimited = lambda: True
        self.dimensions[name] = d
        self._record(dict(k='dim', name=name, size=d.size))
        return d

    def createVariable(self, varname, datatype, dimensions=(), zlib=False, *a, fill_value=None, **k):
        self._live()
        if varname in self.variables:
            raise RuntimeError('NetCDF: String match to name in use')
        dt = numpy.dtype({'d': 'f8', 'f': 'f4', 'i': 'i4', 'l': 'i4', 's': 'i2'}.get(datatype, datatype) if isinstance(datatype, str) else datatype)
        if isinstance(dimensions, (str, Dimension)):
            dimensions = (dimensions, )
        names = [d.name if isinstance(d, Dimension) else d for d in dimensions]
        for n in names:
            if n not in self.dimensions:
                raise ValueError(f"cannot find dimension {n} in this group or parent groups")
        h = dict(dims=names, shape=[len(self.dimensions[n]) for n in names], dtype=dt.str, attrs={})
        if fill_value is not None and fill_value is not False:
            h['attrs']['_FillValue'] = plain(fill_value)
        v = Written(self, varname, h, numpy.full(h['shape'], h['attrs'].get('_FillValue', FILL[dt.str[1:]]), dt))
        self.variables[varname] = v
        self._record(dict(k='var', name=varname, dims=names, dtype=dt.str, attrs=dict(h['attrs'])))
        return v

    def setncattr(self, k, v):
        self._live()
        self._attrs[k] = plain(v)
        self._record(dict(k='attr', var='', name=k, value=plain(v)))
    setncattr_string = setncattr

    def setncatts(self, d):
        for k, v in d.items():
            self.setncattr(k, v)

    def __setattr__(self, k, v):
        if k.startswith('_') or k in ('variables', 'dimensions', 'groups', 'name', 'parent', 'data_model', 'disk_format', 'file_format'):
            self.__dict__[k] = v
        else:
            self.setncattr(k, v)

    def __getattr__(self, k):
        try:
            return self.__dict__['_attrs'][k]
        except KeyError:
            raise AttributeError(f'NetCDF: Attribute not found: {k}') from None

    def ncattrs(self): return list(self._attrs)
    def set_fill_on(self): pass
    def set_fill_off(self): pass

    def sync(self):
        self._live()
        self._flush()

    def close(self):
        if self._fd < 0:
            raise RuntimeError('NetCDF: Not a valid ID')
        try:
            self._record(dict(k='end'))
            self._flush()
        finally:
            fd, self._fd = self._fd, -1
            try:
                os.close(fd)
            except OSError:
                self._bad = True
        if self._bad:
            raise RuntimeError('NetCDF: HDF error')

    def __del__(self):
        if getattr(self, '_fd', -1) >= 0:
            try:
                self.close()
            except RuntimeError:
                pass


def module():
    m = types.ModuleType('netCDF4')
    m.Dataset, m.Variable, m.Dimension, m.__version__ = Dataset, Variable, Dimension, '1.7.2'
    m.default_fillvals = dict(FILL, S1='\x00')
    sys.modules['netCDF4'] = m
    return m
