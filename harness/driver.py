"""
Runs histories (programs) against the real library in /repo and records what
it answers.  Reads one program per line (JSON) from argv[1], writes one
recorded history per line to argv[2].

It judges nothing: the answers are judged by the TLA+ specification.
"""
import copy
import datetime
import json
import math
import os
import signal
import sys
import threading
import traceback
import warnings
from fractions import Fraction

REPO = os.environ.get('BIGGUS_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

import numpy as np                       # noqa
np.seterr(all='ignore')
import biggus                            # noqa
import biggus._init as bi                # noqa

DEFAULT_LIMIT = bi.MAX_CHUNK_SIZE
if __name__ == "__main__":
    threading.excepthook = lambda args: None

DT = {'b1': np.bool_, 'i1': np.int8, 'i2': np.int16, 'i4': np.int32,
      'i8': np.int64, 'u1': np.uint8, 'f2': np.float16, 'f4': np.float32,
      'f8': np.float64,
      # These are viewed only, not computed with.
      '>i4': np.dtype('>i4'), '>f4': np.dtype('>f4'), '>f8': np.dtype('>f8'),
      'c8': np.complex64, 'c16': np.complex128, 'S5': np.dtype('S5'),
      'U5': np.dtype('U5'), 'u2': np.uint16, 'u4': np.uint32,
      'u8': np.uint64, 'M8': np.dtype('M8[s]'), 'm8': np.dtype('m8[s]')}
NAMES = {np.dtype(t): n for n, t in DT.items()}
# Histories whose arrays have the other byte order all over do not
# distinguish byte orders.
SWAP = [False]
MASKED = [0, -1]
BIG = 2 ** 31 - 1
TOLERANCE = {'f8': 1e-7, 'f4': 1e-4}


def dtname(dtype):
    try:
        name = NAMES.get(np.dtype(dtype), str(dtype))
        return name.lstrip('>') if SWAP[0] else name
    except TypeError:
        return str(dtype)


class Timeout(Exception):
    pass


HANGS = []


def on_alarm(signum, frame):
    HANGS.append(1)
    raise Timeout('no answer')


class Encoder(object):
    """Cells of values, for one history."""
    def __init__(self, off, lim):
        self.off = off
        self.lim = lim                  # [f8, other floats]
        self.tokens = []

    def token(self, x, tol):
        best = None
        for i, (y, t) in enumerate(self.tokens):
            if x == y:
                return [i + 2, -2]
            if tol and t and abs(x - y) <= tol * max(abs(x), abs(y)):
                if best is None or abs(x - y) < best[0]:
                    best = (abs(x - y), i)
        if best is not None:
            return [best[1] + 2, -2]
        self.tokens.append((x, bool(tol)))
        return [len(self.tokens) + 1, -2]

    def number(self, x, kind, sq=False, off=False, lo=0, tok=False):
        # kind is the name of the dtype
        kind = kind.lstrip('>')
        if kind == 'b1':
            return [int(bool(x)), 1]
        if kind in ('c8', 'c16'):
            x = complex(x)
            if abs(x - 1e20) < 1e14:
                return [1, -2]
            part = 'f8' if kind == 'c16' else 'f4'
            if sq:              # a variance or standard deviation
                if abs(x.imag) <= TOLERANCE[part] * abs(x):
                    return self.number(x.real, part, sq, lo=lo, tok=tok)
            elif abs(x.imag - 2 * x.real) <= TOLERANCE[part] * abs(x):
                return self.number(x.real, part, lo=lo, tok=tok)
            return (self.token(x, TOLERANCE[part]) if abs(x) < 1e300
                    else self.token(repr(x), 0))
        if kind in ('M8', 'm8') and isinstance(x, np.generic):
            x = x.item()
        if kind in ('M8', 'm8'):
            if x is None:
                return [1, -2]
            if kind == 'M8' and isinstance(x, datetime.datetime):
                x = x - datetime.datetime(1970, 1, 1)
            if isinstance(x, datetime.timedelta):
                x = x.total_seconds()
                if x == int(x):
                    return [int(x), 1]
            return self.token(repr(x), 0)
        if kind in ('S5', 'U5'):
            text = x.decode() if isinstance(x, bytes) else x
            if text == 'N/A':
                return [1, -2]
            return ([int(text), 1] if text.lstrip('-').isdigit()
                    else self.token(repr(text), 0))
        if kind[0] in 'iu':
            n = int(x) - (self.off if off else 0)
            return [n, 1] if abs(n) < BIG else self.token(n, 0)
        if kind[0] != 'f':
            return self.token(repr(x), 0)
        x = float(x)
        if lo:              # no more precise than this
            kind = min(kind, 'f4' if lo == 1 else 'f2')
        if math.isnan(x):
            return [0, 0]
        if math.isinf(x):
            return [1 if x > 0 else -1, 0]
        if abs(x - 1e20) < 1e14:
            return [1, -2]
        if tok:
            return self.token(x, TOLERANCE.get(kind, 5e-3))
        fr = Fraction(x)
        if sq is True:
            fr = fr * fr if fr >= 0 else -fr * fr
        if off:
            fr -= self.off
        lim = self.lim[0] if kind == 'f8' else self.lim[1]
        near = fr.limit_denominator(lim)
        size = max(1, abs(fr))
        if self.off:
            tol = Fraction(1, 10 ** 5)
        else:
            tol = Fraction(1, 10 ** 9 if kind == 'f8' else
                           10 ** 5 if kind == 'f4' else 500)
        if abs(fr - near) <= tol * size and abs(near.numerator) < BIG:
            return [near.numerator, near.denominator]
        return self.token(float(fr), TOLERANCE.get(kind, 5e-3))

    def cells(self, array, sq=False, off=False, lo=0, tok=False):
        kind = dtname(array.dtype)
        data = np.ma.getdata(array)
        mask = np.ma.getmaskarray(array)
        return [MASKED if m else self.number(x, kind, sq, off, lo, tok)
                for x, m in zip(data.ravel().tolist(), mask.ravel().tolist())]


def value(cell, off=0):
    n, d = cell
    if d > 0:
        return n / d if d != 1 else n + off
    return {(0, 0): float('nan'), (1, 0): float('inf'),
            (-1, 0): float('-inf'), (1, -2): 1e20}[(n, d)]


def native(cell, dt, off=0):
    """The value of a cell of the given dtype."""
    x = cell[0] / cell[1] + off if cell[1] > 1 else value(cell, off)
    if dt in ('c8', 'c16'):
        return complex(x, 0 if x == 1e20 else 2 * x)
    if dt in ('S5', 'U5'):
        x = 'N/A' if x == 1e20 else str(x)
        return x.encode() if dt == 'S5' else x
    if dt in ('M8', 'm8'):
        cls = np.datetime64 if dt == 'M8' else np.timedelta64
        return cls('NaT' if x == 1e20 else x, 's')
    return x


def dtype_of(name):
    dt = DT[name]
    return np.dtype(dt).newbyteorder('S') if SWAP[0] else dt


def make_array(s, off=0):
    """A NumPy array from its description."""
    dt = dtype_of(s['dt'])
    mask = [c == MASKED for c in s['data']]
    under = s.get('under', 7)
    vals = []
    for c, m in zip(s['data'], mask):
        vals.append(native([under, 1] if m else c, s['dt'], off))
    data = np.array(vals, dtype=dt).reshape(s['sh'])
    layout = s.get('layout', 'C')
    if layout == 'F' and data.ndim:
        data = np.asfortranarray(data)
    elif layout == 'strided' and data.ndim:
        big = np.zeros(data.shape[:-1] + (2 * data.shape[-1],), dtype=dt)
        big[..., ::2] = data
        data = big[..., ::2]
    elif layout == 'reversed' and data.ndim:
        data = np.array(data[::-1])[::-1]
    if s['ma']:
        fv = native(s['fv'][0], s['dt']) if s['fv'] else None
        if s.get('nomask'):
            data = np.ma.MaskedArray(data, fill_value=fv)
        else:
            data = np.ma.MaskedArray(
                data, mask=np.array(mask, dtype=bool).reshape(s['sh']),
                fill_value=fv)
    return data


def before_read(number):
    """For drivers which do something else here."""


def after_read(number, array):
    return array


class Source(object):
    """A data source which records what is read from it."""
    def __init__(self, array, number, log, ortho):
        self._array = array
        self._ids = np.arange(array.size).reshape(array.shape)
        self._number = number
        self._log = log
        self._ortho = ortho
        self.shape = array.shape
        self.dtype = array.dtype
        self.ndim = array.ndim
        if np.ma.isMaskedArray(array):
            self.fill_value = array.fill_value

    def __deepcopy__(self, memo):
        return Source(copy.deepcopy(self._array), self._number, self._log,
                      self._ortho)

    def _get(self, array, keys):
        if self._ortho:
            if not isinstance(keys, tuple):
                keys = (keys,)
            if any(k is Ellipsis for k in keys):
                return array[keys]
            for axis, key in reversed(list(enumerate(keys))):
                if isinstance(key, tuple):
                    key = np.array(key, dtype=int)
                if array.ndim:
                    array = array[(slice(None),) * axis + (key,)]
            return array
        return array[keys]

    def __getitem__(self, keys):
        before_read(self._number)
        ids = np.asarray(self._get(self._ids, keys))
        self._log.append({'s': self._number, 'n': int(ids.size),
                          'ix': [int(i) for i in ids.ravel()]})
        return after_read(self._number, self._get(self._array, keys))

    def __array__(self, dtype=None):
        before_read(self._number)
        self._log.append({'s': self._number, 'n': int(self._ids.size),
                          'ix': list(range(self._ids.size))})
        return np.asarray(self._array, dtype=dtype)


class PlainOrtho(Source):
    """An orthogonal source with as few attributes as possible."""
    def __init__(self, array, number, log):
        self._array = array
        self._ids = np.arange(array.size).reshape(array.shape)
        self._number = number
        self._log = log
        self._ortho = True
        self.shape = array.shape
        self.dtype = array.dtype

    def __deepcopy__(self, memo):
        return PlainOrtho(copy.deepcopy(self._array), self._number, self._log)


class Target(object):
    """A target for save which records what is written to it."""
    def __init__(self, shape, enc, opts):
        self._ids = np.arange(int(np.prod(shape))).reshape(shape)
        self.shape = tuple(shape)
        self.writes = []
        self._enc = enc
        self._opts = opts
        self.others = []

    def __setitem__(self, keys, data):
        before_read('target')
        ids = np.asarray(self._ids[keys])
        kind = ('ma' if np.ma.isMaskedArray(data) else
                'nd' if type(data) is np.ndarray else type(data).__name__)
        data = data if isinstance(data, np.ndarray) else np.asarray(data)
        full = np.broadcast_to(np.ma.getdata(data), ids.shape)
        mask = np.broadcast_to(np.ma.getmaskarray(data), ids.shape)
        full = np.ma.MaskedArray(full, mask=mask)
        self.writes.append({'ix': [int(i) for i in ids.ravel()],
                            'c': self._enc.cells(full, *self._opts),
                            'kind': kind})


def make_key(key):
    k, form = key['k'], key.get('f', 0)
    if k == 'i':
        n = key['i']
        return [n, np.int64(n), np.int8(n), np.int32(n)][form]
    if k == 's':
        parts = [key[x][0] if key[x] else None for x in 'abc']
        if form == 1:
            parts = [None if p is None else np.int64(p) for p in parts]
        return slice(*parts)
    if k == 't':
        t = key['t']
        if form == 0:
            return tuple(t)
        if form == 1:
            return np.array(t, dtype=int)
        if form == 2:
            return tuple(np.int64(i) for i in t)
        return np.array(t, dtype=np.int16)
    if k == 'm':
        return np.array(key['t'], dtype=bool)
    if k == 'e':
        return Ellipsis
    if k == 'n':
        return np.newaxis
    if k == 'x':
        return {'str': 'a', 'float': 1.5, 'object': object(),
                'floats': (0.0,), 'mixed': (0, 0.5), 'half': (-0.5,),
                'farray': np.array([0.0]), 'fscalar': np.float64(0),
                'strs': ('a',), 'nested': ((0,),),
                'mask2': np.ones((1, 1), dtype=bool),
                'mask2b': np.zeros((2, 1), dtype=bool),
                'mask0': np.array(True), 'int2': np.zeros((1, 1), dtype=int),
                'fslice': slice(0.5, None), 'fstep': slice(None, None, 1.0),
                'sslice': slice(None, 'a')}[key['x']]
    raise ValueError(k)


class Skip(Exception):
    pass


def same(a, b):
    """Whether two concrete arrays hold the same."""
    if type(a) is not type(b) or a.shape != b.shape or a.dtype != b.dtype:
        return False
    if np.ma.isMaskedArray(a):
        if not np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)):
            return False
    return np.ma.getdata(a).tobytes() == np.ma.getdata(b).tobytes()


def scribble(array, n):
    """Change the elements, and sometimes the mask, of an array."""
    data = np.ma.getdata(array)
    kind = data.dtype.kind
    if kind == 'b':
        data[...] = ~data
    elif kind in 'iufcmM':
        data[...] = data + 1
    elif kind in 'SU':
        data[...] = 'z'
    if np.ma.isMaskedArray(array) and n % 2:
        array.mask = ~np.ma.getmaskarray(array)


class History(object):
    def __init__(self, prog):
        self.prog = prog
        self.dasks = None
        self.joints = 0
        self.objs = {}         # arrays of arrays, and what is in them
        self.off = int(prog.get('off', '0'))
        self.enc = Encoder(self.off, prog['lim'])
        self.log = []
        self.arrays = []       # the virtual arrays; None where there is none
        self.kept = []         # (concrete array, copy of it)
        self.written = 0
        self.sources = []

    def keep(self, array):
        if isinstance(array, np.ndarray):
            self.kept.append((array, array.copy()))

    def array(self, h):
        array = self.arrays[h - 1]
        if array is None:
            raise Skip()
        return array

    def operand(self, o):
        if o['k'] == 'h':
            return self.array(o['h'])
        if o['k'] == 'py':
            v = value(o['v'])
            return int(v) if o['t'] == 'int' else float(v)
        array = make_array(o)
        self.keep(array)
        if o.get('scalar'):
            return array[()]
        return array

    # The steps which build arrays ------------------------------------
    def op_src(self, s):
        array = make_array(s, self.off if s['off'] else 0)
        self.keep(array)
        kind = s['kind']
        if s['track'] or s['wrap']:
            if kind == 'bare':
                source = PlainOrtho(array, s['of'], self.log)
            else:
                source = Source(array, s['of'], self.log, kind == 'ortho')
        else:
            source = array
        if kind in ('ortho', 'bare'):
            if source is array:
                source = Source(array, s['of'], self.log, True)
            return biggus.OrthoArrayAdapter(source)
        return biggus.NumpyArrayAdapter(source)

    def op_const(self, s):
        v = native(s['v'], s['dt'])
        dt = dtype_of(s['dt'])
        if s['via'] == 'zeros':
            return biggus.zeros(tuple(s['sh']), dt)
        if s['via'] == 'ones':
            return biggus.ones(tuple(s['sh']), dt)
        if s['via'] == 'infer':
            return biggus.ConstantArray(tuple(s['sh']), DT[s['dt']](v))
        return biggus.ConstantArray(tuple(s['sh']), v, dt)

    def op_idx(self, s):
        keys = tuple(make_key(k) for k in s['keys'])
        if s['bare'] and len(keys) == 1 and not isinstance(keys[0], tuple):
            keys = keys[0]
        return self.array(s['a'])[keys]

    def op_tr(self, s):
        a = self.array(s['a'])
        if s['default']:
            return a.transpose()
        return a.transpose(s['perm'])

    def op_bc(self, s):
        return biggus.BroadcastArray(
            self.array(s['a']), {d: n for d, n in s['dims']},
            tuple(s['lead']))

    def op_newaxes(self, s):
        return bi.NewAxesArray(self.array(s['a']), s['new'])

    def op_bcpair(self, s):
        pair = biggus.BroadcastArray.broadcast_arrays(self.array(s['a']),
                                                      self.array(s['b']))
        return pair[s['which'] - 1]

    def op_astype(self, s):
        dt = DT[s['dt']]
        return self.array(s['a']).astype(np.dtype(dt) if s.get('f') else dt)

    def op_meq(self, s):
        v = s['v']
        return biggus.masked_equal(
            self.array(s['a']),
            v[0] / v[1] if v[1] > 1 else value(v))

    def op_stack(self, s):
        members = [self.array(a) for a in s['as']]
        if s['via'] == 'multi':
            return biggus.ArrayStack.multidim_array_stack(
                members, tuple(s['ssh']), s['order'])
        if s['via'] == 'multi_np':
            objs = np.empty(len(members), dtype=object)
            objs[:] = members
            return biggus.ArrayStack.multidim_array_stack(
                objs, tuple(s['ssh']), s['order'])
        return biggus.ArrayStack(self.objects(members, s['ssh'], s['order']))

    def objects(self, members, shape, order='C'):
        """An array of arrays, the same one for the same arrays."""
        key = tuple(map(id, members)), tuple(shape), order
        if key not in self.objs:
            objs = np.empty(len(members), dtype=object)
            objs[:] = members
            objs = objs.reshape(shape, order=order)
            self.objs[key] = objs, list(objs.flat)
        return self.objs[key][0]

    def op_mosaic(self, s):
        members = [self.array(a) for a in s['as']]
        return biggus.LinearMosaic(self.objects(members, [len(members)]),
                                   s['ax'])

    def op_un(self, s):
        return getattr(biggus, s['f'])(self.array(s['a']))

    def op_bin(self, s):
        x, y = self.operand(s['x']), self.operand(s['y'])
        if s['via'] == 'op':
            return {'add': lambda: x + y, 'sub': lambda: x - y,
                    'multiply': lambda: x * y,
                    'true_divide': lambda: x / y,
                    'floor_divide': lambda: x // y,
                    'power': lambda: x ** y}[s['f']]()
        return getattr(biggus, s['f'])(x, y)

    def op_agg(self, s):
        kwargs = {}
        if s['f'] in ('std', 'var') and s['kw']:
            kwargs['ddof'] = s['ddof']
        if s['f'] == 'mean' and s['kw']:
            kwargs['mdtol'] = s['mdtol'][0] / s['mdtol'][1]
        ax = s['ax']
        form = s.get('form', 0)
        if form == 1:
            ax = (ax,)
        elif form == 2:
            ax = np.int64(ax)
        elif form == 3:
            ax = [ax]
        return getattr(biggus, s['f'])(self.array(s['a']), axis=ax, **kwargs)

    def op_copy(self, s):
        return copy.deepcopy(self.array(s['a']))

    def op_fail(self, s):
        """Operations which have to be refused."""
        what = s['what']
        a = self.array(s['a'])
        if what == 'noaxis':
            return getattr(biggus, s['f'])(a)
        if what == 'axes':
            return getattr(biggus, s['f'])(a, axis=tuple(s['axes']))
        if what == 'axistype':
            return getattr(biggus, s['f'])(a, axis='x')
        if what == 'key':
            return a[tuple(make_key(k) for k in s['keys'])]
        if what == 'stackmember':
            objs = np.empty(2, dtype=object)
            objs[0] = a
            objs[1] = np.zeros(a.shape, a.dtype)
            return biggus.ArrayStack(objs)
        if what == 'mosaictile':
            return biggus.LinearMosaic([a, np.zeros(a.shape, a.dtype)],
                                       s['axes'][0])
        if what == 'operand':
            return biggus.add(a, 'text')
        if what == 'multisize':
            return biggus.ArrayStack.multidim_array_stack(
                [a] * s['axes'][0], tuple(s['axes'][1:]))
        raise ValueError(what)

    # ------------------------------------------------------------------
    def table(self, s, step):
        """What NumPy gives for a function on all the values at hand."""
        np_name = {'sub': 'subtract'}.get(s['f'], s['f'])
        np_fn = getattr(np, np_name)
        ma_fn = getattr(np.ma, np_fn.__name__, None)
        has_ma = ma_fn is not None
        dts, args = s['tabdts'], s['tabargs']
        arrays = []
        for dt, cells in zip(dts, args):
            if dt in ('int', 'float'):
                arrays.append([(c, int(value(c)) if dt == 'int'
                                else c[0] / c[1] if c[1] > 1
                                else float(value(c))) for c in cells])
            else:
                vals = make_array({'dt': dt, 'data': cells,
                                   'sh': [len(cells)], 'ma': False})
                # Cells name the value which the array really holds.
                arrays.append([(self.enc.number(v, dt), v) for v in vals])
        rows = []
        rdt = ''

        def arr(v, dt):
            return v if dt in ('int', 'float') else np.array([v])
        combos = ([(x,) for x in arrays[0]] if len(arrays) == 1 else
                  [(x, y) for x in arrays[0] for y in arrays[1]])
        if not combos:
            rdt = dtname(np_fn(*[1 if dt == 'int' else 1. if dt == 'float'
                                 else np.ones(1, dtype=DT[dt])
                                 for dt in dts]).dtype)
        for combo in combos:
            vals = [arr(v, dt) for (c, v), dt in zip(combo, dts)]
            cells = [c for c, v in combo]
            if len(cells) == 1:
                cells.append([0, 1])
            try:
                plain = np.asarray(np_fn(*vals))
            except TypeError:
                return [{'dt': '', 'ma': has_ma, 't': []}]
            except Exception:
                rows.append(cells + [[0, -3], [0, -3]])
                continue
            rdt = dtname(plain.dtype)
            row = self.enc.cells(plain, tok=s['tok'])[0]
            if has_ma:
                mvals = [v if dt in ('int', 'float') else np.ma.array(v)
                         for v, dt in zip(vals, dts)]
                mrow = self.enc.cells(np.ma.array(ma_fn(*mvals)),
                                      tok=s['tok'])[0]
            else:
                mrow = row
            rows.append(cells + [row, mrow])
        return [{'dt': rdt, 'ma': has_ma and s['f'] not in
                 ('fmod',), 't': rows}]

    def result(self, array, opt):
        kind = ('ma' if np.ma.isMaskedArray(array) else
                'nd' if type(array) is np.ndarray else type(array).__name__)
        if not isinstance(array, np.ndarray):
            array = np.asarray(array)
        fv = [0, -3]
        if kind == 'ma':
            fv = self.enc.number(array.fill_value, dtname(array.dtype))
        return {'sh': [int(n) for n in array.shape],
                'dt': dtname(array.dtype), 'kind': kind, 'fv': fv,
                'c': self.enc.cells(array, *opt)}

    def realise(self, arrays, masked, how):
        if how == 'single':
            return [a.masked_array() if masked else a.ndarray()
                    for a in arrays]
        if how == 'asarray':
            return [np.asarray(a) for a in arrays]
        if how == 'joint':
            # Any sequence or iterator will do.
            self.joints += 1
            arrays = (list, tuple, iter)[self.joints % 3](arrays)
            return (biggus.masked_arrays(arrays) if masked
                    else biggus.ndarrays(arrays))
        way, _, name = how.rpartition('/')
        engine = self.dask(name)
        if not way:
            return list(engine.masked_arrays(*arrays) if masked
                        else engine.ndarrays(*arrays))
        # As the engine of the library.
        usual, biggus.engine = biggus.engine, engine
        try:
            return list(self.realise(arrays, masked, way))
        finally:
            biggus.engine = usual

    def dask(self, how):
        """The Dask engine, the same one throughout a history."""
        from biggus.experimental.dask_engine import DaskEngine
        import getters
        name, _, seed = how.partition(':')
        self.execute = getters.getter(name, int(seed or 0))
        if self.dasks is None:
            self.dasks = DaskEngine(
                lambda *args, **kwargs: self.execute(*args, **kwargs))
        return self.dasks

    def op_get(self, s, out):
        arrays = [self.array(h) for h in s['hs']]
        if s['how'] == 'joint':
            arrays = list(arrays)
        results = self.realise(arrays, s['masked'], s['how'])
        out['n'] = len(results)
        out['res'] = [self.result(r, opt)
                      for r, opt in zip(results, s['enc'])]
        if len(results) != len(arrays):
            out['res'] = []
        for r in results:
            self.keep(r)
        if s['write']:
            self.written += 1
            for j, r in enumerate(results):
                if isinstance(r, np.ndarray) and r.flags.writeable and r.size:
                    scribble(r, self.written)
                    self.kept = [(a, a.copy() if a is r else b)
                                 for a, b in self.kept]

    def op_meta(self, s, out):
        a = self.array(s['a'])
        shape = a.shape
        if not isinstance(shape, tuple):
            raise TypeError('shape is no tuple')
        out['sh'] = [int(n) for n in shape]
        out['ndim'] = int(a.ndim)
        out['dt'] = dtname(a.dtype)
        out['nbytes'] = int(a.nbytes)
        out['fv'] = self.enc.number(np.asarray(a.fill_value)[()],
                                    dtname(a.dtype))

    def op_print(self, s, out):
        a = self.array(s['a'])
        str(a), repr(a), biggus.size(a)

    def op_setitem(self, s, out):
        self.array(s['a'])[tuple(s['ix'])] = self.array(s['b'])

    def op_save(self, s, out):
        a = self.array(s['a'])
        target = Target(a.shape, self.enc, s['enc'])
        out['w'] = target.writes
        biggus.save([a], [target], masked=s['masked'])

    @staticmethod
    def fresh():
        return {'ok': True, 'skip': False, 'err': '', 'rd': 0, 'chg': [],
                'reads': [], 'end': '', 'fired': False, 'left': 0,
                'ahead': 0, 'live': 0}

    def observe(self, op, s, out):
        getattr(self, 'op_' + op)(s, out)

    def step(self, s):
        out = self.fresh()
        s['out'] = out
        del self.log[:]
        op = s['op']
        limit = s.get('limit', 0)
        bi.MAX_CHUNK_SIZE = limit if limit > 0 else DEFAULT_LIMIT
        if s.get('limit0'):
            bi.MAX_CHUNK_SIZE = 0
        built = None
        signal.setitimer(signal.ITIMER_REAL, 15)
        try:
            if op in ('get', 'meta', 'print', 'setitem', 'save', 'conc'):
                self.observe(op, s, out)
            else:
                if 'tabargs' in s:
                    s['tab'] = self.table(s, s)
                    s['tabsrc'] = [s['tabdts'], s['tabargs']]
                    del s['tabargs'], s['tabdts']
                elif op in ('un', 'bin'):
                    s['tab'] = []
                built = getattr(self, 'op_' + op)(s)
                if not isinstance(built, biggus.Array):
                    if built is None or op != 'bin':
                        raise TypeError('no Array but {}'.format(type(built)))
        except Skip:
            out['skip'] = True
        except Exception as e:
            out['ok'] = False
            out['err'] = '{}: {}'.format(type(e).__name__, str(e)[:200])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        self.arrays.append(built)
        out['rd'] = len(self.log)
        out['reads'] = [dict(r) for r in self.log]
        out['chg'] = [i for i, (a, b) in enumerate(self.kept)
                      if not same(a, b)]
        if out['chg']:
            # Report each change once.
            self.kept = [(a, a.copy()) for a, b in self.kept]
        for objs, members in self.objs.values():
            if not all(x is y for x, y in zip(objs.flat, members)):
                out['chg'].append(0)
                members[:] = objs.flat

    def run(self):
        SWAP[0] = self.prog.get('swap', False)
        for s in self.prog['steps']:
            self.step(s)
        return self.prog


def main(History=History):
    signal.signal(signal.SIGALRM, on_alarm)
    with open(sys.argv[1]) as fi, open(sys.argv[2], 'w') as fo:
        for line in fi:
            prog = json.loads(line)
            try:
                result = History(prog).run()
            except Exception:
                sys.stderr.write('driver failed on {}\n'.format(prog['id']))
                traceback.print_exc()
                sys.stderr.flush()
                os._exit(3)
            fo.write(json.dumps(result) + '\n')
            if len(HANGS) > 2:
                # Enough has been seen.
                fo.write('"gave up"\n')
                break
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    main()
