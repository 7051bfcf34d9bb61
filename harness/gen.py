"""
Generates histories: programs of steps which build virtual arrays and observe
them.  The generator only has to know shapes and dtypes roughly; what every
step has to give is decided by the TLA+ specification.
"""
import itertools
import json
import random

MASKED = [0, -1]
FULL = {'k': 's', 'a': [], 'b': [], 'c': []}
LIMITS = [1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 24]


def prod(sh):
    n = 1
    for x in sh:
        n *= x
    return n


def pyslice(key):
    return slice(*[key[x][0] if key[x] else None for x in 'abc'])


def key_len(key, n):
    if key['k'] == 's':
        return len(range(*pyslice(key).indices(n)))
    if key['k'] == 't':
        return len(key['t'])
    if key['k'] == 'm':
        return sum(key['t'])


def expand(keys, nd):
    es = [i for i, k in enumerate(keys) if k['k'] == 'e']
    real = len([k for k in keys if k['k'] not in 'en'])
    if not es:
        return list(keys) + [FULL] * (nd - real)
    e = es[0]
    rest = [FULL if k['k'] == 'e' else k for k in keys[e + 1:]]
    used = len([k for k in keys[:e] + rest if k['k'] != 'n'])
    return list(keys[:e]) + [FULL] * (nd - used) + rest


def index_shape(sh, keys):
    out = []
    d = 0
    for k in expand(keys, len(sh)):
        if k['k'] == 'n':
            out.append(1)
            continue
        if k['k'] != 'i':
            out.append(key_len(k, sh[d]))
        d += 1
    return out


def bshape(a, b):
    n = max(len(a), len(b))
    a = [1] * (n - len(a)) + list(a)
    b = [1] * (n - len(b)) + list(b)
    out = []
    for x, y in zip(a, b):
        if x != y and x != 1 and y != 1:
            return None
        out.append(y if x == 1 else x)
    return out


# Elementwise functions whose results are exact if their operands are.
CRISP = ('negative', 'absolute', 'rint', 'sign', 'conj', 'square',
         'logical_not', 'isreal', 'iscomplex', 'isinf', 'isnan', 'signbit',
         'floor', 'ceil', 'trunc', 'add', 'sub', 'subtract', 'multiply',
         'greater', 'greater_equal', 'less', 'less_equal', 'not_equal',
         'equal', 'logical_and', 'logical_or', 'logical_xor', 'maximum',
         'minimum', 'fmax', 'fmin', 'bitwise_and', 'bitwise_or',
         'bitwise_xor', 'left_shift', 'right_shift', 'invert')
# Functions which are continuous, so that it does not matter if their
# operands are only known nearly.
SMOOTH1 = ('negative', 'absolute', 'conj')
SMOOTH2 = ('add', 'sub', 'subtract', 'multiply', 'maximum', 'minimum')
RATIONAL = CRISP + ('divide', 'true_divide', 'floor_divide', 'fmod',
                    'copysign', 'ldexp')


def inexact(f, dts):
    """Whether a function has results which are no simple fractions."""
    return f not in RATIONAL and (
        f != 'power' or bool(set(dts) & {'f4', 'f8', 'float'}))


COMPARE = ('greater', 'greater_equal', 'less', 'less_equal', 'equal',
           'not_equal', 'logical_and', 'logical_or', 'logical_xor')
FLOATS = ('f4', 'f8')
INTS = ('i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8')
COMPLEX = ('c8', 'c16')
EXOTIC = ('>i4', '>f4', '>f8', 'c8', 'c16', 'S5', 'U5', 'u2', 'u4', 'u8',
          'f2', 'M8', 'm8')


def default_fill(dt):
    return ([1, 1] if dt == 'b1' else [63, 1] if dt in ('i1', 'u1') else
            [16959, 1] if dt in ('i2', 'u2') else
            [999999, 1] if dt in INTS + ('>i4',) else
            [1, 0] if dt == 'f2' else [1, -2])


class Prog(object):
    def __init__(self, rng, name, track=False, off=None, lim=None):
        self.r = rng
        self.name = name
        self.steps = []
        self.info = [None]          # by handle, 1-based
        self.track = track
        self.off = off
        if lim is None:
            lim = [2000, 64] if off is None else [60, 8]
        self.lim = lim
        self.loose = []
        self.counter = 0
        # How many of the floats of sources are nan or infinite.
        self.special = 0 if off is not None or rng.random() < .85 else \
            rng.choice([.05, .15, .4])
        # The dtype of all sources, where it is one that is only viewed.
        self.exotic = None
        # Whether arrays have the byte order which is not the native one.
        self.swap = False

    def exotics(self, often=.08):
        if self.r.random() < often:
            self.exotic = self.r.choice(EXOTIC)
        return self

    def swapped(self, often=.06):
        self.swap = self.r.random() < often
        return self

    def json(self, ident):
        return {'id': ident, 'name': self.name, 'lim': self.lim,
                'off': str(self.off or 0), 'swap': self.swap,
                'steps': self.steps}

    def add(self, step, info=None):
        if info is not None:
            parents = [step[x] for x in 'ab' if isinstance(step.get(x), int)]
            parents += step.get('as', [])
            parents += [step[x]['h'] for x in 'xy'
                        if step.get(x, {}).get('k') == 'h']
            f = step.get('f')
            # Whether realising it gives a new array.
            op = step['op']
            info['own'] = (
                'deep' if op in ('const', 'bin', 'un', 'agg', 'astype')
                else 'yes' if op in ('stack', 'mosaic') else 'deep'
                if op == 'idx' and self.info[step['a']]['own'] == 'deep'
                else 'no')
            info['approx'] = (
                any(self.info[q]['approx'] for q in parents) or
                (step['op'] in ('un', 'bin') and f not in CRISP) or
                f in ('mean', 'std', 'var'))
            # Inexact values are only ever compared with each other.
            info['tok'] = (any(self.info[q]['tok'] for q in parents) or
                           step.get('tok', False))
            # NumPy computes with floats of the size of the operands.
            level = 0
            if 'tabdts' in step and f not in CRISP:
                level = min({'b1': 2, 'i1': 2, 'u1': 2, 'i2': 1, 'u2': 1, 'f4': 1,
                             'c8': 1,
                             'int': 2, 'float': 2}.get(t, 0)
                            for t in step['tabdts'])
            info['lo'] = max(
                [self.info[q]['lo'] for q in parents] +
                [int(step[x].get('dt') == 'f4') for x in 'xy' if x in step] +
                [level, int(info['dt'] in ('f4', 'c8'))])
        self.steps.append(step)
        self.info.append(info)
        return len(self.steps)

    # -- sources -------------------------------------------------------
    def values(self, n, dt, mode):
        r = self.r
        if dt == 'b1':
            return [[r.randint(0, 1), 1] for _ in range(n)]
        if mode == 'distinct':
            start = self.counter
            self.counter += n
            if dt in ('i1', 'u1'):
                return [[(start + i) % 100 + 1, 1] for i in range(n)]
            return [[start + i + 1, 1] for i in range(n)]
        if mode == 'small':
            lo = 0 if dt[0] == 'u' else -5
            if dt in FLOATS and r.random() < .4:
                return [self.frac(r.randint(-12, 12), 4) for _ in range(n)]
            return [[r.randint(lo, 6), 1] for _ in range(n)]
        if mode == 'special':
            pool = [[r.randint(-5, 6), 1] for _ in range(4)]
            pool += [[0, 0], [1, 0], [-1, 0], [0, 1]]
            return [r.choice(pool) for _ in range(n)]
        if mode == 'tiny':
            return [[r.randint(0, 2), 1] for _ in range(n)]
        if mode == 'bits':
            lo = 0
            return [[r.randint(lo, 7), 1] for _ in range(n)]
        raise ValueError(mode)

    @staticmethod
    def frac(n, d):
        from fractions import Fraction
        f = Fraction(n, d)
        return [f.numerator, f.denominator]

    def src(self, sh, dt=None, mode='distinct', masked=None, kind=None,
            pmask=.3, fv=None, off=False, wrap=None, data=None, mask=None,
            of=None):
        r = self.r
        dt = dt or r.choice(['i4', 'i8', 'f4', 'f8', 'i2', 'f8', 'i8'])
        dt = self.exotic or dt
        n = prod(sh)
        if data is None:
            data = self.values(n, dt, mode)
            if dt in FLOATS and self.special:
                data = [self.r.choice([[0, 0], [0, 0], [1, 0], [-1, 0]])
                        if self.r.random() < self.special else c
                        for c in data]
        if masked is None:
            masked = r.random() < .3
        if self.track and kind is None:
            # What is selected from NumPy-style sources by several index
            # tuples may be read in full.
            kind = 'ortho'
        if masked and kind == 'bare':
            kind = 'ortho'
        step = {'op': 'src', 'sh': list(sh), 'dt': dt, 'ma': bool(masked),
                'fv': [], 'off': bool(off), 'track': self.track,
                'kind': kind or r.choice(['np', 'np', 'np', 'ortho',
                                          'bare' if not masked else 'ortho']),
                'wrap': r.random() < .3 if wrap is None else wrap,
                'layout': r.choice(['C', 'C', 'C', 'F', 'strided',
                                    'reversed']),
                'under': r.choice([7, 0, 1, 3])}
        if masked:
            if mask is None:
                style = r.random()
                if style < .15:
                    mask = [False] * n
                    step['nomask'] = r.random() < .5
                elif style < .25:
                    mask = [True] * n
                else:
                    mask = [r.random() < pmask for _ in range(n)]
            data = [MASKED if m else c for c, m in zip(data, mask)]
            if fv is None and r.random() < .5:
                fv = self.fill(dt)
            if fv:
                step['fv'] = [fv]
        step['data'] = data
        step['of'] = len(self.steps) + 1
        vals = []
        for c in data + ([fv or default_fill(dt)] if masked else []):
            if c != MASKED and c not in vals:
                vals.append(c)
        return self.add(step, {'sh': list(sh), 'dt': dt, 'sq': False,
                               'off': bool(off), 'ma': bool(masked),
                               'kinds': ['istm'] * len(sh), 'bcast': False,
                               'vals': vals})

    def fill(self, dt):
        if dt == 'b1':
            return [self.r.randint(0, 1), 1]
        if not self.exotic and dt in FLOATS and self.r.random() < .1:
            return [0, 0]
        return [self.r.choice([0, 1, 2, 5, 100]), 1]

    def const(self, sh, dt=None, v=None):
        r = self.r
        dt = dt or r.choice(['i4', 'f8', 'f4', 'i8'])
        via = r.choice(['zeros', 'ones', 'const', 'const', 'infer'])
        if self.exotic:
            dt, via = self.exotic, 'const'
        if self.swap:
            via = 'const'
        if v is None:
            v = [r.randint(0, 5), 1]
        v = {'zeros': [0, 1], 'ones': [1, 1]}.get(via, v)
        if dt == 'b1':
            v = [int(v != [0, 1]), 1]
        step = {'op': 'const', 'sh': list(sh), 'dt': dt, 'v': v, 'via': via,
                'track': self.track}
        return self.add(step, {'sh': list(sh), 'dt': dt, 'sq': False,
                               'off': False, 'ma': False,
                               'kinds': ['istm'] * len(sh), 'bcast': False,
                               'vals': [v]})

    # -- keys ----------------------------------------------------------
    def slice_key(self, n, wild=True):
        r = self.r

        def part():
            c = r.random()
            if c < .35:
                return []
            lo, hi = (-n - 2, n + 2) if wild else (-n, n)
            return [r.randint(lo, hi)]
        c = r.choice([[], [], [1], [2], [3], [-1], [-1], [-2], [-3]])
        return {'k': 's', 'a': part(), 'b': part(), 'c': c,
                'f': 1 if r.random() < .1 else 0}

    def key1(self, n, kinds='istm'):
        r = self.r
        kind = r.choice(kinds)
        if kind == 'i' and n:
            return {'k': 'i', 'i': r.randint(-n, n - 1),
                    'f': r.choice([0, 0, 0, 1, 2, 3])}
        if kind in 'tu':
            size = r.choice([0, 1, 1, 2, 2, 3, 4]) if n else 0
            t = [r.randint(-n, n - 1) for _ in range(size)]
            if r.random() < .3:
                t = sorted(t)
            return {'k': 't', 't': t,
                    'f': r.choice([0, 0, 1, 1, 2, 3] if kind == 't'
                                  else [0, 2])}
        if kind == 'm':
            p = r.choice([.2, .5, .8, 1, 0]) if r.random() < .3 else .5
            return {'k': 'm', 't': [r.random() < p for _ in range(n)]}
        return self.slice_key(n)

    def keys(self, a, newax=.15, ellipsis=.2, full=.2, only=None):
        r = self.r
        sh, kinds = self.info[a]['sh'], self.info[a]['kinds']
        if only:
            kinds = [''.join(c for c in k if c in only) for k in kinds]
        keys = []
        for n in sh:
            keys.append(dict(FULL) if r.random() < full
                        else self.key1(n, kinds[len(keys)]))
        c = r.random()
        if c < .4:
            keys = keys[:r.randint(0, len(keys))]
        elif c < .4 + ellipsis:
            # Leave some dimensions, if any, to the Ellipsis.
            i = r.randint(0, len(keys))
            j = r.randint(i, len(keys))
            keys[i:j] = [{'k': 'e'}]
        while r.random() < newax:
            keys.insert(r.randint(0, len(keys)), {'k': 'n'})
        return keys

    def idx(self, a, keys=None, **kw):
        if keys is None:
            keys = self.keys(a, **kw)
        i = self.info[a]
        sh = index_shape(i['sh'], keys)
        # Follow which dimensions are new axes, or have been broadcast:
        # those accept integers and slices (and, if new, tuples) only.
        kinds = []
        d = 0
        bcast = i['bcast']
        for k in expand(keys, len(i['sh'])):
            if k['k'] == 'n':
                kinds.append('isu')
                continue
            if k['k'] != 'i':
                kind = i['kinds'][d]
                if kind == 'isu' and (k['k'] != 's' or
                                      key_len(k, i['sh'][d]) != 1):
                    # Selecting other than one element makes a broadcast.
                    kind = 'is'
                    bcast = True
                kinds.append(kind)
            d += 1
        return self.add({'op': 'idx', 'a': a, 'keys': keys,
                         'bare': self.r.random() < .3},
                        dict(i, sh=sh, kinds=kinds, bcast=bcast))

    # -- views ---------------------------------------------------------
    def tr(self, a, perm=None):
        i = self.info[a]
        n = len(i['sh'])
        default = perm is None and self.r.random() < .4
        if perm is None:
            perm = list(range(n))
            self.r.shuffle(perm)
        p = list(reversed(range(n))) if default else perm
        return self.add({'op': 'tr', 'a': a, 'perm': perm,
                         'default': default},
                        dict(i, sh=[i['sh'][d] for d in p], bcast=False,
                             kinds=[i['kinds'][d] for d in p]))

    def bc(self, a, zero=False):
        # Not for arrays which are broadcast already: the library takes the
        # axes of those to be axes of the array inside.
        r = self.r
        i = self.info[a]
        lo = 0 if zero else 1
        dims = [[d, r.randint(lo, 3)] for d, n in enumerate(i['sh'])
                if n == 1 and r.random() < .8]
        lead = [r.randint(1, 3) for _ in range(r.choice([0, 0, 1, 2]))]
        sh = list(i['sh'])
        kinds = list(i['kinds'])
        for d, n in dims:
            sh[d] = n
            kinds[d] = 'is'
        return self.add({'op': 'bc', 'a': a, 'dims': dims, 'lead': lead},
                        dict(i, sh=lead + sh, bcast=True,
                             kinds=['istm'] * len(lead) + kinds))

    def newaxes(self, a):
        i = self.info[a]
        new = [self.r.choice([0, 0, 1, 2]) for _ in range(len(i['sh']) + 1)]
        sh = []
        kinds = []
        for j, n in enumerate(new):
            sh += [1] * n + i['sh'][j:j + 1]
            kinds += ['isu'] * n + i['kinds'][j:j + 1]
        return self.add({'op': 'newaxes', 'a': a, 'new': new},
                        dict(i, sh=sh, kinds=kinds, bcast=False))

    def bcpair(self, a, b, which):
        sh = bshape(self.info[a]['sh'], self.info[b]['sh'])
        base = self.info[a if which == 1 else b]
        return self.add({'op': 'bcpair', 'a': a, 'b': b, 'which': which},
                        dict(base, sh=sh, kinds=self.bkinds([base], sh),
                             bcast=base['bcast'] or base['sh'] != sh))

    @staticmethod
    def bkinds(infos, sh):
        kinds = ['istm'] * len(sh)
        for i in infos:
            lead = len(sh) - len(i['sh'])
            for d in range(len(sh)):
                mine = ('istm' if d < lead else
                        'is' if i['sh'][d - lead] != sh[d] else
                        i['kinds'][d - lead])
                both = set(mine) & set(kinds[d])
                if 't' not in both and (set('tu') & set(mine) and
                                        set('tu') & set(kinds[d])):
                    both.add('u')
                kinds[d] = ''.join(c for c in 'istmu' if c in both)
        return kinds

    def astype(self, a, dt=None):
        i = self.info[a]
        if i['approx']:
            dt = 'f8'
        dt = dt or self.r.choice([i['dt'], 'i4', 'f8', 'f4', 'i8', 'b1',
                                  'i2', 'u1', 'u4'])
        dt = self.r.choice(COMPLEX) if self.exotic in COMPLEX else \
            self.exotic or dt
        return self.add({'op': 'astype', 'a': a, 'dt': dt,
                         'f': self.r.randint(0, 1)},
                        dict(i, dt=dt, bcast=False,
                             vals=i['vals'] if dt == i['dt'] else None))

    def meq(self, a, v):
        if self.exotic and self.exotic[0] != '>':
            return a
        return self.add({'op': 'meq', 'a': a, 'v': v},
                        dict(self.info[a], ma=True, bcast=False))

    def stack(self, members, ssh=None, order=None, via=None):
        r = self.r
        i = self.info[members[0]]
        if ssh is None:
            ssh = [len(members)]
        order = order or r.choice('CCF')
        via = via or r.choice(['ctor', 'multi', 'multi_np'])
        if not ssh and via != 'ctor':
            via = 'ctor'
        return self.add({'op': 'stack', 'as': members, 'ssh': ssh,
                         'order': order, 'via': via},
                        dict(i, sh=list(ssh) + i['sh'], bcast=False,
                             vals=self.allvals(members),
                             kinds=['istm'] * len(ssh) + self.bkinds(
                                 [self.info[m] for m in members], i['sh'])))

    def allvals(self, members):
        vals = []
        for m in members:
            if self.info[m]['vals'] is None:
                return None
            vals += [v for v in self.info[m]['vals'] if v not in vals]
        return vals

    def mosaic(self, members, ax):
        i = self.info[members[0]]
        sh = list(i['sh'])
        if 0 <= ax < len(sh):
            sh[ax] = sum(self.info[m]['sh'][ax] for m in members)
        kinds = list(i['kinds'])
        for m in members[1:]:
            kinds = self.bkinds([{'sh': sh, 'kinds': kinds},
                                 {'sh': sh, 'kinds': self.info[m]['kinds']}],
                                sh)
        if 0 <= ax < len(sh):
            # Index tuples reach the tiles as arrays.
            kinds[ax] = kinds[ax].replace('u', '')
        return self.add({'op': 'mosaic', 'as': members, 'ax': ax},
                        dict(i, sh=sh, kinds=kinds, bcast=False,
                             vals=self.allvals(members)))

    # -- computations --------------------------------------------------
    def agg(self, f, a, ax, ddof=0, mdtol=None, kw=None):
        i = self.info[a]
        n = len(i['sh'])
        axis = ax + n if ax < 0 else ax
        sh = i['sh'][:axis] + i['sh'][axis + 1:]
        dt = ('i4' if f == 'count' else
              (i['dt'] if i['dt'] in FLOATS + COMPLEX else 'f8')
              if f in ('mean', 'std', 'var') else i['dt'])
        if kw is None:
            kw = ddof != 0 or mdtol is not None or self.r.random() < .5
        return self.add({'op': 'agg', 'f': f, 'a': a, 'ax': ax, 'ddof': ddof,
                         'mdtol': mdtol or [1, 1], 'kw': kw,
                         'form': self.r.choice([0, 0, 0, 1, 2, 3])},
                        dict(i, sh=sh, dt=dt, bcast=False,
                             sq=f == 'std' or (f == 'var' and dt in COMPLEX
                                               and 're'),
                             vals=None,
                             kinds=i['kinds'][:axis] + i['kinds'][axis + 1:],
                             off=i['off'] and f in ('min', 'max', 'mean')))

    def un(self, f, a, tab=None, dt=None):
        i = self.info[a]
        step = {'op': 'un', 'f': f, 'a': a}
        if tab is not None:
            step['tabdts'], step['tabargs'] = [i['dt']], [tab]
            step['tok'] = inexact(f, step['tabdts']) or \
                bool(set(step['tabdts']) & set(COMPLEX))
        return self.add(step, dict(i, dt=dt or i['dt'], sq=False, vals=None,
                                   bcast=False))

    def h(self, a):
        return {'k': 'h', 'h': a}

    def py(self, t, v):
        return {'k': 'py', 't': t, 'v': v}

    def nd(self, sh, dt, data, ma=False, scalar=False, fv=None):
        return {'k': 'np', 'sh': list(sh), 'dt': dt, 'data': data, 'ma': ma,
                'scalar': scalar, 'fv': [fv] if fv else []}

    def oshape(self, o):
        return (self.info[o['h']]['sh'] if o['k'] == 'h' else
                [] if o['k'] == 'py' else o['sh'])

    def odt(self, o):
        return (self.info[o['h']]['dt'] if o['k'] == 'h' else
                o['t'] if o['k'] == 'py' else o['dt'])

    def bin(self, f, x, y, via='fn', tab=None, dt=None):
        sh = bshape(self.oshape(x), self.oshape(y))
        base = self.info[x['h'] if x['k'] == 'h' else y['h']]
        step = {'op': 'bin', 'f': f, 'x': x, 'y': y, 'via': via}
        if tab is not None:
            step['tabdts'] = [self.odt(x), self.odt(y)]
            step['tabargs'] = tab
            step['tok'] = inexact(f, step['tabdts']) or \
                bool(set(step['tabdts']) & set(COMPLEX))
        hs = [self.info[o['h']] if o['k'] == 'h' else
              {'sh': o['sh'], 'kinds': ['istm'] * len(o['sh'])}
              for o in (x, y) if o['k'] != 'py']
        if dt is None:
            dt = self.promote(f, x, y)
        return self.add(step, dict(base, sh=sh, dt=dt, sq=False, off=False,
                                   bcast=False, vals=None,
                                   kinds=self.bkinds(hs, sh) if sh is not None
                                   else []))

    def promote(self, f, x, y):
        """Roughly the dtype of the result."""
        if f in COMPARE:
            return 'b1'
        dts = [self.odt(x), self.odt(y)]
        if 'f8' in dts or 'float' in dts and 'f4' not in dts:
            return 'f8'
        if f in ('divide', 'true_divide') and not set(dts) & {'f4'}:
            return 'f8'
        if 'f4' in dts:
            return 'f8' if set(dts) & {'i4', 'i8', 'u4', 'u8'} else 'f4'
        if set(dts) & set(COMPLEX):
            return 'c8' if set(dts) == {'c8'} else 'c16'
        order = ['int', 'b1', 'u1', 'i1', 'u2', 'i2', 'u4', 'i4', 'u8', 'i8']
        a, b = sorted(dts, key=order.index)
        if b in INTS and a in INTS and a[0] != b[0]:
            u, i = (a, b) if a[0] == 'u' else (b, a)
            if int(i[1]) <= int(u[1]):
                return {'1': 'i2', '2': 'i4', '4': 'i8', '8': 'f8'}[u[1]]
            return i
        return b

    def copy(self, a):
        return self.add({'op': 'copy', 'a': a}, dict(self.info[a]))

    # -- observations --------------------------------------------------
    def opt(self, a):
        i = self.info[a]
        return [i['sq'], i['off'], i['lo'], i['tok']]

    def tuples(self, a, times=1):
        """
        Index a NumPy-style source, and note the dimensions along which it
        may be read in full, because of tuples (or masks).
        """
        sh = self.info[a]['sh']
        source = a
        dims = list(range(len(sh)))
        tuples = set()
        for i in range(times):
            keys = self.keys(a, newax=0, full=.1)
            full = expand(keys, len(self.info[a]['sh']))
            tuples |= {d for d, k in zip(dims, full) if k['k'] in 'tm'}
            dims = [d for d, k in zip(dims, full) if k['k'] != 'i']
            a = self.idx(a, keys)
        if len(tuples) > 1:
            self.loose = self.loose + [{'s': source, 'sh': list(sh), 'dims':
                                        [d + 1 for d in sorted(tuples)]}]
        return a

    def get(self, hs, masked, how='single', limit=0, sized=False, once=False,
            track=None, flow=False, write=False, **kw):
        if isinstance(hs, int):
            hs = [hs]
        # Write to what has been realised, where that is a new array.
        write = write and all(self.info[a]['own'] != 'no' for a in hs)
        return self.add({'op': 'get', 'hs': list(hs), 'masked': masked, 'how': how,
                         'limit': limit, 'sized': sized, 'once': once,
                         'track': self.track if track is None else track,
                         'lim': self.lim, 'flow': flow, 'loose': self.loose,
                         'write': write,
                         'enc': [self.opt(a) for a in hs], **kw})

    def both(self, a, limit=None, how='single'):
        r = self.r
        for masked in r.sample([False, True], 2):
            self.get(a, masked, how=how,
                     limit=r.choice([0] + LIMITS) if limit is None else limit)

    def meta(self, a):
        return self.add({'op': 'meta', 'a': a})

    def show(self, a):
        return self.add({'op': 'print', 'a': a})

    def setitem(self, a, b, ix):
        return self.add({'op': 'setitem', 'a': a, 'b': b, 'ix': ix})

    def save(self, a, masked, limit, once=False, **kw):
        return self.add(dict({'op': 'save', 'a': a, 'masked': masked,
                              'limit': limit, 'lim': self.lim, 'once': once,
                              'sized': True, 'track': self.track,
                              'flow': False, 'loose': self.loose,
                              'enc': self.opt(a)}, **kw))

    # -- what has to be refused ------------------------------------------
    def bad(self, step):
        return self.add(step, {'sh': [], 'dt': 'f8', 'sq': False,
                               'off': False, 'ma': False, 'kinds': [],
                               'bcast': False, 'vals': None})

    def idx_bad(self, a, keys):
        return self.bad({'op': 'idx', 'a': a, 'keys': keys,
                         'bare': self.r.random() < .3})

    def agg_bad(self, f, a, ax):
        return self.bad({'op': 'agg', 'f': f, 'a': a, 'ax': ax, 'ddof': 0,
                         'mdtol': [1, 1], 'kw': self.r.random() < .5,
                         'form': self.r.choice([0, 0, 1, 2])})

    def bin_bad(self, f, x, y):
        return self.bad({'op': 'bin', 'f': f, 'x': x, 'y': y, 'via': 'fn'})

    def stack_bad(self, members):
        return self.bad({'op': 'stack', 'as': members, 'ssh': [len(members)],
                         'order': 'C',
                         'via': self.r.choice(['ctor', 'multi'])})

    def mosaic_bad(self, members, ax):
        return self.bad({'op': 'mosaic', 'as': members, 'ax': ax})

    def tr_bad(self, a, perm):
        return self.bad({'op': 'tr', 'a': a, 'perm': perm, 'default': False})

    def bc_bad(self, a, dims, lead):
        return self.bad({'op': 'bc', 'a': a, 'dims': dims, 'lead': lead})

    def bcpair_bad(self, a, b):
        return self.bad({'op': 'bcpair', 'a': a, 'b': b,
                         'which': self.r.choice([1, 2])})

    def fail(self, a, what, **kw):
        step = {'op': 'fail', 'a': a, 'what': what, 'f': kw.get('f', 'mean'),
                'axes': kw.get('axes', []), 'keys': kw.get('keys', [])}
        return self.bad(step)


def rshape(r, nd=None, most=4, zero=.05, ones=.15):
    if nd is None:
        nd = r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4])
    return [0 if r.random() < zero else 1 if r.random() < ones
            else r.randint(1, most) for _ in range(nd)]


def cap(p, a, most=150):
    """Keep arrays small: index away what is too large."""
    sh = p.info[a]['sh']
    if prod(sh) > most:
        keys = [{'k': 's', 'a': [], 'b': [2], 'c': []} for _ in sh]
        a = p.idx(a, keys)
    return a


def view(p, a, ops='idx tr newaxes bc astype', **kw):
    r = p.r
    op = r.choice(ops.split())
    i = p.info[a]
    if op == 'bc' and (i['bcast'] or prod(i['sh']) > 60):
        op = 'idx'
    if op == 'newaxes' and len(i['sh']) > 3:
        op = 'idx'
    if op == 'idx':
        return p.idx(a, p.keys(a, **kw))
    return getattr(p, op)(a)


def pick_vals(p, dt, what='small', n=6):
    """A few values of a dtype, for the data of sources."""
    r = p.r
    if dt == 'b1':
        return [[0, 1], [1, 1]]
    out = []
    while len(out) < n:
        if what == 'bits' or dt[0] == 'u':
            c = [r.randint(0, 7), 1]
        elif dt in FLOATS and r.random() < .4:
            c = p.frac(r.randint(-12, 12), r.choice([2, 4]))
        else:
            c = [r.randint(-5, 6), 1]
        out.append(c)
    return out


def vsrc(p, sh, dt, what='small', n=6, **kw):
    """A source with few different values."""
    pool = pick_vals(p, dt, what, n)
    return p.src(sh, dt, data=[p.r.choice(pool) for _ in range(prod(sh))],
                 **kw)


# ---------------------------------------------------------------- C01
def c01(r):
    p = Prog(r, 'c01').exotics()
    a = p.src(rshape(r, most=5))
    for i in range(r.randint(1, 3)):
        a = p.idx(a)
    p.meta(a)
    p.both(a, 0)
    return p


# ---------------------------------------------------------------- C02
def member(p, sh, dt, depth, **kw):
    """An array of the given shape and dtype, which may be built."""
    r = p.r
    c = r.random()
    if depth and c < .2 and len(sh):
        # A stack, or a mosaic.
        if r.random() < .5 and sh[0] >= 1:
            return p.stack([member(p, sh[1:], dt, depth - 1, **kw)
                            for _ in range(sh[0])], [sh[0]])
        ax = r.randrange(len(sh))
        cut = sorted(r.randint(0, sh[ax]) for _ in range(r.choice([0, 1, 2])))
        parts = [b - a for a, b in zip([0] + cut, cut + [sh[ax]])]
        return p.mosaic([member(p, sh[:ax] + [n] + sh[ax + 1:], dt, depth - 1,
                                **kw) for n in parts], ax)
    if c < .35 and dt in ('i4', 'i8', 'f4', 'f8') + EXOTIC and not kw.get('vals'):
        return p.const(sh, dt)
    if c < .45 and depth and len(sh) > 1:
        perm = list(range(len(sh)))
        r.shuffle(perm)
        inner = [0] * len(sh)
        for i, d in enumerate(perm):
            inner[d] = sh[i]
        return p.tr(member(p, inner, dt, depth - 1, **kw), perm)
    if c < .65:
        # An index of something larger, reversed perhaps.
        big, keys = [], []
        for n in sh:
            style = r.choice('fsrti')
            if style == 'f':
                big.append(n)
                keys.append(dict(FULL))
            elif style == 's':
                lo = r.randint(0, 2)
                big.append(n + lo + r.randint(0, 1))
                keys.append({'k': 's', 'a': [lo], 'b': [lo + n], 'c': []})
            elif style == 'r':
                big.append(n)
                keys.append({'k': 's', 'a': [], 'b': [], 'c': [-1]})
            elif style == 't':
                m = max(n, 1) + r.randint(0, 2)
                big.append(m)
                keys.append({'k': 't', 'f': r.randint(0, 3), 't':
                             [r.randint(-m, m - 1) for _ in range(n)]})
            else:
                m = r.randint(1, 3)
                big.append(m)
                keys.append({'k': 'i', 'i': r.randint(-m, m - 1), 'f': 0})
                big.append(n)
                keys.append(dict(FULL))
        if prod(big) < 200:
            return p.idx(p.src(big, dt, **kw), keys)
    return p.src(sh, dt, **kw)


def container(p, sh=None, dt=None, depth=1, zero=.05, **kw):
    r = p.r
    dt = dt or r.choice(['i4', 'i8', 'f4', 'f8', 'f8', 'i2', 'b1'])
    if dt == 'b1':
        kw['mode'] = 'tiny'
    if sh is None:
        sh = rshape(r, r.choice([0, 1, 1, 2, 2, 3]), most=3, zero=zero)
    if r.random() < .5 or not sh:
        ssh = r.choice([[1], [2], [2], [3], [4], [2, 2], [2, 3], [1, 2],
                        [2, 2, 2], [2, 3, 2], [2, 1, 3], [3, 2, 2],
                        [3, 1], [2, 1, 2]])
        return p.stack([member(p, sh, dt, depth, **kw)
                        for _ in range(prod(ssh))], ssh)
    ax = r.randrange(len(sh))
    return p.mosaic([member(p, sh[:ax] + [r.choice([0, 1, 1, 2, 3])
                                          if zero else r.choice([1, 2, 3])] +
                            sh[ax + 1:], dt, depth, **kw)
                     for _ in range(r.choice([1, 2, 2, 3, 4]))], ax)


def c02(r):
    p = Prog(r, 'c02').exotics()
    a = container(p, depth=r.choice([0, 1, 1, 2]))
    if r.random() < .4:
        p.meta(a)
        p.both(a)
    for i in range(r.choice([0, 1, 1, 2, 3])):
        a = cap(p, p.idx(a, p.keys(a, newax=.07)))
    p.meta(a)
    p.both(a)
    return p


def c02_set(r):
    """Assigning members to a stack."""
    p = Prog(r, 'c02s').exotics()
    sh = rshape(r, r.choice([0, 1, 2]), most=3)
    dt = r.choice(['i4', 'f8', 'i2'])
    ssh = r.choice([[1], [3], [4], [2, 2], [2, 3]])
    members = [member(p, sh, dt, 0) for _ in range(prod(ssh))]
    a = p.stack(members, ssh, via='ctor', order='C')
    # Another stack, or a mosaic, of the same members.
    twin = r.random() < .4 and (
        p.mosaic(members, 0) if sh and len(ssh) == 1 and r.random() < .4 else
        p.stack(members, ssh, via='ctor', order='C'))
    for i in range(r.randint(1, 3)):
        if r.random() < .5:
            p.both(a)
        b = member(p, sh, dt, r.choice([0, 1]))
        p.setitem(a, b, [r.randint(-n, n - 1) for n in ssh])
        p.both(a)
        if twin and r.random() < .7:
            p.both(twin)
        if r.random() < .5:
            p.both(p.idx(a))
        if r.random() < .3:
            p.both(r.choice(members))
    if r.random() < .3:
        # Members which must not be accepted.
        if r.random() < .5:
            b = p.src(sh + [2], dt)
        else:
            p.exotic = None
            b = p.src(sh, 'f4')
        p.setitem(a, b, [0] * len(ssh))
        p.both(a)
    return p


# ---------------------------------------------------------------- C03
def c03(r):
    p = Prog(r, 'c03').exotics()
    c = r.random()
    if c < .15:
        a = p.const(rshape(r, most=4),
                    r.choice(['i4', 'f8', 'f4', 'i8', 'b1', 'i2']))
    elif c < .3:
        a = container(p, depth=0)
    else:
        a = p.src(rshape(r, most=4, ones=.35), mode=r.choice(
            ['distinct', 'distinct', 'small']),
            dt=r.choice(['i4', 'i8', 'f4', 'f8', 'i2', 'b1', 'u1']))
    for i in range(r.choice([1, 2, 2, 3, 4, 5])):
        if r.random() < .15:
            b = p.src(operand_shape(r, p.info[a]['sh']))
            a = p.bcpair(a, b, 1) if r.random() < .5 else p.bcpair(b, a, 2)
        else:
            a = view(p, a, newax=.1)
        a = cap(p, a)
        if r.random() < .1:
            p.both(a)
    p.meta(a)
    p.both(a)
    return p


# ---------------------------------------------------------------- C04
UNARY = ['negative', 'absolute', 'rint', 'sign', 'conj', 'exp', 'exp2', 'log',
         'log2', 'log10', 'expm1', 'sqrt', 'square', 'reciprocal', 'sin',
         'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh',
         'arcsinh', 'arccosh', 'arctanh', 'deg2rad', 'rad2deg', 'invert',
         'logical_not', 'isreal', 'iscomplex', 'isinf', 'isnan', 'signbit',
         'floor', 'ceil', 'trunc']
BINARY = ['add', 'sub', 'subtract', 'multiply', 'floor_divide', 'true_divide',
          'divide', 'power', 'arctan2', 'hypot', 'bitwise_and', 'bitwise_or',
          'bitwise_xor', 'left_shift', 'right_shift', 'greater',
          'greater_equal', 'less', 'less_equal', 'not_equal', 'equal',
          'logical_and', 'logical_or', 'logical_xor', 'maximum', 'minimum',
          'fmax', 'fmin', 'copysign', 'nextafter', 'ldexp', 'fmod']
OPERATORS = ['add', 'sub', 'multiply', 'true_divide', 'floor_divide', 'power']
EXACT1 = ['negative', 'absolute', 'rint', 'sign', 'conj', 'square',
          'logical_not', 'isreal', 'iscomplex', 'isinf', 'isnan', 'signbit',
          'floor', 'ceil', 'trunc']
EXACT2 = ['add', 'sub', 'subtract', 'multiply', 'floor_divide', 'true_divide',
          'divide', 'power', 'greater', 'greater_equal', 'less', 'less_equal',
          'not_equal', 'equal', 'logical_and', 'logical_or', 'logical_xor',
          'maximum', 'minimum', 'fmax', 'fmin']
BITS = ['bitwise_and', 'bitwise_or', 'bitwise_xor', 'left_shift',
        'right_shift', 'invert']


def operand_shape(r, sh):
    """A shape which broadcasts with sh."""
    out = [(r.randint(2, 3) if r.random() < .4 and prod(sh) < 60 else 1)
           if n == 1 else 1 if r.random() < .25 else n for n in sh]
    if r.random() < .04:
        out = [0 if m == 1 else n for n, m in zip(out, sh)]
    return out[r.randint(0, len(out)) if r.random() < .3 else 0:] \
        if 0 in sh or 0 not in out else out


def known(p, sh, dt, what='small', n=5, **kw):
    """An array of which the values are known."""
    r = p.r
    a = vsrc(p, sh, dt, what, n, **kw)
    if r.random() < .3 and sh:
        a = p.tr(p.tr(a, list(reversed(range(len(sh))))),
                 list(reversed(range(len(sh)))))
    elif r.random() < .1:
        a = p.idx(a, [{'k': 's', 'a': [], 'b': [], 'c': [-1]} for _ in sh])
    return a


def other(p, a, sh, f, what, allow_np=True):
    """The other operand for an array a."""
    r = p.r
    c = r.random()
    dt = p.info[a]['dt']
    ints = f in BITS
    if c < .25:
        if not ints and dt in ('f4', 'f8', 'i4', 'i8') and r.random() < .5:
            return p.py('float', p.frac(r.randint(-8, 8), r.choice([1, 2, 4])))
        lo = 0 if dt[0] in 'ub' or ints else -3
        return p.py('int', [r.randint(lo, 4), 1])
    if allow_np and c < .5:
        odt = dt if r.random() < .6 else r.choice(
            ['i4', 'i8'] if ints else ['i4', 'i8', 'f4', 'f8', 'i2'])
        osh = [] if r.random() < .3 else operand_shape(r, sh)
        pool = pick_vals(p, odt, what, 4)
        data = [r.choice(pool) for _ in range(prod(osh))]
        ma = bool(osh) and r.random() < .3
        if ma:
            data = [MASKED if r.random() < .3 else c for c in data]
        return p.nd(osh, odt, data, ma, scalar=not osh and r.random() < .6)
    odt = dt if r.random() < .5 else r.choice(
        ['i4', 'i8', 'i2'] if ints else
        ['i4', 'i8', 'f4', 'f8', 'i2', 'u1', 'b1', 'u2', 'u4', 'u8'])
    return p.h(known(p, operand_shape(r, sh), odt, what, 4))


def ovals(p, o):
    if o['k'] == 'h':
        return p.info[o['h']]['vals']
    if o['k'] == 'py':
        return [o['v']]
    vals = []
    for c in o['data'] + ([default_fill(o['dt'])] if o['ma'] else []):
        if c != MASKED and c not in vals:
            vals.append(c)
    return vals


def elementwise(p, a, tabs=True, allow_np=True, exact_dt=None):
    """An elementwise operation on array a."""
    r = p.r
    i = p.info[a]
    dt = i['dt']
    isint = dt in INTS
    if r.random() < .4:
        f = r.choice(SMOOTH1 if i['approx'] and dt != 'b1' else
                     UNARY if tabs and i['vals'] else EXACT1)
        if f == 'invert' and not isint:
            f = 'logical_not'
        if f == 'reciprocal' and isint:
            f = 'square'
        if dt == 'b1' and f not in ('logical_not', 'isreal', 'isnan',
                                    'isinf', 'iscomplex'):
            f = 'logical_not'
        if tabs and i['vals'] and (f not in EXACT1 or r.random() < .3):
            return p.un(f, a, tab=i['vals'], dt='b1' if f in (
                'logical_not', 'isreal', 'isnan', 'isinf', 'iscomplex',
                'signbit') else 'f8' if not (f in EXACT1 or f == 'invert')
                or (isint and f in ('rint', 'floor', 'ceil', 'trunc'))
                else dt)
        if dt in ('i1', 'u1') and f in ('floor', 'ceil', 'trunc', 'rint',
                                        'square', 'conj', 'absolute',
                                        'signbit'):
            f = 'negative' if dt == 'i1' else 'logical_not'
        return p.un(f, a, dt='b1' if f in (
            'logical_not', 'isreal', 'isnan', 'isinf', 'iscomplex',
            'signbit') else {'i4': 'f8', 'i8': 'f8', 'i2': 'f4', 'u2': 'f4',
                        'u4': 'f8', 'u8': 'f8'}.get(dt, dt)
            if f in ('rint', 'floor', 'ceil', 'trunc') else dt)
    f = r.choice(SMOOTH2 if i['approx'] else
                 BINARY if tabs and i['vals'] else EXACT2)
    if f in BITS and not isint:
        f = 'equal'
    if f == 'ldexp' and not dt in FLOATS:
        f = 'maximum'
    what = ('bits' if f in BITS or f == 'power' else 'small')
    o = other(p, a, i['sh'], f, what, allow_np)
    if f == 'ldexp':
        o = p.py('int', [r.randint(-2, 3), 1]) if r.random() < .5 else \
            p.h(known(p, operand_shape(r, i['sh']), 'i4', 'bits', 3,
                      masked=False))
    x, y = p.h(a), o
    if r.random() < .4 and f != 'ldexp':
        x, y = y, x
    dts = [p.odt(x), p.odt(y)]
    if 'b1' in dts and f not in COMPARE:
        f = 'logical_and'
    if f == 'nextafter' and dts[0] != dts[1]:
        f = 'copysign'
    if f in BITS and set(dts) & {'f4', 'f8', 'float'}:
        f = 'less'
    xs, ys = ovals(p, x), ovals(p, y)
    tab = None
    if f not in EXACT2 or (tabs and r.random() < .2):
        if xs is None or ys is None:
            f = 'add' if 'b1' not in dts else 'logical_or'
        else:
            tab = [xs, ys]
    if f == 'power' and tab is None and (
            set(dts) & {'i1', 'u1', 'i2', 'u2', 'u4', 'u8'} or
            (y['k'] != 'h' and any(c[1] != 1 for c in ys))):
        f = 'minimum'
    via = 'fn'
    if f in OPERATORS and r.random() < .5 and x['k'] != 'np':
        via = 'op'
    if x['k'] == 'np' and not x['ma'] and y['k'] == 'h' and False:
        via = 'op'
    return p.bin(f, x, y, via, tab=tab)


def c04(r):
    p = Prog(r, 'c04')
    dt = r.choice(['i4', 'i8', 'f4', 'f8', 'f8', 'i8', 'i2', 'u1', 'i1', 'b1',
                   'u2', 'u4', 'u8'])
    sh = rshape(r, r.choice([0, 1, 1, 2, 2, 2, 3]), most=4, zero=.02, ones=.2)
    a = known(p, sh, dt, r.choice(['small', 'bits']))
    if r.random() < .1:
        a = cap(p, p.bc(a))
    a = elementwise(p, a)
    for i in range(r.choice([0, 0, 0, 1, 1, 2])):
        if r.random() < .4:
            a = cap(p, view(p, a, 'idx idx tr newaxes astype bc', newax=.05))
        else:
            a = elementwise(p, a, tabs=False)
    if r.random() < .5:
        p.meta(a)
    p.both(a)
    if r.random() < .5:
        b = p.idx(a, p.keys(a, newax=.07))
        p.both(b)
        if r.random() < .3:
            p.get([a, b], r.random() < .5, 'joint', r.choice([0] + LIMITS))
    return p


def c04_special(r):
    """nan and infinities, in comparisons and simple arithmetic."""
    p = Prog(r, 'c04s')
    dt = r.choice(['f4', 'f8'])
    sh = rshape(r, r.choice([1, 2]), most=4, zero=0)
    a = p.src(sh, dt, mode='special')
    b = p.src(sh, dt, mode='special')
    f = r.choice(BINARY)
    if f in BITS or f == 'ldexp':
        f = 'fmax'
    x, y = p.info[a]['vals'], p.info[b]['vals']
    c = p.bin(f, p.h(a), p.h(b), tab=[x, y])
    p.both(c)
    f = r.choice(UNARY)
    if f == 'invert':
        f = 'isnan'
    p.both(p.un(f, a, tab=x))
    return p


def c04_numbers(r):
    """Python numbers adapt to the type of the array."""
    p = Prog(r, 'c04n')
    dt = r.choice(['f4', 'f4', 'f8'] + list(INTS) + list(COMPLEX))
    ints = dt in INTS
    pool = [[n, 1] for n in (0, 1, 2, 3, 5)] if ints else [
        [1, 10], [3, 10], [1, 3], [2, 3], [1, 7], [1, 2], [2, 1]]
    if dt in COMPLEX:
        pool = [[n, 1] for n in range(-2, 3)]
    sh = rshape(r, r.choice([0, 1, 1, 2, 2, 3]), most=4, zero=.02, ones=.2)
    a = p.src(sh, dt, data=[r.choice(pool) for _ in range(prod(sh))])
    if r.random() < .2:
        a = view(p, a, 'idx tr newaxes', newax=.05)
    f = r.choice(COMPARE) if r.random() < .4 else r.choice(BINARY)
    if f in BITS and not ints:
        f = 'equal'
    if r.random() < .5 or f in BITS or f == 'ldexp':
        o = p.py('int', [r.choice([0, 1, 2, 3, 3, 200, 300] +
                                  ([] if f in BITS else [-1, -2])), 1])
        if f in BITS or f == 'ldexp':
            o['v'] = [o['v'][0] % 8, 1]
    else:
        o = p.py('float', r.choice([
            [1, 10], [3, 10], [1, 3], [2, 3], [1, 7], [1, 2], [2, 1]]))
    x, y = p.h(a), o
    if f != 'ldexp' and r.random() < .4:
        x, y = y, x
    b = p.bin(f, x, y, 'op' if f in OPERATORS and r.random() < .5 else 'fn',
              tab=[ovals(p, x), ovals(p, y)])
    if r.random() < .5:
        p.meta(b)
    p.both(b)
    if r.random() < .5:
        b = p.idx(b, p.keys(b, newax=.07))
        p.both(b)
    return p


LINEAR1 = ['negative', 'logical_not', 'isnan', 'isinf']
LINEAR2 = ['add', 'sub', 'subtract', 'maximum', 'minimum'] + list(COMPARE)


def c04_complex(r):
    """Complex numbers."""
    p = Prog(r, 'c04c')
    p.exotic = dt = r.choice(COMPLEX)
    sh = rshape(r, r.choice([0, 1, 1, 2, 2, 2, 3]), most=4, zero=.02, ones=.2)
    a = vsrc(p, sh, dt)
    if r.random() < .2:
        a = cap(p, view(p, a))

    def linear(a):
        dt = p.info[a]['dt']
        if r.random() < .3 or dt == 'b1':
            f = 'logical_not' if dt == 'b1' else r.choice(LINEAR1)
            return p.un(f, a, dt=dt if f == 'negative' else 'b1')
        f = r.choice(LINEAR2)
        o = r.choice(COMPLEX)
        p.exotic = o
        o = vsrc(p, operand_shape(r, p.info[a]['sh']), o)
        p.exotic = dt
        x, y = p.h(a), p.h(o)
        if r.random() < .4:
            x, y = y, x
        return p.bin(f, x, y, 'op' if f in OPERATORS and r.random() < .5
                     else 'fn')

    if r.random() < .4 and p.info[a]['vals']:
        # The results are only viewed.
        vals = p.info[a]['vals']
        if r.random() < .5:
            f = r.choice(UNARY)
            a = p.un(f, a, tab=vals, dt='b1' if f in (
                'logical_not', 'isreal', 'iscomplex', 'isinf', 'isnan',
                'signbit') else None)
        else:
            f = r.choice([f for f in BINARY if f not in BITS])
            p.exotic = None
            o = other(p, a, p.info[a]['sh'], f, 'small')
            p.exotic = dt
            x, y = p.h(a), o
            if r.random() < .4:
                x, y = y, x
            if ovals(p, o) is not None:
                a = p.bin(f, x, y, 'op' if f in OPERATORS and x['k'] != 'np'
                          and r.random() < .5 else 'fn',
                          tab=[ovals(p, x), ovals(p, y)])
    else:
        a = linear(a)
        for i in range(r.choice([0, 0, 1, 2])):
            a = cap(p, linear(a) if r.random() < .6 else
                    view(p, a, 'idx idx tr newaxes astype bc', newax=.05)
                    if p.info[a]['dt'] != 'b1' else p.tr(a))
    if r.random() < .5:
        p.meta(a)
    p.both(a)
    if r.random() < .5:
        b = p.idx(a, p.keys(a, newax=.07))
        p.both(b)
        if r.random() < .3:
            p.get([a, b], r.random() < .5, 'joint', r.choice([0] + LIMITS))
    return p


# ---------------------------------------------------------------- C05, C06
AGGS = ['count', 'min', 'max', 'sum', 'mean', 'std', 'var']


def agg_shape(r, zero=0):
    c = r.random()
    if c < .2:
        return [r.randint(5, 14)]
    if c < .35:
        sh = [r.randint(2, 3), r.randint(5, 12)]
        r.shuffle(sh)
        return sh
    sh = rshape(r, r.choice([1, 2, 2, 3, 3]), most=5, zero=zero, ones=.1)
    if r.random() < zero:
        sh[r.randrange(len(sh))] = 0
    return sh


def agg_of(p, a, f=None, ax=None, masked=False):
    r = p.r
    sh = p.info[a]['sh']
    axes = [d for d, n in enumerate(sh) if n > 0]
    if p.info[a]['sq']:
        f = 'count'
    if not axes or p.info[a]['dt'] == 'b1' and f != 'count':
        return a
    if ax is None:
        ax = r.choice(axes)
    f = f or r.choice(AGGS)
    if p.info[a]['off'] and f == 'sum':
        f = 'mean'
    n = sh[ax]
    ddof = 0
    if f in ('std', 'var'):
        ddof = r.choice([0, 0, 1, 1, 2, -1])
        if n <= ddof:
            ddof = 0
    mdtol = None
    if f == 'mean' and r.random() < .5:
        mdtol = r.choice([[0, 1], [1, 4], [1, 2], [1, 2], [3, 4], [1, 1]])
    if r.random() < .3:
        ax -= len(sh)
    return p.agg(f, a, ax, ddof, mdtol)


def agg_source(p, masked, sh=None, dt=None):
    r = p.r
    sh = sh or agg_shape(r, zero=.03)
    dt = dt or r.choice(['f8', 'f8', 'f4', 'i4', 'i8', 'i2', 'u1', 'i1', 'f8',
                         'f4', 'u2', 'u4', 'u8'])
    mode = 'small' if dt != 'f4' or r.random() < .6 else 'tiny'
    return p.src(sh, dt, mode=mode, masked=masked,
                 pmask=r.choice([.2, .5, .8]))


def numeric(p, a):
    """Arrays of bool are not aggregated."""
    return p.astype(a, 'f8') if p.info[a]['dt'] == 'b1' else a


def long_lanes(p, masked, limit):
    """Lanes of more elements than a byte can count."""
    r = p.r
    p.lim = [90000, 64]
    p.special = 0
    sh = [r.choice([130, 144, 200, 256, 257, 270])]
    if r.random() < .6:
        sh.insert(r.randint(0, 1), 2)
    ax = sh.index(max(sh))
    f = r.choice(['count', 'count', 'sum', 'min', 'max', 'mean', 'var', 'std'])
    a = p.src(sh, r.choice(['f8', 'f8', 'i4', 'i2']), mode='tiny',
              masked=masked, pmask=r.choice([.01, .2, .7]))
    c = agg_of(p, a, f, ax)
    if r.random() < .3:
        p.meta(c)
    for m in r.sample([True, False], 2) if masked else [False]:
        p.get(c, m, r.choice(['single', 'joint']), r.choice([0, 7, 50, limit]))
    return p


def aggregate(r, name, masked):
    def ma():
        return r.random() < .85 if masked else r.random() < .1
    p = Prog(r, name).swapped()
    form = r.choice(['one'] * 4 + ['view', 'view', 'expr', 'expr', 'agg2',
                                   'mix', 'mix', 'stack', 'two', 'post'])
    limit = r.choice(LIMITS[:10]) if r.random() < .9 else 0
    if r.random() < .02:
        return long_lanes(p, masked, limit)
    a = agg_source(p, ma())
    if form == 'view':
        a = cap(p, view(p, a, 'idx idx tr newaxes bc astype', newax=.05))
        a = numeric(p, a)
        c = agg_of(p, a)
    elif form == 'expr':
        if r.random() < .5:
            f = r.choice(['negative', 'absolute', 'square'])
            if p.info[a]['dt'] in ('i1', 'u1'):
                f = 'sign'
            b = p.un(f, a)
        else:
            sh = operand_shape(r, p.info[a]['sh'])
            o = agg_source(p, ma(), sh or [1])
            b = p.bin(r.choice(['add', 'sub', 'multiply', 'maximum']),
                      p.h(a), p.h(o), 'fn')
        c = agg_of(p, numeric(p, b))
    elif form == 'agg2':
        c = agg_of(p, a, r.choice(['sum', 'min', 'max', 'mean']))
        if p.info[c]['sh']:
            c = agg_of(p, c)
    elif form == 'mix':
        # Anomalies and the like: an array and its own aggregate.
        b = agg_of(p, a, r.choice(['min', 'max', 'sum', 'mean', 'count',
                                   'var']), r.choice(
            [0, None] if p.info[a]['sh'][0] else [None]))
        if bshape(p.info[a]['sh'], p.info[b]['sh']) is None:
            b = p.src([], 'f8', mode='small')
        x, y = p.h(a), p.h(b)
        if r.random() < .5:
            x, y = y, x
        c = p.bin(r.choice(['add', 'sub', 'maximum']), x, y)
        if r.random() < .5 and p.info[c]['dt'] != 'b1':
            c = agg_of(p, c)
    elif form == 'two':
        # Two aggregates of arrays chunked differently, in one expression.
        sh = p.info[a]['sh']
        ax = r.randrange(len(sh))
        b = agg_of(p, a, r.choice(['sum', 'min', 'max', 'mean', 'count']), ax)
        osh = list(sh)
        osh.insert(r.randint(0, len(osh)), r.randint(1, 4))
        k = [d for d in range(len(osh))]
        o = agg_source(p, ma(), sh[:ax] + [r.randint(1, 6)] + sh[ax + 1:])
        d = agg_of(p, o, r.choice(['sum', 'min', 'max', 'mean', 'count']), ax)
        if bshape(p.info[b]['sh'], p.info[d]['sh']) is None:
            d = b
        c = p.bin(r.choice(['add', 'sub', 'multiply']), p.h(b), p.h(d))
    elif form == 'stack':
        sh = p.info[a]['sh']
        dt = p.info[a]['dt']
        ms = [a, agg_source(p, ma(), sh, dt)]
        a = p.stack(ms, [2]) if r.random() < .5 else p.mosaic(
            ms, r.randrange(len(sh)))
        c = agg_of(p, a)
    else:
        c = agg_of(p, a)
    if form == 'post' and p.info[c]['sh']:
        c = p.idx(c, p.keys(c, newax=.05))
    if r.random() < .15 and p.info[c]['sh']:
        p.both(c, limit)
        c = p.idx(c, p.keys(c, newax=.05))
    if r.random() < .3:
        p.meta(c)
    want = [True, False] if masked else [False]
    if not masked and r.random() < .1:
        want = [False, True]
    r.shuffle(want)
    for m in want:
        p.get(c, m, r.choice(['single', 'single', 'joint']), limit)
    if r.random() < .2:
        p.get(c, masked, 'single', r.choice(LIMITS))
    return p


def agg_complex(r, name, masked):
    p = Prog(r, name)
    p.exotic = r.choice(COMPLEX)
    sh = agg_shape(r, zero=.03)

    def source(sh=sh):
        return p.src(sh, None, mode=r.choice(['small', 'tiny']),
                     masked=masked and r.random() < .85,
                     pmask=r.choice([.2, .5, .8]))
    a = source()
    if r.random() < .3:
        a = cap(p, view(p, a, newax=.05))
    if r.random() < .3:
        f = r.choice(['add', 'sub', 'maximum', 'minimum'])
        a = p.bin(f, p.h(a), p.h(source(operand_shape(r, p.info[a]['sh']))))
    elif r.random() < .2:
        a = p.un('negative', a)
    c = agg_of(p, a)
    if r.random() < .2 and p.info[c]['sh'] and p.info[c]['dt'] in COMPLEX:
        c = agg_of(p, c)
    if r.random() < .3 and p.info[c]['sh']:
        c = p.idx(c, p.keys(c, newax=.05))
    if r.random() < .3:
        p.meta(c)
    limit = r.choice(LIMITS[:10]) if r.random() < .9 else 0
    want = [True, False] if masked else [False]
    r.shuffle(want)
    for m in want:
        p.get(c, m, r.choice(['single', 'single', 'joint']), limit)
    return p


def c05_complex(r):
    return agg_complex(r, 'c05c', False)


def c06_complex(r):
    return agg_complex(r, 'c06c', True)


def c05(r):
    return aggregate(r, 'c05', False)


def c06(r):
    return aggregate(r, 'c06', True)


def offset(r, name, masked):
    """Data a long way from zero, in proportion to their spread."""
    dt = r.choice(['f8', 'f8', 'i8'])
    off = 10 ** 8 if dt == 'f8' else r.choice([10 ** 8, 2 ** 53 + 1])
    p = Prog(r, name, off=off)
    sh = agg_shape(r)
    a = p.src(sh, dt, mode='tiny', masked=masked, off=True,
              data=[[r.randint(0, 8), 1] for _ in range(prod(sh))])
    fs = ['min', 'max'] if off > 10 ** 9 else ['min', 'max', 'mean', 'std',
                                               'var', 'std', 'var']
    c = agg_of(p, a, r.choice(fs))
    p.both(c, r.choice(LIMITS))
    return p


def c05_off(r):
    return offset(r, 'c05o', False)


def c06_off(r):
    return offset(r, 'c06o', True)


# ---------------------------------------------------------------- C07
def c07(r):
    p = Prog(r, 'c07').exotics()
    dt = r.choice(['i4', 'i8', 'f4', 'f8', 'i2', 'b1', 'u1'])
    mode = 'tiny' if dt == 'b1' else r.choice(['distinct', 'small', 'tiny'])
    kw = {'masked': True, 'mode': mode}
    c = r.random()
    if c < .4:
        fv = p.fill(dt) if r.random() < .5 else None
        if fv:
            kw['fv'] = fv
        if r.random() < .2:
            kw['masked'] = None
        a = container(p, dt=dt, depth=r.choice([0, 1]), **kw)
    else:
        a = p.src(rshape(r, most=5), dt, **kw)
    p.meta(a)
    if r.random() < .3:
        p.both(a)
    for i in range(r.choice([0, 1, 1, 2, 3])):
        if r.random() < .25 and not p.info[a]['dt'] == 'b1' and \
                not p.info[a]['approx']:
            a = p.meq(a, [r.randint(0, 3), 1])
        else:
            a = view(p, a, 'idx idx tr newaxes bc astype', newax=.07)
        a = cap(p, a)
        if r.random() < .2:
            p.both(a)
    p.meta(a)
    p.both(a)
    if r.random() < .2:
        p.get([a, a], True, 'joint', r.choice(LIMITS))
    return p


# ---------------------------------------------------------------- anything
def anything(p, n=4, zero=.08, aggs=True, sources=None, dts=None, elem=True,
             views='idx idx tr newaxes bc astype', track=False, conts=True,
             allow_np=True, ones=.15, only=None, newax=.07, meq=True):
    """
    Build arrays of all kinds on top of each other.  Returns those which
    can be used further.
    """
    r = p.r
    dts = dts or ['i4', 'i8', 'f4', 'f8', 'f8', 'i2', 'u1', 'b1', 'u4', 'u2']
    pool = list(sources or [])
    if not pool:
        for i in range(r.choice([1, 1, 2])):
            dt = r.choice(dts)
            pool.append(p.src(rshape(r, most=4, zero=zero, ones=ones), dt,
                              mode='tiny' if dt == 'b1' else 'small'))
    for i in range(n):
        a = r.choice(pool[-3:])
        c = r.random()
        if c < .4:
            kw = {'newax': newax}
            if only:
                kw['only'] = only
            b = view(p, a, views, **kw)
        elif c < .6 and elem:
            b = elementwise(p, a, tabs=False, allow_np=allow_np)
        elif c < .75 and aggs and p.info[a]['dt'] != 'b1':
            b = agg_of(p, a)
        elif c < .8 and not p.info[a]['sq'] and meq and \
                not p.info[a]['off'] and not p.info[a]['approx']:
            b = p.meq(a, [r.randint(0, 3), 1])
        elif c < .9 and conts:
            i = p.info[a]
            if prod(i['sh']) > 40:
                continue
            b2 = a if r.random() < .3 else member(p, i['sh'], i['dt'], 0,
                                                  mode='tiny')
            if p.info[b2]['sq'] != i['sq']:
                b2 = a
            ms = [a, b2]
            r.shuffle(ms)
            if i['sh'] and r.random() < .5:
                b = p.mosaic(ms, r.randrange(len(i['sh'])))
            else:
                b = p.stack(ms, [2])
        elif c < .95:
            b = p.copy(a)
        else:
            b = a
        pool.append(cap(p, b, 120))
    return pool


# ---------------------------------------------------------------- C08
def c08(r):
    p = Prog(r, 'c08')
    pool = anything(p, r.choice([1, 2, 3, 4]), zero=.15, ones=.2)
    a = pool[-1]
    p.meta(a)
    p.both(a)
    p.meta(a)
    if r.random() < .5:
        b = p.copy(a) if r.random() < .5 else p.idx(a)
        p.meta(b)
        p.both(b)
        p.meta(a)
    if r.random() < .3:
        p.get([a, r.choice(pool)], r.random() < .5, 'joint',
              r.choice(LIMITS))
    return p


def c08_exotic(r):
    """Views of arrays of dtypes which are not computed with."""
    p = Prog(r, 'c08e').exotics(1)
    pool = [p.const(rshape(r, zero=.1))] if r.random() < .4 else None
    pool = anything(p, r.choice([1, 2, 3, 4]), zero=.1, aggs=False,
                    elem=False, sources=pool)
    a = pool[-1]
    p.meta(a)
    p.both(a)
    p.meta(a)
    if r.random() < .5:
        b = p.copy(a) if r.random() < .5 else p.idx(a)
        p.meta(b)
        p.both(b)
    if r.random() < .3:
        p.get([a, r.choice(pool)], r.random() < .5, 'joint',
              r.choice(LIMITS))
    return p


def c08_0d(r):
    """Everything without dimensions."""
    p = Prog(r, 'c08z')
    sh = r.choice([[], [], [1], [1, 1]])
    a = p.src(sh, r.choice(['i4', 'f8', 'f4', 'b1', 'i2', 'u1']),
              mode='tiny')
    for i in range(r.choice([0, 1, 1, 2])):
        c = r.random()
        n = len(p.info[a]['sh'])
        if c < .4:
            a = p.idx(a, [{'k': 'i', 'i': 0, 'f': 0}] * r.randint(0, n)
                      if r.random() < .5 and all(
                          x == 1 for x in p.info[a]['sh'])
                      else p.keys(a, newax=.3))
        elif c < .7:
            a = elementwise(p, a, tabs=False)
        else:
            a = view(p, a)
        a = cap(p, a)
    p.meta(a)
    p.both(a)
    p.meta(a)
    return p


# ---------------------------------------------------------------- C09
def c09(r):
    """Arrays which share sources and expressions, evaluated together."""
    p = Prog(r, 'c09')
    pool = anything(p, r.choice([2, 3, 4, 5, 6]), zero=.03)
    hs = [r.choice(pool) for _ in range(r.choice([1, 2, 2, 3, 3, 4]))]
    masked = r.random() < .5
    limit = r.choice(LIMITS)
    p.get(hs, masked, 'joint', limit)
    for a in sorted(set(hs)):
        p.get(a, masked, 'single', r.choice([0] + LIMITS))
    return p


def c09_once(r):
    """
    Expressions which go through their source in the same order, so that it
    is read only once.
    """
    p = Prog(r, 'c09o', track=True)
    sh = agg_shape(r)
    dt = r.choice(['f8', 'f4', 'i4', 'i8'])
    a = p.src(sh, dt, mode='small', wrap=True)
    b = p.src(sh, dt, mode='small', wrap=True)
    if r.random() < .2:
        a = p.tr(a)
        sh = p.info[a]['sh']
    ax = r.randrange(len(sh))
    arrays = [a]
    if b and p.info[b]['sh'] == sh:
        if r.random() < .5:
            arrays.append(p.bin('add', p.h(a), p.h(b)))
    if r.random() < .4:
        arrays.append(p.un(r.choice(['negative', 'absolute']), a))
    if r.random() < .3:
        arrays.append(p.bin('multiply', p.h(a), p.h(a)))
    results = []
    for i in range(r.choice([1, 2, 2, 3, 4])):
        x = r.choice(arrays)
        if ax == len(sh) - 1 and r.random() < .3:
            results.append(x)       # the same order as the last axis
        else:
            results.append(agg_of(p, x, None, ax))
    if len(results) > 1 and r.random() < .4:
        u, v = results[:2]
        if p.info[u]['sh'] == p.info[v]['sh'] and \
                not p.info[u]['sq'] and not p.info[v]['sq']:
            results[0] = p.bin('add', p.h(u), p.h(v))
    masked = r.random() < .5
    p.get(results, masked, 'joint', r.choice(LIMITS), sized=True, once=True)
    return p


# ---------------------------------------------------------------- C12
def c12(r):
    """Reads are within the limit, whatever is evaluated."""
    p = Prog(r, 'c12', track=True)
    ss = []
    sh = agg_shape(r)
    for i in range(r.choice([1, 2])):
        ss.append(p.src(sh if r.random() < .5 else agg_shape(r),
                        r.choice(['f8', 'i4', 'f4']), mode='small',
                        wrap=True, kind=r.choice(['np', 'ortho', 'bare']),
                        masked=False if r.random() < .5 else None))
    pool = anything(p, r.choice([1, 2, 3, 4]), zero=0, sources=ss,
                    views='idx tr astype', only='is', newax=0,
                    allow_np=False, meq=True)
    hs = []
    for i in range(r.choice([1, 1, 2, 3])):
        x = r.choice(pool)
        if p.info[x]['dt'] != 'b1':
            x = agg_of(p, x)
        hs.append(x)
    p.get(hs, r.random() < .5, 'joint', r.choice(LIMITS), sized=True)
    return p


def c12_single(r):
    """Expressions, and what is made of them, are realised by themselves."""
    p = Prog(r, 'c12e', track=True)
    sh = agg_shape(r)
    ss = [p.src(sh, r.choice(['f8', 'i4', 'f4']), mode='small', wrap=True,
                kind=r.choice(['np', 'ortho', 'bare']),
                masked=False if r.random() < .5 else None)
          for i in range(r.choice([1, 2]))]
    es = []
    for i in range(r.choice([1, 1, 2])):
        s = r.choice(ss)
        if r.random() < .3:
            s = view(p, s, 'idx tr', only='is', newax=0)
        es.append(agg_of(p, s) if r.random() < .2 else
                  elementwise(p, s, tabs=False, allow_np=False))
    pool = anything(p, r.choice([0, 1, 2, 3]), zero=0, sources=es,
                    views='idx tr newaxes astype', only='is', newax=.1,
                    allow_np=False, conts=False)
    a = pool[-1]
    if r.random() < .2:
        a = p.stack([a, pool[0]], [2]) \
            if p.info[a]['sh'] == p.info[pool[0]]['sh'] and \
            p.info[a]['sq'] == p.info[pool[0]]['sq'] and \
            p.info[a]['dt'] == p.info[pool[0]]['dt'] else a
    p.get([a], r.random() < .5, 'single', r.choice(LIMITS), sized=True)
    return p


def c12_save(r):
    p = Prog(r, 'c12s', track=True)
    a = p.src(agg_shape(r), r.choice(['f8', 'i4', 'f4']), mode='small',
              wrap=True, kind=r.choice(['np', 'ortho']))
    pool = anything(p, r.choice([0, 1, 2]), zero=0, sources=[a],
                    views='idx tr astype', only='is', newax=0, aggs=False,
                    allow_np=False)
    p.save(pool[-1], r.random() < .5, r.choice(LIMITS))
    return p


# ---------------------------------------------------------------- C13
def c13(r):
    p = Prog(r, 'c13', track=True)
    kind = r.choice(['np', 'ortho', 'ortho', 'bare'])
    only = 'is' if kind == 'np' else None
    ss = []
    for i in range(r.choice([1, 2])):
        ss.append(p.src(rshape(r, most=4, zero=.02, ones=.2),
                        r.choice(['f8', 'i4', 'f4']), mode='small',
                        wrap=True, kind=kind,
                        masked=False if kind == 'bare' else None))
        if kind == 'np' and r.random() < .7:
            ss[-1] = p.tuples(ss[-1], r.choice([1, 1, 2]))
    if kind == 'np' and r.random() < .3:
        p.get(ss[-1], r.random() < .5)
    pool = anything(p, r.choice([0, 1, 2, 3, 4]), zero=0, sources=ss, only=only,
                    newax=.07)
    a = pool[-1]
    if r.random() < .7:
        a = p.idx(a, p.keys(a, only=only))
    p.meta(a)
    p.show(a)
    p.get(a, r.random() < .5, 'single', r.choice([0] + LIMITS))
    p.meta(a)
    p.show(r.choice(pool))
    return p


# ---------------------------------------------------------------- C14
def c14(r):
    p = Prog(r, 'c14')
    c = r.random()
    if c < .5:
        p.exotics(.1)
        a = p.src(agg_shape(r, zero=.1) if r.random() < .7 else
                  rshape(r, zero=.1),
                  r.choice(['f8', 'i4', 'i8', 'f4', 'b1', 'i2']),
                  mode='tiny' if r.random() < .3 else 'small')
        if r.random() < .4:
            a = cap(p, view(p, a))
    else:
        a = anything(p, r.choice([1, 2, 3]))[-1]
    limit = r.choice(LIMITS)
    for m in r.sample([True, False], r.choice([1, 2])):
        p.save(a, m, limit)
    return p


# ---------------------------------------------------------------- C15
def dask(r, ways=('', '', '', 'joint/')):
    """A way of evaluating with the Dask engine."""
    return r.choice(ways) + r.choice(
        ['dask', 'dasksync', 'daskfirst', 'dasklast',
         'daskrandom:%d' % r.randint(0, 999),
         'daskrandom:%d' % r.randint(0, 999),
         'dasktwice:%d' % r.randint(0, 999)])


def c15(r):
    p = Prog(r, 'c15')
    if r.random() < .5:
        q = aggregate(r, 'c15', r.random() < .5)
        p.steps = [s for s in q.steps if s['op'] not in ('get', 'meta')]
        if len(p.steps) != max(j for j, s in enumerate(q.steps)
                               if s['op'] not in ('get', 'meta')) + 1:
            return c15(r)
        p.info = q.info[:len(p.steps) + 1]
        pool = list(range(1, len(p.steps) + 1))
    else:
        pool = anything(p, r.choice([1, 2, 3, 4]), zero=.03)
    hs = [pool[-1]] + [r.choice(pool) for _ in range(r.choice([0, 0, 1, 2]))]
    r.shuffle(hs)
    for masked in r.sample([True, False], r.choice([1, 2])):
        p.get(hs, masked, dask(r), r.choice(LIMITS))
    if r.random() < .4:
        p.get([r.choice(hs)], masked, dask(r, ['single/', 'joint/', '']),
              r.choice(LIMITS))
    if r.random() < .3:
        p.get(hs, masked, 'joint', r.choice(LIMITS))
    return p


# ---------------------------------------------------------------- C16
def c16(r):
    p = Prog(r, 'c16')
    pool = anything(p, r.choice([2, 3, 4]), zero=.03)
    for i in range(r.randint(4, 9)):
        c = r.random()
        a = r.choice(pool)
        masked = r.random() < .5
        limit = r.choice([0] + LIMITS)
        if c < .4:
            p.get(a, masked, r.choice(['single', 'single', 'joint']), limit,
                  write=r.random() < .5)
        elif c < .55:
            p.get([r.choice(pool) for _ in range(r.choice([2, 3]))], masked,
                  'joint', limit, write=r.random() < .5)
        elif c < .65:
            p.save(a, masked, r.choice(LIMITS))
        elif c < .7:
            p.meta(a)
        elif c < .75:
            p.show(a)
        elif c < .9:
            pool += anything(p, 1, sources=[a])[1:]
        else:
            pool.append(p.copy(a))
    for a in r.sample(pool, min(3, len(pool))):
        p.both(a)
    return p


def c16_copy(r):
    """Copies are independent of assignments to what they are copies of."""
    p = Prog(r, 'c16c').exotics()
    sh = rshape(r, r.choice([0, 1, 2]), most=3, zero=0)
    dt = r.choice(['i4', 'f8', 'f4'])
    ssh = r.choice([[2], [3], [2, 2]])
    ms = [p.src(sh, dt) for _ in range(prod(ssh))]
    a = p.stack(ms, ssh, via='ctor')
    b = p.copy(a)
    if r.random() < .5:
        p.both(a)
        p.both(b)
    for i in range(r.choice([1, 2])):
        p.setitem(r.choice([a, b]), p.src(sh, dt),
                  [r.randint(-n, n - 1) for n in ssh])
    for x in r.sample([a, b] + ms, 3):
        p.both(x)
    return p


# ---------------------------------------------------------------- C17
def kind_of(p, a, what):
    """Some array of one kind, made of array a if that is possible."""
    r = p.r
    i = p.info[a]
    if what == 'bc' and not i['bcast'] and prod(i['sh']) < 30:
        if 1 not in i['sh'] and len(i['sh']) < 4 and r.random() < .6:
            a = p.newaxes(a)
        return p.bc(a, zero=r.random() < .1)
    if what == 'const':
        return p.const(rshape(r, zero=.1), i['dt'] if i['dt'] != 'b1'
                       else None)
    if what == 'stack' and prod(i['sh']) < 40:
        n = r.choice([1, 2, 2, 3])
        return p.stack([a] * n, [n])
    if what == 'mosaic' and i['sh'] and prod(i['sh']) < 40:
        return p.mosaic([a] * r.choice([1, 2, 3]), r.randrange(len(i['sh'])))
    if what == 'elem':
        return elementwise(p, a, tabs=False)
    if what == 'agg' and i['sh'] and i['dt'] != 'b1':
        return agg_of(p, a)
    if what in ('tr', 'newaxes', 'astype', 'idx'):
        return view(p, a, what)
    return a


def c17(r):
    p = Prog(r, 'c17')
    pool = anything(p, r.choice([0, 1, 2, 3]), zero=.08)
    a = pool[-1]
    if r.random() < .5:
        a = cap(p, kind_of(p, a, r.choice([
            'bc', 'const', 'stack', 'mosaic', 'elem', 'agg', 'tr', 'newaxes',
            'astype', 'idx'])), 120)
    i = p.info[a]
    sh = i['sh']
    nd = len(sh)
    what = r.choice(['int', 'int', 'tuple', 'tuple', 'many', 'type', 'type', 'axis',
                     'axis', 'axes', 'noaxis', 'shapes', 'stack', 'stackdt',
                     'mosaic', 'mosaicdt', 'mosaicax', 'perm', 'bc', 'bcax',
                     'mask', 'mask', 'member', 'pair', 'lead', 'set'])
    b = None

    def out_of(n):
        return r.choice([n, n, n + 1, -n - 1, -n - 1, -n - 2, n + 5])
    if what in ('int', 'tuple', 'mask') and not nd:
        what = 'many'
    if what in ('int', 'tuple', 'mask'):
        d = r.randrange(nd)
        keys = []
        for e, n in enumerate(sh):
            if e == d:
                if what == 'int':
                    keys.append({'k': 'i', 'i': out_of(n),
                                 'f': r.choice([0, 0, 1])})
                elif what == 'mask':
                    more = r.choice([1, 1, 2, 3])
                    t = [r.random() < .5 for _ in range(n + more)]
                    if r.random() < .5:
                        t[n:] = [False] * more
                    keys.append({'k': 'm', 't': t})
                else:
                    t = [r.randint(-n, n - 1) for _ in range(
                        r.choice([0, 1, 2]) if n else 0)]
                    t.insert(r.randint(0, len(t)), out_of(n))
                    keys.append({'k': 't', 't': t,
                                 'f': r.choice([0, 0, 1, 2])})
            else:
                keys.append(dict(FULL) if r.random() < .5
                            else p.key1(n, i['kinds'][e]))
        if r.random() < .5:
            keys = keys[:d + 1]
        b = p.idx_bad(a, keys)
    elif what == 'many':
        keys = [r.choice([dict(FULL), {'k': 'i', 'i': 0, 'f': 0}])
                for _ in range(nd + r.choice([1, 1, 2]))]
        b = p.idx_bad(a, keys)
    elif what == 'type':
        keys = [dict(FULL)] * nd
        if not nd:
            return c17(r)
        keys[r.randrange(nd)] = {'k': 'x', 'x': r.choice(
            ['str', 'float', 'object', 'floats', 'mixed', 'half', 'farray',
             'fscalar', 'strs', 'nested', 'mask2', 'mask2b', 'mask0', 'int2',
             'fslice', 'fstep', 'sslice'])}
        if r.random() < .3:
            d = r.randrange(nd)
            if keys[d]['k'] != 'x':
                keys[d] = p.key1(sh[d], i['kinds'][d])
        b = p.fail(a, 'key', keys=keys)
    elif what == 'axis':
        b = p.agg_bad(r.choice(AGGS), a, r.choice([nd, nd + 1, -nd - 1,
                                                   -nd - 2, 7]))
    elif what == 'axes':
        b = p.fail(a, 'axes', f=r.choice(AGGS), axes=[0, 1][:2])
    elif what == 'noaxis':
        b = p.fail(a, r.choice(['noaxis', 'axistype']), f=r.choice(AGGS))
    elif what == 'shapes':
        d = [e for e, n in enumerate(sh) if n > 1]
        if not d:
            return c17(r)
        osh = list(sh)
        d = r.choice(d)
        osh[d] = osh[d] + r.choice([1, 2]) if r.random() < .6 else 0
        if r.random() < .3:
            osh = osh[r.randint(0, d):]
        o = p.src(osh, i['dt'], mode='tiny')
        x, y = p.h(a), p.h(o)
        if r.random() < .5:
            x, y = y, x
        f = 'logical_or' if i['dt'] == 'b1' else r.choice(
            ['add', 'sub', 'multiply', 'maximum', 'equal'])
        b = p.bin_bad(f, x, y)
    elif what in ('stack', 'stackdt'):
        osh = list(sh)
        if what == 'stack':
            if osh and r.random() < .6:
                e = r.randrange(nd)
                osh[e] = max(0, osh[e] + r.choice([-1, 1, 1]))
                if osh == sh:
                    osh[e] += 1
            else:
                osh.append(1)
            odt = i['dt']
        else:
            odt = r.choice([t for t in ('i4', 'i8', 'f8', 'f4')
                            if t != i['dt']])
        o = p.src(osh, odt, mode='tiny')
        ms = [a, a, o]
        r.shuffle(ms)
        ms = ms[:r.choice([2, 3])]
        if o not in ms:
            ms[-1] = o
        if len(set(ms)) < 2:
            ms = [a, o]
        b = p.stack_bad(ms)
    elif what in ('mosaic', 'mosaicdt', 'mosaicax'):
        if not nd:
            return c17(r)
        ax = r.randrange(nd)
        osh = list(sh)
        odt = i['dt']
        if what == 'mosaic':
            other = [e for e in range(nd) if e != ax]
            if other and r.random() < .7:
                osh[r.choice(other)] += 1
            else:
                osh.append(1)
        elif what == 'mosaicdt':
            odt = r.choice([t for t in ('i4', 'i8', 'f8', 'f4')
                            if t != i['dt']])
        else:
            ax = r.choice([nd, nd + 1])
        o = p.src(osh, odt, mode='tiny')
        ms = [a, o] if r.random() < .5 else [o, a]
        b = p.mosaic_bad(ms, ax)
    elif what == 'perm':
        perm = list(range(nd + r.choice([-1, 1])))
        if nd == 0 and len(perm) == 0:
            perm = [0]
        b = p.tr_bad(a, perm)
    elif what in ('bc', 'bcax'):
        if i['bcast']:
            return c17(r)
        if what == 'bc':
            d = [e for e, n in enumerate(sh) if n != 1]
            if not d:
                return c17(r)
            d = r.choice(d)
            b = p.bc_bad(a, [[d, sh[d] + r.choice([1, 2])]], [])
        else:
            b = p.bc_bad(a, [[r.choice([nd, nd + 2]), 2]], [])
    elif what == 'lead':
        if i['bcast']:
            return c17(r)
        b = p.bc_bad(a, [], [r.choice([-1, 0])])
    elif what == 'pair':
        d = [e for e, n in enumerate(sh) if n > 1]
        if not d:
            return c17(r)
        osh = list(sh)
        d = r.choice(d)
        osh[d] += 1
        b = p.bcpair_bad(a, p.src(osh, i['dt'], mode='tiny'))
    elif what == 'member':
        b = p.fail(a, r.choice(['stackmember', 'operand'])
                   if not nd or r.random() < .7 else 'mosaictile',
                   axes=[0])
    elif what == 'set':
        st = p.stack([a, a], [2])
        if r.random() < .5:
            o = p.src(sh + [1], i['dt'], mode='tiny')
        elif r.random() < .5:
            o = p.src(sh, 'f4' if i['dt'] != 'f4' else 'f8', mode='tiny')
        else:
            o = a
            p.setitem(st, o, [r.choice([2, 3, -3])])
            p.both(st)
            return p
        p.setitem(st, o, [r.choice([0, 1])])
        p.both(st)
        return p
    for m in r.sample([True, False], 2):
        p.get(b, m, r.choice(['single', 'single', 'joint']), r.choice(
            [0] + LIMITS))
    return p


# ------------------------------------------------ C10, C11, C12, C19
def plan(r, lines=False):
    """A schedule of the threads."""
    name = r.choice(['uniform', 'lazy', 'lazy', 'rare', 'pct', 'pct', 'hold',
                     'hold', 'readers', 'others', 'newest', 'oldest'])
    return {'name': name, 'seed': r.randrange(10 ** 6),
            'lines': r.choice([0, 0, .02, .1]) if lines else 0,
            'slow': r.choice([0, 0, 0, .003, .02, .1])}


def graph(p, n=None, most=40):
    """
    Arrays for the engine to evaluate: aggregates and elementwise operations
    which share sources and each other.
    """
    r = p.r
    if r.random() < .35:
        ss = []
        for i in range(r.choice([1, 1, 2])):
            ss.append(p.src(agg_shape(r), r.choice(['f8', 'i4', 'f4']),
                            mode='small', wrap=True,
                            kind=r.choice(['np', 'ortho'])))
        return anything(p, n or r.choice([2, 3, 4]), zero=.02, sources=ss,
                        allow_np=False)
    sh = agg_shape(r)
    dt = r.choice(['f8', 'f8', 'i4'])
    pool = [p.src(sh, dt, mode='small', wrap=True,
                  kind=r.choice(['np', 'ortho']))
            for _ in range(r.choice([1, 2]))]
    for i in range(n or r.choice([1, 2, 3, 3, 4, 5])):
        a = r.choice(pool)
        info = p.info[a]
        c = r.random()
        if c < .5 and info['sh']:
            pool.append(agg_of(p, numeric(p, a), None if r.random() < .3 else
                               r.choice(['sum', 'min', 'max', 'mean'])))
        elif c < .6:
            if not info['sq'] and info['dt'] != 'b1':
                pool.append(p.un('negative', a))
        elif c < .68:
            pool.append(cap(p, view(p, a, 'idx tr bc'), 60))
        else:
            like = [b for b in pool if bshape(p.info[b]['sh'], info['sh'])
                    is not None and prod(bshape(p.info[b]['sh'], info['sh']))
                    <= 60 and not p.info[b]['sq']]
            if like and not info['sq']:
                b = r.choice(like)
                f = r.choice(['add', 'sub', 'maximum', 'multiply'])
                if 'b1' in (info['dt'], p.info[b]['dt']):
                    continue
                big = info['approx'] or p.info[b]['approx']
                pool.append(p.bin('add' if big and f == 'multiply' else f,
                                  p.h(a), p.h(b)))
    return pool


def some(p, pool):
    r = p.r
    hs = [pool[-1]] + [r.choice(pool)
                       for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
    r.shuffle(hs)
    return hs


def few(r):
    return r.choice([2, 3, 4, 5, 6, 8, 10, 12, 16])


def deep(p):
    """
    The same dimensions aggregated away in different orders, and the results
    combined.
    """
    r = p.r
    m = r.choice([2, 4, 4, 5, 6])
    sh = [r.randint(5, 8), r.randint(18, 28)] + [1] * m
    if r.random() < .2:
        sh[0], sh[1] = sh[1], sh[0]
    a = p.src(sh, r.choice(['f8', 'i4']), mode='tiny', wrap=True, kind='np')
    results = []
    for i in range(2):
        dims = list(range(1, m + 2))
        if r.random() < .2:
            r.shuffle(dims)
        elif i:
            dims.reverse()
        if r.random() < .1:
            dims = [d for d in dims if d != 1]
        b = a
        left = list(range(m + 2))
        for d in dims:
            b = agg_of(p, b, r.choice(['sum', 'max', 'min']), left.index(d))
            left.remove(d)
        results.append(b)
    if bshape(*[p.info[b]['sh'] for b in results]) is None:
        return results
    return results + [p.bin('add', *map(p.h, results))]


def c10(r):
    """The same evaluation under several schedules."""
    p = Prog(r, 'c10')
    masked = r.random() < .4
    if r.random() < .03:
        hs = deep(p)
        hs = [hs[-1]] if r.random() < .7 else hs
        p.get(hs, masked, 'joint', r.choice([1, 1, 1, 5]), sched=plan(r))
        return p
    hs = some(p, graph(p))
    limit = few(r)
    for i in range(r.choice([2, 3, 4])):
        if r.random() < .1:
            p.save(hs[0], masked, limit, sched=plan(r))
        elif len(set(hs)) == 1 and r.random() < .6:
            p.get(hs[0], masked, 'single', limit, sched=plan(r))
        else:
            p.get(hs, masked, 'joint', limit, sched=plan(r))
    return p


EXCEPTIONS = ['Fault', 'Fault', 'BaseFault', 'ValueError', 'KeyError',
              'IndexError', 'TypeError', 'AttributeError', 'IOError',
              'MemoryError', 'StopIteration', 'KeyboardInterrupt',
              'SystemExit', 'GeneratorExit', 'Empty', 'Full', 'AssertionError',
              'ZeroDivisionError', 'NotImplementedError', 'RuntimeError']


def fault(p, write=False):
    r = p.r
    exc = r.choice(EXCEPTIONS)
    n = r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 12])
    on = r.random() < .2
    if write:
        return {'k': 'write', 'n': r.choice([1, 1, 2, 3]), 'exc': exc,
                'on': on}
    computed = [j + 1 for j, s in enumerate(p.steps)
                if s['op'] in ('agg', 'bin', 'un', 'astype', 'meq')]
    if computed and r.random() < .45:
        return {'k': r.choice(['process_chunks', 'process_chunks', 'finalise',
                               'create']), 'h': r.choice(computed),
                'n': r.choice([1, 1, 1, 2, 2, 3, 5]), 'exc': exc, 'on': on}
    sources = [j + 1 for j, s in enumerate(p.steps) if s['op'] == 'src']
    return {'k': 'read', 'of': r.choice(sources), 'n': n, 'exc': exc,
            'on': on}


def c11(r):
    """Failures at any point, and evaluation after them."""
    p = Prog(r, 'c11')
    hs = some(p, graph(p))
    masked = r.random() < .4
    limit = few(r)
    save = r.random() < .12
    for i in range(r.choice([2, 3, 4])):
        faults = [fault(p, save and r.random() < .5)
                  for _ in range(r.choice([1, 1, 1, 2]))]
        if save:
            p.save(hs[0], masked, limit, sched=plan(r), faults=faults)
        elif len(hs) == 1 and r.random() < .3:
            p.get(hs, masked, 'single', limit, sched=plan(r), faults=faults)
        else:
            p.get(hs, masked, 'joint', limit, sched=plan(r), faults=faults)
        if r.random() < .4:
            r.shuffle(hs)
    p.get(hs, masked, 'joint', limit, sched=plan(r))
    return p


def c12_flow(r):
    """How much of a source is held at any time."""
    p = Prog(r, 'c12f', track=False)
    n = r.choice([75, 80, 90])
    sh = r.choice([[n], [n], [3, n], [n, 2]])
    limit = r.choice([1, 2]) if len(sh) == 1 else r.choice([2, 3])
    if len(sh) == 1 and limit == 2:
        sh = [2 * n]
    dt = r.choice(['f8', 'i4'])
    pool = [p.src(sh, dt, mode='tiny', wrap=True, kind=r.choice(
        ['np', 'ortho'])) for _ in range(r.choice([1, 1, 2]))]
    base = list(pool)
    for i in range(r.choice([0, 1, 2, 3])):
        a = r.choice(pool)
        same = [b for b in pool if p.info[b]['sh'] == p.info[a]['sh']]
        c = r.random()
        if c < .4:
            pool.append(p.bin(r.choice(['add', 'sub', 'maximum']), p.h(a),
                              p.h(r.choice(same))))
        elif c < .6:
            pool.append(p.un('negative', a))
        elif p.info[a]['sh']:
            pool.append(agg_of(p, a, r.choice(['sum', 'min', 'max', 'mean',
                                               'count'])))
    hs = some(p, pool)
    p.get(hs, r.random() < .4, 'joint', limit, flow=True, sched={
        'name': r.choice(['readers', 'readers', 'pct', 'newest', 'oldest',
                          'hold', 'others']),
        'seed': r.randrange(10 ** 6), 'lines': 0})
    return p


def c19(r):
    """Several threads evaluate at the same time."""
    p = Prog(r, 'c19')
    pool = graph(p)
    limit = few(r)
    for i in range(r.choice([1, 1, 2])):
        gets = []
        for j in range(r.choice([2, 2, 2, 3])):
            hs = some(p, pool) if r.random() < .7 else [pool[-1]]
            how = 'single' if len(hs) == 1 and r.random() < .5 else 'joint'
            p.get(hs, r.random() < .4, how, limit)
            gets.append(p.steps.pop())
            p.info.pop()
        faults = [fault(p)] if r.random() < .25 else []
        p.add({'op': 'conc', 'gets': gets, 'lim': p.lim, 'limit': limit,
               'sched': plan(r, True), 'faults': faults})
    p.get(pool[-1], r.random() < .5, 'single', limit)
    return p


PROPS = {
    'C01': [(c01, 1)],
    'C02': [(c02, 4), (c02_set, 1)],
    'C03': [(c03, 1)],
    'C04': [(c04, 8), (c04_special, 1), (c04_numbers, 1), (c04_complex, 1)],
    'C05': [(c05, 7), (c05_off, 1), (c05_complex, 1)],
    'C06': [(c06, 7), (c06_off, 1), (c06_complex, 1)],
    'C07': [(c07, 1)],
    'C08': [(c08, 8), (c08_0d, 2), (c08_exotic, 1)],
    'C09': [(c09, 2), (c09_once, 1)],
    'C10': [(c10, 1)],
    'C11': [(c11, 1)],
    'C12': [(c12, 2), (c12_single, 2), (c09_once, 1), (c12_save, 1)],
    'C13': [(c13, 1)],
    'C14': [(c14, 1)],
    'C15': [(c15, 1)],
    'C16': [(c16, 4), (c16_copy, 1)],
    'C17': [(c17, 1)],
    'C19': [(c19, 1)],
    'C12F': [(c12_flow, 1)],
}



# ------------------------------------------------- graphs given by TLC
def realise(p, gr, chunks):
    """
    Build the graph of spec/Engine.tla from arrays: (positions of the arrays
    by node, the results asked for), or None.

    Sources have `chunks` (a power of 2) chunks when the limit is 1.
    """
    r = p.r
    twos = chunks.bit_length() - 1
    ones = sum(1 for n in gr if n['k'] == 'agg' and n['g'] == 1)
    lead = r.random() < .7
    dt = r.choice(['f8', 'f8', 'i4'])
    at = []
    asked = []
    for n in gr:
        ins = [at[i - 1] for i in n['in']]
        if n['k'] == 'read':
            sh = [1] * ones + [2] * twos if lead else [2] * twos + [1] * ones
            if r.random() < .2:
                r.shuffle(sh)
            at.append(p.src(sh, dt, mode='small', wrap=True,
                            kind=r.choice(['np', 'ortho'])))
        elif n['k'] == 'agg':
            sh = p.info[ins[0]]['sh']
            axes = [d for d, m in enumerate(sh) if m == n['g']]
            if not axes:
                return None
            ax = (axes[0] if n['g'] == 1 and r.random() < .8 else
                  r.choice(axes))
            at.append(agg_of(p, ins[0], r.choice(
                ['sum', 'min', 'max', 'mean', 'count', 'sum']), ax))
        elif n['k'] == 'elem' and len(ins) == 1:
            at.append(p.un('negative', ins[0]))
        elif n['k'] == 'elem':
            sh = bshape(p.info[ins[0]]['sh'], p.info[ins[1]]['sh'])
            if sh is None or prod(sh) > 32:
                return None
            at.append(p.bin(r.choice(['add', 'sub', 'maximum']),
                            p.h(ins[0]), p.h(ins[1])))
        else:
            at.append(None)
            asked.append(ins[0])
    return at, asked


def of_graph(kind, r, gr, chunks, node, count):
    """
    An evaluation of the graph, in which the given node fails (0: none) at
    its given chunk.
    """
    for i in range(30):
        p = Prog(r, kind.lower(), off=None)
        p.special = 0
        made = realise(p, gr, chunks)
        if made:
            break
    else:
        return None
    at, asked = made
    masked = r.random() < .4
    r.shuffle(asked)
    how = 'single' if len(asked) == 1 and r.random() < .5 else 'joint'
    faults = []
    if node:
        k = gr[node - 1]['k']
        if k == 'read':
            f = {'k': 'read', 'of': at[node - 1]}
        elif count == 0:
            f = {'k': 'create', 'h': at[node - 1]}
        elif k == 'agg' and r.random() < .5:
            f = {'k': 'finalise', 'h': at[node - 1]}
        else:
            f = {'k': 'process_chunks', 'h': at[node - 1]}
        f.update(n=max(count, 1), exc=r.choice(EXCEPTIONS),
                 on=r.random() < .2)
        faults = [f]
        p.get(asked, masked, how, 1, sched=plan(r), faults=faults)
        p.get(asked, masked, how, r.choice([1, 2]), sched=plan(r))
    else:
        for j in range(2):
            p.get(asked, masked, how, r.choice([1, 1, 2]), sched=plan(r))
    return p


def from_graphs(kind, seed, path):
    """One program for each line [number, graph, chunks, node, count]."""
    with open(path) as f:
        for line in f:
            i, gr, chunks, node, count = json.loads(line)
            r = random.Random('%s-%s-%s' % (kind, seed, i))
            prog = of_graph(kind, r, gr, chunks, node, count)
            if prog is not None:
                yield prog.json('%s-%s-g%s' % (kind, seed, i))


# ------------------------------------- behaviours enumerated by BiggusGen
def supported(p, a, keys):
    """
    The keys in forms which the library takes for the dimensions of an array,
    or None: dimensions which are new or have been broadcast do not take all.
    """
    kinds = p.info[a]['kinds']
    out = []
    d = 0
    full = expand(keys, len(kinds))
    dims = {}
    for k in full:
        if k['k'] != 'n':
            dims[id(k)] = kinds[d] if d < len(kinds) else 'istm'
            d += 1
    for k in keys:
        kind = dims.get(id(k), 'istm')
        k = dict(k)
        if k['k'] == 't':
            if 't' in kind:
                k['f'] = p.r.choice([0, 0, 1, 1, 2, 3])
            elif 'u' in kind:
                k['f'] = p.r.choice([0, 2])
            else:
                return None
        elif k['k'] == 'i':
            k['f'] = p.r.choice([0, 0, 1, 2, 3])
        elif k['k'] == 's':
            k['f'] = int(p.r.random() < .1)
        elif k['k'] == 'm' and 'm' not in kind:
            return None
        out.append(k)
    return out


def dress(p, s, at, fam):
    """Add a step of BiggusGen; what it has made, or None."""
    r = p.r
    op = s['op']
    if op == 'src':
        mask = [c == MASKED for c in s['data']]
        n = len(mask)
        kw = {}
        if fam == 'fills' and any(mask):
            kw['fv'] = s['fv'][0] if s['fv'] else []
        return p.src(s['sh'], s['dt'], masked=any(mask) or
                     (not p.track and r.random() < .1),
                     data=[[1, 1] if m else c for c, m in zip(s['data'], mask)],
                     mask=mask, wrap=True if p.track else None, **kw)
    if op == 'const':
        return p.const(s['sh'], s['dt'], s['v'])
    if op == 'stack':
        ms = [at[a] for a in s['as']]
        if fam == 'bad' and {at[1], at[2]} & set(ms):
            return p.stack_bad(ms)
        return p.stack(ms, s['ssh'], s['order'],
                       'ctor' if fam == 'assign' else None)
    if op == 'mosaic':
        ms = [at[a] for a in s['as']]
        if fam == 'bad' and ({at[1], at[2]} & set(ms) or s['ax'] > 1):
            return p.mosaic_bad(ms, s['ax'])
        return p.mosaic(ms, s['ax'])
    if op == 'bin':
        x, y = [dict(o, h=at[o['h']]) if o['k'] == 'h' else o
                for o in (s['x'], s['y'])]
        if bshape(p.oshape(x), p.oshape(y)) is None:
            return p.bin_bad(s['f'], x, y)
        return p.bin(s['f'], x, y, 'op' if s['f'] in OPERATORS and
                     r.random() < .5 else 'fn')
    if op == 'bcpair':
        a, b = at[s['a']], at[s['b']]
        if bshape(p.info[a]['sh'], p.info[b]['sh']) is None:
            return p.bcpair_bad(a, b)
        return p.bcpair(a, b, s['which'])
    a = at[s['a']]
    nd = len(p.info[a]['sh'])
    if op == 'idx':
        keys = supported(p, a, s['keys'])
        if fam == 'bad':
            # A key which is not supported does not hide another's fault.
            return p.idx_bad(a, s['keys'])
        return None if keys is None else p.idx(a, keys)
    if op == 'tr':
        return (p.tr if len(s['perm']) == nd else p.tr_bad)(a, s['perm'])
    if op == 'bc':
        if p.info[a]['bcast']:
            return None
        if any(p.info[a]['sh'][d] != 1 for d, n in s['dims']):
            return p.bc_bad(a, s['dims'], s['lead'])
        i = p.info[a]
        sh, kinds = list(i['sh']), list(i['kinds'])
        for d, n in s['dims']:
            sh[d], kinds[d] = n, 'is'
        return p.add({'op': 'bc', 'a': a, 'dims': s['dims'],
                      'lead': s['lead']},
                     dict(i, sh=s['lead'] + sh, bcast=True,
                          kinds=['istm'] * len(s['lead']) + kinds))
    if op == 'newaxes':
        i = p.info[a]
        sh, kinds = [], []
        for j, n in enumerate(s['new']):
            sh += [1] * n + i['sh'][j:j + 1]
            kinds += ['isu'] * n + i['kinds'][j:j + 1]
        return p.add({'op': 'newaxes', 'a': a, 'new': s['new']},
                     dict(i, sh=sh, kinds=kinds, bcast=False))
    if op == 'astype':
        return p.astype(a, s['dt'])
    if op == 'un':
        return p.un(s['f'], a)
    if op == 'agg':
        if not 0 <= s['ax'] < nd:
            return p.agg_bad(s['f'], a, s['ax'])
        ax = s['ax'] - nd if r.random() < .3 else s['ax']
        mdtol = s['mdtol'] if s['mdtol'] != [1, 1] else None
        return p.agg(s['f'], a, ax, s['ddof'], mdtol)
    if op == 'save':
        for m in r.sample([True, False], r.choice([1, 2])):
            p.save(a, m, s['limit'])
        return 0
    if op == 'get':
        way = [] if p.how is None else [p.how]
        for m in r.sample([True, False], 1 if fam == 'limits' else 2):
            if fam == 'joint':
                p.get([at[h] for h in s['hs']], m, (way or ['joint'])[0],
                      s['limit'])
            else:
                p.get([a], m, r.choice(way or ['single', 'joint']),
                      s['limit'], sized=True, once=fam == 'limits')
        if fam == 'joint' and r.random() < .3:
            for h in s['hs']:
                p.get([at[h]], m, 'single', 0)
        return 0
    if op == 'copy':
        return p.copy(a)
    if op == 'meq':
        return p.meq(a, s['v'])
    if op == 'setitem':
        p.setitem(a, at[s['b']], s['ix'])
        return 0
    raise ValueError(op)


def behaviours(kind, seed, path):
    """
    Histories made from the programs of a file, one per line, sorted: those
    which begin alike share their arrays.
    """
    fam, both, mode = kind.partition('+')
    both = both and not mode or mode == 'again'
    with open(path) as f:
        lines = [json.loads(line) for line in f]
    p = None
    count = 0

    def look(a):
        if fam in ('save', 'limits', 'joint', 'chunk0', 'chunk1', 'chunk2'):
            return
        if mode == 'lazy' or fam == 'fills' or (
                fam == 'kinds' and p.r.random() < .3):
            p.meta(a)
        if mode == 'lazy':
            p.show(a)
        limit = p.r.choice([0, 0] + LIMITS)
        masked = p.r.random() < .5
        if fam == 'fills':
            masked = p.r.random() < .8
        if mode == 'dask':
            p.get(a, masked, p.how, limit or p.r.choice(LIMITS))
            return
        p.get(a, masked, p.r.choice(['single'] * 4 + ['joint']), limit,
              write=mode == 'again' or fam == 'assign')
        if both or p.r.random() < .2:
            p.get(a, not masked, 'single', limit)
        if mode == 'again':
            p.get(a, masked, p.r.choice(['single', 'joint']),
                  p.r.choice(LIMITS))
    for prog in lines:
        if p is None or len(p.steps) > 60:
            if p is not None:
                yield p.json('%s-%s-%s-%d' % (kind, seed, path[-8:], count))
                count += 1
            r = random.Random('%s-%s-%s-%d' % (kind, seed, path[-1], count))
            p = Prog(r, fam, track=mode == 'lazy' or not mode and
                     fam in ('limits', 'chunk0', 'chunk1', 'chunk2'))
            p.special = 0
            p.how = dask(r) if mode == 'dask' else None
            made = {}
            if fam not in ('save', 'limits') and r.random() < .06:
                p.swap = True
        at = {}
        if fam == 'assign':
            made = {}       # arrays which are assigned to are not shared
        for n, s in enumerate(prog):
            key = json.dumps(prog[:n + 1])
            if key not in made:
                made[key] = dress(p, s, at, fam)
                if made[key] and (n == len(prog) - 1 or
                                  s['op'] != 'src' and p.r.random() < .3):
                    look(made[key])
            if made[key] is None:
                break
            at[n + 1] = made[key]
        if fam == 'assign':
            for n, s in enumerate(prog):
                if s['op'] in ('stack', 'copy'):
                    look(at[n + 1])
    if p is not None:
        yield p.json('%s-%s-%s-%d' % (kind, seed, path[-8:], count))


def generate(prop, seed, count, start=0):
    gens = PROPS[prop]
    weights = [w for _, w in gens]
    for i in range(start, start + count):
        r = random.Random('%s-%s-%s' % (prop, seed, i))
        fn = r.choices([g for g, _ in gens], weights)[0]
        prog = fn(r)
        yield prog.json('%s-%s-%d' % (prop, seed, i))


if __name__ == '__main__':
    import sys
    if sys.argv[1] == 'graphs':
        for prog in from_graphs(sys.argv[2], sys.argv[3], sys.argv[4]):
            print(json.dumps(prog))
        sys.exit()
    if sys.argv[1] == 'behaviours':
        for prog in behaviours(sys.argv[2], sys.argv[3], sys.argv[4]):
            print(json.dumps(prog))
        sys.exit()
    for prog in generate(sys.argv[1], *[int(a) for a in sys.argv[2:]]):
        print(json.dumps(prog))
