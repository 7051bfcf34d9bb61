"""
Gives keys to the library's key grouper, and records the groups.

    kdriver.py IN OUT

Each line of IN has the shape `sh`, for each input and dimension the places
`cuts` at which the dimension is cut, and the `seed` by which the slices are
written and ordered.
"""
import itertools
import json
import os
import random
import signal
import sys

sys.path.insert(0, os.environ.get('BIGGUS_REPO', '/repo'))
from biggus.experimental import key_grouper             # noqa


# A grouping takes seconds at most; the very long one some tens of them.
PATIENCE = 60


class Endless(Exception):
    pass


def on_alarm(signum, frame):
    raise Endless('no answer in %d s' % PATIENCE)


def write(r, a, b, n):
    """One of the ways to write the slice from a to b."""
    starts = [a] + ([None] * 2 if a == 0 else [a - n])
    stops = [b] + ([None] * 2 if b == n else [])
    if 0 < b < n:
        stops.append(b - n)
    return slice(r.choice(starts), r.choice(stops),
                 r.choice([None, None, None, 1]))


def run(p):
    r = random.Random(p['seed'])
    sh = p['sh']
    inputs = []
    for cuts in p['cuts']:
        dims = []
        for n, c in zip(sh, cuts):
            ends = [0] + sorted(c) + [n]
            dims.append(list(zip(ends, ends[1:])))
        keys = list(itertools.product(*dims))
        if p['mixed']:
            r.shuffle(keys)
        if p['again']:
            keys += [r.choice(keys) for _ in range(r.choice([0, 1, 3]))]
        inputs.append(keys)
    p['ins'] = [[[list(i) for i in k] for k in keys] for keys in inputs]
    plain = p['plain']
    slices = []
    for keys in inputs:
        # Equal keys are written alike.
        written = {k: tuple(slice(None) if plain and i == (0, n) else
                            slice(*i) if plain else write(r, i[0], i[1], n)
                            for i, n in zip(k, sh)) for k in keys}
        slices.append([written[k] for k in keys])
    p['groups'] = []
    p['err'] = ''
    signal.alarm(PATIENCE * (1 if len(slices[0]) < 2000 else 6))
    try:
        groups = key_grouper.group_keys(tuple(sh), *slices)
        p['groups'] = [
            {'r': box([slice(*t) for t in region], sh),
             'ins': [[box(k, sh) for k in keys] for keys in members]}
            for region, members in groups.items()]
        p['ok'] = True
    except Exception as e:
        p['ok'] = False
        p['groups'] = []
        p['err'] = '{}: {}'.format(type(e).__name__, e)[:200]
    finally:
        signal.alarm(0)
    return p


def box(keys, sh):
    return [list(k.indices(n)[:2]) for k, n in zip(keys, sh)]


signal.signal(signal.SIGALRM, on_alarm)
with open(sys.argv[1]) as f, open(sys.argv[2], 'w') as g:
    for line in f:
        p = run(json.loads(line))
        g.write(json.dumps(p) + '\n')
        if p['err'].startswith('Endless'):
            # One is enough.
            g.write('"gave up"\n')
            break
