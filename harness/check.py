"""
The checks.

    check.py Cxx quick|thorough     decide a property
    check.py replay FILE            run one recorded failure again
    check.py setup                  check the tools

Exit 0: the property held on everything explored.  Exit 1, with lines
"VIOLATION property=<id> replay=<path>": it did not.  Exit 2: the machinery
itself failed.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
PYPY = '/opt/venv/bin/python'
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')
WORKERS = 8

# The clauses of the specification which make up each property.  A clause
# outside the list is judged by another property's check.
DATA = {'raised', 'not realised', 'results', 'result shape', 'value', 'mask'}
META = {'shape', 'ndim'}
CLAUSES = {
    'C01': DATA | META | {'hidden value'},
    'C02': DATA | META | {'hidden value', 'accepted'},
    'C03': DATA | META | {'hidden value'},
    'C04': DATA | META | {'dtype', 'result dtype'},
    'C05': DATA | META,
    'C06': DATA | META,
    'C07': {'mask', 'hidden value', 'fill value', 'result fill value',
            'result type', 'not realised', 'raised'},
    'C08': {'shape', 'ndim', 'dtype', 'nbytes', 'result shape',
            'result dtype', 'result type', 'no metadata', 'raised',
            'not realised', 'results'},
    'C09': DATA | {'repeat', 'not read once', 'hidden value'},
    'C10': DATA | {'hang', 'threads left', 'repeat', 'hidden value'},
    'C11': DATA | {'hang', 'threads left', 'failure hidden', 'hidden value',
                   'repeat'},
    'C12': {'reads ahead', 'read too large', 'not read once', 'reads too much',
            'write too large', 'not realised'},
    'C13': {'reads too much', 'reads early', 'no metadata', 'not printed'},
    'C14': {'writes outside', 'writes twice', 'writes missing',
            'write too large', 'written value', 'not realised'},
    'C15': DATA | {'result dtype', 'result type', 'hidden value'},
    'C16': {'changed', 'repeat', 'value', 'mask', 'hidden value',
            'not realised', 'result shape'},
    'C17': {'accepted'},
    'C19': DATA | {'hang', 'threads left', 'failure hidden', 'hidden value',
                   'repeat'},
}
# What is generated by the name of another property and run under schedules.
SCHEDULED = {'C10': 'C10', 'C11': 'C11', 'C12': 'C12F', 'C19': 'C19'}



class Machinery(Exception):
    """Something is wrong with the checks themselves."""


class Run(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix='biggus-{}-'.format(prop))
        self.violations = []        # (what, replay object)
        self.known = []
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.notes = {}
        self.t0 = time.time()

    def left(self, total):
        return total - (time.time() - self.t0)

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n


def env(**kw):
    e = dict(os.environ)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e.update(kw)
    return e


# ------------------------------------------------------------------ TLC
def tlc(tmp, module, cfg, environ, timeout, extra=(), workers=WORKERS,
        ok=(0,)):
    meta = tempfile.mkdtemp(dir=tmp)
    cmd = ['java', '-Xss64m', '-Xmx12g', '-XX:+UseParallelGC', '-cp', JARS,
           'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-config', cfg] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=env(**environ),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery('TLC took too long on {}'.format(module))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode('utf8', 'replace')
    if p.returncode not in ok:
        raise Machinery('TLC failed on {} ({}):\n{}'.format(
            module, p.returncode, out[-3000:]))
    return out


def tlc_counts(out):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', out)
    if not m:
        raise Machinery('no counts from TLC:\n' + out[-2000:])
    gen, dist = [int(x.replace(',', '')) for x in m[-1]]
    return gen, dist


def fails(out):
    """The lines which BiggusTrace prints."""
    found = []
    text = out.replace('\n', ' ')
    for m in re.finditer(r'<<\s*"FAIL",\s*"([^"]*)",\s*(\d+),\s*\{([^}]*)\}'
                         r'\s*>>', text):
        clauses = set(re.findall(r'"([^"]*)"', m.group(3)))
        found.append((m.group(1), int(m.group(2)), clauses))
    if text.count('"FAIL"') != len(found):
        raise Machinery('unreadable output of TLC')
    return found


# ------------------------------------------------------------ histories
def drive(tmp, lines, shards=WORKERS, timeout=700, script='driver.py'):
    """Run programs (JSON lines) against the library; the recorded ones."""
    procs = []
    outs = []
    for i in range(shards):
        part = lines[i::shards]
        if not part:
            continue
        fin = os.path.join(tmp, 'in.%d' % i)
        fout = os.path.join(tmp, 'out.%d' % i)
        with open(fin, 'w') as f:
            f.write(''.join(line + '\n' for line in part))
        err = open(os.path.join(tmp, 'err.%d' % i), 'wb')
        procs.append((subprocess.Popen(
            [PYPY, os.path.join(HERE, script), fin, fout], cwd=tmp,
            env=env(), stdout=err, stderr=err), i, len(part)))
        outs.append(fout)
    end = time.time() + timeout
    bad = None
    for p, i, n in procs:
        try:
            code = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            code = 'timeout'
        if code != 0:
            bad = (code, i)
    for p, i, n in procs:
        if p.poll() is None:
            p.kill()
            p.wait()
    if bad:
        with open(os.path.join(tmp, 'err.%d' % bad[1]), 'rb') as f:
            raise Machinery('driver {}: {}'.format(
                bad[0], f.read()[-2000:].decode('utf8', 'replace')))
    done = []
    gaveup = False
    for fout in outs:
        with open(fout) as f:
            part = [line.rstrip('\n') for line in f]
        if part and part[-1] == '"gave up"':
            gaveup = True
            part.pop()
        done.extend(part)
    if len(done) != len(lines) and not gaveup:
        raise Machinery('histories have gone missing')
    return done


def judge(run, recorded, module='BiggusTrace'):
    """Have TLC judge recorded histories; [(id, step, clauses)]."""
    path = os.path.join(run.tmp, 'traces.ndjson')
    with open(path, 'w') as f:
        f.write(''.join(line + '\n' for line in recorded))
    out = tlc(run.tmp, module + '.tla', module + '.cfg',
              {'TRACES': path}, 800)
    gen, dist = tlc_counts(out)
    run.states += dist
    run.transitions += dist - len(recorded)
    run.traces += len(recorded)
    os.remove(path)
    return fails(out)


def histories(run, count, seed, programs=None, kind=None):
    kind = kind or run.prop
    script = 'sdriver.py' if kind in SCHEDULED.values() else 'driver.py'
    if programs is None:
        lines = generate(run, count, seed, kind)
    else:
        lines = [p if isinstance(p, str) else json.dumps(p)
                 for p in programs]
    recorded = drive(run.tmp, lines, script=script)
    found = judge(run, recorded)
    relevant = CLAUSES[run.prop]
    byid = {}
    if found or not run.samples:
        want = {f[0] for f in found}
        for line in recorded:
            ident = re.search(r'"id": "([^"]*)"', line).group(1)
            if ident in want or not run.samples:
                p = json.loads(line)
                byid[ident] = p
                if not run.samples:
                    run.samples.append(brief(p))
    for ident, step, clauses in sorted(found):
        hit = sorted(clauses & relevant)
        if not hit:
            run.note('deviations judged by other checks')
            continue
        p = byid[ident]
        s = p['steps'][step - 1]
        run.violations.append((
            '{} at step {} ({}): {} {}'.format(
                ident, step, s['op'], ', '.join(hit), s['out']['err']),
            {'kind': 'history', 'of': kind, 'step': step, 'clauses': hit,
             'program': strip(p), 'recorded': p}))


def generate(run, count, seed, kind=None):
    """Make programs, in several processes."""
    procs = []
    per = (count + WORKERS - 1) // WORKERS
    for i in range(WORKERS):
        f = open(os.path.join(run.tmp, 'gen.%d' % i), 'wb')
        procs.append((subprocess.Popen(
            [sys.executable, os.path.join(HERE, 'gen.py'), kind or run.prop,
             str(seed), str(per), str(i * per)], env=env(), stdout=f,
            stderr=subprocess.PIPE), f))
    lines = []
    for i, (p, f) in enumerate(procs):
        err = p.communicate()[1]
        f.close()
        if p.returncode:
            raise Machinery('gen.py: ' + err.decode()[-2000:])
        with open(f.name) as g:
            lines.extend(line.rstrip('\n') for line in g)
    return lines


def strip(p):
    p = json.loads(json.dumps(p))
    for s in p['steps']:
        s.pop('out', None)
        for g in s.get('gets', []):
            g.pop('out', None)
        if 'tab' in s and s.get('tabsrc'):
            s['tabdts'], s['tabargs'] = s['tabsrc']
            s.pop('tab')
    return p


def brief(p):
    text = []
    for i, s in enumerate(p['steps']):
        d = {k: v for k, v in s.items() if k not in (
            'out', 'lim', 'enc', 'tab', 'tabsrc')}
        o = {k: v for k, v in s['out'].items()
             if v not in ([], '', 0, False)}
        text.append('{}: {} -> {}'.format(i + 1, json.dumps(d)[:300],
                                          json.dumps(o)[:300]))
    return {'id': p['id'], 'steps': text[:12]}


# ---------------------------------------------------------------- checks
def history_check(run, kinds, seconds=720):
    """kinds: [(name of the generator, histories in a quick run)]."""
    if run.tier == 'quick':
        for kind, quick in kinds:
            histories(run, quick, run.seed, kind=kind)
        return
    i = 0
    last = 0
    while not run.violations and run.left(seconds) > 1.3 * last:
        t = time.time()
        i += 1
        for kind, quick in kinds:
            histories(run, quick, run.seed * 1000 + i, kind=kind)
        last = time.time() - t


def key_cases(run, cases, count, rng):
    """Inputs for the key grouper."""
    def cuts(keys):
        return [k[0] for k in keys[1:]]

    def case(ident, sh, c, **kw):
        return dict({'id': ident, 'sh': sh, 'cuts': c, 'plain': True,
                     'seed': rng.randrange(10 ** 6), 'mixed': False,
                     'again': False}, **kw)

    def ways():
        return {'plain': rng.random() < .3, 'mixed': rng.random() < .5,
                'again': rng.random() < .2}
    out = []
    # All which TLC has found for one dimension, ...
    for i, c in enumerate(cases):
        out.append(case('one-%d' % i, [c['len']],
                        [[cuts(keys)] for keys in c['ins']],
                        plain=i % 2 == 0, mixed=rng.random() < .3))
    # ... products of them, ...
    for i in range(count):
        dims = [rng.choice(cases) for _ in range(rng.choice([2, 2, 3, 4]))]
        n = rng.choice([1, 2, 2, 3, 3])
        per = [rng.sample(c['ins'], n) for c in dims]
        sh = [c['len'] for c in dims]
        c = [[cuts(keys[j]) for keys in per] for j in range(n)]
        if rng.random() < .05:
            d = rng.randrange(len(sh))
            sh[d] = 0
            for x in c:
                x[d] = []
        out.append(case('product-%d' % i, sh, c, **ways()))
    # ... and longer ones.
    for i in range(count // 4):
        sh = [rng.randint(1, 40) for _ in range(rng.choice([1, 1, 2]))]
        n = rng.choice([1, 2, 3, 4])
        common = [rng.sample(range(1, m), rng.randint(0, min(m - 1, 2)))
                  for m in sh]
        c = [[sorted(set(common[d]) | set(rng.sample(
            range(1, m), rng.randint(0, min(m - 1, 5)))))
            for d, m in enumerate(sh)] for _ in range(n)]
        out.append(case('long-%d' % i, sh, c, **ways()))
    many = 10050
    out.append(case('very-long', [many], [[list(range(1, many))]] * 2))
    return out


def key_check(run):
    quick = run.tier == 'quick'
    rng = random.Random(run.seed)
    length = 5 if quick else 6
    with open(os.path.join(SPEC, 'KeyMerge.cfg')) as f:
        cfg = f.read().replace('MaxLength = 5', 'MaxLength = %d' % length)
    path = os.path.join(run.tmp, 'KeyMerge.cfg')
    with open(path, 'w') as f:
        f.write(cfg)
    out = tlc(run.tmp, 'KeyMerge.tla', path, {}, 600)
    gen, dist = tlc_counts(out)
    run.states += dist
    run.transitions += gen
    run.note('states of the model of the algorithm', dist)
    cases = [json.loads(json.loads('"' + m + '"')) for m in re.findall(
        r'<<"CASE", "(.*)">>', out)]
    if not cases:
        raise Machinery('no cases from KeyMerge')
    run.note('partitions enumerated by TLC and replayed', len(cases))
    key_histories(run, key_cases(run, cases, 6000, rng))
    while not quick and not run.violations and run.left(700) > 120:
        key_histories(run, key_cases(run, cases[:0] or cases, 30000, rng)[
            len(cases):])


def key_histories(run, programs):
    recorded = drive(run.tmp, [json.dumps(p) for p in programs],
                     script='kdriver.py')
    by_id = {}
    for line in recorded:
        p = json.loads(line)
        by_id[p['id']] = p
    for ident, step, clauses in judge(run, recorded, 'KeyTrace'):
        p = by_id[ident]
        run.violations.append((
            '{}: {} {}'.format(ident, ', '.join(sorted(clauses)), p['err']),
            {'kind': 'keys', 'clauses': sorted(clauses), 'recorded': p,
             'program': {k: p[k] for k in (
                 'id', 'sh', 'cuts', 'plain', 'seed', 'mixed', 'again')}}))
    if recorded:
        run.samples.append(json.loads(recorded[-1]))


QUICK = {'C01': 8000, 'C02': 7000, 'C03': 8000, 'C04': 7000, 'C05': 6000,
         'C06': 5000, 'C07': 6000, 'C08': 6000, 'C09': 5000, 'C12': 5000,
         'C13': 8000, 'C14': 8000, 'C15': 5000, 'C16': 3000, 'C17': 10000}
QUICK_SCHEDULED = {'C10': 1200, 'C11': 1200, 'C12F': 320, 'C19': 800}


# ------------------------------------------------- the model of the engine
def engine(run, graphs, cap, chunks, fails, one=True, lazy=False, emit=False,
           live=True, timeout=600, deadlocks=False):
    """Check an instance of Engine.tla; the graphs which it considers."""
    with open(os.path.join(SPEC, 'EngineSmall.cfg')) as f:
        cfg = f.read()
    for name, value in (('Cap', cap), ('Chunks', chunks), ('MaxFails', fails),
                        ('Lazy', lazy), ('OneSchedule', one), ('Emit', emit)):
        cfg = re.sub(r'\b%s = \w+' % name, '%s = %s' % (
            name, str(value).upper()), cfg)
    cfg = cfg.replace('<- Small', '<- ' + graphs)
    if not live:
        cfg = re.sub('PROPERTIES.*', '', cfg)
    path = os.path.join(run.tmp, 'Engine.cfg')
    with open(path, 'w') as f:
        f.write(cfg)
    out = tlc(run.tmp, 'EngineMC.tla', path, {}, timeout,
              ok=(11,) if deadlocks else (0,))
    if deadlocks and 'Deadlock reached' not in out:
        raise Machinery('the model of the unrepaired engine should deadlock')
    gen, dist = tlc_counts(out)
    run.states += dist
    run.transitions += gen
    run.notes.setdefault('instances of the model of the engine', []).append(
        '{} Cap={} Chunks={} MaxFails={} {}{}: {} states{}'.format(
            graphs, cap, chunks, fails,
            'one interleaving' if one else 'all interleavings',
            ' Lazy' if lazy else '', dist,
            ', deadlocks as it should' if deadlocks else ''))
    cases = re.findall(r'<<\s*"CASE",\s*"(.*?)"\s*>>', out.replace('\n', ''))
    return [json.loads(c) for c in sorted(set(
        json.loads('"' + m + '"') for m in cases))]


def engine_check(run):
    """
    Check the model of the engine, and have the library evaluate the graphs
    which it considers.
    """
    quick = run.tier == 'quick'
    fails = int(run.prop == 'C11')
    if run.prop == 'C10':
        # The order of the threads does not matter, where all are looked at.
        engine(run, 'Tiny' if quick else 'S0', 1, 2, 0 if quick else 1,
               one=False)
        engine(run, 'CrossEight', 1, 48, 0, lazy=True, deadlocks=True)
        engine(run, 'CrossEight', 1, 48, 0)
    elif run.prop == 'C11' and not quick:
        engine(run, 'S0', 1, 2, 2, one=False)
    chunks = 4
    graphs = engine(run, 'Small' if quick else 'Medium', 3, chunks,
                    fails if quick else 1, emit=True, live=quick)
    if not graphs:
        raise Machinery('no graphs from Engine')
    run.note('graphs enumerated by TLC and evaluated', len(graphs))
    rng = random.Random(run.seed)
    for again in range(1 if quick else 4):
        cases = []
        for gr in graphs:
            if not fails:
                points = [(0, 0)] * (4 if quick else 2)
            else:
                points = [(n + 1, c) for n, x in enumerate(gr)
                          if x['k'] != 'sink' for c in range(
                              x['k'] == 'read', chunks + 1)]
            cases += [[gr, chunks, n, c] for n, c in points]
        most = 1600 if quick else 20000
        if len(cases) > most:
            cases = rng.sample(cases, most)
        path = os.path.join(run.tmp, 'graphs')
        parts = []
        for w in range(WORKERS):
            with open(path + str(w), 'w') as f:
                for i in range(w, len(cases), WORKERS):
                    f.write(json.dumps(['%d.%d' % (again, i)] + cases[i])
                            + '\n')
            parts.append(subprocess.Popen(
                [sys.executable, os.path.join(HERE, 'gen.py'), 'graphs',
                 run.prop, str(run.seed), path + str(w)], env=env(),
                stdout=subprocess.PIPE))
        programs = []
        for p in parts:
            out = p.communicate()[0]
            if p.returncode:
                raise Machinery('gen.py has failed')
            programs += [json.loads(line) for line in out.splitlines()]
        run.note('histories from graphs of TLC', len(programs))
        histories(run, 0, 0, programs, run.prop)
        if run.violations or run.left(420) < 0:
            break


def chunked(run):
    """Check the model of running aggregates and of the division."""
    quick = run.tier == 'quick'
    with open(os.path.join(SPEC, 'Chunked.cfg')) as f:
        cfg = f.read()
    length, masks = {'C05': (5 if quick else 6, '{FALSE}'),
                     'C06': (4 if quick else 5, '{TRUE}'),
                     'C12': (1, '{FALSE}')}[run.prop]
    division = run.prop == 'C12'
    for name, value in (
            ('MaxLen', length), ('Masked', masks),
            ('MaxDims', 3 if division else 0),
            ('MaxSize', 3 if quick else 4), ('MaxLimit', 8 if quick else 17)):
        cfg = re.sub(r'\b%s = \S+' % name, '%s = %s' % (name, value), cfg)
    if not quick:
        cfg = cfg.replace('<- Few', '<- More')
    path = os.path.join(run.tmp, 'Chunked.cfg')
    with open(path, 'w') as f:
        f.write(cfg)
    out = tlc(run.tmp, 'ChunkedMC.tla', path, {}, 850, workers=4)
    gen, dist = tlc_counts(out)
    run.states += dist
    run.transitions += gen
    run.notes['model of running aggregates'] = (
        'lanes up to {} long, masked {}, all divisions: {} states'.format(
            length, masks, dist) + (
                '; all arrays up to 3 dimensions, all limits and orders'
                if division else ''))


def check(run):
    if run.prop == 'C18':
        return key_check(run)
    if run.prop in ('C10', 'C11'):
        engine_check(run)
    model = None
    if run.prop in ('C05', 'C06', 'C12'):
        model = ThreadPoolExecutor(1).submit(chunked, run)
    if run.prop in FAMILIES:
        family_check(run)
    kinds = []
    if run.prop in QUICK:
        kinds.append((run.prop, QUICK[run.prop]))
    if run.prop in SCHEDULED:
        kind = SCHEDULED[run.prop]
        kinds.append((kind, QUICK_SCHEDULED[kind]))
    history_check(run, kinds)
    if model is not None:
        model.result()


# The families of BiggusGen for each property: for a quick run, one part of
# how many is enumerated.
FAMILIES = {
    'C01': [('index1', 4), ('index2', 6), ('index3', 1), ('ellipsis', 2)],
    'C02': [('stack', 60), ('mosaic', 60), ('assign', 12)],
    'C03': [('views', 12), ('kinds', 20)],
    'C04': [('pairs', 16), ('types', 1), ('numbers', 2)],
    'C05': [('plain', 3), ('chunk0', 6)],
    'C06': [('aggs', 2), ('aggs2', 8), ('chunk1', 6), ('chunk2', 40)],
    'C07': [('fills', 4)],
    'C08': [('kinds', 12)],
    'C09': [('joint', 40)],
    'C12': [('limits', 6)],
    'C13': [('kinds+lazy', 40), ('views+lazy', 40)],
    'C14': [('save', 1)],
    'C15': [('limits+dask', 20), ('joint+dask', 60), ('aggs2+dask', 20)],
    'C16': [('assign', 30), ('kinds+again', 60), ('stack+again', 200)],
    'C17': [('bad', 1)],
}


def enumerate_family(run, fam, part, parts, workers):
    """The programs of a family, sorted, as lines."""
    out = tlc(run.tmp, 'BiggusGen.tla', 'BiggusGen.cfg',
              {'FAMILY': fam.partition('+')[0], 'PART': str(part), 'PARTS': str(parts)}, 600,
              workers=workers)
    gen, dist = tlc_counts(out)
    cases = re.findall(r'<<\s*"CASE",\s*"(.*?)"\s*>>', out.replace('\n', ''))
    lines = sorted(set(json.loads('"' + m + '"') for m in cases))
    if not lines:
        raise Machinery('no programs from BiggusGen for ' + fam)
    return dist, gen, lines


def dressed(run, fam, lines, both):
    """Histories from the programs of a family."""
    per = (len(lines) + WORKERS - 1) // WORKERS
    parts = []
    for w in range(WORKERS):
        path = os.path.join(run.tmp, '%s.lines%d' % (fam, w))
        with open(path, 'w') as f:
            f.write(''.join(x + '\n' for x in lines[w * per:(w + 1) * per]))
        out = open(path + '.out', 'wb')
        parts.append((subprocess.Popen(
            [sys.executable, os.path.join(HERE, 'gen.py'), 'behaviours',
             fam + '+' * (both and '+' not in fam), str(run.seed), path], env=env(), stdout=out),
            out))
    programs = []
    for p, out in parts:
        p.wait()
        out.close()
        if p.returncode:
            raise Machinery('gen.py has failed')
        with open(out.name) as f:
            programs += [line.rstrip('\n') for line in f]
    return programs


def family_check(run):
    """Behaviours enumerated by TLC, executed by the library."""
    quick = run.tier == 'quick'
    if quick:
        todo = [[(fam, run.seed % parts, parts)
                 for fam, parts in FAMILIES[run.prop]]]
        limit = 850
    else:
        # All parts of all families, in turns, for as long as there is time.
        queues = []
        for fam, parts in FAMILIES[run.prop]:
            parts = max(1, parts // 5)
            queues.append([(fam, (run.seed + i) % parts, parts)
                           for i in range(parts)])
        todo = []
        while any(queues):
            todo.append([q.pop(0) for q in queues if q])
        limit = 450
    done = {}
    with ThreadPoolExecutor(3) as pool:
        def ask(turn):
            return [pool.submit(enumerate_family, run, fam, part, parts,
                                2 if quick else 4)
                    for fam, part, parts in turn]
        coming = ask(todo[0])
        for i, turn in enumerate(todo):
            now, coming = coming, ask(todo[i + 1]) if todo[i + 1:] else []
            programs = []
            for (fam, part, parts), got in zip(turn, now):
                dist, gen, lines = got.result()
                run.states += dist
                run.transitions += gen
                d = done.setdefault(fam, [0, 0, parts])
                d[0] += len(lines)
                d[1] += 1
                programs += dressed(run, fam, lines, not quick)
            for j in range(0, len(programs), 2000):
                histories(run, 0, 0, programs[j:j + 2000], run.prop)
                if run.violations or run.left(limit) < 0:
                    break
            if run.violations or run.left(limit) < 0:
                for c in coming:
                    c.cancel()
                break
    run.notes['behaviours enumerated by TLC'] = {
        fam: '{}{}'.format(n, ', {} of {} parts'.format(k, parts)
                           if k < parts else '')
        for fam, (n, k, parts) in done.items()}


LEVEL = {}


def finish(run):
    prop = run.prop
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    for i, (what, obj) in enumerate(run.violations[:5]):
        path = os.path.join(folder, '{}-{}-{}.json'.format(
            prop, run.seed, i + 1))
        obj['property'] = prop
        obj['what'] = what
        with open(path, 'w') as f:
            json.dump(obj, f, indent=1)
        print('VIOLATION property={} replay={}'.format(prop, path))
        print('    ' + what[:400])
    for what in run.known:
        print('KNOWN-FINDING: property={} {}'.format(prop, what))
    coverage = {'states': run.states, 'transitions': run.transitions,
                'traces_validated_against_impl': run.traces,
                'samples': run.samples[:3]}
    coverage.update(run.notes)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': run.tier, 'seed': run.seed,
                   'level': LEVEL.get(prop, 'model_checking'),
                   'coverage': coverage,
                   'assumptions': ASSUMPTIONS,
                   'wall_s': round(time.time() - run.t0, 1),
                   'violations': len(run.violations)}, f, indent=1)
    print('{} {}: {} histories, {} states, {:.0f} s, {} violations'.format(
        prop, run.tier, run.traces, run.states, time.time() - run.t0,
        len(run.violations)))
    return 1 if run.violations else 0


ASSUMPTIONS = [
    'The specification (spec/*.tla) says what users of biggus rely on.',
    'TLC and the PyPy and NumPy of the sandbox work correctly.',
    'harness/driver.py records what the library answers.']


def replay(path):
    with open(path) as f:
        obj = json.load(f)
    run = Run(obj['property'], 'quick', 0)
    try:
        if obj['kind'] == 'history':
            histories(run, 0, 0, [obj['program']], obj.get('of'))
        elif obj['kind'] == 'keys':
            key_histories(run, [obj['program']])
        else:
            raise Machinery('unknown kind of replay')
        for what, o in run.violations:
            print('VIOLATION property={} replay={}'.format(run.prop, path))
            print('    ' + what)
            print(json.dumps(o['recorded'] if obj['kind'] != 'history' else
                             brief(o['recorded']), indent=1))
        return 1 if run.violations else 0
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)


def setup():
    """Check that everything which the checks need is there."""
    for cmd in (['java', '-version'],
                [PYPY, '-c', 'import numpy, six'],
                ['java', '-cp', JARS, 'tla2sany.SANY', 'BiggusTrace.tla']):
        p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode:
            print(p.stdout.decode())
            return 2
    print('ready')
    return 0


def main():
    sys.path.insert(0, HERE)
    if sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    if sys.argv[1] == 'setup':
        return setup()
    prop, tier = sys.argv[1:3]
    run = Run(prop, tier, int(os.environ.get('VERIF_SEED', '1')))
    try:
        check(run)
        return finish(run)
    except Machinery as e:
        print('check of {} failed: {}'.format(prop, e))
        return 2
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.dont_write_bytecode = True
    sys.exit(main())
