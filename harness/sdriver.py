"""
Runs histories like driver.py, but makes every observation under a schedule
(sched.py) which the history prescribes, with faults which it prescribes.
"""
import builtins
import gc
import os
import queue
import signal
import sys
import weakref

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sched                                # noqa
sched.install()
import driver                               # noqa
from driver import HANGS                    # noqa

import biggus                               # noqa

FILES = set()
for module in list(sys.modules.values()):
    name = getattr(module, '__file__', None)
    if name and getattr(module, '__name__', '').startswith('biggus'):
        FILES.add(name)


class Fault(Exception):
    pass


class BaseFault(BaseException):
    pass


EXCEPTIONS = {'Fault': Fault, 'BaseFault': BaseFault, 'Empty': queue.Empty,
              'Full': queue.Full}


def exception(name):
    cls = EXCEPTIONS.get(name) or getattr(builtins, name)
    return cls('planted')


class Faults(object):
    """The faults of one step, and how far they have got."""
    def __init__(self, faults):
        self.faults = [dict(f) for f in faults]
        self.fired = set()
        self.reads = {}
        self.live = {}
        self.most = 0
        self.flow = False

    def hit(self, match):
        for f in self.faults:
            if match(f):
                f['n'] -= 1
                if f['n'] == 0 or (f['n'] < 0 and f.get('on')):
                    s = sched.S
                    if s is not None:
                        self.fired.add(s.current.app)
                    raise exception(f['exc'])

    def read(self, number):
        if sched.S is None:
            return
        if number != 'target':
            sched.S.read(number)
            self.hit(lambda f: f['k'] == 'read' and f['of'] == number)
        else:
            sched.S.point()
            self.hit(lambda f: f['k'] == 'write')

    def got(self, number, array):
        if self.flow and sched.S is not None:
            refs = self.live.setdefault(number, [])
            refs.append(weakref.ref(array))
            n = self.reads[number] = self.reads.get(number, 0) + 1
            if n in (40, 70):
                gc.collect(); gc.collect(); gc.collect()
                self.most = max(self.most,
                                sum(r() is not None for r in refs))
        return array


F = Faults([])
driver.before_read = lambda number: F.read(number)
driver.after_read = lambda number, array: F.got(number, array)


def hook(array, handle):
    """Have the computations of an array fail as planned."""
    original = array.streams_handler

    def streams_handler(masked):
        F.hit(lambda f: f['k'] == 'create' and f['h'] == handle)
        handler = original(masked)
        for what in ('process_chunks', 'finalise'):
            if not hasattr(handler, what):
                continue

            def wrap(what=what, method=getattr(handler, what)):
                def call(*args):
                    F.hit(lambda f: f['k'] == what and f['h'] == handle)
                    return method(*args)
                return call
            setattr(handler, what, wrap())
        return handler
    array.streams_handler = streams_handler


class History(driver.History):
    def observe(self, op, s, out):
        global F
        if op not in ('get', 'save', 'conc'):
            return driver.History.observe(self, op, s, out)
        plan = s.get('sched', {'name': 'lazy', 'seed': 0})
        signal.setitimer(signal.ITIMER_REAL, 0)
        F = Faults(s.get('faults', []))
        F.flow = bool(s.get('flow'))
        hooked = []
        for f in F.faults:
            if f['k'] in ('create', 'process_chunks', 'finalise'):
                array = self.arrays[f['h'] - 1]
                if hasattr(array, 'streams_handler') and \
                        'streams_handler' not in vars(array):
                    hook(array, f['h'])
                    hooked.append(array)
        sch = sched.Scheduler(
            sched.script(plan['script']) if plan['name'] == 'script' else
            sched.strategy(plan['name'], plan['seed']),
            max_steps=60000, lines=plan.get('lines', 0.),
            slow=plan.get('slow', 0.), seed=plan['seed'],
            files=FILES)
        steps = s['gets'] if op == 'conc' else [s]
        if op == 'conc':
            for g in steps:
                g['out'] = self.fresh()
        outs = [g['out'] for g in steps]
        functions = []
        for g in steps:
            def call(g=g):
                getattr(self, 'op_' + ('get' if op == 'conc' else op))(
                    g, g['out'])
            functions.append(call)
        try:
            results = sch.go(functions)
        except sched.Hang:
            HANGS.extend([1] * 3)
            results = [('none', None)] * len(steps)
        finally:
            for array in hooked:
                del array.streams_handler
        self.schedule = sch
        for i, ((kind, what), o) in enumerate(zip(results, outs)):
            o['fired'] = i in F.fired
            o['ahead'] = sch.ahead
            o['live'] = F.most
            if kind == 'ok':
                continue
            if kind == 'raised' and isinstance(what, driver.Skip):
                o['skip'] = True
            else:
                o['ok'] = False
                o['end'] = sch.why if kind == 'none' else ''
                if kind == 'none' and not sch.why:
                    o['end'] = 'no outcome'
                o['err'] = repr(what)[:200]
        out['left'] = sch.left
        out['steps'] = sch.steps
        out['switches'] = sch.switches
        out['threads'] = len(sch.threads)
        F = Faults([])


if __name__ == '__main__':
    driver.main(History)
