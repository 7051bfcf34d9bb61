"""
Executors for Dask graphs: the tasks are run one by one, in orders which
respect their dependencies, possibly more than once.
"""
import random


def _deps(task, dsk):
    found = []

    def walk(x):
        if isinstance(x, tuple) and x and callable(x[0]):
            for y in x[1:]:
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
        else:
            try:
                if x in dsk and isinstance(x, str):
                    found.append(x)
            except TypeError:
                pass
    walk(task)
    return found


def _run(task, results):
    if isinstance(task, tuple) and task and callable(task[0]):
        return task[0](*[_run(x, results) for x in task[1:]])
    if isinstance(task, list):
        return [_run(x, results) for x in task]
    if isinstance(task, str) and task in results:
        return results[task]
    return task


def _get(dsk, keys, order):
    deps = {k: _deps(t, dsk) for k, t in dsk.items()}
    done = {}

    todo = order(list(dsk))
    while todo:
        ready = [k for k in todo if all(d in done for d in deps[k])]
        k = order.pick(ready)
        done[k] = order.run(lambda: _run(dsk[k], done))
        todo.remove(k)
    return [done[k] for k in keys] if isinstance(keys, list) else done[keys]


class Order(object):
    def __init__(self, name, seed):
        self.rng = random.Random(seed)
        self.name = name

    def __call__(self, todo):
        if self.name in ('random', 'twice'):
            self.rng.shuffle(todo)
        return todo

    def pick(self, ready):
        if self.name == 'first':
            return ready[0]
        if self.name == 'last':
            return ready[-1]
        return self.rng.choice(ready)

    def run(self, fn):
        # Tasks may be run again, as by a scheduler which has lost a result.
        if self.name == 'twice' and self.rng.random() < .5:
            fn()
        return fn()


def getter(name, seed):
    if name == 'dask':
        import dask.threaded
        return dask.threaded.get
    if name == 'dasksync':
        import dask.local
        return dask.local.get_sync
    name = name[4:]             # e.g. daskrandom

    def get(dsk, keys, **kwargs):
        return _get(dsk, keys, Order(name, seed))
    return get
