"""Writes MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRACE = ('TLA+/TLC: programs enumerated exhaustively from the specification '
         '(BiggusGen.tla) and generated histories are run on the library, and '
         'each recorded trace is validated by TLC against Biggus.tla')
NOTE = ('Every recorded answer of {n} generated histories per quick run is '
        'judged by TLC against an executable TLA+ specification of virtual '
        'arrays; {what}. Bounded: arrays of up to a few hundred elements, '
        'up to about a dozen operations. Trusts TLC, NumPy/PyPy and the '
        'driver which records the answers.')
# Models which are checked as well, and bound to the library.
ALSO = {
    'C05': 'Chunked.tla checks running aggregates for every division into '
           'chunks',
    'C06': 'Chunked.tla checks running masked aggregates for every division '
           'into chunks',
    'C12': 'Chunked.tla checks which chunks the size limits allow',
    'C10': 'Engine.tla is model checked for deadlocks, and its behaviours '
           'are replayed',
    'C11': 'Engine.tla is model checked for what failures leave behind, and '
           'its behaviours are replayed',
}
CHECKS = {
    'C01': 'covers chains of index expressions over adapters',
    'C02': 'covers stacks, mosaics, their nesting, indexing and assignment',
    'C03': 'covers nested views and their indexing',
    'C04': 'transcendental functions are taken from tables NumPy gives on '
           'single elements, all else is computed by the specification '
           'exactly',
    'C05': 'aggregates are computed exactly over rationals, for chunk size '
           'limits of 1 to 24 elements, with and without large offsets',
    'C06': 'masked aggregates are computed exactly over rationals, for chunk '
           'size limits of 1 to 24 elements, with all kinds of masks',
    'C07': 'masks, hidden values and fill values follow the index maps of '
           'the specification',
    'C08': 'declared metadata are compared with the specification, and '
           'results with both',
    'C09': 'joint results are compared with the specification, reads are '
           'counted',
    'C10': 'evaluations run under a deterministic scheduler which decides '
           'each switch between threads, with many strategies',
    'C11': 'faults are injected anywhere in evaluations under the '
           'deterministic scheduler',
    'C12': 'reads are recorded, with their sizes, and how many chunks are '
           'held at once under adversarial schedules',
    'C13': 'reads are recorded and compared with the dependencies which the '
           'specification computes',
    'C14': 'assignments to the target are recorded',
    'C15': 'graphs are executed in various dependency-respecting orders, '
           'some tasks twice',
    'C16': 'sources and earlier results are compared with copies after each '
           'step, and results which are new arrays are written to',
    'C17': 'the specification says which requests have to be refused',
    'C19': 'several evaluations run at once under the deterministic '
           'scheduler',
}
PENDING = {}
KEYS = ('TLA+/TLC model of the merging of keys (KeyMerge.tla), of which every '
        'final state is replayed into the library, and TLA+/TLC validation of '
        'recorded groupings against KeyGroups.tla')
KEYS_NOTE = ('All partitions of dimensions of up to 5 (thorough: 6) elements '
             'by three inputs, random products of them in up to 4 dimensions, '
             'longer random ones and one with ten thousand keys, with slices '
             'written in all equivalent ways. Trusts TLC and the driver.')


def main():
    import sys
    sys.path.insert(0, os.path.join(VERIF, 'harness'))
    sys.dont_write_bytecode = True
    import check
    checks = []
    for prop in sorted(CHECKS):
        checks.append({
            'property': prop,
            'quick_cmd': 'python3 harness/check.py {} quick'.format(prop),
            'thorough_cmd': 'python3 harness/check.py {} thorough'.format(
                prop),
            'technique': TRACE + ('; ' + ALSO[prop] if prop in ALSO else ''),
            'level': 'model_checking',
            'level_note': NOTE.format(n=check.QUICK.get(prop, 0) +
                check.QUICK_SCHEDULED.get(check.SCHEDULED.get(prop), 0),
                                      what=CHECKS[prop])})
    checks.append({
        'property': 'C18',
        'quick_cmd': 'python3 harness/check.py C18 quick',
        'thorough_cmd': 'python3 harness/check.py C18 thorough',
        'technique': KEYS,
        'level': 'model_checking',
        'level_note': KEYS_NOTE})
    checks.sort(key=lambda c: c['property'])
    manifest = {
        'version': 1,
        'setup_cmd': 'python3 harness/check.py setup',
        'checks': checks,
        'not_applicable': [{'property': p, 'reason': r}
                           for p, r in sorted(PENDING.items())],
        'notes': 'No hooks in /repo are needed.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()
