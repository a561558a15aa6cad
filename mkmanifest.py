"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
    'N01': 'Pure function of the expression text: no schedule, clock, I/O, fault or interleaving to '
           'simulate. (Chained and nested arithmetic is exercised as workload of C09.)',
    'N02': 'Pure function of the formula text: nothing nondeterministic for a simulator to decide.',
    'N03': 'Pure function of the stored keys and the request: no schedule, fault or history in it.',
    'N04': 'Pure function of the formula text; refusal does not depend on schedules or faults.',
    'N05': 'A statement about fixed shipped data, settled by running the fixed computations once; '
           'there is no schedule, fault or history to search.',
}
NOTE = {
    'default': 'Seeded search over schedules and fault sequences on the real code against an '
               'independent reference model: evidence, not proof. Trusts CPython, PyYAML, json, numpy, '
               'pandas and the model in /verif/sim/model.py.',
}
TECH = {
    'C01': 'deterministic simulation: seeded disk faults and concurrent writers on every I/O call of a load',
    'C02': 'deterministic simulation: seeded disk faults and interrupts at any I/O call or step, then retry',
    'C03': 'deterministic simulation: seeded histories of loads, queries and file-system changes',
    'C04': 'deterministic simulation: seeded listing orders, hash seeds and thread interleavings of loads',
    'C05': 'deterministic simulation: seeded histories of default updates and queries vs scope model',
    'C06': 'deterministic simulation: seeded thread interleavings at line and bytecode steps',
    'C07': 'deterministic simulation: seeded histories of failing and interrupted queries vs pristine twin',
    'C08': 'deterministic simulation: seeded histories of derivations and updates vs reference model',
    'C09': 'deterministic simulation: seeded histories of config operations vs reference model',
    'C10': 'deterministic simulation: seeded interrupts, allocation and numeric failures in config calls',
    'C11': 'deterministic simulation: seeded interleavings of config construction and evaluation',
    'C12': 'deterministic simulation: crash with only the serialised copy surviving, restart elsewhere',
    'C13': 'deterministic simulation: seeded config histories with faults, self-reports vs behaviour',
    'C14': 'deterministic simulation: step budget over seeded cyclic definitions and their repair',
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'sim', 'props', i.lower() + '.py')):
            cmd = 'python3 run_check.py %s' % i
            checks.append({'property': i, 'quick_cmd': cmd + ' --tier quick',
                           'thorough_cmd': cmd + ' --tier thorough',
                           'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i],
                           'level': 'exploration', 'level_note': NOTE.get(i, NOTE['default'])})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the seams are builtins.open, os.*, sys.monitoring and fork. '
                  'Replay a violation with: python3 run_check.py <ID> --replay <file>'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
