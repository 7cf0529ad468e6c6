#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
import about
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'deterministic simulation with fault injection: seeded search over simulated runs of the real code'
NOTE = {
    'C01': 'against the generator\'s own rendering of the request',
    'C02': 'against the generator\'s own rendering of the form',
    'C03': 'against the generator\'s own rendering of the body',
    'C04': 'against an index into the body\'s bytes',
    'C05': 'content against the generator, tiers against a running total, memory by accounting at every pull of the stream',
    'C06': 'against a count of bytes and fields, and of what was pulled from the stream',
    'C07': 'the injected error must come out, and nothing may be exposed',
    'C08': 'against what had arrived before the cut',
    'C09': 'exceptions are classified, executed source lines are counted',
    'C10': 'differential: against a fresh object',
    'C11': 'differential: against each request alone',
    'C12': 'every file-system call and the directory of the simulated disk are checked',
    'C13': 'against the fault-free upload, and a retry after recovery',
    'C14': 'the recorded calls are checked against the protocol and the generator\'s form',
    'C15': 'against the parts before and around the signal',
    'C16': 'against the same operations on the bytes',
    'C17': 'against the state of the simulated disk and the failures injected',
    'C18': 'against an index into the produced bytes',
    'C23': 'differential: against the same request with canonical names',
    'C25': 'differential: against each request alone; the disk, its descriptors and the library\'s own state are compared before and after',
    'C27': 'an exception at any executed source line; against both-or-neither and a fresh object',
    'C26': 'against the bytes each call needs, at every pull of the stream',
    'C24': 'reference model: the generator renders query and body in the charset set last',
}
NA = {
    'C19': 'A pure function of two strings of the parsed request: no schedule, clock, fault, I/O or second party on which a simulated run could differ from a direct call.',
    'C20': 'A single-threaded in-memory dictionary: its histories contain no fault, I/O or concurrency to simulate; generating calls would be plain property-based testing.',
    'C21': 'Pure functions of one value (date, base 36, base 64, quoting, ETags), not used by request parsing: nothing to schedule or to fail.',
    'C22': 'Pure predicates on strings: nothing to schedule or to fail.',
}


def main():
    checks = []
    for p in sorted(about.ABOUT):
        checks.append({
            'property': p, 'quick_cmd': 'python3 run.py %s' % p, 'thorough_cmd': 'python3 run.py %s --tier thorough' % p,
            'evidence_file': 'evidence/%s.json' % p, 'technique': TECH, 'level': 'exploration',
            'level_note': 'Seeded search, decided %s. Not exhaustive. Assumes: %s.' % (NOTE[p], '; '.join(about.ABOUT[p]['assume']))})
    m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks,
         'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
         'notes': 'No hooks in /repo: every seam (stream, os, open, tempfile, threading, random, time) exists in the code or its runtime. '
                  'run.py --replay FILE runs a replay file again; run.py --selftest shows that seeds repeat exactly. known-findings.txt lists the defects found.'}
    with open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks')


if __name__ == '__main__':
    main()
