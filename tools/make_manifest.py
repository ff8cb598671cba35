#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
DONE = set("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25".split())
enum = 'bounded exhaustive enumeration of values, types and operations on the real code against an executable reference model'
TECH = {
    'C23': 'bounded exhaustive enumeration of programs: all derived types up to a size are generated, compiled with warnings as errors, and run against what was written',
    'C25': 'bounded exhaustive enumeration of values, types and operations on the real code against one executable reference model, for the sets of features',
    'C15': 'stateless model checking of the real code: all thread schedules of small programs under a controlled scheduler, with preemption bounds, and without bounds up to the order of independent steps',
}
NOTE = {
    'C23': 'Every type within the bounds is compiled by the real macro and its behaviour compared with the attributes it was generated from (derive/checker.rs). Trusts the compiler and the generator (tools/derive.py). Types outside the bounds are not covered.',
    'C25': 'Where a check passes with one set of features and not with another, the features change behaviour. Differences that none of the other checks would notice are not covered.',
    'C15': 'Every schedule within the bounds runs on the real code, in a process of its own. Switches happen at lock operations, and on entering and leaving the code that describes a type. Trusts the controlled lock (crates/mirror-mirror/src/model_check.rs) to behave like that of the standard library, and sequential consistency between those points. Code that blocks on anything else is recognized by not coming back.',
}
props = [json.loads(l) for l in open(os.path.join(here, '..', 'properties.jsonl'))]
checks = []
na = []
for p in props:
    i = p['id']
    if i not in DONE:
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'bash check.sh {i} quick',
        'thorough_cmd': f'bash check.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': TECH.get(i, enum),
        'level': 'model_checking',
        'level_note': NOTE.get(i, 'Every case within the bounds stated in the evidence file is executed on the real code and compared with the reference model (harness/src/model.rs); trusts the model, the harness and the compiler. Types and values outside the bounds are not covered.'),
    })
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'hooks': {
        'guard': 'cfg(mirror_mirror_model_check)',
        'enable': 'RUSTFLAGS="--cfg mirror_mirror_model_check" when building the check of C15; all other checks build without it',
        'source_commits': ['f88d9f4'],
    },
    'checks': checks,
    'not_applicable': na,
}
json.dump(m, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
