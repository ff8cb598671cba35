#!/usr/bin/env python3
"""Decides C25: the checks of the other properties, with mirror-mirror built with all features and
with other sets of them.

The checks compare what the library does with one reference model, so where they pass with two sets
of features the library does the same with both, on everything they explore. Where one passes and the
other doesn't, it doesn't do the same. (Where neither passes, something else is wrong.)"""
import itertools, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.environ.get('MMCHECK_OUT', verif)
base = os.path.join(verif, 'target', 'features')
tier = sys.argv[1] if len(sys.argv) > 1 else 'quick'
thorough = tier == 'thorough'
start = time.time()
LIMIT = 720

ALL = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11', 'C12', 'C13', 'C14', 'C16', 'C17',
       'C18', 'C19', 'C20', 'C21', 'C22', 'C24']
SLOW = {'C04', 'C07', 'C12', 'C20'}
FAST = [c for c in ALL if c not in SLOW]

EVERYTHING = 'std serde speedy glam macaw'
# features, checks
# (so that every two features are seen both together and one without the other)
configs = [(EVERYTHING, ALL), ('', ALL), ('std', FAST), ('serde macaw', FAST), ('std speedy glam', FAST)]
if thorough:
    configs = [(EVERYTHING, ALL)]
    for n in range(6):
        for c in itertools.combinations(['std', 'serde', 'speedy', 'glam', 'macaw'], n):
            # (with `speedy` there's always `std`)
            if len(c) < 5 and not ('speedy' in c and 'std' not in c):
                configs.append((' '.join(c), ALL if len(c) < 2 or c == ('std', 'serde') else FAST))
    # those that differ most first
    configs[1:] = sorted(configs[1:], key=lambda c: len(c[0].split()))


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(i, features):
    """Returns the binary or what went wrong."""
    d = os.path.join(base, str(i % 8))
    env = dict(os.environ, CARGO_TARGET_DIR=d)
    r = run(['cargo', 'build', '--offline', '--no-default-features', '--features', features],
            cwd=os.path.join(verif, 'harness'), env=env)
    if r.returncode != 0:
        return None, r.stdout
    exe = os.path.join(base, f'mmcheck-{i}')
    shutil.copy(os.path.join(d, 'debug', 'mmcheck'), exe)
    return exe, ''


os.makedirs(base, exist_ok=True)
os.makedirs(os.path.join(out, 'replays'), exist_ok=True)
os.makedirs(os.path.join(out, 'evidence'), exist_ok=True)
covered, states, transitions, traces, violations, left_out = [], 0, 0, 0, 0, []


def violation(path):
    global violations
    violations += 1
    print(f'VIOLATION property=C25 replay={path}', flush=True)


def slot(s):
    """Build every eighth of them, one after the other, in the same directory."""
    res = {}
    for i in range(s, len(configs), 8):
        if time.time() - start > LIMIT * 0.6:
            break
        res[i] = build(i, configs[i][0])
    return res


with ThreadPoolExecutor(8) as pool:
    built = {}
    for r in pool.map(slot, range(8)):
        built.update(r)

if all(exe is None for exe, _ in built.values()):
    r = run(['cargo', 'build', '-p', 'mirror-mirror', '--offline'], cwd='/repo',
            env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(verif, 'target', 'repo')))
    print(built[0][1][-3000:] if r.returncode == 0 else r.stdout[-3000:])
    print('the harness does not build, with any features' if r.returncode == 0 else 'the code under test does not build')
    sys.exit(2)

# check: whether it passes with all features
normal = {}
for i, (features, checks) in enumerate(configs):
    name = features.replace(' ', '+') or 'none'
    if violations:
        break
    if i not in built or time.time() - start > LIMIT:
        left_out.append(name)
        continue
    exe, log = built[i]
    if exe is None:
        path = os.path.join(out, 'replays', f'C25-{name}-build.log')
        open(path, 'w').write(log)
        print(f'does not build with features {name}:')
        print('\n'.join([l for l in log.splitlines() if l.startswith('error')][:5]))
        violation(path)
        continue
    dir = os.path.join(out, 'replays', f'C25-{name}')
    shutil.rmtree(dir, ignore_errors=True)
    os.makedirs(dir)
    ok = 0
    for c in checks:
        if time.time() - start > LIMIT:
            left_out.append(f'{name}: {c}')
            continue
        r = run(['timeout', str(int(LIMIT + 120 - (time.time() - start))), exe, c, 'brief'], env=dict(os.environ, MMCHECK_OUT=dir))
        passes = r.returncode == 0
        # (simple names need the standard library)
        if c not in normal:
            normal[c] = passes
        elif passes != normal[c] and (c != 'C19' or 'std' in features.split()):
            print(f'{c} {"passes" if passes else "fails"} with features {name}, and {"fails" if passes else "passes"} with all features:')
            print('\n'.join(l[:300] for l in r.stdout.splitlines() if not l.startswith('VIOLATION'))[:1500])
            # (the file names the build directory)
            violation(os.path.join(dir, 'replays'))
            break
        if passes:
            ok += 1
        try:
            j = json.load(open(os.path.join(dir, 'evidence', c + '.json')))['coverage']
        except OSError:
            continue
        states += j['states']
        transitions += j['transitions']
        traces += j['traces_validated_against_impl']
    covered.append(f'{name}: {len(checks)} checks')
    os.remove(exe)
    if ok == len(checks):
        shutil.rmtree(dir, ignore_errors=True)

if thorough:
    for s in range(8):
        shutil.rmtree(os.path.join(base, str(s)), ignore_errors=True)
wall = time.time() - start
json.dump({
    'property': 'C25', 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
    'coverage': {
        'states': states, 'transitions': transitions, 'traces_validated_against_impl': traces,
        'bounds': f'{len(covered)} of the 24 sets of features that differ (one being all of them); with each, the checks {", ".join(ALL)} with bounds smaller than their own quick ones, or all but {", ".join(sorted(SLOW))}',
        'samples': covered, 'left_out_for_lack_of_time': left_out,
    },
    'wall_s': wall, 'violations': violations,
}, open(os.path.join(out, 'evidence', 'C25.json'), 'w'), indent=1)
print(f'C25 {tier}: {len(covered)} sets of features, {len(left_out)} left out, {states} states, {transitions} transitions, {violations} violations, {wall:.1f} s')
sys.exit(1 if violations else 0)
