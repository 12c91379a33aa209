#!/usr/bin/env python3
"""C17: run /verif/miri under Miri with many seeds.  miri.py check TIER | miri.py replay FILE"""
import hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Whatever else is in the environment must not have an influence: the profile and incremental builds change the schedules.
ENV = {k: os.environ[k] for k in ('HOME', 'PATH', 'CARGO_HOME', 'RUSTUP_HOME') if k in os.environ}
ENV.update(CARGO_TARGET_DIR=V + '/.build/miri', RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', RUST_BACKTRACE='0')
BASE = '-Zmiri-tree-borrows'
# Probability of a context switch at each step.
RATES = ['0.01', '0.1', '0.4']


def miri(flags, args=(), timeout=800):
    p = subprocess.run(['cargo', 'miri', 'run', '--locked', '--offline', '--quiet', '--'] + list(args), cwd=V + '/miri',
                       env=dict(ENV, MIRIFLAGS=f'{BASE} {flags}'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def native(n, timeout=300):
    """One long history in one thread needs no simulated scheduler."""
    env = dict(ENV, RUSTUP_TOOLCHAIN='stable', CARGO_TARGET_DIR=V + '/.build/miri-native')
    p = subprocess.run(['cargo', 'run', '--release', '--locked', '--offline', '--quiet', '--', 'long', str(n)], cwd=V + '/miri',
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def native_violation(why, n):
    m = re.match(r'evaluation (\d+)', why)
    n = int(m.group(1)) + 1 if m else n
    path = f'{V}/replays/C17-long.replay'
    os.makedirs(V + '/replays', exist_ok=True)
    with open(path, 'w') as f:
        f.write(f'property=C17\nscenario=c17_miri\nlong={n}\nviolation={why}\n')
    print(f'C17 violated by {n} evaluations in one thread\n  {why}')
    print(f'VIOLATION property=C17 replay={path}', flush=True)
    return path


def reason(out):
    """What one execution violated, or None."""
    for l in out.splitlines():
        if l.startswith('VIOLATED '):
            return l[9:]
    m = re.search(r'^error: (Undefined Behavior: .*)$', out, re.M)
    if m:
        return m.group(1)
    m = re.search(r'^error: (the evaluated program .*|memory leaked.*|abnormal termination.*)$', out, re.M)
    return m and m.group(1)


def single(rate, seed, args=()):
    code, out = miri(f'-Zmiri-preemption-rate={rate} -Zmiri-seed={seed}', args)
    return reason(out) if code else None, out


def violation(rate, seed):
    why, out = single(rate, seed)
    if why is None:
        return None
    # Exactly the run that failed, without a trace. Whatever is left out or traced is another schedule, so these are tried:
    # fewer rounds with this seed, or only a few races from a common start with this one or one of the next.
    args = []
    tries = [(seed, [str(n), '-v', '0']) for n in range(1, 9)]
    tries += [(s, ['0', '-v', str(n)]) for n in (1, 2, 4, 16) for s in range(seed, seed + 4)]
    for s, a in tries:
        w, o = single(rate, s, a)
        if w:
            seed, args, why, out = s, a, w, o
            break
    path = f'{V}/replays/C17-{rate}-{seed}.replay'
    os.makedirs(V + '/replays', exist_ok=True)
    with open(path, 'w') as f:
        f.write(f'property=C17\nscenario=c17_miri\nrate={rate}\nseed={seed}\nargs={" ".join(args)}\nviolation={why}\n\n# trace of the minimised run\n')
        for l in out.splitlines():
            if l.startswith(('round ', 'race ', 'VIOLATED')) or 'from a common start' in l:
                f.write('# ' + l + '\n')
        i = out.find('error: Undefined')
        if i >= 0:
            f.write(''.join('# ' + l + '\n' for l in out[i:].splitlines()[:40]))
    print(f'C17 violated with Miri seed {seed}, preemption rate {rate}, ' + (f'minimised to {args[0]} rounds and {args[2]} races from a common start' if args else 'not minimised'))
    print('  ' + why)
    print(f'VIOLATION property=C17 replay={path}', flush=True)
    return path


def stamp():
    """Cargo looks at modification times; the contents of /repo decide."""
    h = hashlib.sha256()
    for d, subdirs, files in sorted(os.walk('/repo')):
        subdirs[:] = sorted(x for x in subdirs if x not in ('.git', 'target'))
        for f in sorted(files):
            if f.endswith('.rs') or f.startswith('Cargo.'):
                h.update((d + '/' + f).encode() + b'\0' + open(d + '/' + f, 'rb').read())
    path = V + '/.build/miri.stamp'
    if not os.path.exists(path) or open(path).read() != h.hexdigest():
        for d in ('miri', 'miri-native'):
            shutil.rmtree(f'{V}/.build/{d}', ignore_errors=True)
        os.makedirs(V + '/.build', exist_ok=True)
        open(path, 'w').write(h.hexdigest())


def check(tier):
    base = int(os.environ.get('VERIF_SEED', '1')) % 4000 * 1_000_000
    t0 = time.time()
    budget = 60 if tier == 'quick' else 720
    # Build once, outside the time budget, and tell a build failure from a violation.
    try:
        code, out = miri('-Zmiri-seed=0')
    except subprocess.TimeoutExpired:
        print('C17: a first run under Miri does not come to an end')
        return 2
    if code and reason(out) is None:
        print('C17: the harness does not build or run under Miri:')
        print('\n'.join(out.splitlines()[-40:]))
        return 2
    long = 200_000 if tier == 'quick' else 5_000_000
    code, out = native(long)
    long_why = reason(out)
    if code and long_why is None:
        print('C17: the harness does not build or run:')
        print('\n'.join(out.splitlines()[-40:]))
        return 2
    build = time.time() - t0
    t1 = time.time()
    ev = dict(runs=0, evaluations=0, refused=0, overlapping=0, sprints=0, transfers=0, rounds=0)
    hashes, samples, per_rate, viol = set(), [], {r: 0 for r in RATES}, []
    step, at = 32, 0
    if long_why:
        viol.append(native_violation(long_why, long))
    while not viol and (at == 0 or time.time() - t1 < budget) and at < 2_000_000:
        for rate in RATES:
            a = base + at * len(RATES) + RATES.index(rate) * step
            try:
                code, out = miri(f'-Zmiri-preemption-rate={rate} -Zmiri-many-seeds={a}..{a + step}', timeout=300)
            except subprocess.TimeoutExpired:
                print(f'C17: runs do not come to an end: preemption rate {rate}, seeds {a}..{a + step}')
                return 2
            for m in re.finditer(r'RUN hash=(\w+) rounds=(\d+) evaluations=(\d+) refused=(\d+) overlapping=(\d+) sprints=(\d+) transfers=(\d+)', out):
                ev['runs'] += 1
                per_rate[rate] += 1
                hashes.add(m.group(1))
                for k, x in zip(('rounds', 'evaluations', 'refused', 'overlapping', 'sprints', 'transfers'), m.groups()[1:]):
                    ev[k] += int(x)
            if code:
                seeds = [int(x) for x in re.findall(r'FAILING SEED: (\d+)', out)]
                for s in seeds:
                    v = violation(rate, s)
                    if v:
                        viol.append(v)
                        break
                if not viol:
                    print(f'C17: Miri failed for seeds {seeds} in {a}..{a + step} without a violation that can be reproduced:')
                    print('\n'.join(out.splitlines()[-40:]))
                    return 2
                break
        at += step
    wall = time.time() - t1
    if not viol:
        for rate in RATES:
            _, out = single(rate, base + RATES.index(rate) * step, ['2', '-v', '2'])
            samples.append({'seed': base + RATES.index(rate) * step, 'preemption_rate': rate, 'trace': [l for l in out.splitlines() if l.startswith(('round', 'race', 'RUN'))]})
    json.dump({
        'property': 'C17', 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'exploration',
        'coverage': {
            'evaluations': ev['runs'],
            'distinct_nontrivial': len(hashes),
            'rule': 'One run is one Miri seed, which decides the program (3 to 8 rounds, in each of which two to four threads race for the same one or two occurrences of the macro, out of 33, and then 4 to 16 races of two or three threads from a common start), every context switch, and the values that relaxed loads return. A run is distinct and non-trivial if the order of the starts and ends of all evaluations and who won them differs from every other run.',
            'samples': samples,
            'runs_per_preemption_rate': per_rate,
            'runs_per_hour': int(ev['runs'] / max(wall, 0.001) * 3600),
            'evaluations_in_one_long_single_threaded_history': long, 'rounds': ev['rounds'], 'macro_evaluations': ev['evaluations'], 'evaluations_that_panicked': ev['refused'],
            'evaluations_overlapping_another_thread': ev['overlapping'], 'races_from_a_common_start': ev['sprints'], 'client_device_transfers_in_static_buffers': ev['transfers'],
            'simulated_seconds': 0,
            'faults_injected': {'context switches at random points': 'at the preemption rates above', 'stale relaxed loads and spurious failures of weak compare-exchange': 'by Miri\'s memory model'},
            'distinct_measure': 'hash of the order of all evaluation starts and ends, by thread and outcome',
            'real_components': 'static_buffer!, Client and Device of /repo without default features, std threads and atomics, interpreted',
            'simulated_components': 'processor, scheduler and memory model (Miri); the serial port between client and device',
            'build_seconds': round(build, 1),
        },
        'assumptions': ['Miri detects data races and models relaxed atomics; it explores the behaviours of one seed per run, not all of them.',
                        'A sample of 49 occurrences in one crate stands for all occurrences of the macro.'],
        'violations': len(viol), 'wall_s': round(time.time() - t0, 3),
    }, open(V + '/evidence/C17.json', 'w'), indent=1)
    print(f"C17: {ev['runs']} runs ({len(hashes)} distinct), {ev['evaluations']} evaluations, {ev['overlapping']} overlapping, {wall:.1f} s wall, build {build:.1f} s")
    return 1 if viol else 0


def replay(path):
    kv = dict(l.rstrip('\n').split('=', 1) for l in open(path) if '=' in l and not l.startswith('#'))
    if 'long' in kv:
        code, out = native(int(kv['long']))
        print(out, end='')
        if reason(out):
            print(f'VIOLATION property=C17 replay={path}')
            return 1
        print('no violation' if code == 0 else 'the harness fails')
        return 2 if code else 0
    args = kv['args'].split()
    a = single(kv['rate'], kv['seed'], args)
    b = single(kv['rate'], kv['seed'], args)
    keep = lambda o: [l for l in o.splitlines() if l.startswith(('round ', 'race ', 'VIOLATED', 'RUN', 'error:', '    =', 'help'))]
    print('\n'.join(keep(a[1])))
    if keep(a[1]) != keep(b[1]):
        print('NOT DETERMINISTIC')
        return 2
    if a[0]:
        print('  ' + a[0])
        print(f'VIOLATION property=C17 replay={path}')
        return 1
    print('no violation')
    return 0


if __name__ == '__main__':
    os.makedirs(V + '/evidence', exist_ok=True)
    stamp()
    sys.exit(check(sys.argv[2]) if sys.argv[1] == 'check' else replay(sys.argv[2]))
