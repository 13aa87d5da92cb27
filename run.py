#!/usr/bin/env python3
"""Runs one check: python3 run.py C01 [quick|thorough]   or   python3 run.py C01 --replay FILE

Builds harness/<id>.cpp with the headers of /repo's current working tree, explores, replays what was found, and
writes evidence/<id>.json. Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not run."""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('HART_REPO', '/repo')
CXX = 'clang++'
IGNORE = 'src:*/CLI11/*\nsrc:*/dr_libs/*\nsrc:*/signalsmith/*\nsrc:*/choc/*\n'
ASAN = ('detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=16777216:malloc_fill_byte=190:'
        'quarantine_size_mb=16:allocator_may_return_null=1:handle_abort=0:print_legend=0:symbolize=1')


def flags():
    return ['-std=c++17', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer',
            '-ftrivial-auto-var-init=pattern', '-w',
            '-I' + REPO + '/include', '-I' + REPO + '/dependencies/CLI11', '-I' + REPO + '/dependencies/dr_libs']


def source_hash(src):
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + '/include/**/*', recursive=True)
                   + glob.glob(REPO + '/dependencies/**/*', recursive=True)
                   + glob.glob(HERE + '/harness/*.hpp') + [src])
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read())
    h.update(' '.join(flags()).encode())
    return h.hexdigest()[:16]


def build(cid):
    src = f'{HERE}/harness/{cid.lower()}.cpp'
    root = f'{HERE}/build'
    out = f'{root}/{cid}-{source_hash(src)}'
    exe = out + '/check'
    if os.path.exists(exe):
        return exe
    os.makedirs(root, exist_ok=True)
    for old in glob.glob(f'{root}/{cid}-*'):
        if time.time() - os.path.getmtime(old) > 3600:
            shutil.rmtree(old, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix=cid + '-tmp', dir=root)
    try:
        with open(tmp + '/ignore.txt', 'w') as f:
            f.write(IGNORE)
        cmd = [CXX] + flags() + ['-fsanitize-ignorelist=' + tmp + '/ignore.txt', src, '-o', tmp + '/check']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:])
            print(f'{cid}: the harness does not compile with the headers of {REPO}')
            sys.exit(2)
        try:
            os.rename(tmp, out)
        except OSError:
            pass
        return exe if os.path.exists(exe) else tmp + '/check'
    finally:
        if os.path.exists(tmp) and os.path.exists(exe):
            shutil.rmtree(tmp, ignore_errors=True)


def meta(cid):
    with open(HERE + '/harness/checks.json') as f:
        return json.load(f)[cid]


def known_findings(cid):
    with open(HERE + '/known_findings.json') as f:
        data = json.load(f)
    return [k for k in data['known'] if k['property'] == cid]


def evidence(cid, tier, seed, t0, coverage, violations):
    m = meta(cid)
    data = {
        'property': cid, 'tier': tier, 'seed': seed, 'level': m['level'], 'coverage': coverage,
        'assumptions': m['assumptions'], 'wall_s': round(time.time() - t0, 3), 'violations': violations,
    }
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open(f'{HERE}/evidence/{cid}.json', 'w') as f:
        json.dump(data, f, indent=1)
        f.write('\n')


def main():
    cid = sys.argv[1].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    exe = build(cid)
    shm = '/dev/shm'
    try:
        room = os.access(shm, os.W_OK) and shutil.disk_usage(shm).free > 1 << 30
    except OSError:
        room = False
    scratch = tempfile.mkdtemp(prefix=f'hart-{cid}-', dir=shm if room else None)
    replays = f'{HERE}/replays'
    os.makedirs(replays, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS=ASAN, TMPDIR=scratch)
    try:
        if '--replay' in sys.argv:
            path = sys.argv[sys.argv.index('--replay') + 1]
            if path.endswith('-startup.replay'):
                r = subprocess.run([exe, '--scratch', scratch, '--help'], env=env)
                sys.exit(1 if r.returncode in (-6, -11, -8, 77) else 0)
            r = subprocess.run([exe, '--scratch', scratch, '--replay', path], env=env)
            sys.exit(r.returncode)
        for old in glob.glob(f'{replays}/{cid}-*.replay'):
            os.remove(old)
        result = scratch + '/result.json'
        jobs = str(os.cpu_count() or 8)
        budget = os.environ.get('VERIF_BUDGET', '520' if tier == 'quick' else '7200')
        cmd = [exe, '--scratch', scratch, '--result', result, '--replays', replays, '--jobs', jobs, '--budget', budget]
        if tier == 'thorough':
            cmd.append('--thorough')
        r = subprocess.run(cmd, env=env)
        if not os.path.exists(result) and r.returncode in (-6, -11, -8, 77):
            # The library crashes already while its static objects (registered tests) get constructed: once more, to be sure
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if not os.path.exists(result) and r.returncode in (-6, -11, -8, 77):
                path = f'{replays}/{cid}-startup.replay'
                with open(path, 'w') as f:
                    f.write(f'# {cid}: crashes at startup\n' + ''.join('# ' + l + '\n' for l in r.stdout[-4000:].splitlines()))
                evidence(cid, tier, seed, t0, {'states': 1, 'transitions': 1, 'traces_validated_against_impl': 1, 'samples': [],
                         'exhaustive': False, 'explanation': 'Every program made with the library crashes at startup.'}, 1)
                print(f'  startup: a program with registered tests crashes before main(): {r.stdout[-300:]}')
                print(f'VIOLATION property={cid} replay={path}')
                sys.exit(1)
        if not os.path.exists(result):
            print(f'{cid}: the explorer failed (exit {r.returncode})')
            sys.exit(2)
        with open(result) as f:
            res = json.load(f)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    m = meta(cid)
    known = {k['key']: k for k in known_findings(cid)}
    new = [v for v in res['violations'] if v['key'] not in known]
    for v in res['violations']:
        if v['key'] in known:
            print(f"KNOWN-FINDING: property={cid} {known[v['key']]['what']}")

    exhaustive = not res['capped'] and res['units_done'] == res['units']
    coverage = {
        'samples': res['samples'],
        'exhaustive': exhaustive,
        'explanation': m['covers'] + ' Every sequence of decisions within these bounds was executed on the code'
        ' compiled from ' + REPO + '/include, and each of its steps was compared with the reference model'
        ' (stateless exploration: the traces are executions of the implementation).',
        'work_units': res['units'],
        'work_units_completed': res['units_done'],
        'longest_decision_sequence': res['max_decisions'],
        'explore_seconds': res['seconds'],
    }
    if m['level'] == 'fault_enumeration':
        coverage.update(evaluations=res['executions'], distinct_nontrivial=res['states'], rule=m['rule'])
    else:
        coverage.update(states=res['states'], transitions=res['steps'],
                        traces_validated_against_impl=res['executions'])
    evidence(cid, tier, seed, t0, coverage, len(new))

    print(f"{cid} {tier}: {res['executions']} executions, {res['steps']} transitions, {res['states']} distinct states, "
          f"{res['units_done']}/{res['units']} units, longest decision sequence {res['max_decisions']}, "
          f"{'exhaustive within bounds' if exhaustive else 'NOT exhaustive (stopped early)'}, {time.time() - t0:.1f} s")
    for v in new:
        print(f"  {v['key']}: {v['message']}")
        print(f"VIOLATION property={cid} replay={v['replay']}")
    if new:
        sys.exit(1)
    if res['lost']:
        print(f'{cid}: {res["lost"]} process(es) got killed or stalled, and did not when run again alone')
    sys.exit(0)


if __name__ == '__main__':
    main()
