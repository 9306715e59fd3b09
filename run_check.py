#!/usr/bin/env python3
"""Builds and runs the property harnesses.

  run_check.py <ID> quick|thorough      decide one property (exit 0 held / 1 violated)
  run_check.py replay <replay file>     re-run one recorded failing case (exit 0 passes / 1 fails)
  run_check.py setup                    check that the tools are there

Everything is compiled from /repo's current working tree into a scratch directory which is removed at the end.
"""
import atexit, concurrent.futures, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('BALAU_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
CPP = os.path.join(REPO, 'src/main/cpp')
sys.path.insert(0, HARNESS)
from checks import CHECKS  # noqa: E402

JOBS = max(1, min(8, os.cpu_count() or 1))

BASE_FLAGS = ['-std=c++17', '-g1', '-pthread', '-w', '-include', 'complex', '-include', 'fstream', '-include', 'boost/filesystem/fstream.hpp',
              '-DBOOST_STACKTRACE_USE_NOOP_PLACEHOLDER']
LIBS = ['-lboost_filesystem', '-lboost_serialization', '-lboost_iostreams', '-lboost_system', '-lboost_thread', '-lboost_date_time', '-lboost_chrono', '-licui18n', '-licuuc', '-licudata', '-lzip', '-lz', '-lcurl', '-lssl', '-lcrypto', '-lrt', '-ldl', '-lstdc++fs']
MODES = {
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'tsan': ['-O1', '-fsanitize=thread', '-fno-omit-frame-pointer'],
    'plain': ['-O1'],
}


class Broken(Exception):
    pass


def log(*a):
    print(*a, flush=True)


ENABLED = {'BALAU_ENABLE_ZLIB', 'BALAU_ENABLE_ZIP', 'BALAU_ENABLE_CURL', 'BALAU_ENABLE_HTTP', 'BALAU_ENABLE_STACKTRACES', 'BOOST_BEAST_NEW_API'}


def generated_headers(scratch):
    """The two headers cmake generates, made from their templates as cmake would."""
    out = os.path.join(scratch, 'gen')
    cm = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    version = '.'.join(re.search(r'set\(BALAU_VERSION_%s (\d+)\)' % w, cm).group(1) for w in ('YEAR', 'MONTH', 'PATCH'))
    for rel in ('Balau/BalauConfig.hpp', 'Balau/Type/BalauVersion.hpp'):
        t = open(os.path.join(CPP, rel + '.in')).read()
        t = re.sub(r'#cmakedefine (\w+)', lambda m: ('#define ' + m.group(1)) if m.group(1) in ENABLED else '/* #undef %s */' % m.group(1), t)
        t = t.replace('@BALAU_VERSION@', version)
        os.makedirs(os.path.dirname(os.path.join(out, rel)), exist_ok=True)
        with open(os.path.join(out, rel), 'w') as f:
            f.write(t)
    return out


def compile_all(check, mode, scratch, gen):
    build = os.path.join(scratch, mode)
    os.makedirs(build, exist_ok=True)
    srcs = [os.path.join(HARNESS, s) for s in check['sources']]
    for s in check.get('repo_sources', []):
        hits = sorted(glob.glob(os.path.join(CPP, s), recursive=True))
        if not hits and not any(c in s for c in '*?['):
            raise Broken('missing source ' + s)
        srcs += hits
    flags = BASE_FLAGS + MODES[mode] + ['-I' + CPP, '-I' + gen, '-I' + HARNESS, '-DBALAU_REPO="%s"' % REPO] + check.get('flags', [])
    if mode == 'tsan':
        flags.append('-DPBT_TSAN')
    cxx = ['ccache', 'g++'] if os.environ.get('PBT_CCACHE') else ['g++']

    def one(i, src):
        obj = os.path.join(build, '%d.o' % i)
        p = subprocess.run(cxx + flags + ['-c', src, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Broken('compiling %s failed:\n%s' % (src, p.stdout[:6000]))
        return obj

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        objs = [f.result() for f in [ex.submit(one, i, s) for i, s in enumerate(srcs)]]
    exe = os.path.join(build, 'harness')
    p = subprocess.run(['g++'] + MODES[mode] + ['-pthread', '-o', exe] + objs + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken('linking failed:\n' + p.stdout[:6000])
    return exe


def run_env(scratch, mode):
    env = dict(os.environ)
    env['PBT_SCRATCH'] = scratch
    env['HOME'] = scratch
    env['TMPDIR'] = scratch
    env['LC_ALL'] = 'C.UTF-8'
    env['TZ'] = 'UTC'
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=77'
    env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0'
    return env


def known_entries(pid):
    """Lines 'known: property=<id> test=<probe> <description>' of known_findings.txt."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + pid and w[2].startswith('test='):
                out[w[2][5:]] = w[3].strip()
    return out


def decide(pid, tier):
    start = time.time()
    check = CHECKS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    known = known_entries(pid)
    scratch = make_scratch()
    gen = generated_headers(scratch)
    modes = check.get('modes', ['asan'])
    with concurrent.futures.ThreadPoolExecutor(len(modes)) as ex:
        exes = dict(zip(modes, ex.map(lambda m: compile_all(check, m, scratch, gen), modes)))
    compiled = time.time() - start
    log('%s: compiled %s in %.1f s' % (pid, '+'.join(modes), compiled))
    deadline = 500 if tier == 'quick' else 3000
    tests = {}
    replay_dir = os.path.join(VERIF, 'replays')
    for mode in modes:
        shards = check.get('shards', JOBS)
        procs = []
        rdir = os.path.join(scratch, 'replay-' + mode)
        os.makedirs(rdir, exist_ok=True)
        left = max(60, deadline - (time.time() - start))
        for s in range(shards):
            sd = os.path.join(scratch, 's-%s-%d' % (mode, s))
            os.makedirs(sd, exist_ok=True)
            os.chmod(sd, 0o777)
            out = os.path.join(sd, 'out.json')
            cmd = [exes[mode], '--seed', str(seed), '--tier', tier, '--shard', str(s), '--shards', str(shards), '--out', out, '--replay-dir', rdir,
                   '--scratch', sd, '--scale', str(check.get('scale', {}).get(mode, 1)), '--deadline', str(int(left)),
                   '--max-seconds', str(check.get('max_seconds', 60) if tier == 'quick' else check.get('max_seconds_thorough', 600))]
            procs.append((subprocess.Popen(cmd, env=run_env(sd, mode), cwd=sd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, start_new_session=True), out))
        hard = time.time() + left + 200
        for p, out in procs:
            try:
                _, err = p.communicate(timeout=max(1, hard - time.time()))
            except subprocess.TimeoutExpired:
                for q, _ in procs:
                    try:
                        os.killpg(q.pid, signal.SIGKILL)
                    except OSError:
                        pass
                raise Broken('the harness did not finish')
            if not os.path.exists(out):
                raise Broken('harness ended with %d and no report: %s' % (p.returncode, err.decode(errors='replace')[:2000]))
            for t in json.load(open(out))['tests']:
                key = t['name'] if len(modes) == 1 else t['name'] + '/' + mode
                a = tests.setdefault(key, {'name': t['name'], 'mode': mode, 'evaluations': 0, 'nontrivial': 0, 'distinct': 0, 'discarded': 0, 'labels': {}, 'samples': [], 'seconds': 0, 'unconfirmed': [], 'failure': None})
                for k in ('evaluations', 'nontrivial', 'distinct', 'discarded'):
                    a[k] += t[k]
                a['seconds'] = max(a['seconds'], t['seconds'])
                for l, n in t.get('labels', {}).items():
                    a['labels'][l] = a['labels'].get(l, 0) + n
                a['samples'] += t.get('samples', [])[:1]
                if t.get('unconfirmed'):
                    a['unconfirmed'].append(t['unconfirmed'][:600])
                if t.get('failed'):
                    if a['failure'] is None or os.path.getsize(t['replay']) < os.path.getsize(a['failure']['replay']):
                        a['failure'] = t
    violations, known_lines = 0, []
    for key, t in sorted(tests.items()):
        f = t['failure']
        if not f:
            continue
        if t['name'] in known:
            known_lines.append('KNOWN-FINDING: property=%s %s' % (pid, known[t['name']]))
            continue
        violations += 1
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, '%s.%s.%s.replay' % (pid, t['name'], t['mode']))
        with open(f['replay'], errors='replace') as src, open(path, 'w') as dst:
            dst.write('property %s\nmode %s\n' % (pid, t['mode']))
            dst.write(src.read())
        log('--- %s %s' % (pid, key))
        log('    ' + f['message'][:3000].replace('\n', '\n    '))
        log('    case:\n      ' + f['notes'][:2000].replace('\n', '\n      '))
        log('VIOLATION property=%s replay=%s' % (pid, path))
    for l in sorted(set(known_lines)):
        log(l)
    wall = time.time() - start
    real = {k: t for k, t in tests.items() if t['name'] not in known}
    samples = []
    for k, t in sorted(real.items()):
        for s in t['samples'][:2]:
            samples.append('%s: %s' % (k, s))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': check.get('level', 'exploration'),
        'coverage': {
            'evaluations': sum(t['evaluations'] for t in real.values()),
            'distinct_nontrivial': sum(t['distinct'] for t in real.values()),
            'rule': check['rule'],
            'samples': samples[:40],
            'tests': {k: {'evaluations': t['evaluations'], 'nontrivial': t['nontrivial'], 'distinct_nontrivial': t['distinct'], 'discarded': t['discarded'], 'seconds': t['seconds'], 'labels': t['labels'],
                          **({'unconfirmed': t['unconfirmed']} if t['unconfirmed'] else {})} for k, t in sorted(tests.items())},
            'compile_s': round(compiled, 1),
            'sanitizers': modes,
        },
        'assumptions': check.get('assumptions', []),
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if os.environ.get('PBT_VERBOSE'):
        for k, t in sorted(tests.items()):
            log('  %-46s %8d cases %8d distinct non-trivial %6d discarded %6.1f s %s' % (k, t['evaluations'], t['distinct'], t['discarded'], t['seconds'], json.dumps(t['labels'])[:600]))
            for u in t['unconfirmed']:
                log('    UNCONFIRMED ' + u[:600])
    log('%s %s: %d cases, %d distinct non-trivial, %d violation(s), %.1f s' % (pid, tier, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], violations, wall))
    return 1 if violations else 0


def make_scratch():
    scratch = tempfile.mkdtemp(prefix='balau-pbt-', dir=os.environ.get('PBT_TMP', '/tmp'))
    os.chmod(scratch, 0o755)
    owner = os.getpid()

    def clean():
        if os.getpid() == owner and os.path.basename(scratch).startswith('balau-pbt-'):
            shutil.rmtree(scratch, ignore_errors=True)
    atexit.register(clean)
    return scratch


def replay(path):
    pid = mode = None
    for line in open(path, errors='replace'):
        w = line.split()
        if w[:1] == ['property']:
            pid = w[1]
        if w[:1] == ['mode']:
            mode = w[1]
    scratch = make_scratch()
    gen = generated_headers(scratch)
    exe = compile_all(CHECKS[pid], mode or 'asan', scratch, gen)
    return subprocess.call([exe, '--replay', os.path.abspath(path), '--scratch', scratch], env=run_env(scratch, mode), cwd=scratch)


def main():
    def stop(*_):
        sys.exit(2)
    signal.signal(signal.SIGTERM, stop)
    try:
        if sys.argv[1] == 'setup':
            for tool in ('g++', 'python3'):
                if not shutil.which(tool):
                    raise Broken('missing ' + tool)
            log('ok: %d checks' % len(CHECKS))
            return 0
        if sys.argv[1] == 'replay':
            return replay(sys.argv[2])
        return decide(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    except Broken as e:
        log('ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
