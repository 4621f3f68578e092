#!/usr/bin/env python3
"""Runner: compile an explorer against /repo's current tree, run it on all
shards, turn violations / crashes / hangs into replay files, write evidence.

  run.py check ID [quick|thorough]     run one property's check
  run.py replay FILE                   re-execute one recorded case
  run.py setup                         compile smoke test
"""
import hashlib, json, os, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

sys.setrecursionlimit(10000)   # replays may be deep
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VH_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'checks'))
import registry  # noqa: E402

NPROC = min(8, os.cpu_count() or 8)
KNOWN = os.path.join(HERE, 'known_findings.json')


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO + '/include', HERE + '/lib', HERE + '/checks'):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.pyc'):
                    continue
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    h.update(open(REPO + '/bundle.sh', 'rb').read())
    return h.hexdigest()


_TREE = None


BROKEN = 'BROKEN-CONFIGURATION '


def build(stage, log):
    """Compile a stage's translation units in parallel and link them."""
    global _TREE
    if _TREE is None:
        _TREE = tree_hash()
    key = hashlib.sha256(json.dumps([stage['srcs'], stage.get('flags', []), stage.get('libs', []),
                                     stage.get('cxx', 'g++'), stage.get('pre'), _TREE], sort_keys=True).encode()).hexdigest()[:20]
    cache = os.path.join(HERE, 'build')
    os.makedirs(cache, exist_ok=True)
    exe = os.path.join(cache, key)
    if os.path.exists(exe):
        return exe, None
    tmp = tempfile.mkdtemp(prefix='b-', dir=cache)
    try:
        inc = ['-I' + REPO + '/include']
        if stage.get('pre'):
            r = subprocess.run([sys.executable, os.path.join(HERE, stage['pre']), REPO, tmp], capture_output=True, text=True)
            if r.returncode != 0:
                return None, (BROKEN if stage.get('configurations') else '') + r.stdout + r.stderr
            inc = ['-I' + tmp] + inc
        if stage.get('no_repo_inc'):
            inc = []                  # every source says where its headers are: {repo}, {tmp}
        base = [stage.get('cxx', 'g++'), '-std=c++17', '-O1', '-g1', '-DVH_TREE="x"'] + inc
        if not stage.get('no_exceptions_define'):
            base.append('-DVALIJSON_USE_EXCEPTIONS=1')

        def one(src):
            if isinstance(src, str):
                path, fl = src, []
            else:
                path, fl = src[0], [f.replace('{repo}', REPO).replace('{tmp}', tmp) for f in src[1]]
            o = os.path.join(tmp, hashlib.md5((path + ' '.join(fl)).encode()).hexdigest() + '.o')
            r = subprocess.run(base + stage.get('flags', []) + fl + ['-c', os.path.join(HERE, path), '-o', o],
                               capture_output=True, text=True)
            return o, r
        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(one, stage['srcs']))
        bad = [(k, r) for k, (o, r) in enumerate(res) if r.returncode != 0]
        if bad:
            # A configuration that no longer compiles, next to the plain one that does, is a verdict.
            plain = stage.get('configurations', [])
            if plain and not any(k in plain for k, _ in bad):
                return None, BROKEN + 'configuration %s does not compile: %s' % (
                    ' '.join(f for f in stage['srcs'][bad[0][0]][1] if f.startswith(('-DCFG', '-DVALIJSON', '-fno', '-std'))), bad[0][1].stderr[:3000])
            return None, bad[0][1].stderr[-6000:]
        out = os.path.join(tmp, 'exe')
        r = subprocess.run([stage.get('cxx', 'g++')] + stage.get('flags', []) + [o for o, _ in res] + ['-o', out] +
                           stage.get('libs', []) + ['-lpthread'], capture_output=True, text=True)
        if r.returncode != 0:
            return None, r.stderr[-6000:]
        os.replace(out, exe)
        return exe, None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def read_slots(path):
    try:
        b = open(path, 'rb').read()
    except OSError:
        return None
    parts, slot = [], len(b) // 4
    for k in range(2):
        n = struct.unpack_from('<I', b, k * slot)[0] if slot else 0
        parts.append(b[k * slot + 4:k * slot + 4 + n].decode('utf-8', 'surrogateescape'))
    return ''.join(parts)


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=98',
           TSAN_OPTIONS='exitcode=98:halt_on_error=1', LC_ALL='C.UTF-8', QT_QPA_PLATFORM='offscreen')


def fail_kind(rc):
    if rc == 97:
        return 'does not terminate (no progress)'
    if rc == 98:
        return 'sanitizer report'
    if rc < 0:
        return 'process ended by signal %d' % -rc
    if rc >= 128:
        return 'process ended by signal %d' % (rc - 128)
    return 'process ended with status %d' % rc


def run_replay(exe, path, timeout=120):
    work = tempfile.mkdtemp(prefix='r-', dir=os.path.join(HERE, 'build'))
    try:
        r = subprocess.run([exe, '--replay', path, '--out', work, '--hang', '20'], capture_output=True, text=True, errors='replace', timeout=timeout, env=ENV, cwd=work)
        return r.returncode, (r.stdout + r.stderr)
    except subprocess.TimeoutExpired:
        return 97, 'timeout'
    finally:
        shutil.rmtree(work, ignore_errors=True)


def jtext(s):
    return s


def write_evidence(pid, spec, tier, seed, counters, dist, samples, violations, t0):
    cov = registry.coverage(pid, spec, counters, dist, samples, tier)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec['level'], 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': violations}
    with open(HERE + '/evidence/%s.json' % pid, 'w', encoding='utf-8', errors='backslashreplace') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


def check(pid, tier):
    t0 = time.time()
    spec = registry.CHECKS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    os.makedirs(HERE + '/replays', exist_ok=True)
    os.makedirs(HERE + '/build', exist_ok=True)
    for f in os.listdir(HERE + '/replays'):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(HERE, 'replays', f))
    findings = json.load(open(KNOWN))['findings']
    mine = [f for f in findings if f['property'] == pid and f['status'] == 'known']
    counters, dist, samples, violations, known_lines = {}, {}, [], [], []
    work = tempfile.mkdtemp(prefix='w-', dir=HERE + '/build')
    errors = []
    try:
        stages = spec['stages']
        # build all stages up front, in parallel
        need = [s for s in stages if s['parts'].get(tier)]
        with ThreadPoolExecutor(max(1, len(need))) as ex:
            built = list(ex.map(lambda s: build(s, None), need))
        for s, (exe, err) in zip(need, built):
            if exe is None and err.startswith(BROKEN):
                path = HERE + '/replays/%s-0.json' % pid
                json.dump({'property': pid, 'stage': s['name'], 'part': '', 'case': None, 'message': err}, open(path, 'w'))
                write_evidence(pid, spec, tier, seed, {'broken_configurations': 1}, {}, ['build'], 1, t0)
                print('%s\nVIOLATION property=%s replay=%s' % (err, pid, path))
                return 1
            if exe is None:
                # The tree does not compile with the harness: no verdict.
                print('BUILD-ERROR %s\n%s' % (s['name'], err))
                return 2
        jobs = []
        for s, (exe, _) in zip(need, built):
            for part in s['parts'][tier]:
                n = s.get('shards', NPROC)
                for i in range(n):
                    jobs.append((s, exe, part, i, n))

        # known findings are re-executed in their own process each
        for f in mine:
            st = next((s for s in need if s['name'] == f.get('stage', need[0]['name'])), None)
            if st is None:
                continue
            exe = built[need.index(st)][0]
            p = os.path.join(work, 'known.json')
            json.dump({'property': pid, 'part': f.get('part', ''), 'case': f['case']}, open(p, 'w'))
            rc, out = run_replay(exe, p)
            if rc != 0:
                known_lines.append('KNOWN-FINDING: property=%s %s' % (pid, f['what']))

        limit = 800 if tier == 'quick' else 6 * 3600

        def run(job):
            s, exe, part, i, n = job
            d = os.path.join(work, '%s-%s-%d' % (s['name'], hashlib.md5(part.encode()).hexdigest()[:8], i))
            os.makedirs(d)
            slots = os.path.join(d, 'slots')
            cmd = [exe, '--prop', pid, '--part', part, '--tier', tier, '--shard', '%d/%d' % (i, n), '--out', d,
                   '--known', KNOWN, '--seed', str(seed), '--slots', slots, '--hang', str(s.get('hang', 30))]
            for attempt in (1, 2):
                try:
                    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=d,
                                       timeout=max(30, limit - (time.time() - t0)))
                    rc, err = r.returncode, (r.stdout + r.stderr).decode('utf-8', 'replace')
                except subprocess.TimeoutExpired:
                    rc, err = 96, 'shard exceeded the time limit'
                if rc == 97 and attempt == 1:
                    cmd[-1] = '90'       # a loaded machine can look like a hang
                    continue
                break
            return job, d, rc, err, slots
        with ThreadPoolExecutor(NPROC) as ex:
            results = list(ex.map(run, jobs))
        for (s, exe, part, i, n), d, rc, err, slots in results:
            shard = None
            for f in os.listdir(d):
                if f.startswith('shard-') and f.endswith('.json'):
                    shard = json.loads(open(os.path.join(d, f), 'rb').read().decode('utf-8', 'surrogateescape'))
                elif f.startswith('set-'):
                    b = open(os.path.join(d, f), 'rb').read()
                    dist.setdefault(f.split('-')[-1], set()).update(struct.unpack('<%dQ' % (len(b) // 8), b))
            if shard:
                for k, v in shard['counters'].items():
                    counters[k] = counters.get(k, 0) + v
                for x in shard['samples']:
                    if len(samples) < 6 and len(json.dumps(x)) < 4000:
                        samples.append(x)
                for v in shard['violations']:
                    violations.append((s, exe, part, v['case'], v['message']))
            if not (shard and shard.get('done')):
                if rc in (3, 96, -9):
                    errors.append('%s/%s shard %d: rc %d %s' % (s['name'], part, i, rc, err[-2000:]))
                    continue
                case = None
                txt = read_slots(slots)
                try:
                    case = json.loads(txt) if txt else None
                except ValueError:
                    case = {'unparsed_slots': txt}
                tail = ' | '.join([x for x in err.strip().splitlines() if x.strip()][:6])[:800]
                violations.append((s, exe, part, case, '%s: %s' % (fail_kind(rc), tail)))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    lines = []
    confirmed = []
    for k, (s, exe, part, case, msg) in enumerate(violations[:int(os.environ.get('VH_MAX', 6))]):
        path = os.path.join(HERE, 'replays', '%s-%d.json' % (pid, k))
        with open(path, 'w', encoding='utf-8', errors='surrogateescape') as f:
            json.dump({'property': pid, 'stage': s['name'], 'part': part, 'case': case, 'message': msg}, f,
                      ensure_ascii=False)
        rc, out = run_replay(exe, path)
        if rc == 0:
            msg += ' [the single case does not fail alone; replay with the whole part]'
        lines.append((path, msg, rc))
    write_evidence(pid, spec, tier, seed, counters, {k: len(v) for k, v in dist.items()}, samples, len(violations), t0)
    for l in known_lines:
        print(l)
    if lines:
        lines.sort(key=lambda x: x[2] == 0)
        for path, msg, rc in lines:
            print('  %s: %s' % (os.path.basename(path), msg.encode('utf-8', 'backslashreplace').decode()[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, lines[0][0]))
        return 1
    if errors:
        print('CHECK-ERROR\n' + '\n'.join(errors))
        return 2
    print('%s %s: held; %s (%.1f s)' % (pid, tier, ', '.join('%s=%d' % kv for kv in sorted(counters.items())), time.time() - t0))
    return 0


def replay(path):
    f = json.load(open(path, encoding='utf-8', errors='surrogateescape'))
    spec = registry.CHECKS[f['property']]
    st = next(s for s in spec['stages'] if s['name'] == f['stage'])
    exe, err = build(st, None)
    if exe is None:
        print(err)
        return 1 if err.startswith(BROKEN) else 2
    rc, out = run_replay(exe, os.path.abspath(path))
    print(out)
    return 1 if rc else 0


def setup():
    r = subprocess.run(['g++', '-std=c++17', '-fsyntax-only', '-DVALIJSON_USE_EXCEPTIONS=1', '-I' + REPO + '/include',
                        os.path.join(HERE, 'lib/smoke.cpp')], capture_output=True, text=True)
    print(r.stderr[-2000:])
    return r.returncode


if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == 'check':
        tier = a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick')
        sys.exit(check(a[1], tier))
    elif a and a[0] == 'replay':
        sys.exit(replay(a[1]))
    elif a and a[0] == 'setup':
        sys.exit(setup())
    print(__doc__)
    sys.exit(2)
