"""Build and drive the simulation executables."""
import fcntl
import json
import os
import re
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build', 'sim')
NCPU = max(1, min(8, os.cpu_count() or 1))

FAULTS = ['allocation-failure', 'exception-in-parallel-task', 'stalled-thread',
          'forced-context-switch', 'task-stolen-by-other-thread',
          'task-cancelled', 'element-copy-threw', 'operation-rejected']
POLICIES = ['random-walk', 'pct', 'conflict-directed', 'sync-only', 'stall',
            'run-to-block']


def tool_env():
    env = dict(os.environ)
    env['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    env['LC_ALL'] = 'C.UTF-8'
    env['CCACHE_DIR'] = os.path.join(VERIF, 'build', 'ccache')
    env['CCACHE_NOSTATS'] = '1'
    env['CCACHE_MAXSIZE'] = '4G'
    for k in ('CXXFLAGS', 'CFLAGS', 'LDFLAGS', 'CPATH', 'CC', 'CXX'):
        env.pop(k, None)
    return env


def build(targets):
    """Build from /repo's working tree. Raises on failure."""
    os.makedirs(BUILD, exist_ok=True)
    env = tool_env()
    with open(os.path.join(VERIF, 'build', 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        log = os.path.join(VERIF, 'build', 'build.log')
        cmake = ['cmake', '-S', VERIF, '-B', BUILD, '-G', 'Ninja',
                 '-DCMAKE_CXX_COMPILER=/usr/bin/clang++']
        if os.path.exists('/usr/bin/ccache'):
            cmake.append('-DCMAKE_CXX_COMPILER_LAUNCHER=/usr/bin/ccache')
        with open(log, 'w') as f:
            steps = []
            if not os.path.exists(os.path.join(BUILD, 'build.ninja')):
                steps.append(cmake)
            steps.append(['ninja', '-C', BUILD, '-j', str(NCPU)] + targets)
            for step in steps:
                rc = subprocess.run(step, env=env, stdout=f,
                                    stderr=subprocess.STDOUT).returncode
                if rc != 0:
                    break
        if rc != 0:
            with open(log) as f:
                tail = [l for l in f if 'error' in l or 'FAILED' in l]
            raise RuntimeError('build failed, see %s\n%s' %
                               (log, ''.join(tail[:20])))


def spec_text(spec):
    c = spec['config']
    out = ['workload %s' % spec['workload']]
    for k in ('seed', 'policy', 'workers', 'pct_depth', 'pct_len', 'junk'):
        out.append('%s %d' % (k, c[k]))
    out.append('gap %r' % c['gap'])
    out.append('draws %d %s' % (len(spec['draws']),
                                ' '.join(map(str, spec['draws']))))
    if spec.get('choices') is not None:
        out.append('choices %d %s' %
                   (len(spec['choices']),
                    ' '.join('%d:%d' % (e, v) for e, v in spec['choices'])))
    out.append('end')
    return '\n'.join(out) + '\n'


class Server:
    """One process that runs specs, each in a forked child."""

    def __init__(self, exe, wall=60, cpu=0):
        self.p = subprocess.Popen(
            [os.path.join(BUILD, exe), 'serve', '--wall', str(wall), '--cpu',
             str(cpu)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True, env=tool_env())

    def run(self, spec):
        self.p.stdin.write(spec_text(spec))
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('simulation server died')
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=10)
        except Exception:
            self.p.kill()
            self.p.wait()


def run_fresh(exe, spec, wall=60):
    s = Server(exe, wall)
    try:
        return s.run(spec)
    finally:
        s.close()


def as_spec(result, replay=True):
    return {'workload': result['workload'], 'draws': result['draws'],
            'choices': result['choices'] if replay else None,
            'config': result['config']}


def same(a, b):
    return a['status'] == 2 and b['status'] == 2 and a['cls'] == b['cls']


def gate(exe, result, wall=60):
    """Reproduce from the recorded decisions in two fresh processes."""
    spec = as_spec(result)
    a = run_fresh(exe, spec, wall)
    if not same(a, result):
        return None
    b = run_fresh(exe, spec, wall)
    if not same(b, a) or a['hash'] != b['hash']:
        return None
    return a


def minimise(exe, result, seconds):
    """Shrink the workload draws, then the schedule, keeping the class."""
    end = time.time() + seconds
    srv = Server(exe, wall=30)
    best = result
    tried = 0

    def attempt(spec):
        nonlocal best, tried, srv
        tried += 1
        try:
            r = srv.run(spec)
        except RuntimeError:
            srv = Server(exe, wall=30)
            return False
        if same(r, result):
            best = r
            return True
        return False

    def with_draws(d, seeds):
        for k in range(seeds):
            cfg = dict(best['config'])
            cfg['seed'] = best['config']['seed'] + k * 7919
            if attempt({'workload': best['workload'], 'draws': d,
                        'choices': None, 'config': cfg}):
                return True
            if time.time() > end:
                return False
        return False

    try:
        half = time.time() + seconds * 0.5
        # fewer task workers, then truncated and smaller draws
        progress = True
        while progress and time.time() < half:
            progress = False
            d = best['draws']
            n = len(d)
            cut = n // 2
            while cut >= 1 and time.time() < half:
                if with_draws(best['draws'][:len(best['draws']) - cut], 3) and \
                        len(best['draws']) < n:
                    n = len(best['draws'])
                    progress = True
                else:
                    cut //= 2
            for i in range(len(best['draws'])):
                if time.time() > half or i >= len(best['draws']):
                    break
                v = best['draws'][i]
                for nv in sorted({0, v // 2, v - 1}):
                    if nv < 0 or nv >= v:
                        continue
                    d = list(best['draws'])
                    d[i] = nv
                    if with_draws(d, 3):
                        progress = True
                        break
        # schedule: delta debugging over the recorded decisions
        chunk = max(1, len(best['choices']) // 2)
        while time.time() < end and best['choices']:
            i = 0
            removed = False
            while i < len(best['choices']) and time.time() < end:
                ch = best['choices'][:i] + best['choices'][i + chunk:]
                before = len(best['choices'])
                if attempt(dict(as_spec(best), choices=ch)) and \
                        len(best['choices']) < before:
                    removed = True
                else:
                    i += chunk
            if chunk == 1 and not removed:
                break
            chunk = max(1, chunk // 2) if not removed or chunk > 1 else 1
    finally:
        srv.close()
    return best, tried


def symbolise(exe, msg):
    pcs = re.findall(r'\+0x([0-9a-f]+)', msg)
    if not pcs:
        return []
    try:
        out = subprocess.run(
            ['/usr/bin/llvm-symbolizer', '--obj=' + os.path.join(BUILD, exe),
             '--functions=linkage', '--demangle'] + ['0x' + p for p in pcs],
            capture_output=True, text=True, timeout=120).stdout
    except Exception:
        return []
    res = []
    for block in out.strip().split('\n\n'):
        lines = block.split('\n')
        res.append(' <- '.join('%s %s' % (lines[i][:160], lines[i + 1])
                               for i in range(0, len(lines) - 1, 2)))
    return ['+0x%s %s' % (p, r) for p, r in zip(pcs, res)]
