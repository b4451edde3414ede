#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [--replay FILE]

Builds the harness of the property against /repo's working tree, runs it in
VERIF_SHARDS processes with seeds derived from VERIF_SEED, writes
evidence/ID.json. Exit 0: held on everything explored; 1 with a VIOLATION line:
broken; anything else: the check itself failed (build error, out of memory, time
limit)."""
import base64, glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, 'harness')
REPO = '/repo'
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS  # noqa: E402

GB = 1 << 30


def env(extra=None):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOSUMDB='off', HOME='/root')
    e.setdefault('PATH', '/usr/local/bin:/usr/bin:/bin')
    e.pop('GOCACHE', None)
    e.update(extra or {})
    return e


def die(msg, rc=3):
    print('CHECK-ERROR: ' + msg)
    sys.exit(rc)


def build(prop, tmp):
    """Compiles the test binary (with the schedule-fuzzing overlay if asked for)."""
    cfg = PROPS[prop]
    binary = os.path.join(tmp, 'test.bin')
    cmd = ['go', 'test', '-c', '-vet=off', '-o', binary]
    pkg = './p/' + prop.lower()

    def compile(args):
        r = subprocess.run(cmd + args + [pkg], cwd=HARNESS, env=env(), capture_output=True, text=True)
        return r.returncode == 0, (r.stdout + r.stderr)[-4000:]

    if cfg.get('instr'):
        tool = os.path.join(tmp, 'instr')
        r = subprocess.run(['go', 'build', '-o', tool, './cmd/instr'], cwd=HARNESS, env=env(), capture_output=True, text=True)
        if r.returncode:
            die('building instr: ' + r.stderr[-2000:])
        for level in ('2', '1'):  # 1: statements only, should 2 meet code that it cannot rewrite
            ov = os.path.join(tmp, 'overlay%s.json' % level)
            r = subprocess.run([tool, '-repo', REPO, '-out', os.path.join(tmp, 'ov' + level), '-overlay', ov, '-level', level] + cfg['instr'], capture_output=True, text=True)
            if r.returncode:
                continue
            ok, msg = compile(['-tags', 'instr', '-overlay', ov])
            if ok:
                return binary
        print('note: built without schedule points')
    ok, msg = compile([])
    if not ok:
        die('build failed:\n' + msg)
    return binary


class Shard:
    def __init__(self, prop, binary, tmp, k, n, seed, tier, extra_args=(), only=None):
        cfg = PROPS[prop]
        self.k, self.seed = k, seed * 1000 + k + 1
        self.dir = os.path.join(tmp, 'shard%d' % k)
        os.makedirs(self.dir)
        self.out = os.path.join(self.dir, 'stats.json')
        self.journal = os.path.join(self.dir, 'journal')
        self.log = os.path.join(self.dir, 'log')
        factor = cfg.get('scale', 1) * (cfg.get('thorough', 8) if tier == 'thorough' else 1)
        args = [binary, '-test.timeout=0', '-test.count=1', '-test.failfast', '-rapid.seed=%d' % self.seed,
                '-rapid.shrinktime=%s' % cfg.get('shrink', '10s'), '-rapid.log=false']
        if only:
            args.append('-test.run=^%s$' % only)
        args += list(extra_args)
        e = env({'VERIF_SHARDS': str(n), 'VERIF_SHARD': str(k), 'VERIF_FACTOR': str(factor), 'VERIF_RUNSEED': str(self.seed),
                 'VERIF_OUT': self.out, 'VERIF_JOURNAL': self.journal, 'VERIF_TIER': tier, 'GOTRACEBACK': 'all'})
        e.update(cfg.get('env', {}))
        lim = cfg.get('mem', 12) * GB

        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.f = open(self.log, 'wb')
        self.p = subprocess.Popen(args, cwd=self.dir, env=e, stdout=self.f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, preexec_fn=pre)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def text(self):
        with open(self.log, 'rb') as f:
            return f.read().decode('utf-8', 'replace')

    def verdict(self, prop):
        """('ok'|'violation'|'error', test, detail)"""
        rc, out = self.p.returncode, self.text()
        if rc == 0:
            return 'ok', None, ''
        jr = ''
        if os.path.exists(self.journal):
            jr = open(self.journal, errors='replace').read().strip()
        test = (jr.split() or [None])[0]
        if rc < 0:
            return 'error', test, 'killed by signal %d (%s)' % (-rc, jr)
        crash = re.search(r'^(panic: .*|fatal error: .*|runtime: out of memory.*|SIGSEGV.*)$', out, re.M)
        fails = re.findall(r'^--- FAIL: (\w+)', out, re.M)
        if rc == 97:  # the watchdog of package h
            if 'go-iproto' in out:
                return 'violation', test, 'stuck: ' + jr
            return 'error', test, 'harness stuck: ' + jr
        if 'HARNESS-ERROR' in out:
            return 'error', test, 'harness error: ' + re.search(r'HARNESS-ERROR.*', out).group(0)
        if fails:
            if re.search(r'\[rapid\] (only generated|unable to generate)', out):
                return 'error', fails[0], 'generator exhausted'
            return 'violation', fails[0], ''
        if crash:
            msg = crash.group(1)
            if 'out of memory' in msg and not PROPS[prop].get('oom'):
                return 'error', test, msg
            if 'go-iproto' in out:
                return 'violation', test, 'crash: ' + msg + ' in ' + jr
            return 'error', test, 'crash outside the code under test: ' + msg
        return 'error', test, 'exit code %d' % rc


def save_replay(prop, sh, test, detail, seed, n, tier):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    rec = {'property': prop, 'test': test, 'seed': seed, 'shard': sh.k, 'shards': n, 'tier': tier, 'rapid_seed': sh.seed, 'detail': detail}
    ff = sorted(glob.glob(os.path.join(sh.dir, 'testdata', 'rapid', '*', '*.fail')))
    ff = [f for f in ff if '/%s/' % test in f] or ff
    if ff:
        rec['rapid_failfile'] = base64.b64encode(open(ff[0], 'rb').read()).decode()
    out = re.sub(r'(?m)^.*\[rapid\] draw .*\n', '', sh.text())
    rec['output'] = out if len(out) < 60000 else out[:40000] + '\n[...]\n' + out[-20000:]
    path = os.path.join(d, '%s-%s-%d.json' % (prop, tier, int(time.time() * 1000)))
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    return path


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        die('usage: check.py ID [--replay FILE]; IDs: ' + ' '.join(PROPS), 2)
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    seed = abs(seed) % (1 << 40)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    shards = []
    try:
        binary = build(prop, tmp)
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            return replay(prop, binary, tmp, sys.argv[3])
        n = cfg.get('shards', 4)
        limit = cfg.get('limit', 800) if tier == 'quick' else cfg.get('thorough_limit', 7200)
        shards = [Shard(prop, binary, tmp, k, n, seed, tier) for k in range(n)]
        end = t0 + limit
        early = []
        timed_out = False
        while any(s.p.poll() is None for s in shards):
            if not early:
                early = [s for s in shards if os.path.exists(s.out + '.failed')]
                if early:
                    end = min(end, time.time() + 200)  # for shrinking
            if time.time() > end:
                timed_out = True
                break
            # one failing shard is enough
            done = [s for s in shards if s.p.poll() is not None]
            if any(s.p.returncode for s in done if s.verdict(prop)[0] == 'violation'):
                time.sleep(0.2)
                break
            time.sleep(0.05)
        for s in shards:
            s.finished = s.p.poll() is not None
            if not s.finished:
                s.kill()
            s.f.close()
        res = [(s, s.verdict(prop)) for s in shards if s.finished]
        bad = [(s, v) for s, v in res if v[0] == 'violation']
        if not bad:
            bad = [(s, ('violation', open(s.out + '.failed').read(), 'failed, and was not shrunk in time')) for s in early if not s.finished]
        err = [(s, v) for s, v in res if v[0] == 'error']
        evidence(prop, cfg, tier, seed, [s for s in shards if s.finished], time.time() - t0, len(bad))
        for line in known(prop):
            print('KNOWN-FINDING: property=%s %s' % (prop, line))
        if bad:
            s, v = bad[0]
            path = save_replay(prop, s, v[1], v[2], seed, n, tier)
            print(json.load(open(path))['output'][:6000])
            print('test %s %s' % (v[1], v[2]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        if err:
            s, v = err[0]
            print(s.text()[-3000:])
            die('shard %d: %s' % (s.k, v[2]))
        if timed_out:
            die('time limit of %d s reached' % limit)
        print('%s held (%s, seed %d, %.0f s)' % (prop, tier, seed, time.time() - t0))
        return 0
    finally:
        for s in shards:
            if s.p.poll() is None:
                s.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def replay(prop, binary, tmp, path):
    rec = json.load(open(path))
    extra = []
    if rec.get('rapid_failfile'):
        ff = os.path.join(tmp, 'case.fail')
        open(ff, 'wb').write(base64.b64decode(rec['rapid_failfile']))
        extra = ['-rapid.failfile=' + ff]
    s = Shard(prop, binary, tmp, rec['shard'], rec['shards'], rec['seed'], rec['tier'], extra, rec['test'])
    s.p.wait()
    s.f.close()
    print(re.sub(r'(?m)^.*\[rapid\] draw .*\n', '', s.text())[-6000:])
    v = s.verdict(prop)
    print('replay:', v[0], v[2])
    if v[0] == 'violation':
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0 if v[0] == 'ok' else 3


def known(prop):
    p = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(p):
        return []
    pre = 'known: property=%s ' % prop
    return [l.strip()[len(pre):] for l in open(p) if l.startswith(pre)]


def evidence(prop, cfg, tier, seed, shards, wall, nviol):
    subs = {}
    for s in shards:
        if not os.path.exists(s.out):
            continue
        for name, st in json.load(open(s.out)).items():
            m = subs.setdefault(name, {'evaluations': 0, 'seen': set(), 'classes': {}, 'rule': st['rule'], 'samples': []})
            m['evaluations'] += st['evaluations']
            m['seen'].update(st['hashes'] or [])
            for k, v in st['classes'].items():
                m['classes'][k] = m['classes'].get(k, 0) + v
            m['samples'] += st['samples'] or []
    cov = {
        'evaluations': sum(m['evaluations'] for m in subs.values()),
        'distinct_nontrivial': sum(len(m['seen']) for m in subs.values()),
        'rule': '; '.join('%s: %s' % (k, m['rule']) for k, m in sorted(subs.items())),
        'samples': [{'test': k, 'case': c} for k, m in sorted(subs.items()) for c in m['samples'][:2]],
        'tests': {k: {'evaluations': m['evaluations'], 'distinct_nontrivial': len(m['seen']), 'classes': dict(sorted(m['classes'].items()))} for k, m in sorted(subs.items())},
        'processes': len(shards),
    }
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': cfg.get('level', 'exploration'),
                   'coverage': cov, 'assumptions': cfg.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': nviol}, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
