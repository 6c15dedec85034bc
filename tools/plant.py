#!/usr/bin/env python3
"""Planted bugs: confirm them in a scratch copy, or run checks against them.

  plant.py confirm ID...       builds, stable tests and demonstration, in a scratch copy of /repo
  plant.py run ID... [--checks C01,C02|all] [--tier T]   applies each to /repo, runs the checks, undoes it
"""
import json, os, subprocess, sys, tempfile, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'],
           GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')


def sh(cmd, cwd, timeout=600, env=ENV):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'pass', 'passed', 'tests', 'stable_pass'):
        if k in b:
            return set(b[k])
    raise SystemExit('baseline keys: %s' % list(b))


def confirm(id):
    d = os.path.join(V, 'seeded', id)
    tmp = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        demo = os.path.join(tmp, 'demo')
        shutil.copytree(d, demo)
        for f in os.listdir(demo):
            if f.endswith(('.diff', '.patch')) or f == 'meta.json':
                os.remove(os.path.join(demo, f))
        for n in range(2):
            rc, out = sh(['bash', os.path.join(demo, 'demo.sh')], repo, 300)
            if rc:
                return 'demo fails on the unchanged tree:\n' + out[-3000:]
        # only lines of the original repository
        rc, out = sh(['git', 'apply', '--check', os.path.join(d, 'patch.diff')], repo)
        if rc:
            return 'does not apply: ' + out
        mine = mine_lines(repo, os.path.join(d, 'patch.diff'))
        if mine:
            return 'changes lines of a fix commit: %s' % mine
        sh(['git', 'apply', os.path.join(d, 'patch.diff')], repo)
        rc, out = sh(['go', 'build', './...'], repo)
        if rc:
            return 'does not build:\n' + out[-2000:]
        ts = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + repo)
        open(os.path.join(tmp, 'test.sh'), 'w').write(ts)
        res = os.path.join(tmp, 'out.json')
        sh(['bash', os.path.join(tmp, 'test.sh'), res], repo, 400)
        o = json.load(open(res))
        passed = set(o.get('pass') or o.get('passed') or [])
        missing = stable() - passed
        if missing:
            return 'tests fail: %s' % sorted(missing)[:6]
        for n in range(2):
            rc, out = sh(['bash', os.path.join(demo, 'demo.sh')], repo, 300)
            if rc == 0:
                return 'demo passes with the patch'
            if rc == 124:
                return 'demo hangs'
        if 'VH' in os.environ:
            print(out[-1500:])
        return 'ok'
    finally:
        shutil.rmtree(tmp)


def mine_lines(repo, patch):
    base = subprocess.run(['git', 'log', '--format=%H', '--grep', '^fix:', '--invert-grep', '-1'], cwd=repo, capture_output=True, text=True).stdout.strip()
    bad, f, n, changed = [], None, 0, 0
    for l in open(patch):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            bl = subprocess.run(['git', 'blame', '-l', '-s', f], cwd=repo, capture_output=True, text=True).stdout.split('\n')
        elif l.startswith('@@'):
            n = int(l.split()[1][1:].split(',')[0])
        elif l.startswith('-') and not l.startswith('---'):
            changed += 1
            if bl[n - 1].split()[0].lstrip('^')[:39] not in base:
                bad.append((f, n))
            n += 1
        elif l.startswith(' '):
            n += 1
    if not changed:
        bad.append('no original line changed')
    return bad


def run(ids, checks, tier):
    table = {}
    for id in ids:
        d = os.path.join(V, 'seeded', id)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        cs = [prop] if not checks else sorted(c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']) if checks == 'all' else checks.split(',')
        rc, out = sh(['git', 'apply', os.path.join(d, 'patch.diff')], '/repo')
        if rc:
            print(id, 'does not apply', out)
            continue
        try:
            res = []
            for c in cs:
                t = time.time()
                env = dict(ENV, VERIF_TIER=tier, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
                rc, out = sh([sys.executable, os.path.join(V, 'check.py'), c] + (['--thorough'] if tier == 'thorough' else []), V, 900, env)
                v = [l for l in out.split('\n') if l.startswith('VIOLATION property=' + c)]
                s = 'caught' if rc == 1 and v else 'quiet' if rc == 0 else 'rc%d' % rc
                if s not in ('quiet',) or c == prop:
                    res.append('%s:%s(%.0fs)' % (c, s, time.time() - t))
                if s.startswith('rc') or ('VH' in os.environ and s == 'caught'):
                    print(out[-1500:])
            print(id, prop, ' '.join(res), flush=True)
        finally:
            sh(['git', 'checkout', '--', '.'], '/repo')


def main():
    a = sys.argv[1:]
    cmd, ids, checks, tier = a[0], [], None, 'quick'
    i = 1
    while i < len(a):
        if a[i] == '--checks':
            i += 1; checks = a[i]
        elif a[i] == '--tier':
            i += 1; tier = a[i]
        else:
            ids.append(a[i])
        i += 1
    if not ids:
        ids = sorted(os.listdir(os.path.join(V, 'seeded')))
    if cmd == 'confirm':
        for id in ids:
            print(id, confirm(id), flush=True)
    else:
        run(ids, checks, tier)


if __name__ == '__main__':
    main()
