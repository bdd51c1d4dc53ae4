#!/usr/bin/env python3
"""python3 tools/seed.py [--checks C01,C02|own|all] [--no-build] ID...
Validates planted bugs in scratch copies of /repo: the patch applies, builds, passes the
stable tests, its demo fails with the patch and passes without; then runs checks on it."""
import sys, os, json, subprocess, shutil, tempfile, argparse
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLEAN = '/tmp/seed-clean'

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode('utf-8', 'replace')

def script(name, d):
    s = open('/opt/vp/' + name).read().replace('/repo', d)
    if name == 'test.sh':
        s = s.replace('bash /opt/vp/build.sh', 'bash %s/.vp/build.sh' % d).replace('. /opt/vp/env.sh', '. /opt/vp/env.sh')
    os.makedirs(d + '/.vp', exist_ok=True)
    f = d + '/.vp/' + name
    open(f, 'w').write(s)
    return f

def copy(d):
    shutil.rmtree(d, True)
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('_build', '.git'))
    sh(['git', 'init', '-q'], cwd=d)
    script('build.sh', d); script('test.sh', d)

def build(d):
    rc, o = sh(['bash', d + '/.vp/build.sh'], cwd=d)
    return rc, o

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='+'); ap.add_argument('--checks', default='own'); ap.add_argument('--fast', action='store_true', help='checks only')
    a = ap.parse_args()
    head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD']).decode().strip()
    if not a.fast and (not os.path.exists(CLEAN + '/.head') or open(CLEAN + '/.head').read() != head):
        copy(CLEAN); rc, o = build(CLEAN)
        assert rc == 0, o[-2000:]
        open(CLEAN + '/.head', 'w').write(head)
    for i in a.ids:
        sd = os.path.join(V, 'seeded', i)
        meta = json.load(open(sd + '/meta.json'))
        d = tempfile.mkdtemp(prefix='seed-', dir='/tmp'); r = d + '/repo'
        try:
            copy(r)
            rc, o = sh(['git', 'apply', sd + '/patch.diff'], cwd=r)
            if rc: print(i, 'PATCH DOES NOT APPLY', o); continue
            msg = []
            if not a.fast:
                rc, o = build(r)
                if rc: print(i, 'DOES NOT BUILD', o[-1500:]); continue
                rc, o = sh(['bash', r + '/.vp/test.sh', d + '/out.json'], cwd=r)
                res = json.load(open(d + '/out.json'))
                stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                if stable - set(res['passed']): msg.append('TESTS FAIL: %s' % sorted(stable - set(res['passed'])))
                shutil.copytree(sd, d + '/demo', ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
                rc1, o1 = sh(['bash', d + '/demo/demo.sh'], cwd=CLEAN, timeout=300)
                rc2, o2 = sh(['bash', d + '/demo/demo.sh'], cwd=r, timeout=300)
                if rc1 != 0: msg.append('DEMO FAILS ON CLEAN: %s' % o1[-800:])
                if rc2 == 0: msg.append('DEMO PASSES WITH BUG: %s' % o2[-800:])
            cs = [meta['property']] if a.checks == 'own' else [] if a.checks == 'none' else [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']] if a.checks == 'all' else a.checks.split(',')
            hits = []
            for c in cs:
                rc, o = sh([sys.executable, V + '/mc/check.py', c, '--tier', 'quick'], cwd=V, env={'MC_REPO': r, 'MC_OUT': d})
                v = [l for l in o.splitlines()][-3:]
                if rc == 1: hits.append(c); last = v[-2] if len(v) > 1 else ''
                elif rc != 0: msg.append('%s: CHECK ERROR %s' % (c, o[-600:]))
                if rc == 1 and c == meta['property']: msg.append('caught: ' + last[:250])
            if meta['property'] in cs and meta['property'] not in hits: msg.append('MISSED by ' + meta['property'])
            print(i, '| hits:', ' '.join(hits), '|', ' ; '.join(msg), flush=True)
        finally:
            shutil.rmtree(d, True)
main()
