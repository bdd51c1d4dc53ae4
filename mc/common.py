"""Shared by all checks: building from the repository's working tree, running
harnesses in parallel, evidence, violations and replays."""
import json, os, sys, subprocess, tempfile, shutil, time, signal, atexit, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = os.path.join(VERIF, 'mc')
REPO = os.environ.get('MC_REPO', '/repo')
OUT = os.environ.get('MC_OUT', VERIF)
NCPU = int(os.environ.get('MC_JOBS', os.cpu_count() or 4))
VENV_PY = '/opt/vp/venv/bin/python'

UNDEFINED = re.compile(r'ERROR: AddressSanitizer|runtime error: |Assertion .* failed|Error: (attempt to|elements|comparison|function|unable|iterator|string)|Fortran runtime error: (Index|Array bound|Substring|Attempting to|Pointer|Allocatable|Loop|Dimension)')

class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay

class CheckError(Exception):
    """The check could not give an answer."""

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='mc-%s-' % pid)
        atexit.register(shutil.rmtree, self.work, True)
        self.stats = {}
        self.samples = []
        self.known = []         # known findings met
        self.assumptions = []
        self.bounds = []
        self.exhaustive = True
        self.extra = {}
        self.replay = None      # set when replaying a single case
        self.violations = []

    def path(self, *a):
        return os.path.join(self.work, *a)

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    # ---- building -------------------------------------------------------
    def sh(self, cmd, timeout=600, cwd=None, env=None, input=None, ok=None):
        e = dict(os.environ)
        if env:
            e.update(env)
        p = subprocess.Popen(cmd, cwd=cwd or self.work, env=e, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            out, err = p.communicate(input.encode() if input is not None else None, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            rc = 'timeout'
        out, err = out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')
        if ok is not None and rc not in ok:
            raise CheckError('command failed (%s): %s\n%s\n%s' % (rc, ' '.join(map(str, cmd)), out[-3000:], err[-3000:]))
        return rc, out, err

    def build(self, *cmds):
        """Run independent compile commands in parallel."""
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda c: self.sh(c, ok=(0,)), cmds))

    # ---- running harnesses ----------------------------------------------
    def harness(self, exe, args=(), shards=None, env=None, timeout=800, label=None, crash_is_violation=True, cwd_each=False, ub=False):
        """Run a harness (see h/hx.h) in shards; raise Violation on the first
        violation, after replaying the single case.  With ub, only abnormal ends
        that show undefined behaviour count."""
        label = label or os.path.basename(exe if isinstance(exe, str) else exe[0])
        pre = [exe] if isinstance(exe, str) else list(exe)
        n = shards or NCPU
        th = ['--thorough'] if self.thorough else []
        rp = self.replay
        if rp is not None:
            if rp.get('label') != label or rp.get('args') != list(args):
                return
            jobs = [rp['select']] if rp.get('select') else [['--only', str(rp['case'])]]
        else:
            jobs = [['--shard', str(i), str(n)] for i in range(n)]
        results = []
        def one(ij):
            i, j = ij
            prog = self.path('prog-%s-%d-%d' % (label, i, id(j)))
            cwd = self.work
            if cwd_each:
                cwd = tempfile.mkdtemp(dir=self.work)
            r = self.sh(pre + list(args) + th + j + ['--progress', prog], timeout=timeout, env=dict({'MALLOC_PERTURB_': '65'}, **(env or {}), **({'MC_UB': '1'} if ub else {})), cwd=cwd)
            p = ''
            if os.path.exists(prog):
                p = open(prog, 'rb').read().split(b'\0')[0].decode('utf-8', 'replace')
            return r, p
        with ThreadPoolExecutor(NCPU) as ex:
            t0 = time.time(); results = list(ex.map(one, enumerate(jobs)))
        if os.environ.get('MC_TIME'): print('TIME %6.1f %s' % (time.time() - t0, label), flush=True)
        bad, errors = [], []
        for job, ((rc, out, err), prog) in zip(jobs, results):
            for line in out.splitlines():
                if line.startswith('MCSTAT '):
                    _, k, v = line.split()
                    self.stat(k, int(v))
                elif line.startswith('MCSAMPLE '):
                    if len([s for s in self.samples if s.startswith(label)]) < 2:
                        self.sample('%s: %s' % (label, line[9:]))
                elif line.startswith('MCINCOMPLETE'):
                    self.exhaustive = False
                    self.bounds.append('%s: %s' % (label, line[13:]))
                elif line.startswith('MCKNOWN '):
                    self.known.append(line[8:])
            v = re.search(r'^MCVIOLATION case=(\S+) (.*)$', out, re.M)
            if rc == 10 and v:
                bad.append((v.group(1), v.group(2), out, err, job))
            elif rc == 0 and 'MCDONE' in out:
                pass
            elif rc == 'timeout':
                errors.append('%s timed out at %s' % (label, prog))
            elif rc == 12:
                errors.append('%s: %s %s' % (label, out[-1500:], err[-1500:]))
            elif ub and prog and not (rc in (99, -4, -6, -7, -8, -11) or UNDEFINED.search(err)):
                self.exhaustive = False
                self.bounds.append('%s: ended with status %s at %s' % (label, rc, prog[:200]))
            elif crash_is_violation and prog:
                m = re.search(r'(ERROR: AddressSanitizer.*|runtime error:.*|Fortran runtime error.*|terminate called.*|what\(\).*|Timeout \(.*)', err)
                bad.append((prog.split(' ')[0], '[%s] program ended with status %s: %s' % (prog.partition(' ')[2], rc, m.group(1) if m else err.strip()[-300:].replace('\n', '|')), out, err, job))
            else:
                errors.append('%s ended with %s at %s\n%s\n%s' % (label, rc, prog, out[-2000:], err[-3000:]))
        if errors and not bad:
            raise CheckError(errors[0])
        if bad:
            bad.sort(key=lambda b: int(b[0]) if b[0].lstrip('-').isdigit() else 0)
            case, what, out, err, job = bad[0]
            rep = {'property': self.pid, 'label': label, 'args': list(args), 'case': case, 'what': what, 'tier': self.tier, 'stderr': err[-4000:]}
            if rp is None:
                # replay the single case before reporting it; where it fails only after
                # other cases (something is kept between them), the sequence of cases
                (rc, out, err), _ = one((99, ['--only', str(case)]))
                if rc == 0:
                    (rc, out, err), _ = one((98, job))
                    if rc == 0:
                        raise CheckError('violation did not replay: %s %s' % (label, what))
                    rep['select'] = job
                    what += ' (after the cases before it in the same process)'
            raise Violation('%s: %s' % (label, what), rep)

    # ---- results ----------------------------------------------------------
    def evidence(self, nviol):
        cov = {
            'states': self.stats.get('states', 0),
            'transitions': self.stats.get('transitions', 0),
            'traces_validated_against_impl': self.stats.get('traces', 0),
            'samples': self.samples,
            'exhaustive': bool(self.exhaustive and self.replay is None and not nviol),
            'bounds': self.bounds,
            'counts': {k: v for k, v in sorted(self.stats.items()) if k not in ('states', 'transitions', 'traces')},
        }
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': nviol}
        d = os.path.join(OUT, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')

def known_findings():
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
                if m:
                    res.append(m.groups())
    return res
