"""Runner shared by all checks: executes the real code (in a child process),
records traces, model-checks the specifications with TLC and lets TLC judge
the recorded traces.  See DESIGN.md."""

import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
EVID = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
TLA_CP = ('/opt/veriftools/tla/tla2tools.jar:'
          '/opt/veriftools/tla/CommunityModules-deps.jar')


class MachineryError(Exception):
    pass


def run_tlc(module, cfg, workdir, env=None, extra=(), workers=1,
            timeout=800, heap='3g'):
    """Run TLC on spec/<module>.tla with the given config text or file."""
    os.makedirs(workdir, exist_ok=True)
    meta = tempfile.mkdtemp(prefix='meta', dir=workdir)
    if '\n' in cfg:
        cfgf = os.path.join(meta, module + '.cfg')
        with open(cfgf, 'w') as f:
            f.write(cfg)
    else:
        cfgf = os.path.join(SPEC, cfg)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
           '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta, '-cp', TLA_CP, 'tlc2.TLC',
           '-metadir', os.path.join(meta, 'states'), '-nowarning',
           '-noGenerateSpecTE', '-workers', str(workers),
           '-config', cfgf] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timeout on %s' % module)
    finally:
        pass
    out = p.stdout.decode('utf-8', 'replace')
    out = '\n'.join(x for x in out.splitlines() if not x.startswith(
        ('Parsing file', 'Semantic processing', 'Running breadth',
         'TLC2 Version')))
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    ms = re.search(r'(\d+) states checked', out)
    res = {'rc': p.returncode, 'out': out, 'wall': time.time() - t0,
           'transitions': int(m.group(1)) if m else (int(ms.group(1)) if ms else 0),
           'states': int(m.group(2)) if m else 0}
    return res


class Recorder(object):
    """Collects trace events in the child process."""

    def __init__(self, path, tier, seed):
        self.f = open(path, 'w')
        self.tier = tier
        self.seed = seed
        self.n = 0
        self.traces = 0
        self.meta = {'judges': {}}
        self._files = {}
        self.dir = os.path.dirname(path)
        self.count = {}
        self.cur = None

    def quick(self):
        return self.tier == 'quick'

    def open_judge(self, name):
        """Select the judge (trace module) that subsequent traces go to."""
        if name not in self._files:
            p = os.path.join(self.dir, 'trace_%s.ndjson' % name)
            self._files[name] = [open(p, 'w'), p, 0, 0]
        self.cur = name

    def trace(self, key, judge=None, shards=1, **kw):
        """Start a new trace; key identifies the scenario."""
        if judge is not None:
            if shards > 1:
                judge = '%s#%d' % (judge, self.traces % shards)
            self.open_judge(judge)
        self.traces += 1
        ev = {'e': 'init', 'key': key}
        ev.update(kw)
        self._files[self.cur][3] += 1
        self._write(ev)

    def ev(self, e, **kw):
        d = {'e': e}
        d.update(kw)
        self._write(d)

    def _write(self, d):
        fl = self._files[self.cur]
        json.dump(jsonable(d), fl[0], separators=(',', ':'))
        fl[0].write('\n')
        fl[2] += 1

    def close(self):
        for k, v in self._files.items():
            v[0].close()
            self.meta['judges'][k] = {'path': v[1], 'lines': v[2],
                                      'traces': v[3]}
        json.dump(self.meta, self.f)
        self.f.close()


def jsonable(x):
    """Only ints (|x| < 2^31), strings, booleans, lists and dicts may reach
    TLC."""
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        if abs(x) >= 2**31 - 1:
            return (2**31 - 2) if x > 0 else -(2**31 - 2)
        return x
    if isinstance(x, str):
        return x
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    raise TypeError('cannot put %r into a trace' % (x,))


BIG = 2**31 - 2


def fx(x, scale):
    """Fixed point projection of a float; NaN/inf/complex map to BIG."""
    import math
    try:
        x = float(x)
    except Exception:
        return BIG
    if math.isnan(x) or math.isinf(x):
        return BIG
    v = int(round(x * scale))
    return max(-BIG, min(BIG, v))


def arr(a, scale=1):
    """Array projection: shape and fixed point values in C order."""
    import numpy as np
    a = np.asarray(a)
    return {'sh': [int(n) for n in a.shape],
            'v': [fx(v, scale) for v in a.ravel(order='C').tolist()]}


def mag(x):
    """Error magnitude on a log10 scale: an integer e such that
    10^(e-1) < x <= 10^e, clipped to [-30, 30]; -30 for 0, 99 for NaN."""
    import math
    try:
        x = float(x)
    except Exception:
        return 99
    if math.isnan(x) or math.isinf(x):
        return 99
    x = abs(x)
    if x <= 1e-30:
        return -30
    return max(-30, min(30, int(math.ceil(math.log10(x)))))


class Check(object):

    level = 'model_checking'

    def __init__(self, pid, mod, tier, seed):
        self.pid = pid
        self.mod = mod
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.ntr = 0
        self.nlines = 0
        self.samples = []
        self.viol = []
        self.notes = {}
        base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
        self.work = tempfile.mkdtemp(prefix='verif_%s_' % pid, dir=base)
        rp = os.path.join(EVID, pid + '.replay.json')
        if os.path.exists(rp):
            os.remove(rp)

    # -- model checking of the design ------------------------------------
    def mc(self, jobs):
        """jobs: list of dicts(module, cfg, [env, extra, expect])."""
        res = []
        lock = threading.Lock()
        errs = []

        def one(j):
            try:
                r = run_tlc(j['module'], j['cfg'], self.work,
                            env=j.get('env'), extra=j.get('extra', ()),
                            workers=j.get('workers', 2),
                            timeout=j.get('timeout', 800))
                with lock:
                    self.states += r['states']
                    self.transitions += r['transitions']
                    res.append((j, r))
                if r['rc'] != 0 and not j.get('allow_rc'):
                    errs.append('TLC failed on %s/%s:\n%s' %
                                (j['module'], j['cfg'], r['out'][-3000:]))
            except Exception as e:
                errs.append(repr(e))
        ths = [threading.Thread(target=one, args=(j,)) for j in jobs]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errs:
            raise MachineryError('\n'.join(errs))
        return res

    def gen(self, jobs, fname):
        """Run generator specs; each prints JSON scenarios, prefixed SCN."""
        scn = []
        for j, r in self.mc(jobs):
            tag = j.get('tag', j['module'])
            for ln in r['out'].splitlines():
                i = ln.find('SCN ')
                if i >= 0:
                    s = ln[i + 4:]
                    if s.endswith('"'):
                        s = s[:-1]
                    s = s.replace('\\"', '"')
                    scn.append({'tag': tag, 's': json.loads(s)})
        p = os.path.join(self.work, fname)
        with open(p, 'w') as f:
            json.dump(scn, f)
        return p, scn

    # -- running the real code --------------------------------------------
    def harness(self, env=None, timeout=None):
        if timeout is None:
            timeout = 560 if self.tier == 'quick' else 5000
        out = os.path.join(self.work, 'meta.json')
        e = dict(os.environ)
        e.update({
            'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
            'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': os.path.join(self.work, 'mpl'),
            'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
            'NUMEXPR_NUM_THREADS': '1', 'NUMEXPR_MAX_THREADS': '1',
            'OMPI_ALLOW_RUN_AS_ROOT': '1',
            'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1', 'OMPI_MCA_btl': 'self',
            'OMPI_MCA_plm': 'isolated', 'VERIF_WORK': self.work,
            'HOME': self.work,
            'PYTHONPATH': REPO + os.pathsep + VERIF,
            'VERIF_SEED': str(self.seed), 'VERIF_TIER': self.tier})
        e.update(env or {})
        os.makedirs(e['MPLCONFIGDIR'], exist_ok=True)
        log = os.path.join(self.work, 'harness.log')
        with open(log, 'wb') as lf:
            p = subprocess.Popen(
                ['/opt/venv/bin/python', '-m', 'vlib.child', self.mod, out,
                 self.tier, str(self.seed)], cwd=self.work, env=e,
                stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
            p.wait()
        with open(log, errors='replace') as f:
            txt = f.read()
        self.hlog = txt
        if rc is None:
            self.violation('harness', 'hang: code under test did not '
                           'terminate within %d s' % timeout, txt[-2000:])
            return None
        if rc < 0:
            self.violation('harness', 'crash: code under test killed by '
                           'signal %d' % -rc, txt[-2000:])
            return None
        if rc != 0:
            fr = re.findall(r'^  File "([^"]+)"', txt, re.M)
            if fr and fr[-1].startswith(os.path.join(REPO, 'sporco') + '/'):
                # an exception raised by the code under test itself
                self.violation('harness', 'unexpected exception',
                               txt[-4000:])
                return None
            raise MachineryError('harness failed rc=%d\n%s' % (rc, txt[-4000:]))
        with open(out) as f:
            return json.load(f)

    # -- judging ------------------------------------------------------------
    def judge(self, meta):
        if meta is None:
            return
        jobs = []
        for name, info in sorted(meta['judges'].items()):
            if info['lines'] == 0:
                raise MachineryError('empty trace for %s' % name)
            jobs.append((name, info))
        errs = []
        lock = threading.Lock()
        sem = threading.Semaphore(4)

        def one(name, info):
            with sem:
                try:
                    base = name.split('#')[0]
                    r = run_tlc(base.split('@')[0],
                                base.split('@')[-1] + '.cfg', self.work,
                                env={'VTRACE': info['path']}, workers=1,
                                extra=('-deadlock',), timeout=800)
                except MachineryError as e:
                    errs.append(str(e))
                    return
            bad = []
            done = None
            # long tuples are printed on several lines
            for mm in re.finditer(r'<<\s*"(BAD|DONE)",\s*(\d+),\s*'
                                  r'("[^"]*"|\d+)\s*>>', r['out']):
                if mm.group(1) == 'BAD':
                    bad.append((int(mm.group(2)), mm.group(3).strip('"')))
                else:
                    done = (int(mm.group(2)), int(mm.group(3)))
            if done is None and 'Error:' in r['out'] and not re.search(
                    r'[Pp]arsing or semantic|OutOfMemory|StackOverflow|'
                    r'cannot read|Could not|heap space', r['out']):
                # A recorded value lies outside the domain on which the
                # specification is defined: not a behaviour of the spec.
                ln = min(max(r['states'], 1), info['lines'])
                bad.append((ln, 'value outside the specified domain'))
                done = (info['lines'], info['traces'])
                r['rc'] = 0
                if os.environ.get('VERIF_DEBUG'):
                    print(r['out'][-6000:])
            if r['rc'] != 0 or done is None or done[0] != info['lines'] \
                    or done[1] != info['traces']:
                errs.append('TLC judge %s failed (%r):\n%s' %
                            (name, done, r['out'][-4000:]))
                return
            with lock:
                self.states += r['states']
                self.transitions += r['transitions']
                self.ntr += info['traces']
                self.nlines += info['lines']
                with open(info['path']) as f:
                    lines = f.readlines()
                if len(self.samples) < 12:
                    for ln in (lines[:2] + lines[len(lines) // 2:
                                                 len(lines) // 2 + 1]):
                        self.samples.append('%s: %s' % (name,
                                                        ln.strip()[:400]))
                for ln, clause in bad:
                    i = ln - 1
                    while i > 0 and json.loads(lines[i])['e'] != 'init':
                        i -= 1
                    ini = json.loads(lines[i])
                    self.violation(ini.get('key', '?'), clause,
                                   ''.join(lines[i:ln]), judge=name)
        ths = [threading.Thread(target=one, args=j) for j in jobs]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errs:
            raise MachineryError('\n'.join(errs))

    def violation(self, key, clause, detail, judge=''):
        self.viol.append({'key': key, 'clause': clause, 'judge': judge,
                          'detail': detail[-20000:]})

    # -- result -------------------------------------------------------------
    def finish(self):
        kf = []
        kp = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kp):
            with open(kp) as f:
                kf = [k for k in json.load(f)['findings']
                      if k['property'] == self.pid and
                      k.get('status') == 'known']
        new = []
        seen = {}
        for v in self.viol:
            hit = None
            for k in kf:
                if k['key'] == v['key'] and k['clause'] == v['clause']:
                    hit = k
            if hit:
                seen[hit['key'] + '|' + hit['clause']] = hit
            else:
                new.append(v)
        for k in seen.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        evd = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed,
            'level': self.level,
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.ntr,
                'trace_events': self.nlines,
                'samples': self.samples[:12]},
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new)}
        evd['coverage'].update(self.notes)
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + '.json'),
                  'w') as f:
            json.dump(evd, f, indent=1)
        if new:
            rp = os.path.join(EVID, self.pid + '.replay.json')
            with open(rp, 'w') as f:
                json.dump({'property': self.pid, 'seed': self.seed,
                           'tier': self.tier, 'violations': new[:50]}, f,
                          indent=1)
            for v in new[:10]:
                print('  %s: scenario %s violates clause "%s"' %
                      (v['judge'], v['key'], v['clause']))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('OK property=%s traces=%d events=%d states=%d wall=%.1fs' %
              (self.pid, self.ntr, self.nlines, self.states,
               time.time() - self.t0))
        return 0


def main(argv):
    import importlib
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2:
        tier = argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, VERIF)
    modname = 'checks.' + pid.lower()
    mod = importlib.import_module(modname)
    ck = Check(pid, modname, tier, seed)
    try:
        rc = run_check(ck, mod)
    except MachineryError as e:
        print('MACHINERY-ERROR property=%s: %s' % (pid, e))
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('work dir: ' + ck.work)
        else:
            shutil.rmtree(ck.work, ignore_errors=True)
    return rc


def run_check(ck, mod):
    """Standard pipeline: generators -> harness (while the design is model
    checked in parallel) -> judges."""
    env = {}
    if hasattr(mod, 'generators'):
        p, scn = ck.gen(mod.generators(ck.tier, ck.seed), 'scenarios.json')
        env['VERIF_SCN'] = p
        ck.notes['generated_scenarios'] = len(scn)
        if not scn:
            raise MachineryError('generator produced no scenarios')
    err = []

    def bg():
        try:
            ck.mc(mod.models(ck.tier))
        except Exception as e:
            err.append(e)
    th = threading.Thread(target=bg)
    th.start()
    try:
        meta = ck.harness(env)
        ck.judge(meta)
        if meta is not None:
            ck.notes.update(meta.get('notes', {}))
    finally:
        th.join()
    if err:
        raise err[0]
    return ck.finish()


if __name__ == '__main__':
    sys.exit(main(sys.argv))
