"""Grid search (sporco.util.grid_search with a pool of processes and
sporco.mpiutil.grid_search with real message passing jobs)."""
import json
import os


def models(tier):
    n, s = (7, 3) if tier == 'quick' else (9, 4)
    return [{'module': 'GridMC', 'workers': 4, 'timeout': 3000, 'cfg':
             'SPECIFICATION Spec\nCONSTANT MaxN = %d\nCONSTANT MaxS = %d\n'
             'INVARIANTS Partition Table\nPROPERTY Termination\n' % (n, s)}]


def generators(tier, seed):
    n = int(os.environ.get('VERIF_N') or (500 if tier == 'quick' else 4000))
    return [{'module': 'GridGen', 'workers': 1, 'cfg':
             'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 13 + 5))}]


def launch(size, scn, work, tag, timeout):
    """Run the searches in a job of the given size.  Returns per-rank lists
    of result records and how the job ended ('ok', 'hang', 'fail')."""
    import signal
    import subprocess
    import sys
    import time
    scnf = os.path.join(work, 'mpi_%s.json' % tag)
    outp = os.path.join(work, 'mpi_%s.out' % tag)
    with open(scnf, 'w') as f:
        json.dump(scn, f)
    for r in range(size):
        if os.path.exists('%s.%d' % (outp, r)):
            os.remove('%s.%d' % (outp, r))
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('OMPI_', 'PMIX_'))}
    env.update(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
               OMPI_MCA_btl='self,tcp', OMPI_MCA_btl_tcp_if_include='lo',
               OMPI_MCA_oob_tcp_if_include='lo',
               OMPI_MCA_mpi_yield_when_idle='1',
               OMPI_MCA_orte_tmpdir_base=work)
    here = os.path.dirname(os.path.abspath(__file__))
    p = subprocess.Popen(
        ['mpiexec', '--oversubscribe', '--allow-run-as-root', '-n',
         str(size), sys.executable, os.path.join(here, 'mpidriver.py'),
         scnf, outp], env=env, stdin=subprocess.DEVNULL,
        stdout=open(os.path.join(work, 'mpi_%s.log' % tag), 'wb'),
        stderr=subprocess.STDOUT, start_new_session=True)
    end = None
    last, t0 = None, time.time()
    while end is None:
        try:
            rc = p.wait(0.2)
            end = 'ok' if rc == 0 else 'fail'
        except subprocess.TimeoutExpired:
            now = [os.path.getsize('%s.%d' % (outp, r)) for r in range(size)
                   if os.path.exists('%s.%d' % (outp, r))]
            if now != last:
                last, t0 = now, time.time()
            if time.time() - t0 > timeout:      # no progress
                end = 'hang'
    if end == 'hang':
        p.terminate()
        try:
            p.wait(5)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    out = []
    for r in range(size):
        fn = '%s.%d' % (outp, r)
        if not os.path.exists(fn):
            return None, end
        with open(fn) as f:
            lines = f.read().split('\n')[:-1]
        if end != 'ok' and lines:
            # a rank that outlived the job launcher
            try:
                pid = int(lines[0])
                with open('/proc/%d/cmdline' % pid) as f:
                    if outp in f.read():
                        os.kill(pid, signal.SIGKILL)
            except (OSError, ValueError):
                pass
        out.append([json.loads(x) for x in lines[1:]])
    return out, end


def harness(rec):
    import warnings
    warnings.simplefilter('ignore')
    from sporco import util
    from checks import gridfn
    with open(os.environ['VERIF_SCN']) as f:
        scn = [s['s'] for s in json.load(f)]
    work = os.environ['VERIF_WORK']
    probe = launch(2, [], work, 'probe', 60)
    notes = {'mpi': 'jobs of 1, 2, 3 and 5 processes'}
    if probe[1] != 'ok' or probe[0] is None:
        notes['mpi'] = 'jobs cannot be launched here: one process only'

    def init(k, c, size):
        rec.trace('%s-%d' % (c['be'], k), judge='GridTrace', axes=c['axes'],
                  tab=[[v if v == gridfn.NAN else v for v in r]
                       for r in c['tab']],
                  scalar=c['scalar'], fmin=c['fmin'], size=size)

    jobs = {}
    for k, c in enumerate(scn):
        if c['be'] == 'mpi':
            if notes['mpi'].startswith('jobs cannot'):
                c['size'] = 1
            jobs.setdefault(c['size'], []).append([k, c])
            continue
        init(k, c, 1)
        gridfn.setup(c)
        g = gridfn.grid(c)
        kw = {} if (c['fmin'] and c['defmin']) else {'fmin': c['fmin']}
        try:
            r = util.grid_search(gridfn.fn, g, nproc=c['nproc'], **kw)
            rec.ev('res', rank=0, **gridfn.project(c, g, r))
            rec.ev('end')
        except Exception as e:
            rec.ev('exc', t=repr(e)[:300])
    hangs = 0
    for size, lst in sorted(jobs.items()):
        fails = 0
        pos = 0
        while pos < len(lst) and fails < 4 and hangs < 3:
            todo = lst[pos:]
            out, end = launch(size, todo, work, 's%d_%d' % (size, pos), 40) \
                if not notes['mpi'].startswith('jobs cannot') else \
                single(todo, work)
            if out is None:
                out = [[] for _ in range(size)]
            res = [dict((k, v) for k, v in o) for o in out]
            bad = None
            for i, (k, c) in enumerate(todo):
                got = [r[k] for r in res if k in r]
                init(k, c, size)
                for v in sorted(got, key=lambda v: v['rank']):
                    rec.ev(**v)
                if len(got) < size:
                    rec.ev('hang' if end == 'hang' else 'exc', t=end)
                    bad = i
                    break
                rec.ev('end')
            if bad is None:
                break
            fails += 1
            hangs += end == 'hang'
            pos += bad + 1
    rec.meta['notes'] = notes


def single(todo, work):
    """One process, without the job launcher."""
    import subprocess
    import sys
    scnf = os.path.join(work, 'mpi_single.json')
    outp = os.path.join(work, 'mpi_single.out')
    with open(scnf, 'w') as f:
        json.dump(todo, f)
    here = os.path.dirname(os.path.abspath(__file__))
    p = subprocess.run([sys.executable, os.path.join(here, 'mpidriver.py'),
                        scnf, outp], timeout=300)
    with open(outp + '.0') as f:
        lines = f.read().split('\n')[:-1]
    return [[json.loads(x) for x in lines[1:]]], \
        'ok' if p.returncode == 0 else 'fail'
