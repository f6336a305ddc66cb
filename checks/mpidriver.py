"""One rank of a message passing job: runs a list of grid searches and writes
one result line per search.  Arguments: scenario file, output prefix."""
import json
import os
import sys


def main():
    scnf, outp = sys.argv[1:3]
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    from sporco import mpiutil
    from checks import gridfn
    from vlib.core import jsonable
    with open(scnf) as f:
        scn = json.load(f)
    with open('%s.%d' % (outp, comm.rank), 'w') as f:
        f.write('%d\n' % os.getpid())
        f.flush()
        for k, c in scn:
            try:
                gridfn.setup(c)
                g = gridfn.grid(c)
                kw = {} if (c['fmin'] and c['defmin']) else \
                    {'fmin': c['fmin']}
                if c['size'] == 1 and c['slow']:
                    kw['comm'] = MPI.COMM_SELF
                elif c['slow']:
                    kw['comm'] = comm
                r = gridfn.project(c, g, mpiutil.grid_search(
                    gridfn.fn, g, **kw))
                r.update(e='res', rank=comm.rank)
                f.write(json.dumps([k, jsonable(r)]) + '\n')
                f.flush()
            except BaseException as e:
                f.write(json.dumps([k, {'e': 'exc', 't': repr(e)[:300],
                                        'rank': comm.rank}]) + '\n')
                f.flush()
                comm.Abort(3)
    MPI.Finalize()


main()
