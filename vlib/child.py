"""Child process: runs the harness of one check against /repo."""
import importlib
import os
import sys


def main():
    modname, out, tier, seed = sys.argv[1:5]
    sys.path.insert(0, os.environ['PYTHONPATH'].split(os.pathsep)[0])
    from vlib.core import Recorder
    rec = Recorder(out, tier, int(seed))
    mod = importlib.import_module(modname)
    mod.harness(rec)
    rec.close()
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
