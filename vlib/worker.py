"""Runs scenarios of one driver against the real code."""
import importlib
import json
import os
import signal
import sys
import traceback


class ScenarioTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise ScenarioTimeout()


def main():
    mod, inp, outp, limit = sys.argv[1:5]
    from vlib import ext
    ext.install(os.environ['VERIF_SO'])
    with open(inp) as f:
        todo = json.load(f)
    driver = importlib.import_module(mod)
    signal.signal(signal.SIGALRM, _alarm)
    sys.setrecursionlimit(3000)
    out = open(outp, 'w')
    late = 0
    for i, sc in todo:
        if late >= 5:
            # the verdict is clear: do not spend the time of the check on it
            out.write(json.dumps({'i': i, 't': {'notrun': True}}) + '\n')
            continue
        out.write(json.dumps({'start': i}) + '\n')
        out.flush()
        try:
            signal.setitimer(signal.ITIMER_REAL,
                             float(limit) / (3 if late >= 2 else 1))
            try:
                t = driver.execute(sc)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except ScenarioTimeout:
            late += 1
            t = {'crash': 'scenario timed out'}
        except BaseException:
            t = {'crash': 'uncaught: ' + traceback.format_exc()[-1500:]}
        out.write(json.dumps({'i': i, 't': t}) + '\n')
        out.flush()
    out.close()
    os._exit(0)


if __name__ == '__main__':
    main()
