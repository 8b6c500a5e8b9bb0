"""peer.py SO SCRATCH: runs programs of C29 in an interpreter of its own.

Reads pickled requests from stdin, and writes what the calls of the program
returned to stdout.
"""
import cPickle
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import bootstrap


def main(so, scratch):
    bootstrap.install(so or None)
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    import core
    import gen
    from checks import c29
    stats = core.Stats()
    while True:
        try:
            request = cPickle.load(sys.stdin)
        except EOFError:
            return
        seed, gen.ODD, gen.HUGE, gen.SHARED, gen.EXTREME, gen.INF = request
        try:
            case = core.Case('C29', 'none', seed, stats, scratch)
            answer = c29.traced(case), hash('a string')
        except Exception:
            answer = None, traceback.format_exc()
        cPickle.dump(answer, out, 2)
        out.flush()


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
