"""prof.py SCENARIO SECONDS   profile (development aid)"""
import sys, signal, cProfile, pstats, traceback
import build, check
from engine import models as M, terms as X
s = sys.argv[1]
bc, exe = build.build_harness()
ll = '/tmp/prof-%s.ll' % s
mod = build.extract(bc, [s], ll, lambda d, n: M.find(d, n, check.P.groups_of(s)) is not None)
e = check.init_engine(ll, mod, check.P.groups_of(s))
class Stop(Exception): pass
def h(*a): raise Stop
signal.signal(signal.SIGALRM, h)
signal.alarm(int(sys.argv[2]))
pr = cProfile.Profile()
pr.enable()
try:
    for k, m in e.explore(lambda: e.call(s)):
        print('PATH', k, m, len(e.trace), flush=True)
except Stop:
    tb = traceback.extract_tb(sys.exc_info()[2])
    print(''.join('%s:%d %s\n' % (f.filename[-90:], f.lineno, f.name) for f in tb if not f.name in ('stub',))[-6000:])
pr.disable()
pstats.Stats(pr).sort_stats('tottime').print_stats(18)
