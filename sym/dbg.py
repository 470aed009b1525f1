"""dbg.py SCENARIO  explores in-process with decision trace (development aid)"""
import sys, os, tempfile, time
import build, check
from engine import models as M, terms as X
s = sys.argv[1]
bc, exe = build.build_harness()
ll = '/tmp/dbg-%s.ll' % s
mod = build.extract(bc, [s], ll, lambda d, n: M.find(d, n, check.P.groups_of(s)) is not None)
e = check.init_engine(ll, mod, check.P.groups_of(s))
e.opts['trace_decide'] = 1
if os.environ.get('DUMP'): e.opts['dump_slow'] = os.environ['DUMP']
n = 0
mx = int(sys.argv[2]) if len(sys.argv) > 2 else 50
import traceback
try:
    for k, m in e.explore(lambda: e.call(s)):
        print('PATH', k, m, 'decisions', len(e.trace), flush=True)
        n += 1
        if n >= mx: break
except X.Unsupported:
    traceback.print_exc()
print(e.reach, e.nchecks, e.violations[:1], e.zc.queries, e.zc.time)
