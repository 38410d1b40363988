"""python3-vt tools/unit.py <id> <unit>…: run proof units of a property in this process, with tracebacks and invariants."""
import sys, os, time, importlib.util, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/lib')
from vc import driver
if '-p' in sys.argv:      # profile: print slow solver calls
    from vc import engine as en
    sys.argv.remove('-p'); E_ = [c for c in vars(en).values() if isinstance(c, type) and hasattr(c, 'prove')][0]; op = E_.prove
    def prove(self, st, goal, timeout=None, strong=None):
        t = time.time(); r = op(self, st, goal, timeout, strong); d = time.time() - t
        if d > 0.05: print('PROVE %.1f %s %s quiet=%s strong=%s' % (d, r[0], r[3], self.quiet, strong), str(goal)[:150].replace('\n', ' '), flush=True)
        return r
    E_.prove = prove; of = E_.feasible
    def feas(self, st, c=None):
        t = time.time(); r = of(self, st, c); d = time.time() - t
        if d > 0.4: print('FEASIBLE %.1f %s' % (d, r), str(c)[:150].replace('\n', ' '), flush=True)
        return r
    E_.feasible = feas
pid = sys.argv[1]; sys.setrecursionlimit(20000)
spec = importlib.util.spec_from_file_location('prop_' + pid, '%s/props/%s.py' % (V, pid)); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
for u in mod.UNITS:
    if len(sys.argv) > 2 and u.__name__ not in sys.argv[2:]: continue
    t0 = time.time(); c = driver.Ctx(pid, time.time() + 600)
    try: print('==', u.__name__, u(c))
    except Exception: traceback.print_exc(limit=-12)
    g = c.g
    for h in g.houdini_log: print('  loop', h[0], h[1], 'kept', h[2], 'dropped', h[3])
    for o in g.obs:
        if o.kind != 'invariant': print('  %-9s %5.2fs %-7s %s %s:%s' % (o.status, o.secs, o.backend, o.name, o.fn, o.line))
        if o.status == 'refuted' and '-m' in sys.argv: print(o.model)
    print('  %d obligations, %.1fs, solver %.1fs' % (len(g.obs), time.time() - t0, g.solver_time))
