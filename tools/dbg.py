"""Run one proof unit in this process: python3-vt tools/dbg.py C06 harary_basics"""
import sys, os, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/lib')
sys.setrecursionlimit(20000)
from vc import driver
import importlib.util, traceback
pid, names = sys.argv[1], sys.argv[2:]
sp = importlib.util.spec_from_file_location('p', V + '/props/%s.py' % pid); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
driver.ensure_extractor(); driver.ensure_gen()
for u in m.UNITS:
    if names and u.__name__ not in names: continue
    t = time.time(); c = driver.Ctx(pid, t + 600)
    try: u(c); r = 'done'
    except Exception as e: r = traceback.format_exc()[-1800:] if os.environ.get('TB') else '%s: %s' % (type(e).__name__, e)
    g = c.g
    print('==', u.__name__, r, '%.1fs solver %.1fs %d queries' % (time.time() - t, g.solver_time, g.nsolve))
    for a, b, al, dead in g.houdini_log: print('  loop', a, b, 'ALIVE', al, 'DEAD', dead if os.environ.get('DEAD') else len(dead))
    ok = 0
    for o in g.obs:
        if o.status == 'proved': ok += 1
        else:
            print('  ', o.status, o.kind, o.name, o.fn, o.line, '%.1fs' % o.secs)
            if os.environ.get('MODEL') and o.model is not None: print('     ', str(o.model)[:1500])
            if os.environ.get('GOAL') and o.smt: print('      goal', str(o.smt[1])[:600]); [print('      pc', str(x)[:300].replace('\n', ' ')) for x in o.smt[0].pc]
    print('  proved', ok, 'of', len(g.obs), 'slow:', sorted([(round(o.secs, 1), o.name) for o in g.obs if o.secs > 2], reverse=True)[:6])
    if os.environ.get('ALL'):
        for o in g.obs: print('     ', o.status, o.kind, o.name, o.fn, o.line)
