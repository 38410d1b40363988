"""C26: single ownership of values; promises and futures."""
from vc.spec import *
TUS = ['/verif/props/inst_unique.cc']
NS = 'verif_inst::'
ASSUMPTIONS = ['std::optional and std::shared_ptr behave as documented', 'absl::Notification is notified exactly after Notify; waiting for it returns only then (waits that would block forever are not followed)',
               'destructors are called explicitly by the driver functions (implicit ones are dropped by the extraction)']
def run(c, g, name, args):
    f = c.fn(NS + name); st = start(g, f); vals = [z3.Bool('h%d' % i) if k == 'h' else z3.Int('v%d' % i) for i, k in enumerate(args)]
    for v in vals:
        if z3.is_int(v): st.assume(z3.And(v >= -2 ** 63, v < 2 ** 63))
    out = call(g, st, f, vals); return vals, out
def two(c, g, name, args, want):
    vals, out = run(c, g, name, args); cover(g, out, name + ' returns'); no_abort(g, name + ' never aborts'); ah, a, bh, b = want(*vals)
    for s, r in out:
        lv = g.new_root(s, 'r', r); R = lambda n: g.read(s, lv.f(n))
        g.oblige(s, z3.And(R('a_has') == ah, z3.Implies(ah, R('a') == a)), '%s: state of the first holder' % name)
        g.oblige(s, z3.And(R('b_has') == bh, z3.Implies(bh, R('b') == b)), '%s: state of the second holder' % name)
def holders(c):
    "for arbitrary holders: each operation moves the value on unchanged and leaves the source empty"
    g = c.engine(TUS); g.safety = {'null'}; Z = z3.IntVal(0)
    two(c, g, 'Fresh', 'hvhv', lambda h, v, k, w: (h, v, k, w))
    two(c, g, 'MoveConstruct', 'hv', lambda h, v: (F, Z, h, v))
    two(c, g, 'MoveAssign', 'hvhv', lambda h, v, k, w: (k, w, F, Z))
    two(c, g, 'SelfAssign', 'hv', lambda h, v: (h, v, F, Z))
    two(c, g, 'TakeOut', 'v', lambda v: (F, Z, T, v))
    two(c, g, 'ResetOne', 'hvhv', lambda h, v, k, w: (F, Z, k, w))
    two(c, g, 'EmplaceOne', 'hvhvv', lambda h, v, k, w, x: (T, x, k, w))
    two(c, g, 'Maker', 'v', lambda v: (T, v, F, Z))
def wrapper(c):
    "copying the lambda wrapper moves the value to the copy"
    g = c.engine(TUS); g.safety = {'null'}; two(c, g, 'Wrap', 'hv', lambda h, v: (F, z3.IntVal(0), h, v))
def notification(g):
    N = 'absl::Notification::'
    def fl(st, obj):
        r = g.read(st, obj); return r.fields.get('notified', F)
    def ctor(g, st, t, args, e): return [(st, RecV(t, dict(notified=F)))]
    g.contracts[N + 'Notification'] = ctor
    g.contracts[N + 'HasBeenNotified'] = lambda g, st, obj, args, e: [(st, fl(st, obj))]
    def notify(g, st, obj, args, e): g.write(st, obj.f('notified'), T); return [(st, UnitV())]
    g.contracts[N + 'Notify'] = notify
    def wait(g, st, obj, args, e):
        st.assume(fl(st, obj)); return [(st, UnitV())] if g.feasible(st) else []
    g.contracts[N + 'WaitForNotification'] = wait
    def waitt(g, st, obj, args, e): return [(st, fl(st, obj))]
    g.contracts[N + 'WaitForNotificationWithTimeout'] = waitt
def futures(c):
    "a promise delivers the value set, or its absence if destroyed unset, and never twice"
    g = c.engine(TUS); g.safety = {'null'}; notification(g)
    for name, args, has in (('SetThenTake', 'v', True), ('SetThenDestroy', 'v', True), ('MovedThenSet', 'v', True), ('AbandonThenTake', '', False)):
        vals, out = run(c, g, name, args); cover(g, out, name + ' returns'); no_abort(g, name + ' never aborts')
        for s, r in out:
            lv = g.new_root(s, 'r', r); R = lambda n: g.read(s, lv.f(n))
            g.oblige(s, R('has') == z3.BoolVal(has), '%s: %s' % (name, 'a value arrives' if has else 'no value arrives'))
            if has: g.oblige(s, R('v') == vals[0], '%s: the value that was set arrives' % name)
            g.oblige(s, z3.Not(R('ready_before')), '%s: nothing is ready before' % name); g.oblige(s, R('ready_after'), '%s: the future is ready afterwards' % name)
    for name, args in (('SetTwice', 'vv'), ('TakeTwice', 'v')):
        vals, out = run(c, g, name, args)
        for s, r in out: g.oblige(s, F, '%s is refused' % name)
        g.oblige(start(g, c.fn(NS + name)), z3.BoolVal(len(g.last_aborts) > 0), '%s stops the program' % name)
UNITS = [holders, wrapper, futures]
HARNESS = dict(main='C26_harness.cc', srcs=['fcp/base/scheduler.cc', 'fcp/base/clock.cc'], protos=[], secs=4)
