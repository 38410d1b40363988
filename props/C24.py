"""C24: simulated clock and wake-ups."""
from vc.spec import *
TUS = ['fcp/base/simulated_clock.cc', 'fcp/base/clock.cc']
ASSUMPTIONS = ['absl time arithmetic is exact and saturating in quarter-nanosecond ticks', 'absl::Mutex serialises the critical sections; each function is verified as it runs under the lock it takes',
               'a waiter called during a dispatch may schedule further wake-ups and move the time (its effect on the clock is arbitrary between two critical sections)']
CK = 'fcp::SimulatedClock'
def clock(g, st, nm='clock'):
    lv = g.new_root(st, nm, g.fresh(st, rec_ty(CK), nm, exact_name=True)); return lv
def dispatch_contract(g):
    def d(g, st, obj, args, e): st.trace.append(('dispatch', obj, [], 0)); return [(st, UnitV())]
    g.contracts['fcp::Clock::DispatchWakeups'] = d
def now(g, c, st, lv):
    (s, v), = call(g, st, c.fn(CK + '::Now'), [], lv); return s, v
def same(a, b): return z3.And(a.inf == b.inf, z3.Or(a.inf != 0, a.ns == b.ns))
def time(st, nm):
    i, n = z3.Int(nm + '.inf'), z3.Int(nm); st.assume(z3.And(i >= -1, i <= 1)); return TimeV(TIME, i, n)
def set_time(c):
    "ensures Now() == t afterwards, and the wake-ups are dispatched once, after the change"
    g = c.engine(TUS); dispatch_contract(g); f = c.fn(CK + '::SetTime'); st = start(g, f); lv = clock(g, st); t = time(st, 't')
    out = call(g, st, f, [t], lv); cover(g, out); no_abort(g, 'never aborts')
    for s, _ in out:
        g.oblige(s, z3.BoolVal(len([x for x in s.trace if x[0] == 'dispatch']) == 1), 'due wake-ups are dispatched once')
        s, v = now(g, c, s, lv); g.oblige(s, same(v, t), 'the time is the one set')
def advance(c):
    "ensures Now() == old Now() + d"
    g = c.engine(TUS); dispatch_contract(g); f = c.fn(CK + '::AdvanceTime'); st = start(g, f); lv = clock(g, st); st, t0 = now(g, c, st, lv)
    d = z3.Int('d'); B = 2 ** 70; st.assume(z3.And(t0.inf == 0, t0.ns > -B, t0.ns < B, d > -B, d < B))
    out = call(g, st, f, [TimeV(DUR, z3.IntVal(0), d)], lv); cover(g, out); no_abort(g, 'never aborts')
    for s, _ in out:
        g.oblige(s, z3.BoolVal(len([x for x in s.trace if x[0] == 'dispatch']) == 1), 'due wake-ups are dispatched once')
        s, v = now(g, c, s, lv); g.oblige(s, z3.And(v.inf == 0, v.ns == t0.ns + d), 'the time has moved by exactly the duration')
def construct(c):
    g = c.engine(TUS); fs = [f for f in c.fns(CK + '::SimulatedClock') if not f.ps or kind_of(f.ps[0][2]) == 'time']
    for f in fs:
        st = start(g, f); t = time(st, 't'); lv = g.new_root(st, 'clock', RecV(rec_ty(CK), {}))
        for s, _ in call(g, st, f, [t] if f.ps else [], lv):
            s, v = now(g, c, s, lv)
            g.oblige(s, same(v, t) if f.ps else z3.And(v.inf == 0, v.ns == 0), 'a new clock shows the time given, or the epoch')
def buckets(g, st, lv):
    "the map of pending waiters, wherever the clock keeps it"
    v = g.read(st, lv); hits = [lv.f(n) for n, t in g.rec_fields(v.ty) if kind_of(t) == 'map']
    if len(hits) != 1: raise Unsupported('pending waiters')
    return hits[0]
def before(g, kty): return lambda a, b: z3.Not(g.lib.key_le(kty, b, a))
class Ghost:
    """C(t): number of waiters in buckets earlier than t (defined by recursion over the finite ordered map at entry)"""
    def __init__(self, g, st, m):
        self.m = m; self.g = g; self.K = g.sort_of(m.kty); self.lt = before(g, m.kty); self.C = z3.Function('earlier', self.K, z3.IntSort())
        t, u, w = [z3.Const(x, self.K) for x in ('t!g', 'u!g', 'w!g')]; vs = g.sort_of(m.vty); self.len = lambda k: vs.accessor(0, 0)(m.val[k]); self.at = lambda k, i: vs.accessor(0, 1)(m.val[k])[i]
        # pred(u): the last key before u, if any; last: the last key of all, if any; total: number of all waiters
        self.has = z3.Function('has.pred', self.K, z3.BoolSort()); self.pred = z3.Function('pred', self.K, self.K); self.haslast = z3.Bool('has.last'); self.last = z3.Const('last', self.K); self.total = z3.Int('all.waiters')
        A = lambda vs, f, p: st.assume(z3.ForAll(vs, f, patterns=p)); le = lambda a, b: g.lib.key_le(m.kty, a, b)
        A([u], z3.If(self.has(u), z3.And(m.dom[self.pred(u)], self.lt(self.pred(u), u), self.C(u) == self.C(self.pred(u)) + self.len(self.pred(u))), self.C(u) == 0), [self.C(u)])
        A([u, w], z3.Implies(z3.And(m.dom[w], self.lt(w, u)), z3.And(self.has(u), le(w, self.pred(u)))), [z3.MultiPattern(self.C(u), m.dom[w])])
        A([t], z3.Implies(m.dom[t], z3.And(self.len(t) >= 0, self.C(t) >= 0, *self.canon(t))), [m.dom[t]])
        A([w], z3.Implies(m.dom[w], z3.And(self.haslast, le(w, self.last))), [m.dom[w]])
        st.assume(z3.If(self.haslast, z3.And(m.dom[self.last], self.total == self.C(self.last) + self.len(self.last)), self.total == 0))
    def canon(self, t):
        i, n = [self.K.accessor(0, x)(t) for x in (0, 1)]; return [i >= -1, i <= 1, z3.Implies(i != 0, n == 0)]
def expired(c):
    "ensures the waiters of exactly the buckets due by now are returned, in order of deadline and then of scheduling, and removed; the others stay as they were"
    g = c.engine(TUS); f = c.fn('fcp::Clock::GetExpiredWaiters'); st = start(g, f); lv = clock(g, st); st, t0 = now(g, c, st, lv)
    pl = buckets(g, st, lv); G = Ghost(g, st, g.read(st, pl)); m0 = G.m; K = G.K; due = lambda t: g.lib.key_le(m0.kty, t, g.pack(st, t0, m0.kty))
    t, u, i = z3.Const('t!i', K), z3.Const('u!i', K), z3.Int('i!i')
    st.assume(z3.And(*G.canon(g.pack(st, t0, m0.kty))))
    def contents(r, dom):
        gone = lambda t: z3.And(m0.dom[t], z3.Not(dom[t]))
        return [('room', z3.ForAll([t], z3.Implies(gone(t), z3.And(G.C(t) + G.len(t) <= r.len, G.C(t) >= 0)))), ('delivered in order', z3.ForAll([t, i], z3.Implies(z3.And(gone(t), i >= 0, i < G.len(t)), r.arr[G.C(t) + i] == G.at(t, i)), patterns=[G.at(t, i)])),
                ('nothing else delivered', z3.And(z3.Implies(z3.Or(z3.Not(G.haslast), gone(G.last)), r.len == G.total),
                   z3.ForAll([u], z3.Implies(z3.And(dom[u], z3.Or(z3.Not(G.has(u)), gone(G.pred(u)))), r.len == G.C(u)), patterns=[G.C(u)])))]
    def hint(L):
        try: m = g.read(L.st, pl)
        except Unsupported: return []
        out = [('kept', z3.ForAll([t], z3.Implies(m.dom[t], z3.And(m0.dom[t], m.val[t] == m0.val[t])))),
               ('earlier removed', z3.ForAll([t, u], z3.Implies(z3.And(m0.dom[t], z3.Not(m.dom[t]), m.dom[u]), G.lt(t, u)))),
               ('only due removed', z3.ForAll([t], z3.Implies(z3.And(m0.dom[t], z3.Not(m.dom[t])), due(t))))]
        for x in vecs(L): out += contents(x, m.dom)
        return out
    def vecs(L): return [x for x in (g.read(L.st, l) for l in L.mods if not l.path) if isinstance(x, VecV)]
    g.loop_hints.append(hint)
    out = call(g, st, f, [], lv); cover(g, out); no_abort(g, 'never aborts')
    for s, r in out:
        m = g.read(s, pl)
        g.oblige(s, z3.ForAll([t], m.dom[t] == z3.And(m0.dom[t], z3.Not(due(t)))), 'exactly the buckets due are removed')
        g.oblige(s, z3.ForAll([t], z3.Implies(m.dom[t], m.val[t] == m0.val[t])), 'the other buckets stay as they were')
        for nm, fm in contents(r, m.dom): g.oblige(s, fm, nm)
        s, v = now(g, c, s, lv); g.oblige(s, same(v, t0), 'the time does not change')
def schedule(c):
    "ensures the waiter is added last in the bucket of its deadline, nothing else changes, and due wake-ups are dispatched"
    g = c.engine(TUS); dispatch_contract(g); f = c.fn('fcp::Clock::WakeupWithDeadline'); st = start(g, f); lv = clock(g, st); st, t0 = now(g, c, st, lv)
    d = time(st, 'deadline'); st.assume(z3.Implies(d.inf != 0, d.ns == 0)); w = g.fresh(st, f.ps[1][2].deref(), 'waiter', exact_name=True); pl = buckets(g, st, lv); m0 = g.read(st, pl)
    k = g.pack(st, d, m0.kty); vs = g.sort_of(m0.vty); old = m0.val[k]; n0 = z3.If(m0.dom[k], vs.accessor(0, 0)(old), 0)
    st.assume(z3.Implies(m0.dom[k], z3.And(n0 >= 0, n0 < 2 ** 60)))
    out = call(g, st, f, [d, g.new_root(st, 'w', w)], lv); cover(g, out); no_abort(g, 'never aborts')
    t, i = z3.Const('t!s', g.sort_of(m0.kty)), z3.Int('i!s'); packed = g.pack(st, w, f.ps[1][2].deref())
    for s, _ in out:
        m = g.read(s, pl); ln, at = vs.accessor(0, 0)(m.val[k]), vs.accessor(0, 1)(m.val[k])
        g.oblige(s, z3.ForAll([t], m.dom[t] == z3.Or(m0.dom[t], t == k)), 'the deadline is pending')
        g.oblige(s, z3.And(ln == n0 + 1, at[n0] == packed), 'the waiter is added last for its deadline, once')
        g.oblige(s, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n0), at[i] == vs.accessor(0, 1)(old)[i])), 'waiters with the same deadline keep their order')
        g.oblige(s, z3.ForAll([t], z3.Implies(z3.And(m0.dom[t], t != k), m.val[t] == m0.val[t])), 'other deadlines are untouched')
        g.oblige(s, z3.BoolVal(len([x for x in s.trace if x[0] == 'dispatch']) == 1), 'due wake-ups are dispatched once')
        s, v = now(g, c, s, lv); g.oblige(s, same(v, t0), 'the time does not change')
def finish(c):
    "ensures a dispatch ends only when no pending deadline is due (or another dispatch call came in between, in which case it repeats)"
    g = c.engine(TUS); f = c.fn('fcp::Clock::FinishDispatchAndScheduleNextWakeup'); st = start(g, f); lv = clock(g, st); st, t0 = now(g, c, st, lv); pl = buckets(g, st, lv); m0 = g.read(st, pl); t = z3.Const('t!f', g.sort_of(m0.kty))
    out = call(g, st, f, [], lv); cover(g, out); no_abort(g, 'never aborts'); n = g.pack(st, t0, m0.kty)
    for s, r in out:
        m = g.read(s, pl); g.oblige(s, z3.Implies(r, z3.ForAll([t], z3.Implies(m0.dom[t], z3.Not(g.lib.key_le(m0.kty, t, n))))), 'a dispatch ends only when nothing pending is due')
        g.oblige(s, z3.And(m.dom == m0.dom, m.val == m0.val), 'no waiter is dropped when a dispatch ends')
        g.oblige(s, z3.Implies(m0.size == 0, r), 'a dispatch ends when nothing is pending')
UNITS = [construct, set_time, advance, expired, schedule, finish]
HARNESS = dict(main='C24_harness.cc', srcs=['fcp/base/simulated_clock.cc', 'fcp/base/clock.cc'], protos=[], secs=4)
