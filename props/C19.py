"""C19: queries over the participation history."""
import importlib.util
from vc.spec import *
def load(n):
    s = importlib.util.spec_from_file_location('prop_' + n, os.path.join(V, 'props', n + '.py')); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
C07, C10 = load('C07'), load('C10')
TUS = ['fcp/client/opstats/opstats_utils.cc']; N = 'fcp::client::opstats::'
OS = rec_ty(N + 'OperationalStats'); PS = rec_ty(N + 'OperationalStats_PhaseStats'); EV = rec_ty(N + 'OperationalStats_Event'); TS = rec_ty('google::protobuf::Timestamp')
UP, UPA = 38, 41
ASSUMPTIONS = ['lists of a message have fewer than 2^31 entries', 'a regular expression matches as a function of the text and the expression', 'the list of per-task records of a history is the one the conversion returns (its own contract: per_run, sequence)']
def base(c):
    g = c.engine(TUS); g.safety = {'index', 'null'}; g.generic = lambda n: C10.generic(n) or 'iterator == start' in n or 'iterator within' in n; g.feas_qf = True; return g
def field(g, s, rec, n): return g.rget(s, rec, n, dict(g.rec_fields(rec.ty))[n])
def sub(g, s, rec, n, ty):
    """value of a message field: the default one if absent"""
    return z3.If(field(g, s, rec, 'has_' + n), g.pack(s, field(g, s, rec, n), ty), g.pack(s, g.zero(s, ty), ty))
class Hist:
    """an arbitrary list of per-task records"""
    def __init__(self, c, fn, pred):
        g = self.g = base(c); self.c = c; f = c.fn(N + fn); st = self.st = start(g, f); self.a = params(g, st, f); VT = rec_ty('std::vector', (OS,)); v = self.v = g.fresh(st, VT, 'records', exact_name=True); st.assume(v.len < 2 ** 31); I, B = z3.IntSort(), z3.BoolSort()
        e = self.entry = lambda i, s=st: g.unpack(s, v.arr[i], OS); ev = self.ev = lambda i: field(g, st, e(i), 'events'); self.typ = lambda i, j: field(g, st, g.unpack(st, ev(i).arr[j], EV), 'event_type'); i, j = z3.Ints('i!r j!r')
        self.SEEN = {k: z3.Function('some event %d among the first' % k, ev(i).arr.sort(), I, B) for k in (UP, UPA)}; self.HAS = {k: (lambda i, k=k: self.SEEN[k](ev(i).arr, ev(i).len)) for k in (UP, UPA)}   # defined by SEEN(a, 0) = false, SEEN(a, k + 1) = SEEN(a, k) or a[k] is such an event
        st.assume(z3.ForAll([i], z3.And(ev(i).len >= 0, field(g, st, e(i), 'phase_stats').len == 0), patterns=[v.arr[i]])); self.pred = pred; self.ok = lambda i: z3.And(pred(self, st, e(i)), self.HAS[UP](i), Not(self.HAS[UPA](i)))
        def conv(g, s, obj, a, e): 
            return [(s, v)]
        g.contracts[N + '(anonymous namespace)::ConvertToLegacyOperationalStats'] = conv
        def hint(L):
            o = []; s = L.st; k = L.k; w = getattr(L, 'range_val', None)
            ev_ = [lv for lv in L.mods]
            for lv in ev_:
                try: x = g.read(s, lv)
                except Exception: continue
                if z3.is_expr(x) and x.sort() == z3.BoolSort() and isinstance(w, VecV) and w.ety.n == EV.n: o += [('%s set exactly after event %d' % (lv.root, n), x == F_(w.arr, k)) for n, F_ in self.SEEN.items()]
            if isinstance(w, VecV) and w.ety.n == EV.n:
                for n, F_ in self.SEEN.items(): s.assume(F_(w.arr, k) == z3.And(k > 0, z3.Or(F_(w.arr, k - 1), field(g, s, g.unpack(s, w.arr[k - 1], EV), 'event_type') == n)))
                return o
            q = z3.Int('q!r'); o += [('no later record matches', z3.ForAll([q], z3.Implies(z3.And(q >= v.len - k, q < v.len), Not(self.ok(q))), patterns=[v.arr[q]])), ('no earlier record matches', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k), Not(self.ok(q))), patterns=[v.arr[q]]))]; return o
        g.loop_hints[:] = [hint]
    def run(self): out = call(self.g, self.st, self.c.fn(self.st.fn.n) if False else self.st.fn, self.a); cover(self.g, out); no_abort(self.g, 'never aborts the process'); return out
def by_task(K, s, r):
    g = K.g; f = K.st.fn; t = g.val(K.st, K.a[1]); return field(g, s, r, 'task_name') == t
def by_pattern(K, s, r):
    g = K.g; M = z3.Function('matches', g.str_sort(), z3.BoolSort()); return M(field(g, s, r, 'task_name'))
def last(c):
    """ensures the answer is the latest record of the task with an upload started and none aborted by the server, or none if there is no such record"""
    K = Hist(c, 'GetLastSuccessfulContribution', by_task); g = K.g; m = z3.Int('latest'); q = z3.Int('any record'); out = K.run()
    for s, r in out:
        r = g.val(s, r); inr = lambda x: z3.And(x >= 0, x < K.v.len); g.oblige(s, z3.Implies(z3.And(inr(q), K.ok(q)), r.has), 'a matching record is found if there is one'); z = s.copy(); z.assume(r.has)
        if g.feasible(z): x = g.pack(z, g.optval(z, r), OS); g.oblige(z, z3.Exists([m], z3.And(inr(m), x == K.v.arr[m], K.ok(m), z3.ForAll([q], z3.Implies(z3.And(q > m, q < K.v.len), Not(K.ok(q))), patterns=[K.v.arr[q]]))), 'the record is the latest one that matches')
def found(g, out, K):
    m, q = z3.Int('latest'), z3.Int('any record'); inr = lambda x: z3.And(x >= 0, x < K.v.len); return m, q, inr
def pattern(c):
    """ensures the time returned is that of the first upload start of the latest record whose task matches the expression, with an upload started and none aborted by the server"""
    K = Hist(c, 'GetLastSuccessfulContributionTimeForPattern', by_pattern); g = K.g; M = z3.Function('matches', g.str_sort(), z3.BoolSort()); g.contracts['re2::RE2::FullMatch'] = g.contracts['re2::RE2::FullMatchN'] = lambda g, s, obj, a, e: [(s, M(g.val(s, a[0])))]; out = K.run(); ax = [lemma(K), first_event(K)]; m, q = z3.Int('latest'), z3.Int('any record')
    for s, r in out:
        [s.assume(x) for x in ax]
        r = g.val(s, r); g.oblige(s, z3.Implies(z3.And(q >= 0, q < K.v.len, K.ok(q)), r.has), 'a time is returned if a record matches'); z = s.copy(); z.assume(r.has)
        if g.feasible(z): x = g.pack(z, g.optval(z, r), TS); g.oblige(z, z3.Exists([m], z3.And(m >= 0, m < K.v.len, K.ok(m), x == sub(g, z, g.unpack(z, K.ev(m).arr[K.FIRST(K.ev(m).arr)], EV), 'timestamp', TS), z3.ForAll([q], z3.Implies(z3.And(q > m, q < K.v.len), Not(K.ok(q))), patterns=[K.v.arr[q]]))), 'the time is that of the first upload start of the latest matching record')
def lemma(K):
    """by induction over the number of events: if some event of the kind is among the first k, there is a position of one"""
    g = K.g; s = start(g); a = z3.Const('a!l', K.ev(z3.IntVal(0)).arr.sort()); k = z3.Int('k!l'); n = UP; F_ = K.SEEN[n]; K.POS = W = z3.Function('position of event', a.sort(), z3.IntSort(), z3.IntSort()); t = lambda st, i: field(g, st, g.unpack(st, a[i], EV), 'event_type'); st = K.st; P = lambda x: z3.Implies(F_(a, x), z3.And(W(a, x) >= 0, W(a, x) < x, t(s, W(a, x)) == n))
    s.assume(k > 0); s.assume(F_(a, k) == z3.Or(F_(a, k - 1), t(s, k - 1) == n)); s.assume(W(a, k) == z3.If(t(s, k - 1) == n, k - 1, W(a, k - 1))); s.assume(P(k - 1)); g.oblige(s, P(k), 'lemma: an event seen has a position'); return (z3.ForAll([a, k], z3.Implies(z3.And(k >= 0, F_(a, k)), z3.And(W(a, k) >= 0, W(a, k) < k, field(g, st, g.unpack(st, a[W(a, k)], EV), 'event_type') == n)), patterns=[F_(a, k)]))
def first_event(K):
    """FIRST(a) is the first position with an upload start, if there is one"""
    g, st = K.g, K.st; a = z3.Const('a!l', K.ev(z3.IntVal(0)).arr.sort()); j = z3.Int('j!l'); K.FIRST = F_ = z3.Function('first upload start', a.sort(), z3.IntSort()); t = lambda i: field(g, st, g.unpack(st, a[i], EV), 'event_type'); return (z3.ForAll([a, j], z3.Implies(z3.And(j >= 0, t(j) == UP), z3.And(F_(a) >= 0, F_(a) <= j, t(F_(a)) == UP)), patterns=[z3.MultiPattern(F_(a), a[j])]))
class One:
    """a query on the last successful contribution, which is an arbitrary record with an upload start, or none"""
    def __init__(self, c, fn):
        g = self.g = base(c); f = c.fn(N + fn); st = self.st = start(g, f); self.a = params(g, st, f); self.has = z3.Bool('contributed'); self.r = g.fresh(st, OS, 'record', exact_name=True); self.lv = g.new_root(st, 'record', self.r); self.ev = g.read(st, self.lv.f('events')); self.j = j = z3.Int('first start'); self.t = lambda i: field(g, st, g.unpack(st, self.ev.arr[i], EV), 'event_type'); q = z3.Int('q!e')
        st.assume(z3.And(self.ev.len < 2 ** 31, j >= 0, j < self.ev.len, self.t(j) == UP)); st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < j), self.t(q) != UP), patterns=[self.t(q)]))
        g.contracts[N + 'GetLastSuccessfulContribution'] = lambda g, s, obj, a, e: self.last(g, s, a, e)
    def last(self, g, s, a, e): g.oblige(s, z3.And(z3.BoolVal(a[0] is self.a[0] or repr(a[0]) == repr(self.a[0])), g.val(s, a[1]) == g.val(self.st, self.a[1])), 'asks for the last successful contribution of this task in this history'); return [(s, OptV(OS, self.has, g.read(s, self.lv), e['t']))]
    def run(self): out = call(self.g, self.st, self.st.fn, self.a); cover(self.g, out); no_abort(self.g, 'never aborts the process'); return out
def time(c):
    """ensures the time is that of the first upload start of the last successful contribution, if there is one"""
    K = One(c, 'GetLastSuccessfulContributionTime'); g = K.g
    for s, r in K.run(): r = g.val(s, r); g.oblige(s, r.has == K.has, 'a time is returned exactly if there is a contribution'); g.oblige(s, z3.Implies(r.has, g.pack(s, g.optval(s, r), TS) == sub(g, s, g.unpack(s, K.ev.arr[K.j], EV), 'timestamp', TS)), 'the time is that of the first upload start')
def min_sep(c):
    """ensures the index returned is the one recorded with the last successful contribution, if there is one"""
    K = One(c, 'GetLastSuccessfulContributionMinSepPolicyIndex'); g = K.g; rec = C07.present(g, K.st, K.lv, 'min_sep_policy_index')
    for s, r in K.run(): r = g.val(s, r); g.oblige(s, r.has == z3.And(K.has, rec), 'an index is returned exactly if the contribution recorded one'); g.oblige(s, z3.Implies(r.has, g.optval(s, r) == g.read(s, K.lv.f('min_sep_policy_index'))), 'the index is the recorded one')
def access(c):
    """ensures the first access times returned are those recorded per collection with the last successful contribution"""
    K = One(c, 'GetPreviousCollectionFirstAccessTimeMap'); g = K.g; d = g.read(K.st, K.lv.f('dataset_stats')); DS = d.vty; x = z3.Const('any collection', g.str_sort()); ts = lambda s, y: sub(g, s, g.unpack(s, d.val[y], DS), 'first_access_timestamp', TS)
    def hint(L):
        o = []; s = L.st
        if getattr(L, 'visited', None) is None: return o
        vis = g.read(s, L.visited); y = z3.Const('y!c', g.str_sort())
        for lv in L.mods:
            try: v = g.read(s, lv)
            except Exception: continue
            if isinstance(v, MapV) and v.vty.n == TS.n: o += [('exactly the collections visited', z3.ForAll([y], v.dom[y] == vis[y], **C07.pat(v.dom, y))), ('with their times', z3.ForAll([y], z3.Implies(vis[y], v.val[y] == ts(s, y)), **C07.pat(v.val, y)))]
        return o
    g.loop_hints[:] = [hint]
    for s, r in K.run():
        r = g.val(s, r); g.oblige(s, r.has == K.has, 'times are returned exactly if there is a contribution'); z = s.copy(); z.assume(r.has)
        if g.feasible(z): m = g.optval(z, r); g.oblige(z, m.dom[x] == d.dom[x], 'for exactly the collections recorded'); g.oblige(z, z3.Implies(d.dom[x], m.val[x] == ts(z, x)), 'the times are those recorded')
def in_range(c):
    """ensures the records returned are exactly those last updated within the range, latest first"""
    K = Hist(c, 'GetOperationalStatsForTimeRange', lambda K, s, r: T); g = K.g; I = z3.IntSort(); v = K.v; st = K.st; TO = z3.Function('last update', g.sort_of(OS), g.sort_of(TIME)); lo, hi = [g.pack(st, g.val(st, x), TIME) for x in K.a[1:3]]; CNT = z3.Function('selected among the last', I, I); tm = lambda i: g.unpack(st, TO(v.arr[v.len - 1 - i]), TIME)
    g.contracts[N + '(anonymous namespace)::GetLastUpdatedTimeFromLegacyOpStats'] = lambda g, s, obj, a, e: [(s, g.unpack(s, TO(g.pack(s, g.val(s, a[0]), OS)), TIME))]; L_, H_ = g.val(st, K.a[1]), g.val(st, K.a[2])
    le = lambda a, b: z3.Or(a.inf < b.inf, z3.And(a.inf == b.inf, z3.Or(a.inf != 0, a.ns <= b.ns)))
    IN = lambda i: z3.And(le(L_, tm(i)), le(tm(i), H_)); st.assume(CNT(0) == 0)
    def hint(L):
        s = L.st; k = L.k; o = []; q = z3.Int('q!c'); s.assume(z3.Implies(k > 0, CNT(k) == CNT(k - 1) + z3.If(IN(k - 1), 1, 0)))
        for lv in L.mods:
            try: x = g.read(s, lv)
            except Exception: continue
            if isinstance(x, VecV) and x.ety.n == OS.n: o += [('as many as selected so far', x.len == CNT(k)), ('each selected record in its place', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k, IN(q)), z3.And(CNT(q) >= 0, CNT(q) < CNT(k), x.arr[CNT(q)] == v.arr[v.len - 1 - q])), patterns=[CNT(q)])), ('count', CNT(k) >= 0)]
        return o
    g.loop_hints[:] = [hint]; q = z3.Int('any record')
    for s, r in K.run():
        x = g.val(s, r); g.oblige(s, x.len == CNT(v.len), 'as many records as lie in the range'); s.assume(CNT(q) == CNT(q)); g.oblige(s, z3.Implies(z3.And(q >= 0, q < v.len, IN(q)), z3.And(CNT(q) >= 0, CNT(q) < x.len, x.arr[CNT(q)] == v.arr[v.len - 1 - q])), 'each record in the range, latest first')
def updated(c):
    """ensures the time of the last update is that of the last event, the infinite past if there is none"""
    g = base(c); f = c.fn(N + '(anonymous namespace)::GetLastUpdatedTimeFromLegacyOpStats'); st = start(g, f); a = params(g, st, f); lv = a[0] if isinstance(a[0], LV) else g.new_root(st, 'r', a[0]); ev = g.read(st, lv.f('events')); st.assume(ev.len < 2 ** 31); MS = z3.Function('milliseconds of', g.sort_of(TS), z3.IntSort()); g.contracts['google::protobuf::util::TimeUtil::TimestampToMilliseconds'] = lambda g, s, obj, a, e: [(s, MS(g.pack(s, g.val(s, a[0]), TS)))]; FROM = z3.Function('from milliseconds', z3.IntSort(), g.sort_of(TIME)); g.contracts['absl::FromUnixMillis'] = lambda g, s, obj, a, e: [(s, g.unpack(s, FROM(g.val(s, a[0])), TIME))]; PAST = z3.Const('infinite past', g.sort_of(TIME)); g.contracts['absl::InfinitePast'] = lambda g, s, obj, a, e: [(s, g.unpack(s, PAST, TIME))]
    out = call(g, st, f, a); cover(g, out); no_abort(g, 'never aborts the process')
    for s, r in out: g.oblige(s, g.pack(s, g.val(s, r), TIME) == z3.If(ev.len == 0, PAST, FROM(MS(sub(g, s, g.unpack(s, ev.arr[ev.len - 1], EV), 'timestamp', TS)))), 'the time is that of the last event')
def per_task(c):
    """ensures a record made of phases has the population, session and retry window of the run, the last task name and error given, and the sums of the traffic figures of its phases"""
    g = base(c); g.safety = set(); f = c.fn(N + '(anonymous namespace)::CreateLegacyOperationalStats'); st = start(g, f); a = params(g, st, f); ps = g.val(st, a[3]); st.assume(ps.len < 2 ** 31); I, S = z3.IntSort(), g.str_sort(); ph = lambda s, i: g.unpack(s, ps.arr[i], PS); get = lambda s, i, n: field(g, s, ph(s, i), n); NM = {n: z3.Function('last ' + n, I, S) for n in ('task_name', 'error_message')}; SM = {n: z3.Function('sum of ' + n, I, I) for n in ('bytes_downloaded', 'bytes_uploaded')}; PD = rec_ty('google::protobuf::Duration'); MSEC = z3.Function('milliseconds', g.sort_of(PD), I); SM['net'] = z3.Function('sum of times', I, I); DUR_ = z3.Function('of milliseconds', I, g.sort_of(PD)); dur = lambda s, i: sub(g, s, ph(s, i), 'network_duration', PD)
    g.contracts['google::protobuf::util::TimeUtil::DurationToMilliseconds'] = lambda g, s, obj, a, e: [(s, MSEC(g.pack(s, g.val(s, a[0]), PD)))]; g.contracts['google::protobuf::util::TimeUtil::MillisecondsToDuration'] = lambda g, s, obj, a, e: [(s, g.unpack(s, DUR_(g.val(s, a[0])), PD))]; z0 = g.zero(st, PD)
    empty = g.strlit('')
    st.assume(z3.And([F_(0) == empty for F_ in NM.values()] + [F_(0) == 0 for F_ in SM.values()])); q = z3.Int('q!p'); x_ = z3.Const('x!s', S); st.assume(z3.ForAll([x_], z3.And(g.strlen(x_) >= 0, (g.strlen(x_) == 0) == (x_ == empty)), patterns=[g.strlen(x_)]))
    def unfold(s, k):
        for n, F_ in NM.items(): s.assume(z3.Implies(k > 0, F_(k) == z3.If(get(s, k - 1, n) != empty, get(s, k - 1, n), F_(k - 1))))
        for n, F_ in SM.items(): s.assume(z3.Implies(k > 0, F_(k) == F_(k - 1) + (MSEC(dur(s, k - 1)) if n == 'net' else get(s, k - 1, n))))
    fields = {n: t for n, t in g.rec_fields(OS)}; FIX = ('population_name', 'session_name', 'retry_window', 'has_retry_window')
    def hint(L):
        o = []; s = L.st; k = L.k; w = getattr(L, 'range_val', None)
        if not (isinstance(w, VecV) and w.ety.n == PS.n): return o
        unfold(s, k)
        for lv in L.mods:
            try: v = g.read(s, lv)
            except Exception: continue
            if isinstance(v, RecV): 
                for n in NM: o.append(('last %s so far' % n, g.read(s, lv.f(n)) == NM[n](k)))
            elif lv.path and lv.path[-1][-1] in NM: o.append(('last %s so far' % (lv.path[-1][-1],), v == NM[lv.path[-1][-1]](k)))
            elif z3.is_expr(v) and v.sort() == I and not lv.path: o += [('%s sums %s' % (lv.root, n), v == F_(k)) for n, F_ in SM.items()]
        return o
    g.loop_hints[:] = [hint]; out = call(g, st, f, a); cover(g, out); no_abort(g, 'never aborts the process'); n = ps.len; rw = a[2] if isinstance(a[2], LV) else g.new_root(st, 'rw', a[2]); hasrw = z3.Or(C07.present(g, st, rw, 'delay_min'), C07.present(g, st, rw, 'delay_max'))
    for s, r in out:
        o = g.new_root(s, 'result', g.val(s, r)); R = lambda k: g.read(s, o.f(k))
        for k in NM: g.oblige(s, R(k) == NM[k](n), 'the last %s given' % k.replace('_', ' '))
        g.oblige(s, R('population_name') == g.val(st, a[0]), 'the population of the run'); g.oblige(s, R('session_name') == g.val(st, a[1]), 'the session of the run'); g.oblige(s, R('chunking_layer_bytes_downloaded') == SM['bytes_downloaded'](n), 'the sum of the bytes downloaded'); g.oblige(s, R('chunking_layer_bytes_uploaded') == SM['bytes_uploaded'](n), 'the sum of the bytes uploaded'); g.oblige(s, R('phase_stats').len == 0, 'no phases are left')
        g.oblige(s, C07.present(g, s, o, 'network_duration') == (SM['net'](n) != 0), 'a network time exactly if the sum is not zero'); g.oblige(s, z3.Implies(SM['net'](n) != 0, g.pack(s, R('network_duration'), PD) == DUR_(SM['net'](n))), 'the sum of the network times'); g.oblige(s, C07.present(g, s, o, 'retry_window') == hasrw, 'a retry window exactly if the run has one')
def per_run(c):
    """ensures a run recorded without phases stands for itself, and any other run for one record per task, in order, made of its population, session, retry window, minimum separation index and the task's phases"""
    g = base(c); f = [x for x in c.fns(N + '(anonymous namespace)::ConvertToLegacyOperationalStats') if x.ps[0][2].deref().n == OS.n][0]; st = start(g, f); a = params(g, st, f); lv = a[0] if isinstance(a[0], LV) else g.new_root(st, 'run', a[0]); LT = rec_ty('std::vector', (PS,)); lists = g.fresh(st, rec_ty('std::vector', (LT,)), 'tasks', exact_name=True); st.assume(lists.len < 2 ** 31); ph = g.read(st, lv.f('phase_stats')); st.assume(ph.len < 2 ** 31); RW = dict(g.rec_fields(OS))['retry_window']; S = g.str_sort(); MK = z3.Function('record of', S, S, g.sort_of(RW), g.sort_of(LT), g.sort_of(OS)); run = g.read(st, lv); rw = sub(g, st, run, 'retry_window', RW); hm, mi = C07.present(g, st, lv, 'min_sep_policy_index'), g.read(st, lv.f('min_sep_policy_index'))
    g.contracts[N + '(anonymous namespace)::GeneratePerTaskStats'] = lambda g, s, obj, a, e: [(s, lists)]; g.contracts[N + '(anonymous namespace)::CreateLegacyOperationalStats'] = lambda g, s, obj, a, e: [(s, g.unpack(s, MK(g.val(s, a[0]), g.val(s, a[1]), g.pack(s, g.val(s, a[2]), RW), g.pack(s, g.val(s, a[3]), LT)), OS))]
    def want(s, i):
        r = g.new_root(s, 'want', g.unpack(s, MK(g.read(st, lv.f('population_name')), g.read(st, lv.f('session_name')), rw, lists.arr[i]), OS)); old = g.read(s, r.f('min_sep_policy_index')), C07.present(g, s, r, 'min_sep_policy_index')
        base_ = g.pack(s, g.read(s, r), OS); y = s.copy(); g.write(y, r.f('min_sep_policy_index'), mi); g.write(y, r.f('has_min_sep_policy_index'), T); return z3.If(hm, g.pack(y, g.read(y, r), OS), base_)
    def hint(L):
        o = []; s = L.st; k = L.k; q = z3.Int('q!t')
        for v_ in L.mods:
            try: v = g.read(s, v_)
            except Exception: continue
            if isinstance(v, VecV) and v.ety.n == OS.n: o += [('one record per task so far', v.len == k), ('each made of its phases', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k), v.arr[q] == want(s, q)), **C07.pat(v.arr, q)))]
        return o
    g.loop_hints[:] = [hint]; out = call(g, st, f, a); cover(g, out); no_abort(g, 'never aborts the process'); i = z3.Int('any task')
    for s, r in out:
        v = g.val(s, r); g.oblige(s, v.len == z3.If(ph.len == 0, 1, lists.len), 'one record, or one per task'); g.oblige(s, z3.Implies(ph.len == 0, v.arr[0] == g.pack(s, run, OS)), 'a run without phases stands for itself'); g.oblige(s, z3.Implies(z3.And(ph.len != 0, i >= 0, i < lists.len), v.arr[i] == want(s, i)), 'each task has its record, with the figures of the run')
UNITS = [per_task, per_run, last, pattern, time, min_sep, access, in_range, updated]
HARNESS = dict(main='C19_harness.cc', srcs=TUS, protos=['fcp/protos/opstats.proto', 'fcp/protos/federated_api.proto'], libs=['-lre2'], secs=4)
