"""C18: the operational-statistics logger."""
from vc.spec import *
TUS = ['fcp/client/opstats/opstats_logger_impl.cc']
CL = 'fcp::client::opstats::OpStatsLoggerImpl'
OS = rec_ty('fcp::client::opstats::OperationalStats'); PS = rec_ty('fcp::client::opstats::OperationalStats_PhaseStats'); SEQ = rec_ty('fcp::client::opstats::OpStatsSequence')
EV = rec_ty('fcp::client::opstats::OperationalStats_Event'); DS = rec_ty('fcp::client::opstats::OperationalStats_DatasetStats')
TS = rec_ty('google::protobuf::Timestamp'); PD = rec_ty('google::protobuf::Duration')
ASSUMPTIONS = ['the database runs the given update exactly once on the stored sequence when it succeeds and changes nothing when it fails', 'calls hold the mutex, so they are atomic steps',
               'counters stay within 64 bits', 'the class invariant used: outside a phase the pending phase record is empty (shown to hold after construction and to be kept by every call)']
class W:
    """an arbitrary logger in an arbitrary history: built by the real constructor, then every data member replaced by an arbitrary value subject to the class invariant"""
    def __init__(self, c, arbitrary=True):
        g = c.engine(TUS); self.c = c; self.g = g; g.safety = {'null', 'index'}; self.setup()
        k = [f for f in c.fns(CL + '::OpStatsLoggerImpl') if f.ctor and len(f.ps) == 5][0]; st = start(g, k); self.phase_flag = z3.Bool('use_phase_stats')
        self.session, self.population = z3.Const('session', g.str_sort()), z3.Const('population', g.str_sort())
        g.contracts['fcp::client::Flags::enable_phase_stats_logging'] = lambda g, st, obj, a, e: [(st, self.phase_flag)]
        self.db = g.new_root(st, 'db', g.fresh(st, SEQ, 'db', exact_name=True)); st.assume(g.read(st, self.db.f('opstats')).len < 2 ** 30)
        a = params(g, st, k, p3=g.new_root(st, 'session', self.session), p4=g.new_root(st, 'population', self.population))
        for x in a[:3]:
            if isinstance(x, PtrV): st.assume(z3.Not(x.null))
            if isinstance(x, OptV): st.assume(x.has)
        this = g.new_root(st, 'logger', RecV(k.cls, {})); out = call(g, st, k, a, this); cover(g, out, 'a logger can be made'); no_abort(g, 'construction never aborts')
        self.l = this; self.starts = [s for s, _ in out]
        fs = g.rec_fields(k.cls); names = [n for n, t in fs if t is PS or t.n == PS.n]
        if len(names) != 1: raise Unsupported('the pending phase record was not recognised')
        self.cur = this.f(names[0])
        if arbitrary:
            for s in self.starts:
                for n, t in fs:
                    if t.k == 'ptr' or (t.n or '').startswith('std::unique_ptr') or (t.n or '') == 'absl::Mutex' or n == self.flag_field(s, fs): continue
                    g.write(s, this.f(n), g.fresh(s, t, 'l.' + n, exact_name=True))
                for x in self.inv(s): s.assume(x)
    def flag_field(self, s, fs):
        for n, t in fs:
            if kind_of(t) == 'bool':
                v = self.g.read(s, self.l.f(n))
                if z3.is_expr(v) and v.eq(self.phase_flag): return n
    def setup(self):
        g = self.g; NOW = z3.Function('now', z3.IntSort(), g.sort_of(TS)); self.nows = NOW
        def transform(g, st, obj, a, e):
            fail = st.copy(); ok = st; out = []
            code = z3.Int('dbcode!%d' % g._next()); fail.assume(z3.And(code > 0, code < 17)); fail.ghost['commits'] = fail.ghost.get('commits', ()) + ('failed',)
            out.append((fail, StatusV(code, g.fresh_const('msg', g.str_sort()))))
            for s, _ in g.call_fnv(ok, a[0], [self.db], 0):
                s.ghost['commits'] = s.ghost.get('commits', ()) + ('ok',); out.append((s, StatusV(z3.IntVal(0), g.fresh_const('msg', g.str_sort()))))
            return out
        g.contracts['fcp::client::opstats::OpStatsDb::Transform'] = transform
        def now(g, st, obj, a, e):
            n = st.ghost.get('nows', 0); st.ghost['nows'] = n + 1; return [(st, g.unpack(st, NOW(z3.IntVal(n)), TS))]
        g.contracts['google::protobuf::util::TimeUtil::GetCurrentTime'] = now
        D = g.sort_of(PD); self.DADD = z3.Function('duration.add', D, D, D); self.DUR = z3.Function('to.proto.duration', g.sort_of(DUR), D); self.TIM = z3.Function('to.proto.time', g.sort_of(TIME), g.sort_of(TS))
        g.contracts['google::protobuf::operator+'] = lambda g, st, obj, a, e: [(st, g.unpack(st, self.DADD(g.pack(st, g.val(st, a[0]), PD), g.pack(st, g.val(st, a[1]), PD)), PD))]
        g.contracts['fcp::TimeUtil::ConvertAbslToProtoDuration'] = lambda g, st, obj, a, e: [(st, g.unpack(st, self.DUR(g.pack(st, g.val(st, a[0]), DUR)), PD))]
        g.contracts['fcp::TimeUtil::ConvertAbslToProtoTimestamp'] = lambda g, st, obj, a, e: [(st, g.unpack(st, self.TIM(g.pack(st, g.val(st, a[0]), TIME)), TS))]
    def inv(self, s):
        g = self.g; cur = g.pack(s, g.read(s, self.cur), PS); ph = g.read(s, self.cur.f('phase')); x = z3.BoolVal(True)
        empty = g.pack(s, g.zero(s, PS), PS)
        return [z3.Implies(ph == 0, cur == empty), z3.Implies(z3.Not(self.phase_flag), ph == 0)]
    def m(self, s, name, *a):
        f = self.c.fn(CL + '::' + name)
        return call(self.g, s, f, list(a), self.l)
    def entry(self, s):
        v = self.g.read(s, self.db.f('opstats')); return self.db.f('opstats').i(v.len - 1)
    def commit(self, s):
        """states after a successful commit"""
        out = self.m(s, 'CommitToStorage'); return [x for x, r in out if x.ghost.get('commits', ())[-1:] == ('ok',)]
    def P(self, s, v, t): return self.g.pack(s, v, t)

def views(w, name, mk, body, prep=None, what=''):
    """commit; call; commit: 'body(state, before, after)' gives the expected entry as a function of the entry before"""
    g = w.g; n = 0; all_ = []
    for s0 in w.starts:
      for s1 in (prep(s0.copy()) if prep else [s0.copy()]):
        for s in w.commit(s1):
            before = g.new_root(s, 'before', g.read(s, w.entry(s))); old = g.read(s, w.db.f('opstats')); base = old.len
            inphase = z3.And(w.phase_flag, g.read(s, w.cur.f('phase')) != 0)
            for in_, y in zip((True, False), g.branch(s, inphase)):
                if y is None: continue
                t0 = y.ghost.get('nows', 0)
                for z, _ in w.m(y, name, *mk(y)):
                    no_abort(g, name + ' never aborts')
                    for x in w.inv(z): g.oblige(z, x, '%s keeps: nothing is pending outside a phase' % name)
                    for u in w.commit(z):
                        all_.append((u, None)); exp = g.new_root(u, 'expected', g.read(u, before))
                        body(u, exp, in_, t0)
                        got, want = w.P(u, g.read(u, w.entry(u)), OS), w.P(u, g.read(u, exp), OS)
                        g.oblige(u, got == want, '%s%s%s changes the committed entry exactly as documented' % (name, what, ' in a phase' if in_ else ''))
                        new = g.read(u, w.db.f('opstats')); i = z3.Int('i!e'); g.oblige(u, z3.Implies(z3.And(i >= 0, i < base - 1), new.arr[i] == old.arr[i]), '%s: entries of other runs stay as they were' % name)
                        g.oblige(u, new.len == base, '%s: a later commit replaces the entry of this run' % name)
    cover(g, all_, name + ' can be followed by a commit')
def last_phase(g, u, exp):
    v = g.read(u, exp.f('phase_stats')); return exp.f('phase_stats').i(v.len - 1)
def push(g, u, lv, x, t):
    v = g.read(u, lv); g.write(u, lv, VecV(v.ety, v.len + 1, z3.Store(v.arr, v.len, g.pack(u, x, t)), v.ty))
def event(w, u, to, kind, t0):
    g = w.g; push(g, u, to.f('events'), RecV(EV, dict(event_type=kind, has_timestamp=T, timestamp=g.unpack(u, w.nows(z3.IntVal(t0)), TS))), EV)
def st_(g, name): return z3.Const(name, g.str_sort())
def events(c):
    "AddEvent, AddEventAndSetTaskName, AddEventWithErrorMessage: one event of the given kind with the current time at the end of the phase's (else the run's) events; name replaced, first error message kept"
    w = W(c); g = w.g; kind = z3.Int('kind'); nm = st_(g, 'task'); err = st_(g, 'err')
    def rng(s): s.assume(z3.And(kind >= -2 ** 31, kind < 2 ** 31)); return kind
    def one(u, exp, ph, t0): event(w, u, last_phase(g, u, exp) if ph else exp, kind, t0)
    views(w, 'AddEvent', lambda s: [rng(s)], one)
    w.g = g
    def named(u, exp, ph, t0):
        to = last_phase(g, u, exp) if ph else exp; event(w, u, to, kind, t0); g.write(u, to.f('task_name'), nm)
    views(w, 'AddEventAndSetTaskName', lambda s: [g.new_root(s, 'nm', nm), rng(s)], named)
    def failed(u, exp, ph, t0):
        to = last_phase(g, u, exp) if ph else exp; event(w, u, to, kind, t0); old = g.read(u, to.f('error_message'))
        g.write(u, to.f('error_message'), z3.If(g.strlen(old) == 0, err, old))
    views(w, 'AddEventWithErrorMessage', lambda s: [rng(s), g.new_root(s, 'err', err)], failed)
def scalars(c):
    "SetMinSepPolicyIndex and SetRetryWindow replace exactly that field; the retry token is dropped"
    w = W(c); g = w.g; i = z3.Int('index')
    def idx(u, exp, ph, t0): g.write(u, exp.f('min_sep_policy_index'), i); g.write(u, exp.f('has_min_sep_policy_index'), T)
    views(w, 'SetMinSepPolicyIndex', lambda s: [s.assume(z3.And(i >= -2 ** 63, i < 2 ** 63)) or i], idx)
    RW = rec_ty('google::internal::federatedml::v2::RetryWindow')
    def mk(s): w.rw = g.fresh(s, RW, 'window', exact_name=True); return [w.rw]
    def rw(u, exp, ph, t0):
        lv = g.new_root(u, 'rw', g.fresh(u, RW, 'window', exact_name=True)); g.write(u, lv.f('retry_token'), g.strlit('')); g.write(u, exp.f('retry_window'), g.read(u, lv)); g.write(u, exp.f('has_retry_window'), T)
    views(w, 'SetRetryWindow', mk, rw)
def i64(x, b=2 ** 62): return z3.And(x >= -b, x < b)
def datasets(c):
    "UpdateDatasetStats adds to the counters of that dataset only and stamps the first access time recorded for it; RecordCollectionFirstAccessTime keeps the first time per collection"
    w = W(c); g = w.g; uri = st_(g, 'uri'); n, b = z3.Ints('examples bytes'); q = st_(g, 'some.uri')
    maps = [x for x, t in g.rec_fields(g.read(w.starts[0], w.l).ty) if kind_of(t) == 'map' and g.map_vty(t) is not None and kind_of(g.map_vty(t)) == 'time']
    if len(maps) != 1: raise Unsupported('the first access times were not recognised')
    M = w.l.f(maps[0])
    def mk(s): s.assume(z3.And(n >= -2 ** 31, n < 2 ** 31, i64(b))); return [g.new_root(s, 'uri', uri), n, b]
    def upd(u, exp, ph, t0):
        to = last_phase(g, u, exp) if ph else exp; d = g.read(u, to.f('dataset_stats')); first = g.read(u, M)
        cur = g.new_root(u, 'ds', g.unpack(u, z3.If(d.dom[uri], d.val[uri], w.P(u, g.zero(u, DS), DS)), DS))
        for f, x in (('num_examples_read', n), ('num_bytes_read', b)):
            v = g.read(u, cur.f(f)); u.assume(i64(v)); g.write(u, cur.f(f), v + x)
        g.write(u, cur.f('has_first_access_timestamp'), z3.Or(first.dom[uri], g.read(u, cur.f('has_first_access_timestamp'))))
        g.write(u, cur.f('first_access_timestamp'), g.unpack(u, z3.If(first.dom[uri], w.TIM(first.val[uri]), w.P(u, g.read(u, cur.f('first_access_timestamp')), TS)), TS))
        g.write(u, to.f('dataset_stats'), MapV(d.kty, d.vty, z3.Store(d.dom, uri, T), z3.Store(d.val, uri, w.P(u, g.read(u, cur), DS)), z3.If(d.dom[uri], d.size, d.size + 1), d.ty))
    views(w, 'UpdateDatasetStats', mk, upd)
    for s0 in w.starts:
        st = s0.copy(); m = g.read(st, M); t = g.fresh(st, TIME, 'first', exact_name=True); tt = w.P(st, t, TIME)
        for s, _ in w.m(st, 'RecordCollectionFirstAccessTime', uri, t):
            k = g.read(s, M); g.oblige(s, k.dom[q] == z3.Or(m.dom[q], q == uri), 'a first access time is recorded for this collection only')
            g.oblige(s, z3.Implies(k.dom[q], k.val[q] == z3.If(m.dom[q], m.val[q], tt)), 'the first recorded access time is kept')
            for x in w.inv(s): g.oblige(s, x, 'RecordCollectionFirstAccessTime keeps: nothing is pending outside a phase')
def netstats(g, s, name):
    t = rec_ty('fcp::client::NetworkStats'); d, u = z3.Int(name + '.down'), z3.Int(name + '.up'); x = g.fresh(s, DUR, name + '.time', exact_name=True); s.assume(z3.And(i64(d, 2 ** 60), i64(u, 2 ** 60), x.inf == 0, i64(x.ns, 2 ** 60)))
    return RecV(t, dict(bytes_downloaded=d, bytes_uploaded=u, network_duration=x)), d, u, x
def network(c):
    "SetNetworkStats: outside phases the totals are replaced; in a phase what was added since the previous report is added to that phase, also when the phase changed in between"
    w = W(c); g = w.g; w1 = lambda s: netstats(g, s, 'n1'); w2 = lambda s: netstats(g, s, 'n2'); ph_ = z3.Int('next.phase')
    def upd(first):
        def body(u, exp, ph, t0):
            _, d, up, t = w2(u)
            if not ph:
                for f, x in (('chunking_layer_bytes_downloaded', d), ('chunking_layer_bytes_uploaded', up)): g.write(u, exp.f(f), x)
                g.write(u, exp.f('network_duration'), g.unpack(u, w.DUR(w.P(u, t, DUR)), PD)); g.write(u, exp.f('has_network_duration'), T); return
            to = last_phase(g, u, exp); _, d1, up1, t1 = w1(u)
            for f, x, y in (('bytes_downloaded', d, d1), ('bytes_uploaded', up, up1)):
                v = g.read(u, to.f(f)); u.assume(i64(v)); g.write(u, to.f(f), v + x - y)
            old = z3.If(g.read(u, to.f('has_network_duration')), w.P(u, g.read(u, to.f('network_duration')), PD), w.P(u, g.zero(u, PD), PD))
            g.write(u, to.f('network_duration'), g.unpack(u, w.DADD(old, w.DUR(w.P(u, TimeV(DUR, z3.IntVal(0), t.ns - t1.ns), DUR))), PD)); g.write(u, to.f('has_network_duration'), T)
        return body
    def inph(s): return [x for x in [g.branch(s, z3.And(w.phase_flag, g.read(s, w.cur.f('phase')) != 0))[0]] if x is not None]
    def rep(s): v = w1(s)[0]; return [x for x, _ in w.m(s, 'SetNetworkStats', g.new_root(s, 'n1', v))]
    def same(s): return [y for x in inph(s) for y in rep(x)]
    def nxt(s): s.assume(z3.And(ph_ > 0, ph_ < 100)); return [y for x in same(s) for y, _ in w.m(x, 'StartLoggingForPhase', ph_)]
    mk = lambda s: [g.new_root(s, 'n2', w2(s)[0])]
    views(w, 'SetNetworkStats', mk, upd(None), prep=lambda s: [x for x in [g.branch(s, z3.And(w.phase_flag, g.read(s, w.cur.f('phase')) != 0))[1]] if x is not None])
    views(w, 'SetNetworkStats', mk, upd(1), prep=same, what=' after an earlier report')
    views(w, 'SetNetworkStats', mk, upd(1), prep=nxt, what=' in the next phase')
def phases(c):
    "StartLoggingForPhase begins a new empty record of that phase, with earlier ones kept; StopLoggingForTheCurrentPhase keeps them all; the task name is that of the latest phase that has one"
    w = W(c); g = w.g; p = z3.Int('phase')
    def mk(s): s.assume(z3.And(p > 0, p < 100)); return [p]
    def begin(u, exp, ph, t0):
        lv = g.new_root(u, 'ps', g.zero(u, PS)); g.write(u, lv.f('phase'), p); y, n = g.branch(u.copy(), w.phase_flag)
        if n is None: push(g, u, exp.f('phase_stats'), g.read(u, lv), PS)
    for flag in (True, False):
        views(w, 'StartLoggingForPhase', mk, begin, prep=lambda s: [x for x in [g.branch(s, w.phase_flag)[0 if flag else 1]] if x is not None])
    views(w, 'StopLoggingForTheCurrentPhase', lambda s: [], lambda u, exp, ph, t0: None)
    for s0 in w.starts:
        for s in w.commit(s0.copy()):
            for z, r in w.m(s.copy(), 'StopLoggingForTheCurrentPhase'): g.oblige(z, g.read(z, w.cur.f('phase')) == 0, 'after the end of a phase none is current')
            # invariant of storage: before the first phase record, none has been stored
            e = w.entry(s); ps = g.read(s, e.f('phase_stats')); nm = lambda i: name_of(ps.arr[i]); i = z3.Int('i!n'); j = z3.Int('j!n')
            name_of = g.sort_of(PS).accessor(0, [n for n, _ in g.proto.fields(g.proto.message(PS))].index('task_name'))
            def hint(L):
                out = []
                for lv in L.mods:
                    it = g.read(L.st, lv); q = z3.Int('q!n')
                    if isinstance(it, IterV) and it.kind == 'vec':
                        v = g.read(L.st, it.lv)
                        if v.arr.sort().range() == g.sort_of(PS): out.append(('the phases passed have no name', z3.ForAll([q], z3.Implies(z3.And(q >= it.pos, q < v.len), g.strlen(name_of(v.arr[q])) == 0))))
                    elif z3.is_expr(it) and z3.is_int(it):
                        out.append(('the phases passed have no name', z3.ForAll([q], z3.Implies(z3.And(q > it, q < ps.len), g.strlen(name_of(ps.arr[q])) == 0))))
                return out
            g.loop_hints = [hint]
            for z, r in w.m(s, 'GetCurrentTaskName'):
                no_abort(g, 'asking for the task name never aborts')
                none = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ps.len), g.strlen(nm(j)) == 0)); 
                g.oblige(z, z3.Implies(z3.And(w.phase_flag, g.strlen(r) == 0), none), 'no task name is reported only if no phase has one')
                g.oblige(z, z3.Implies(z3.And(w.phase_flag, g.strlen(r) > 0), z3.Exists([i], z3.And(i >= 0, i < ps.len, nm(i) == r, z3.ForAll([j], z3.Implies(z3.And(j > i, j < ps.len), g.strlen(nm(j)) == 0))))), 'the task name is that of the latest phase that has one')
                g.oblige(z, z3.Implies(z3.Not(w.phase_flag), r == g.read(z, e.f('task_name'))), 'without phases the task name of the run is reported')
def commits(c):
    "a new run's first successful commit appends its entry, holding just the names given; failed commits store nothing and lose nothing; later ones replace that entry, or add it again if the database was emptied; destruction commits once"
    w = W(c, arbitrary=False); g = w.g
    for s0 in w.starts:
        for x in w.inv(s0): g.oblige(s0, x, 'a new logger has nothing pending')
        old = g.read(s0, w.db.f('opstats')); i = z3.Int('i!c')
        def fresh_entry(s, what):
            new = g.read(s, w.db.f('opstats')); exp = g.new_root(s, 'expected', g.zero(s, OS)); g.write(s, exp.f('session_name'), w.session); g.write(s, exp.f('population_name'), w.population)
            g.oblige(s, new.len == old.len + 1, what + ' appends one entry'); g.oblige(s, w.P(s, g.read(s, w.entry(s)), OS) == w.P(s, g.read(s, exp), OS), what + ' stores just the names')
            g.oblige(s, z3.Implies(z3.And(i >= 0, i < old.len), new.arr[i] == old.arr[i]), what + ' leaves the entries of earlier runs')
        outs = w.m(s0.copy(), 'CommitToStorage'); cover(g, outs, 'a commit can happen')
        for s, r in outs:
            n = s.ghost.get('commits', ()); g.oblige(s, z3.BoolVal(len(n) == 1), 'one commit is one database update')
            g.oblige(s, (r.code == 0) == z3.BoolVal(n[-1:] == ('ok',)), 'the outcome of the update is returned')
            if n[-1] == 'ok': fresh_entry(s, 'the first commit')
            else:
                g.oblige(s, w.P(s, g.read(s, w.db), SEQ) == w.P(s0, g.read(s0, w.db), SEQ), 'a failed commit changes nothing')
                for s2 in w.commit(s.copy()): fresh_entry(s2, 'the first successful commit')
    for s0 in w.starts:
        mine = W(c); g = mine.g
        for t0 in mine.starts:
            for s in mine.commit(t0.copy()):
                e0 = mine.P(s, g.read(s, mine.entry(s)), OS)
                z = s.copy(); v = g.read(z, mine.db.f('opstats')); g.write(z, mine.db.f('opstats'), VecV(v.ety, z3.IntVal(0), v.arr, v.ty))
                for y in mine.commit(z): g.oblige(y, z3.And(g.read(y, mine.db.f('opstats')).len == 1, mine.P(y, g.read(y, mine.entry(y)), OS) == e0), 'an emptied database gets the entry again')
                for y, r in mine.m(s.copy(), 'CommitToStorage'):
                    if y.ghost['commits'][-1] == 'ok': g.oblige(y, mine.P(y, g.read(y, mine.db), SEQ) == mine.P(s, g.read(s, mine.db), SEQ), 'committing again without news changes nothing')
        break
    d = c.fns(CL + '::~OpStatsLoggerImpl')
    if d:
        for s0 in mine.starts:
            for s, _ in call(g, s0.copy(), d[0], [], mine.l): g.oblige(s, z3.BoolVal(len(s.ghost.get('commits', ())) == 1), 'the end of a logger commits once')
UNITS = [events, scalars, datasets, network, phases, commits]
HARNESS = dict(main='C18_harness.cc', srcs=['fcp/client/opstats/opstats_logger_impl.cc', 'fcp/base/time_util.cc'], protos=['fcp/protos/opstats.proto', 'fcp/protos/federated_api.proto', 'fcp/client/histogram_counters.proto', 'fcp/client/diag_codes.proto', 'fcp/client/engine/engine.proto'], secs=5)
