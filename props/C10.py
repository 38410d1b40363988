"""C10: rounds, thresholds and counts of the server."""
from vc.spec import *
import importlib.util
_s = importlib.util.spec_from_file_location('prop_C07', os.path.join(V, 'props', 'C07.py')); C07 = importlib.util.module_from_spec(_s); _s.loader.exec_module(C07)
SD = 'fcp/secagg/server/secagg_server_'
TUS = [SD + n + '.cc' for n in ('state', 'r0_advertise_keys_state', 'r1_share_keys_state', 'r2_masked_input_coll_state', 'r3_unmasking_state', 'prng_running_state', 'aborted_state', 'completed_state', 'protocol_impl')]
NS = 'fcp::secagg::'; I = z3.IntSort(); BASE = NS + 'SecAggServerState'; IMPL = NS + 'SecAggServerProtocolImpl'
ASSUMPTIONS = ['the keeping of keys, shares and masked inputs (HandleAdvertiseKeys, HandleShareKeysResponse, HandleMaskedInputCollectionResponse, HandleUnmaskingResponse and the preparation of requests) changes no client status; their refusals are arbitrary here (see C11)',
               'tracing and the sending of messages change no state of the server; there is no metrics listener', 'counting: the number of entries equal to a value changes with one entry, is positive exactly if some entry has the value, and all values together make up the length']
CLS = [NS + 'SecAggServer' + n for n in ('R0AdvertiseKeysState', 'R1ShareKeysState', 'R2MaskedInputCollState', 'R3UnmaskingState', 'PrngRunningState')]
WAIT, GOT = (0, 2, 4, 6), (2, 4, 6, 8)          # status expected and status after the proper message, per round
ALLOWED = ((0, 1, 2), (1, 2, 3, 4), (1, 3, 4, 5, 6, 7), (1, 3, 5, 6, 7, 8, 9), (1, 3, 5, 7, 8, 9))
DEAD = (1, 3, 5, 7, 9)
RSP = ('advertise_keys', 'share_keys_response', 'masked_input_response', 'unmasking_response')
import re
def generic(n): return n[:4] == 'loop' or bool(re.match(r'&(?:range\.)?\w+#\d+ (== start \+ k|>= 0)$', n))
class Srv:
    def __init__(self, c):
        g = c.engine(TUS); self.g, self.c = g, c; g.safety = {'index', 'null', 'overflow'}; g.feas_qf = True; g.generic = generic
        unit = lambda g, s, obj, a, e: [(s, UnitV())]
        g.contracts['fcp::Trace'] = unit
        for n in ('GetServerToClientMessageType', 'GetClientToServerMessageType', 'TracingState', 'ClientStatusType', 'ClientDropReasonType', 'ConvertSecAccServerOutcomeToTrace'): g.contracts[NS + n] = lambda g, s, obj, a, e: [(s, g.fresh(s, e['t'], 'tr'))]
        g.contracts[NS + 'SendToClientsInterface::Send'] = self.send
        def status(g, s, obj, a, e):
            r = g.fresh(s, e['t'], 'verdict'); s.ghost['verdict'] = s.ghost.get('verdict', ()) + (r.code,); return [(s, r)]
        for n in ('HandleAdvertiseKeys', 'HandleShareKeysResponse', 'HandleMaskedInputCollectionResponse', 'HandleUnmaskingResponse'): g.contracts[IMPL + '::' + n] = status
        g.contracts[IMPL + '::InitializeShareKeysRequest'] = self.init
        for n in ('ErasePublicKeysForClient', 'EraseShareKeysForClient', 'ComputeSessionId', 'PrepareShareKeysRequestForClient', 'ClearPairsOfPublicKeys', 'PrepareMaskedInputCollectionRequestForClient', 'ClearShareKeys', 'FinalizeMaskedInputCollection', 'SetUpShamirSharesTables'): g.contracts[IMPL + '::' + n] = unit
        g.contracts[IMPL + '::session_id'] = lambda g, s, obj, a, e: [(s, g.new_root(s, 'sid', g.fresh(s, e['t'].deref() if e['t'].k == 'ref' else e['t'], 'sid')))]
        g.contracts[IMPL + '::SetupMaskedInputCollection'] = lambda g, s, obj, a, e: [(s, g.fresh(s, e['t'], 'token'))]
        g.contracts[NS + 'AsyncWorker::IsIdle'] = lambda g, s, obj, a, e: [(s, z3.Bool('idle'))]
        g.contracts[NS + 'AsyncWorker::Cancel'] = unit
        def nb(g, s, obj, a, e):
            r = g.fresh(s, e['t'], 'nb'); v = g.optval(s, r); s.assume(z3.And(v >= 0, v < self.N)); return [(s, r)]
        g.contracts[IMPL + '::GetNeighborIndex'] = nb
        self.CNT = [z3.Function('count_%d' % v, z3.ArraySort(I, I), I) for v in range(10)]; self.WIT = [z3.Function('witness_%d' % v, z3.ArraySort(I, I), I) for v in range(10)]
    def init(self, g, s, obj, a, e):
        r = g.fresh(s, e['t'], 'init'); s.assume(z3.Implies(r.code != 0, z3.Bool('request could not be made'))); return [(s, r)]
    def send(self, g, s, obj, a, e): return [(s, UnitV())]
    def impl(self, st):
        """an implementation object with arbitrary statuses, made by the real constructor"""
        g, c = self.g, self.c; ks = [f for f in c.fns(IMPL + '::SecAggServerProtocolImpl') if f.ctor and len(f.ps) >= 7]
        if len(ks) != 1: raise Unsupported('constructor of the implementation')
        k = ks[0]; st.fn = k; a = params(g, st, k); vec = next((x for x in (g.val(st, y) for y in a) if isinstance(x, VecV)), None)
        if vec is None: raise Unsupported('statuses')
        self.N = vec.len; self.a0 = vec.arr; st.assume(z3.And(self.N >= 1, self.N < 2 ** 29)); o = g.new_root(st, 'impl', RecV(rec_ty(IMPL), {}))
        for x in a:
            if isinstance(x, PtrV): st.assume(Not(x.null))
            if isinstance(x, OptV) and 'Metrics' in repr(x.ety): st.assume(Not(x.has))
            elif isinstance(x, OptV): st.assume(x.has)
        out = call(g, st, k, a, this=o); no_abort(g, 'construction never aborts')
        if len(out) != 1: raise Unsupported('construction')
        s = out[0][0]; fs = [n for n, t in g.rec_fields(rec_ty(IMPL)) if isinstance(g.read(s, o.f(n)), VecV) and z3.eq(g.read(s, o.f(n)).arr, vec.arr)]
        if len(fs) != 1: raise Unsupported('statuses')
        self.sf = fs[0]; self.min = self.get(s, o, IMPL + '::minimum_number_of_clients_to_proceed'); s.assume(z3.And(self.min >= 1, self.min <= self.N)); N = self.N; AI = z3.ArraySort(I, I)
        x, j, v = z3.Const('x!q', AI), z3.Int('j!q'), z3.Int('v!q')
        for w in range(10):
            C, W = self.CNT[w], self.WIT[w]
            s.assume(z3.ForAll([x, j, v], z3.Implies(z3.And(j >= 0, j < N), C(z3.Store(x, j, v)) == C(x) - z3.If(x[j] == w, 1, 0) + z3.If(v == w, 1, 0)), patterns=[C(z3.Store(x, j, v))]))
            s.assume(z3.ForAll([x], z3.And(C(x) >= 0, z3.Implies(C(x) > 0, z3.And(W(x) >= 0, W(x) < N, x[W(x)] == w))), patterns=[C(x)]))
            s.assume(z3.ForAll([x, j], z3.Implies(z3.And(j >= 0, j < N, x[j] == w), C(x) >= 1), patterns=[z3.MultiPattern(C(x), x[j])]))
        return s, o
    def total(self, x): return z3.Sum([C(x) for C in self.CNT])
    def get(self, s, o, name):
        g = self.g; f = self.c.fn(name); s2 = s.copy(); out = g.invoke(s2, f, o, [])
        if len(out) != 1: raise Unsupported('getter ' + name)
        return g.val(out[0][0], out[0][1])
    def getter(self, s, o, name):
        """what the public getter reports (the overriding one of the round's class)"""
        cls = self.g.read(s, o).ty.n; n = name
        for k in (cls, BASE):
            if self.g.p.find(k + '::' + n): return self.get(s, o, k + '::' + n)
        raise Unsupported('getter ' + n)
    def statuses(self, s, o): return self.svec(s, o).arr
    def svec(self, s, o):
        """the status list of the implementation object the state holds"""
        g = self.g; r = g.read(s, o)
        for n, t in g.rec_fields(r.ty):
            v = g.rget(s, r, n, t)
            if isinstance(v, OptV) and IMPL in repr(v.ety): w = g.optval(s, v); return g.rget(s, w, self.sf, dict(g.rec_fields(rec_ty(IMPL)))[self.sf])
        raise Unsupported('implementation object')
    def counts(self, s, o):
        G = lambda n: self.getter(s, o, n)
        return dict(alive=G('NumberOfAliveClients'), before=G('NumberOfClientsFailedBeforeSendingMaskedInput'), after=G('NumberOfClientsFailedAfterSendingMaskedInput'), term=G('NumberOfClientsTerminatedWithoutUnmasking'), ready=G('NumberOfClientsReadyForNextRound'), msgs=G('NumberOfMessagesReceivedInThisRound'), abort=G('NeedsToAbort'))
    def inv(self, r, a, k):
        """named parts of the data-structure invariant of round r for statuses a and reported numbers k"""
        C = lambda *vs: z3.Sum([self.CNT[v](a) for v in vs]); N, mn = self.N, self.min
        out = [('every client has a status of this round', z3.And([self.CNT[v](a) == 0 for v in range(10) if v not in ALLOWED[r]] + [self.total(a) == N])),
               ('clients failed before sending input', k['before'] == C(*[v for v in (1, 3, 5) if v in ALLOWED[r]])),
               ('live clients are those not failed or terminated', k['alive'] == N - k['before'] - k['after'] - k['term']),
               ('clients failed after sending input or terminated', z3.And(k['after'] + k['term'] == (C(7) if r >= 2 else 0), k['term'] >= 0, k['after'] >= 0) if r >= 3 else z3.And(k['term'] == 0, k['after'] == (C(7) if r == 2 else 0)))]
        if r == 4: return out
        out += [('clients ready for the next round', k['ready'] == (C(8, 9) if r == 3 else C(GOT[r]))), ('messages accepted in this round', k['msgs'] == C(6, 7) if r == 2 else k['msgs'] == k['ready'] if r == 3 else z3.And(k['msgs'] >= k['ready'], k['msgs'] <= N - self.CNT[WAIT[r]](a))),
                ('to be aborted exactly when too few clients are left', k['abort'] == (k['alive'] < mn))]
        return out
    def state(self, r, st):
        """any state of round r satisfying the invariant"""
        g, c = self.g, self.c; st, im = self.impl(st); n = CLS[r].split('::')[-1]; ks = [f for f in c.fns(CLS[r] + '::' + n) if f.ctor and len(f.ps) in (1, 4) and 'unique_ptr' in repr(f.ps[0][2])]
        if len(ks) != 1: raise Unsupported('constructor')
        k = ks[0]; st.fn = k; a = params(g, st, k); o = g.new_root(st, 'this', RecV(rec_ty(CLS[r]), {})); v = a[0] if isinstance(a[0], OptV) else g.val(st, a[0])
        a[0] = OptV(v.ety, T, g.read(st, im), v.ty)
        out = call(g, st, k, a, this=o); no_abort(g, 'construction never aborts')
        if len(out) != 1: raise Unsupported('construction')
        s = out[0][0]; rec = g.read(s, o)
        for n, t in g.rec_fields(rec_ty(BASE)):
            if kind_of(t) in ('int', 'bool') and t.k != 'enum': g.write(s, o.f(n), g.fresh(s, t, n))
        for n, t in g.rec_fields(rec_ty(CLS[r])):
            if isinstance(g.read(s, o.f(n)), VecV): g.write(s, o.f(n), g.fresh(s, t, n))
        k = self.counts(s, o); arr = self.statuses(s, o)
        for _, p in self.inv(r, arr, k): s.assume(p)
        j = z3.Int('j!q'); s.assume(z3.ForAll([j], z3.And(arr[j] >= 0, arr[j] <= 9), patterns=[arr[j]]))
        for v in ('before', 'after', 'term', 'ready', 'msgs'): s.assume(z3.And(k[v] >= 0, k[v] <= self.N))
        return s, o, arr, k
def dead(x): return z3.Or([x == v for v in DEAD])
def same(k, k2): return z3.And([k[n] == k2[n] for n in k])
def check_inv(S, r, y, o, what):
    a2, k2 = S.statuses(y, o), S.counts(y, o)
    for n, p in S.inv(r, a2, k2): S.g.oblige(y, p, '%s: %s' % (what, n))
    return a2, k2
def handle(r):
    def f(c):
        S = Srv(c); g = S.g; s, o, a, k = S.state(r, start(g)); fs = [f for f in c.fns(CLS[r] + '::HandleMessage') if ('unique_ptr' in repr(f.ps[1][2])) == (r == 2)]; f = fs[0]; s.fn = f; ar = params(g, s, f); i = g.val(s, ar[0]); s.assume(z3.And(i >= 0, i < S.N))
        if r == 2: s.assume(ar[1].has); msg = g.new_root(s, 'm', g.optval(s, ar[1])); 
        else: msg = ar[1]
        isa, isr = C07.present(g, s, msg, 'abort'), C07.present(g, s, msg, RSP[r]); out = call(g, s, f, ar, this=o); cover(g, out); no_abort(g, 'never aborts the process'); q = z3.Int('q')
        for y, st in out:
            a2, k2 = check_inv(S, r, y, o, 'after any message'); vd = y.ghost.get('verdict', ())
            g.oblige(y, st.code == 0, 'a message is always taken'); g.oblige(y, z3.Implies(z3.And(q >= 0, q < S.N, q != i), a2[q] == a[q]), 'a message changes the status of its sender only')
            g.oblige(y, z3.Implies(dead(a[i]), z3.And(a2[i] == a[i], same(k, k2))), 'a message of a dropped client changes nothing'); ok = z3.And(isr, Not(isa), a[i] == WAIT[r], vd[0] == 0) if len(vd) == 1 else F
            g.oblige(y, z3.Implies(a2[i] == GOT[r], z3.Or(ok, a[i] == GOT[r])), 'only a proper, accepted, expected message completes the round for a client')
            g.oblige(y, z3.Implies(ok, z3.And(a2[i] == GOT[r], k2['msgs'] == k['msgs'] + 1)), 'such a message completes the round for its sender'); g.oblige(y, z3.Implies(Not(ok), z3.And(dead(a2[i]), k2['msgs'] == k['msgs'])), 'after any other message its sender is dropped')
    f.__name__ = 'message_R%d' % r; f.__doc__ = 'requires the invariant of round %d; ensures the invariant, that only the status of the sender changes, that a dropped client changes nothing, and that the client completes the round exactly with a proper message' % r; return f
def abort(r):
    def f(c):
        S = Srv(c); g = S.g; s, o, a, k = S.state(r, start(g)); f = c.fn(BASE + '::AbortClient'); s.fn = f; ar = params(g, s, f); i = g.val(s, ar[0]); s.assume(z3.And(i >= 0, i < S.N)); out = call(g, s, f, ar, this=o); cover(g, out); no_abort(g, 'never aborts the process'); q = z3.Int('q')
        for y, _ in out:
            a2, k2 = check_inv(S, r, y, o, 'after a drop'); g.oblige(y, z3.Implies(z3.And(q >= 0, q < S.N, q != i), a2[q] == a[q]), 'only the status of the client dropped changes'); g.oblige(y, dead(a2[i]), 'the client is dropped')
            g.oblige(y, z3.Implies(dead(a[i]), z3.And(a2[i] == a[i], same(k, k2))), 'dropping a dropped client changes nothing'); g.oblige(y, k2['msgs'] == k['msgs'], 'messages received stay counted')
    f.__name__ = 'drop_R%d' % r; f.__doc__ = 'requires the invariant of round %d; ensures the invariant, the client being dropped and nothing else changed' % r; return f
DEADOF = (1, 3, 5, 7)     # status given to a live client that has not completed the round when it ends
def proceed(r):
    def f(c):
        S = Srv(c); g = S.g; s, o, a, k = S.state(r, start(g)); f = c.fn(CLS[r] + '::ProceedToNextRound'); j = z3.Int('j!q'); N = S.N; idle = T
        if r == 2:
            tok = [g.read(s, o.f(n)) for n, t in g.rec_fields(rec_ty(CLS[r])) if 'AsyncWorker' in repr(t)]
            if len(tok) != 1: raise Unsupported('token')
            idle = z3.Or(Not(tok[0].has) if isinstance(tok[0], OptV) else tok[0].null, z3.Bool('idle'))
        can = z3.And(idle, z3.Or((k['msgs'] if r == 3 else k['ready']) >= S.min, k['abort']))
        def hint(L):
            if not any(m.root == o.root for m in L.mods): return []
            x = S.statuses(L.st, o); k2 = S.counts(L.st, o); out = [(n, p) for n, p in S.inv(r, x, k2) if n[:14] != 'to be aborted ']
            fin = z3.And(x[j] == z3.If(z3.And(j < L.k, a[j] == WAIT[r]), DEADOF[r], a[j]))
            out += [('clients before the counter are done', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), fin), **C07.pat(x, j))), ('nothing else counted', z3.And(k2['ready'] == k['ready'], k2['msgs'] == k['msgs'], k2['alive'] >= k2['ready'] if r < 3 else T)), ('numbers in range', z3.And([S.svec(L.st, o).len == N] + [z3.And(k2[n] >= 0, k2[n] <= N) for n in ('before', 'after', 'term')]))]
            if r == 2: out = [(n, p) for n, p in out]
            return out
        g.loop_hints[:] = [hint]; out = call(g, s, f, [], this=o); cover(g, out); no_abort(g, 'never aborts the process'); q = z3.Int('q')
        for y, v in out:
            g.oblige(y, z3.Implies(Not(can), v.code == CODES['UNAVAILABLE']), 'the round does not end before enough clients have completed it')
            z = y.copy(); z.assume(v.code != 0)
            if g.feasible(z):
                g.oblige(z, z3.Implies(can, z3.Bool('request could not be made')) if r == 0 else Not(can), 'a round that can end does end')
                if not z3.is_true(z3.simplify(v.code != 0)): continue
            z = y.copy(); z.assume(v.code == 0)
            if not g.feasible(z): continue
            w = g.val(z, v.val)
            if not isinstance(w, OptV) or not isinstance(w.val, RecV): raise Unsupported('next state')
            g.oblige(z, w.has, 'there is a next state'); o2 = g.new_root(z, 'next', w.val); cls = w.val.ty.n; a2 = S.statuses(z, o2)
            if cls == NS + 'SecAggServerAbortedState':
                g.oblige(z, k['abort'], 'the session is aborted only if too few clients are left'); k2 = S.counts(z, o2)
                g.oblige(z, z3.And([k[n] == k2[n] for n in ('alive', 'before', 'after', 'term')]), 'an aborted session keeps the numbers reported'); g.oblige(z, a2 == a, 'an aborted session keeps the statuses')
            elif cls == CLS[r + 1]:
                g.oblige(z, Not(k['abort']), 'with too few clients left the session is aborted'); g.oblige(z, z3.And(idle, (k['msgs'] if r == 3 else k['ready']) >= S.min), 'the next round begins only when enough clients have completed this one')
                k2 = S.counts(z, o2)
                for n, p in S.inv(r + 1, a2, k2): g.oblige(z, p, 'the next round begins with the right numbers: ' + n)
                g.oblige(z, z3.Implies(z3.And(q >= 0, q < N), a2[q] == z3.If(a[q] == WAIT[r], DEADOF[r], a[q])), 'exactly the live clients that have not completed the round are dropped')
            else: g.oblige(z, F, 'the next state is the next round or the end')
    f.__name__ = 'proceed_R%d' % r; f.__doc__ = 'requires the invariant of round %d; ensures the round ends exactly if enough clients have completed it or too few are left, the latter with an abort, the former with the invariant of the next round and exactly the unfinished live clients dropped' % r; return f
def report(r):
    def f(c):
        S = Srv(c); g = S.g; s, o, a, k = S.state(r, start(g)); G = lambda n: S.getter(s, o, n); C = lambda *vs: z3.Sum([S.CNT[v](a) for v in vs]); N, mn = S.N, S.min; s.fn = c.fn(BASE + '::IsClientDead')
        if r < 4:
            g.oblige(s, G('NumberOfPendingClients') == C(WAIT[r]), 'clients waited for are those alive without an accepted message'); done = k['msgs'] if r == 3 else k['ready']; g.oblige(s, G('MinimumMessagesNeededForNextRound') == z3.If(mn - done > 0, mn - done, 0), 'messages still needed')
            g.oblige(s, k['alive'] == C(WAIT[r], *([8, 9] if r == 3 else [GOT[r]])), 'live clients have or have not completed the round')
            if r != 2: g.oblige(s, G('ReadyForNextRound') == z3.Or(done >= mn, k['abort']), 'ready exactly if enough clients are done or too few are left')
        g.oblige(s, G('NumberOfIncludedInputs') == (0 if r < 2 else C(6, 7) if r == 2 else C(6, 7, 8, 9)), 'inputs included are those of clients whose input was accepted'); g.oblige(s, G('IsNumberOfIncludedInputsCommitted') == z3.BoolVal(r > 2), 'the number of inputs is final after the input round')
        f = c.fn(BASE + '::IsClientDead'); i = z3.Int('i'); s.assume(z3.And(i >= 0, i < N)); out = call(g, s.copy(), f, [i], this=o); no_abort(g, 'never aborts')
        for y, v in out: g.oblige(y, v == dead(a[i]), 'dropped clients are those with such a status')
        f = c.fn(BASE + '::AbortedClientIds'); j = z3.Int('j!q')
        def hint(L):
            out = []
            for m in L.mods:
                x = g.read(L.st, m)
                if isinstance(x, MapV): out.append(('dropped clients so far', z3.ForAll([j], x.dom[j] == z3.And(j >= 0, j < L.k, dead(a[j])), **C07.pat(x.dom, j))))
            return out
        g.loop_hints[:] = [hint]; out = call(g, s.copy(), f, [], this=o); cover(g, out); no_abort(g, 'never aborts'); q = z3.Int('q')
        for y, v in out: g.oblige(y, v.dom[q] == z3.And(q >= 0, q < N, dead(a[q])), 'the clients reported dropped are exactly those')
    f.__name__ = 'report_R%d' % r; f.__doc__ = 'requires the invariant of round %d; ensures every number reported is the number of clients with such a status' % r; return f
def begin(c):
    "requires all clients ready to start; ensures the first round begins with the invariant"
    S = Srv(c); g = S.g; st, im = S.impl(start(g)); k = [f for f in c.fns(CLS[0] + '::' + CLS[0].split('::')[-1]) if f.ctor and len(f.ps) == 1 and 'unique_ptr' in repr(f.ps[0][2])][0]; st.fn = k; a = params(g, st, k); o = g.new_root(st, 'this', RecV(rec_ty(CLS[0]), {})); v = a[0] if isinstance(a[0], OptV) else g.val(st, a[0])
    a[0] = OptV(v.ety, T, g.read(st, im), v.ty); j = z3.Int('j!q'); st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < S.N), S.a0[j] == 0), patterns=[S.a0[j]])); st.assume(S.total(S.a0) == S.N); out = call(g, st, k, a, this=o); cover(g, out); no_abort(g, 'construction never aborts')
    for y, _ in out:
        check_inv(S, 0, y, o, 'at the beginning')
UNITS = [proceed(2), proceed(0), proceed(1), proceed(3)] + [handle(r) for r in range(4)] + [abort(r) for r in range(4)] + [report(r) for r in range(5)] + [begin]
HARNESS = C07.server_harness(10)
