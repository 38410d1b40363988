"""C28: every outcome of a client phase is published once and recorded once, with matching data."""
import re
from vc.spec import *
TUS = ['fcp/client/phase_logger_impl.cc']; CL = 'fcp::client::PhaseLoggerImpl'; EP, OL, LM = 'fcp::client::EventPublisher', 'fcp::client::opstats::OpStatsLogger', 'fcp::client::LogManager'
NET, EX = rec_ty('fcp::client::NetworkStats'), rec_ty('fcp::client::ExampleStats')
ASSUMPTIONS = ['the event publisher, statistics logger and log manager are distinct objects that outlive the logger and do not call back into it', 'the current time is finite and each reading is an arbitrary value', 'which event kind and which published event belong to an outcome is the table C28_table.inc, written from the interface documentation', 'the text of an error is any function of its code and message that contains the message']
TABLE = [l[8:-1].split(', ') for l in open(os.path.join(V, 'props', 'C28_table.inc')).read().splitlines() if l.startswith('OUTCOME(')]
EXTRA = ['PublishCheckinFinished', 'PublishTensorFlowError', 'PublishIoError', 'PublishExampleSelectorError', 'PublishInterruption']
LATENCY = {'None': (), 'EligibilityEvalCheckin': ('TRAINING_FL_ELIGIBILITY_EVAL_CHECKIN_LATENCY',), 'EligibilityEvalComputation': ('TRAINING_RUN_PHASE_LATENCY', 'TRAINING_RUN_PHASE_END_TIME'), 'MultipleTaskAssignments': ('TRAINING_FL_MULTIPLE_TASK_ASSIGNMENTS_LATENCY', 'TRAINING_FL_MULTIPLE_TASK_ASSIGNMENTS_END_TIME'), 'Checkin': ('TRAINING_FL_CHECKIN_LATENCY', 'TRAINING_FL_CHECKIN_END_TIME'), 'Computation': ('TRAINING_RUN_PHASE_LATENCY', 'TRAINING_RUN_PHASE_END_TIME'), 'Report': ('TRAINING_FL_REPORT_RESULTS_LATENCY', 'TRAINING_FL_REPORT_RESULTS_END_TIME')}
def numbers(path):
    return {m.group(1): int(m.group(2)) for m in re.finditer(r'^\s*(\w+)\s*=\s*(\d+)\s*[;\[]', open(os.path.join('/repo', path)).read(), re.M) if m.group(1).isupper() or '_' in m.group(1)}
class K:
    """an arbitrary logger; calls to the three recipients are recorded in order"""
    def __init__(self, c):
        g = self.g = c.engine(TUS, strings='seq'); self.c = c; g.safety = {'index'}; self.ev = numbers('fcp/protos/opstats.proto'); self.hist = numbers('fcp/client/histogram_counters.proto')
        def rec(who, what):
            def f(g, s, obj, a, e): s.ghost['calls'] = s.ghost.get('calls', ()) + ((who, what, tuple(g.val(s, x) for x in a)),); return [(s, UnitV())]
            return f
        for n in {r[1] for r in TABLE} | set(EXTRA): g.contracts[EP + '::' + n] = rec('publisher', n)
        g.contracts[EP + '::SetModelIdentifier'] = rec('publisher', 'SetModelIdentifier'); g.contracts[LM + '::SetModelIdentifier'] = rec('log', 'SetModelIdentifier')
        for n in ('AddEventAndSetTaskName', 'AddEvent', 'AddEventWithErrorMessage', 'UpdateDatasetStats', 'SetNetworkStats', 'SetMinSepPolicyIndex', 'SetRetryWindow', 'StartLoggingForPhase', 'StopLoggingForTheCurrentPhase', 'RecordCollectionFirstAccessTime'): g.contracts[OL + '::' + n] = rec('stats', n)
        for n in ('LogDiag', 'LogToLongHistogram'): g.contracts[LM + '::' + n] = rec('log', n)
        def commit(g, s, obj, a, e):
            s.ghost['calls'] = s.ghost.get('calls', ()) + (('stats', 'CommitToStorage', ()),); return [(s, StatusV(self.commit, self.msg))]
        self.commit = z3.Int('commit status'); self.msg = z3.Const('commit message', g.str_sort()); g.contracts[OL + '::CommitToStorage'] = commit
        def now(g, s, obj, a, e):
            n = s.ghost.get('nows', ()); t = TimeV(TIME, z3.IntVal(0), z3.Int('now%d' % len(n))); s.ghost['nows'] = n + (t,); return [(s, t)]
        g.contracts['absl::Now'] = g.models['absl::Now'] = now
        self.MS = z3.Function('milliseconds', z3.IntSort(), z3.IntSort(), z3.IntSort())
        g.contracts['absl::ToInt64Milliseconds'] = lambda g, s, obj, a, e: [(s, (lambda d: self.MS(d.inf, z3.If(d.inf == 0, d.ns, 0)))(g.val(s, a[0])))]   # depends on the value only
        self.flag = z3.Bool('log_tensorflow_error_messages'); g.contracts['fcp::client::Flags::log_tensorflow_error_messages'] = lambda g, s, obj, a, e: [(s, self.flag)]
    def object(self):
        g = self.g; k = [f for f in self.c.fns(CL + '::PhaseLoggerImpl') if f.ctor and len(f.ps) == 4][0]; st = start(g, k); st.assume(z3.And(self.commit >= 0, self.commit < 17)); a = params(g, st, k)
        for x in a: st.assume(Not(x.null))
        this = g.new_root(st, 'logger', RecV(k.cls, {})); out = call(g, st, k, a, this); no_abort(g, 'construction never aborts'); self.this = this
        if len(out) != 1: raise Unsupported('more than one way to construct the logger')
        return out[0][0]
    def run(self, name):
        g = self.g; f = self.c.fn(CL + '::' + name); st = self.object(); g.skolem = name; a = params(g, st, f); self.a = {'time': [], 'status': [], 'text': [], 'net': [], 'ex': [], 'opt': []}
        for (pid, pn, pt), x in zip(f.ps, a):
            v = g.val(st, x); k = 'time' if isinstance(v, TimeV) else 'status' if isinstance(v, StatusV) else 'opt' if isinstance(v, OptV) else 'net' if isinstance(v, RecV) and v.ty.n == NET.n else 'ex' if isinstance(v, RecV) and v.ty.n == EX.n else 'text' if z3.is_expr(v) and v.sort() == g.str_sort() else None
            if k is None: raise Unsupported('a parameter of %s' % name)
            if k == 'status': st.assume(z3.And(v.code > 0, v.code < 17))
            self.a[k].append(v)
        out = call(g, st, f, a, self.this); cover(g, out, name + ' returns'); no_abort(g, name + ' never aborts the process'); return out
    def pick(self, s, who, what=None): return [c for c in s.ghost.get('calls', ()) if c[0] == who and (what is None or c[1] in what)]
    def since(self, s, ty, t, mk): return z3.Or([mk(self.g.lib.t_add(DUR, n, t, -1)) for n in s.ghost.get('nows', ())])
def same(g, s, a, b, ty): return g.pack(s, a, ty) == g.pack(s, b, ty)
def outcome(k, row):
    """ensures exactly one published event and one recorded event, both of this outcome, with the given figures, the same error text, and the phase opened before and closed after it"""
    name, pub, ev, phase, stop, lat, exf = row; g = k.g
    for s, r in k.run(name):
        A = k.a; P = k.pick(s, 'publisher'); S = k.pick(s, 'stats'); E = k.pick(s, 'stats', ('AddEvent', 'AddEventWithErrorMessage', 'AddEventAndSetTaskName')); commits = k.pick(s, 'stats', ('CommitToStorage',)); ok = lambda cond, what: g.oblige(s, cond if z3.is_expr(cond) else z3.BoolVal(bool(cond)), '%s: %s' % (name, what))
        failed = F
        if isinstance(r, StatusV): failed = k.commit != 0; ok(len(commits) == 1, 'the run is committed once'); ok(z3.And(r.code == k.commit), 'the status returned is that of the commit')
        else: ok(not commits, 'nothing is committed')
        ok(z3.If(failed, z3.BoolVal(not P), z3.BoolVal([p[1] for p in P] == [pub])), 'exactly the event of the outcome is published, once')
        ok([e for e in S if e[1] not in ('AddEvent', 'AddEventWithErrorMessage', 'AddEventAndSetTaskName', 'StartLoggingForPhase', 'StopLoggingForTheCurrentPhase', 'CommitToStorage', 'SetMinSepPolicyIndex')] == [], 'no other figure of the run is touched')
        ok(len(E) == (ev != 'EVENT_KIND_UNSPECIFIED'), 'exactly one event is recorded'); kinds = {'AddEvent': 0, 'AddEventWithErrorMessage': 0, 'AddEventAndSetTaskName': 1}; text = None
        for e in E:
            ok(e[2][kinds[e[1]]] == k.ev[ev], 'the recorded event is that of the outcome')
            if e[1] == 'AddEventWithErrorMessage': text = e[2][1]
            if e[1] == 'AddEventAndSetTaskName': ok(len(A['text']) == 1 and e[2][0] == A['text'][0], 'the task name recorded is the one given')
        err = name in ('LogTaskNotStarted',) or 'InvalidPayload' in name; named = A['text'] and not err
        if named and name != 'LogCheckinCompleted': ok(all(e[1] == 'AddEventAndSetTaskName' for e in E), 'the task name is recorded')
        for p in P:
            i = 0; x = p[2]; want = ([('text',)] if A['status'] or err else []) + [('ex',)] * len(A['ex']) + [('net',)] * len(A['net']) + ([('time',)] if A['time'] else [])
            ok(len(x) == len(want), 'the published event carries every figure'); t = (A['time'] or [None])[1 if name.endswith('Completed') and 'before_plan_download' in ' '.join(q[1] for q in k.c.fn(CL + '::' + name).ps) else 0] if A['time'] else None
            if len(x) != len(want): continue
            for v, (w,) in zip(x, want):
                if w == 'text':
                    src = A['status'][0].msg if A['status'] else A['text'][0]; tf = 'Tensorflow' in name
                    if E: ok(text is not None and v == text, 'the same error text is published and recorded')
                    if err: ok(v == src, 'the error text is the one given')
                    else:
                        ok(z3.Implies(k.flag if tf else z3.BoolVal(True), z3.Contains(v, src)), 'the error text contains the message of the error')
                        if tf: ok(z3.Implies(Not(k.flag), v == z3.substitute(v, (src, z3.Const('any other message', src.sort())))), 'the message is left out of the text unless it may be logged')
                if w == 'ex': ok(same(g, s, v, A['ex'][0], EX), 'the example figures are published unchanged')
                if w == 'net': ok(same(g, s, v, A['net'][0], NET), 'the network figures are published unchanged')
                if w == 'time': ok(k.since(s, DUR, t, lambda d: g.lib.equal(s, d, v)), 'the published duration runs from the start of the phase to now')
        order = [e[1] for e in S]; iev = order.index(E[0][1]) if E else 0; starts = [e for e in S if e[1] == 'StartLoggingForPhase']; ok(len(starts) == (phase != 'UNSPECIFIED') and all(order.index('StartLoggingForPhase') < iev for _ in starts), 'the phase is opened before its first event exactly when the outcome begins it')
        for e in starts: ok(e[2][0] == k.ev[phase], 'the phase opened is the one that begins')
        ends = order.count('StopLoggingForTheCurrentPhase'); ok(ends == int(stop) and (not ends or order.index('StopLoggingForTheCurrentPhase') > iev), 'the phase is closed after its last event exactly when the outcome ends it')
        if commits: ok(order.index('CommitToStorage') > iev, 'the event is recorded before the commit')
        ms = k.pick(s, 'stats', ('SetMinSepPolicyIndex',))
        if A['opt']:
            ok(z3.If(A['opt'][0].has, z3.BoolVal(len(ms) == 1), z3.BoolVal(not ms)), 'the index of the separation policy is recorded exactly if given')
            for e in ms: ok(e[2][0] == g.optval(s, A['opt'][0]), 'the index recorded is the one given')
        else: ok(not ms, 'no index of a separation policy is recorded')
        H = k.pick(s, 'log', ('LogToLongHistogram',)); wanted = []; val = lambda e: e[2][-1]
        for n, t in zip(LATENCY[lat], (A['time'][0], A['time'][-1]) if A['time'] else ()): wanted.append((k.hist[n], lambda e, t=t: k.since(s, DUR, t, lambda d: val(e) == k.MS(d.inf, z3.If(d.inf == 0, d.ns, 0))), 'the latency figure %s' % n))
        if exf == '1':
            x = A['ex'][0]; fld = lambda n: g.rget(s, x, n, dict(g.rec_fields(EX))[n]); wanted += [(k.hist['TRAINING_OVERALL_EXAMPLE_SIZE'], lambda e: val(e) == fld('example_size_bytes'), 'the size of the examples'), (k.hist['TRAINING_OVERALL_EXAMPLE_COUNT'], lambda e: val(e) == fld('example_count'), 'the number of examples')]
        ok(len(H) == len(wanted), 'the histograms of the outcome, once each')
        for n, f, what in wanted: ok(z3.Or([z3.And(e[2][0] == n, f(e)) for e in H]), what + ' is logged')
def group(name, pred):
    def unit(c):
        k = K(c); rows = [r for r in TABLE if pred(r[0])]
        for r in rows: outcome(k, r)
    unit.__doc__ = outcome.__doc__; unit.__name__ = name; return unit
P_ = lambda *xs: lambda n: any(n.startswith('Log' + x) for x in xs)
def other(c):
    """ensures the retry window, network figures, model identifier and first access time are handed on unchanged"""
    k = K(c); g = k.g
    f = c.fn(CL + '::UpdateRetryWindowAndNetworkStats'); st = k.object(); a = params(g, st, f); out = call(g, st, f, a, k.this); cover(g, out); no_abort(g, 'never aborts')
    for s, _ in out:
        C = s.ghost.get('calls', ()); g.oblige(s, z3.BoolVal(sorted(x[1] for x in C) == ['SetNetworkStats', 'SetRetryWindow']), 'the window and the figures are recorded once each')
        for x in C: i = 0 if x[1] == 'SetRetryWindow' else 1; ty = g.val(s, a[i]).ty; g.oblige(s, same(g, s, x[2][0], g.val(s, a[i]), ty), 'the values recorded are those given')
    f = c.fn(CL + '::SetModelIdentifier'); st = k.object(); a = params(g, st, f); out = call(g, st, f, a, k.this); cover(g, out); no_abort(g, 'never aborts')
    for s, _ in out:
        C = s.ghost.get('calls', ()); g.oblige(s, z3.BoolVal(sorted(x[0] for x in C) == ['log', 'publisher']), 'both logs are told the model'); [g.oblige(s, x[2][0] == g.val(s, a[0]), 'the model is the one given') for x in C]
    f = c.fn(CL + '::MaybeLogCollectionFirstAccessTime'); st = k.object(); a = params(g, st, f); out = call(g, st, f, a, k.this); cover(g, out); no_abort(g, 'never aborts')
    for s, _ in out:
        C = s.ghost.get('calls', ()); g.oblige(s, z3.BoolVal([x[1] for x in C] == ['RecordCollectionFirstAccessTime']), 'the access is recorded once'); [g.oblige(s, z3.And(x[2][0] == g.val(s, a[0]), z3.Or([g.lib.equal(s, x[2][1], n) for n in s.ghost.get('nows', ())])), 'the collection accessed now is recorded') for x in C]
UNITS = [group('init', P_('Task', 'Nonfatal', 'Fatal')), group('eligibility_checkin', lambda n: n.startswith('LogEligibilityEval') and 'Computation' not in n), group('eligibility_run', P_('EligibilityEvalComputation')), group('assignments', P_('MultipleTask')), group('checkin', P_('Checkin')), group('computation', P_('Computation')), group('upload', P_('ResultUpload')), group('failure', P_('FailureUpload')), other]
HARNESS = dict(main='C28_harness.cc', srcs=TUS, protos=['fcp/protos/opstats.proto', 'fcp/protos/federated_api.proto', 'fcp/client/histogram_counters.proto', 'fcp/client/diag_codes.proto', 'fcp/client/engine/engine.proto'], secs=3)
