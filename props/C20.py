"""C20: a task is declared eligible exactly when all its policies allow it."""
import importlib.util
from vc.spec import *
def load(n):
    s = importlib.util.spec_from_file_location('prop_' + n, os.path.join(V, 'props', n + '.py')); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
C07, C10, C19 = load('C07'), load('C10'), load('C19')
TUS = ['fcp/client/eligibility_decider.cc']; N = 'fcp::client::'; A = N + '(anonymous namespace)::'; O = N + 'opstats::'; TS = C19.TS; PD = rec_ty('google::protobuf::Duration')
ASSUMPTIONS = ['the last contribution of a task, of a pattern and its index are functions of the history and the task (property C19)', 'proto times and durations convert to times as functions of their value (property C12)', 'times and durations are within 2^60 seconds', 'round numbers and separations are below 2^62', 'a regular expression is valid or not as a function of its text', 'lists of a message have fewer than 2^31 entries', 'the combination of the policies takes what each policy says of a task as a function of the policy and the task, which is what the contracts of the policies establish; the custom policy is what the plan says']
class K:
    def __init__(self, c, fn):
        g = self.g = c.engine(TUS, proto=['fcp/protos/population_eligibility_spec.proto', 'fcp/protos/opstats.proto']); self.c = c; g.safety = {'index', 'null', 'overflow'}; g.generic = C10.generic; g.feas_qf = True; f = self.f = c.fn(fn); st = self.st = start(g, f); self.a = params(g, st, f); S, I, B = g.str_sort(), z3.IntSort(), z3.BoolSort()
        self.now = TimeV(TIME, z3.IntVal(0), z3.Int('now')); g.contracts['fcp::Clock::Now'] = lambda g, s, obj, a, e: [(s, self.now)]
        self.TOT, self.TOD = z3.Function('time of', g.sort_of(TS), I), z3.Function('duration of', g.sort_of(PD), I)
        g.contracts['fcp::TimeUtil::ConvertProtoToAbslTime'] = lambda g, s, obj, a, e: [(s, TimeV(TIME, z3.IntVal(0), self.TOT(g.pack(s, g.val(s, a[0]), TS))))]
        g.contracts['fcp::TimeUtil::ConvertProtoToAbslDuration'] = lambda g, s, obj, a, e: [(s, TimeV(DUR, z3.IntVal(0), self.TOD(g.pack(s, g.val(s, a[0]), PD))))]
        t_, d_ = z3.Const('t!b', g.sort_of(TS)), z3.Const('d!b', g.sort_of(PD)); lim = lambda v: z3.And(v > -2 ** 60 * TICK, v < 2 ** 60 * TICK); st.assume(z3.And(lim(self.now.ns), z3.ForAll([t_], lim(self.TOT(t_)), patterns=[self.TOT(t_)]), z3.ForAll([d_], lim(self.TOD(d_)), patterns=[self.TOD(d_)])))
        self.HAS, self.LAST = z3.Function('contributed', S, B), z3.Function('last contribution', S, g.sort_of(TS)); self.PH, self.PL = z3.Bool('group contributed'), z3.Const('last contribution of the group', g.sort_of(TS)); self.IH, self.IX = z3.Function('index recorded', S, B), z3.Function('index', S, I)
        ot = lambda e: e['t']
        g.contracts[O + 'GetLastSuccessfulContributionTime'] = lambda g, s, obj, a, e: [(s, OptV(TS, self.HAS(g.val(s, a[1])), g.unpack(s, self.LAST(g.val(s, a[1])), TS), e['t']))]
        g.contracts[O + 'GetLastSuccessfulContributionTimeForPattern'] = lambda g, s, obj, a, e: [(s, OptV(TS, self.PH, g.unpack(s, self.PL, TS), e['t']))]
        g.contracts[O + 'GetLastSuccessfulContributionMinSepPolicyIndex'] = lambda g, s, obj, a, e: [(s, OptV(int_ty(64, True), self.IH(g.val(s, a[1])), self.IX(g.val(s, a[1])), e['t']))]
    def lv(self, i): return self.a[i] if isinstance(self.a[i], LV) else self.g.new_root(self.st, 'p%d' % i, self.a[i])
    def run(self): out = call(self.g, self.st, self.f, self.a); cover(self.g, out); no_abort(self.g, 'never aborts the process'); return out
    def sub(self, lv, n, ty): return C19.sub(self.g, self.st, self.g.read(self.st, lv), n, ty)
def members(k, tasks, ok):
    """loop invariant: a set collected by the loop holds exactly the tasks visited that are allowed"""
    g = k.g
    def hint(L):
        o = []; s = L.st; x = z3.Const('x!t', g.str_sort())
        if getattr(L, 'visited', None) is None: return o
        vis = g.read(s, L.visited)
        for lv in L.mods:
            try: v = g.read(s, lv)
            except Exception: continue
            if isinstance(v, MapV) and kind_of(v.kty) == 'str': o.append(('exactly the tasks visited that are allowed', z3.ForAll([x], v.dom[x] == z3.And(vis[x], ok(x)), **C07.pat(v.dom, x))))
        return o
    g.loop_hints[:] = [hint]
def swor(c):
    """ensures a task is allowed exactly when the history is old enough and neither the task (or, with a group expression, any task of the group) contributed within the period"""
    k = K(c, A + 'ComputePerTaskSworEligibility'); g, st = k.g, k.st; pol = k.lv(0); per = k.TOD(k.sub(pol, 'min_period', PD)); tasks = g.val(st, k.a[1]); trust = k.TOT(k.sub(k.lv(2), 'earliest_trustworthy_time', TS)); x = z3.Const('any task', g.str_sort()); rx = g.read(st, pol.f('group_regex')); empty = g.strlit(''); x_ = z3.Const('x!s', g.str_sort()); st.assume(z3.ForAll([x_], z3.And(g.strlen(x_) >= 0, (g.strlen(x_) == 0) == (x_ == empty)), patterns=[g.strlen(x_)])); OKR = z3.Function('valid expression', g.str_sort(), z3.BoolSort())
    def mk(g, s, obj, a, e): s.ghost['regex'] = g.val(s, a[0]); return [(s, UnitV())]
    g.contracts['re2::RE2::RE2'] = mk; g.contracts['re2::RE2::ok'] = lambda g, s, obj, a, e: [(s, OKR(s.ghost['regex']))]
    far = lambda t: k.now.ns - k.TOT(t) > per; ok = lambda x: z3.Or(Not(k.HAS(x)), far(k.LAST(x))); members(k, tasks, ok)
    for s, r in k.run():
        r = g.val(s, r); want = z3.And(tasks.dom[x], k.now.ns - trust >= per, z3.If(rx == empty, ok(x), z3.And(OKR(rx), z3.Or(Not(k.PH), far(k.PL))))); g.oblige(s, r.dom[x] == want, 'a task is allowed exactly when it did not contribute within the period')
def min_sep(c):
    """ensures a task is allowed exactly when the history is old enough (if that is to be checked) and no index is recorded with its last contribution or more than the separation has passed since"""
    k = K(c, A + 'ComputeMinimumSeparationPolicyEligibility'); g, st = k.g, k.st; pol = k.lv(0); per = k.TOD(k.sub(pol, 'min_trustworthiness_period', PD)); tasks = g.val(st, k.a[1]); trust = k.TOT(k.sub(k.lv(2), 'earliest_trustworthy_time', TS)); x = z3.Const('any task', g.str_sort()); y = z3.Const('x!t', g.str_sort()); cur, sep = g.read(st, pol.f('current_index')), g.read(st, pol.f('minimum_separation')); fl = z3.Bool('check trustworthiness'); g.contracts[N + 'Flags::check_trustworthiness_for_min_sep_policy'] = lambda g, s, obj, a, e: [(s, fl)]
    small = lambda v: z3.And(v > -2 ** 62, v < 2 ** 62); st.assume(z3.And(small(cur), small(sep), z3.ForAll([y], small(k.IX(y)), patterns=[k.IX(y)]))); ok = lambda x: z3.Or(Not(k.IH(x)), cur - k.IX(x) > sep); members(k, tasks, ok)
    for s, r in k.run(): r = g.val(s, r); g.oblige(s, r.dom[x] == z3.And(tasks.dom[x], z3.Or(Not(fl), per == 0, k.now.ns - trust >= per), ok(x)), 'a task is allowed exactly when enough rounds have passed')
def data(c):
    """ensures the policy allows exactly when a source handles the selector, opens, and delivers the required number of examples (or states at least that number), and fails when the source fails"""
    k = K(c, A + 'ComputeDataAvailabilityEligibility'); g, st = k.g, k.st; I, B, S = z3.IntSort(), z3.BoolSort(), g.str_sort(); pol = k.lv(0); need = g.read(st, pol.f('min_example_count')); q, l = z3.Bools('query light'); found, opens = z3.Bools('handled opens'); NEXT = z3.Function('status of example', I, I); DATA = z3.Function('example', I, S); i_ = z3.Int('i!e'); st.assume(z3.ForAll([i_], z3.And(NEXT(i_) >= 0, NEXT(i_) <= 16), patterns=[NEXT(i_)])); mode = z3.And(q, g.read(st, pol.f('use_example_query_result_format')))
    pos = g.new_root(st, 'examples read', z3.IntVal(0)); FACT, ITER = rec_ty(N + 'engine::ExampleIteratorFactory'), rec_ty(N + 'ExampleIterator'); fac = g.new_root(st, 'source', RecV(FACT, {})); g.contracts[N + 'Flags::use_example_query_result_for_data_avail'] = lambda g, s, obj, a, e: [(s, q)]; g.contracts[N + 'Flags::enable_lightweight_computation_id'] = lambda g, s, obj, a, e: [(s, l)]
    g.contracts[A + 'FindExampleIteratorFactory'] = lambda g, s, obj, a, e: [(s, PtrV(e['t'], Not(found), fac))]; bad = z3.Int('open status'); st.assume(z3.And(bad > 0, bad <= 16)); SC = rec_ty(N + 'SelectorContext'); CTX = z3.Const('context', g.sort_of(SC)); g.contracts[N + 'engine::ExampleIteratorFactory::GetSelectorContext'] = lambda g, s, obj, a, e: [(s, g.unpack(s, CTX, SC))]; g.contracts['fcp::ComputeSHA256'] = lambda g, s, obj, a, e: [(s, z3.Function('sha256', S, S)(g.val(s, a[0])))]
    QR = rec_ty(N + 'ExampleQueryResult'); qs = g.sort_of(QR); PARSE, PARSES = z3.Function('parse.' + qs.name(), S, qs), z3.Function('parses.' + qs.name(), S, B); c0 = g.new_root(st, 'given context', g.unpack(st, CTX, SC)); asks = lambda s, cx: z3.And(C07.present(g, s, cx, 'computation_properties'), g.read(s, cx.f('computation_properties').f('example_iterator_output_format')) == 1); given = asks(st, c0)
    def make(g, s, obj, a, e):
        cx = g.new_root(s, 'cx', g.val(s, a[1])); s.ghost['query'] = asks(s, cx); return [(s, StatusOrV(e['t'].args[0], z3.If(opens, z3.IntVal(0), bad), g.fresh_const('m', S), OptV(ITER, T, RecV(ITER, {}), e['t'].args[0]), e['t']))]
    g.contracts[N + 'engine::ExampleIteratorFactory::CreateExampleIterator'] = make
    def nxt(g, s, obj, a, e): n = g.read(s, pos); g.write(s, pos, n + 1); return [(s, StatusOrV(STRING, NEXT(n), g.fresh_const('m', S), DATA(n), e['t']))]
    g.contracts[N + 'ExampleIterator::Next'] = nxt
    def hint(L):
        o = []; s = L.st; n = g.read(s, pos); j = z3.Int('j!x'); o.append(('every example so far was delivered', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), NEXT(j) == 0), patterns=[NEXT(j)]))); o.append(('one example per pass', n == L.k)); o.append(('no more than required', z3.Or(n == 0, n <= need)))
        for lv in L.mods:
            try: v = g.read(s, lv)
            except Exception: continue
            if lv.root != pos.root and z3.is_expr(v) and v.sort() == I: o.append(('counts the examples', v == n))
        return o
    g.loop_hints[:] = [hint]; j = z3.Int('any example'); allok = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < need), NEXT(j) == 0), patterns=[NEXT(j)]); OUT = CODES['OutOfRange'] if 'OutOfRange' in CODES else 11
    for s, r in k.run():
        ok = r.code == 0; v = g.val(s, r.val) if not isinstance(r.val, tuple) else None; z = s.copy(); z.assume(ok)
        if g.feasible(z):
            g.oblige(z, z3.And(found, opens), 'an answer only from a source that opens'); v = g.val(z, g.lib.value(z, r)) if hasattr(g.lib, 'value') else v; fmt = z.ghost.get('query', F); g.oblige(z, fmt == z3.Or(mode, given), 'query results are asked for if the policy and the configuration say so')
            y = z.copy(); y.assume(Not(mode))
            if g.feasible(y): g.oblige(y, z3.Implies(v, z3.Implies(z3.And(j >= 0, j < need), NEXT(j) == 0)), 'allowed only if the required examples are delivered'); g.oblige(y, z3.Or(v, z3.Exists([j], z3.And(j >= 0, j < need, NEXT(j) == OUT))), 'refused only if the examples end too early')
            y = z.copy(); y.assume(mode)
            if g.feasible(y): e = g.new_root(y, 'parsed', g.unpack(y, PARSE(DATA(0)), QR)); g.oblige(y, z3.And(NEXT(0) == 0, PARSES(DATA(0))), 'an answer only from a readable result'); g.oblige(y, v == (z3.If(C07.present(g, y, e, 'stats'), g.read(y, e.f('stats').f('example_count_for_logs')), 0) >= need), 'allowed exactly if the number stated is large enough')
        y = s.copy(); y.assume(Not(ok))
        if g.feasible(y): n = g.read(y, pos); g.oblige(y, z3.Or(Not(found), Not(opens), z3.And(mode, z3.Or(NEXT(0) != 0, Not(PARSES(DATA(0))))), z3.And(n >= 1, n <= need, NEXT(n - 1) != 0, NEXT(n - 1) != OUT, r.code == NEXT(n - 1))), 'fails only with the failure of the source')
def names(n):
    """the names that occur in a statement"""
    if isinstance(n, dict): return {n['n']} | set().union(*[names(v) for v in n.values()]) if isinstance(n.get('n'), str) else set().union(set(), *[names(v) for v in n.values()])
    return set().union(set(), *[names(v) for v in n]) if isinstance(n, (list, tuple)) else set()
def decide(c):
    """ensures the list of decisions names every task of the spec in order, each eligible exactly when every policy attached to it is implemented and allows it"""
    k = K(c, N + 'ComputeEligibility'); g, st = k.g, k.st; g.join = True; g.hint_ms = 1200; g.hint_strong = lambda n: any(w in n for w in ('decisions made', 'eligible so far', 'without the tasks')); I, B, S = z3.IntSort(), z3.BoolSort(), g.str_sort(); spec = k.lv(0); SET = rec_ty('absl::flat_hash_set', (STRING,)); pols, infos = g.read(st, spec.f('eligibility_policies')), g.read(st, spec.f('task_info')); st.assume(z3.And(pols.len < 2 ** 31, infos.len < 2 ** 31)); PE, TI = pols.ety, infos.ety; q, t = z3.Bools('query trust'); g.contracts[N + 'Flags::use_example_query_result_for_data_avail'] = lambda g, s, obj, a, e: [(s, q)]; g.contracts[N + 'Flags::check_trustworthiness_for_min_sep_policy'] = lambda g, s, obj, a, e: [(s, t)]
    if isinstance(k.a[-1], PtrV): st.assume(Not(k.a[-1].null))
    fld = lambda s, v, n: C19.field(g, s, v, n); pol = lambda s, i: g.unpack(s, pols.arr[i], PE); kind = lambda s, i: fld(s, pol(s, i), 'case_policy_type'); ver = lambda s, i: fld(s, pol(s, i), 'min_version'); info = lambda s, j: g.unpack(s, infos.arr[j], TI); name = lambda j: fld(st, info(st, j), 'task_name'); ids = lambda j: fld(st, info(st, j), 'eligibility_policy_indices')
    impl = lambda i: z3.Or(z3.And(kind(st, i) == 3, ver(st, i) <= z3.If(q, 2, 1)), z3.And(z3.Or(kind(st, i) == 4, kind(st, i) == 5), ver(st, i) <= 1), z3.And(kind(st, i) == 6, ver(st, i) <= z3.If(t, 2, 1)))
    PT = dict(g.rec_fields(PE)); AL = {n: z3.Function('allowed by ' + n, g.sort_of(PT[n]), S, B) for n in ('swor_policy', 'min_sep_policy')}; DA = z3.Function('status of the data check', g.sort_of(PT['data_availability_policy']), I); DV = z3.Function('data available', g.sort_of(PT['data_availability_policy']), B); TC = z3.Function('status of the custom policy', g.sort_of(PE), I); TV = z3.Function('allowed by the custom policy', g.sort_of(PE), S, B); M, P = infos.len, pols.len; x = z3.Const('x!d', S)
    pk = lambda i, n: g.pack(st, fld(st, pol(st, i), n), PT[n]); allow = lambda i, x: z3.If(kind(st, i) == 4, AL['swor_policy'](pk(i, 'swor_policy'), x), z3.If(kind(st, i) == 6, AL['min_sep_policy'](pk(i, 'min_sep_policy'), x), z3.If(kind(st, i) == 3, z3.And(DA(pk(i, 'data_availability_policy')) == 0, DV(pk(i, 'data_availability_policy'))), z3.And(TC(pols.arr[i]) == 0, TV(pols.arr[i], x)))))
    def some(s, ty, test): d = g.fresh_const('allowed', z3.ArraySort(S, B)); n = g.fresh_const('allowed.n', I); s.assume(n >= 0); s.assume(z3.ForAll([x], d[x] == test(x), patterns=[d[x]])); m = MapV(STRING, None, d, None, n, ty); g.lib.card(s, m); return m
    def per_task(n): return lambda g, s, obj, a, e: (lambda ts, w: [(s, some(s, e['t'], lambda y: z3.And(ts.dom[y], AL[n](w, y))))])(g.val(s, a[1]), g.pack(s, g.val(s, a[0]), PT[n]))
    g.contracts[A + 'ComputePerTaskSworEligibility'] = per_task('swor_policy'); g.contracts[A + 'ComputeMinimumSeparationPolicyEligibility'] = per_task('min_sep_policy')
    def avail(g, s, obj, a, e): w = g.pack(s, g.val(s, a[0]), PT['data_availability_policy']); s.assume(z3.And(DA(w) >= 0, DA(w) <= 16)); return [(s, StatusOrV(BOOL, DA(w), g.fresh_const('m', S), DV(w), e['t']))]
    g.contracts[A + 'ComputeDataAvailabilityEligibility'] = avail
    def custom(g, s, obj, a, e): w = g.pack(s, g.val(s, a[0]), PE); s.assume(z3.And(TC(w) >= 0, TC(w) <= 16)); return [(s, StatusOrV(e['t'].args[0], TC(w), g.fresh_const('m', S), some(s, e['t'].args[0], lambda y: TV(w, y)), e['t']))]
    g.contracts[A + 'ComputeTfCustomPolicyEligibility'] = custom; g.contracts[N + 'PhaseLogger::LogEligibilityEvalComputationErrorNonfatal'] = lambda g, s, obj, a, e: [(s, UnitV())]
    offered = set(); IA = z3.ArraySort(I, I); IN, USE, NAMED, BAD, EL = z3.Function('attached', I, IA, I, B), z3.Function('used by', I, I, S, B), z3.Function('named', I, S, B), z3.Function('uses unimplemented', I, S, B), z3.Function('eligible after', I, S, B)   # each defined by recursion over the number of entries looked at
    def unfold(s, k, p=None, arr=None):
        if arr is not None: s.assume(IN(p, arr, k) == z3.And(k > 0, z3.Or(IN(p, arr, k - 1), arr[k - 1] == p))); return
        if p is not None: s.assume(z3.ForAll([x], USE(p, k, x) == z3.And(k > 0, z3.Or(USE(p, k - 1, x), z3.And(name(k - 1) == x, IN(p, ids(k - 1).arr, ids(k - 1).len)))), patterns=[USE(p, k, x)])); return
        s.assume(z3.ForAll([x], NAMED(k, x) == z3.And(k > 0, z3.Or(NAMED(k - 1, x), name(k - 1) == x)), patterns=[NAMED(k, x)])); s.assume(z3.ForAll([x], BAD(k, x) == z3.And(k > 0, z3.Or(BAD(k - 1, x), z3.And(Not(impl(k - 1)), USE(k - 1, M, x)))), patterns=[BAD(k, x)]))
        s.assume(z3.ForAll([x], EL(k, x) == z3.If(k <= 0, z3.And(NAMED(M, x), Not(BAD(P, x))), z3.And(EL(k - 1, x), Not(z3.And(impl(k - 1), USE(k - 1, M, x), Not(allow(k - 1, x)))))), patterns=[EL(k, x)]))
    def ints(L): return [(r, v) for r, v in L.st.cells.items() if z3.is_expr(v) and v.sort() == I and not any(m.root == r for m in L.mods)]
    def hint(L):
        o = []; s = L.st; k = L.k; w = getattr(L, 'range_val', None); sets = []
        for lv in L.mods:
            try: v = g.read(s, lv)
            except Exception: continue
            if isinstance(v, MapV) and v.vty is None and kind_of(v.kty) == 'str': sets.append((lv, v, g.read(L.pre, lv)))
            elif isinstance(v, MapV) and v.vty is not None and kind_of(v.kty) == 'int':
                i = z3.Int('i!d'); e = lambda i: g.unpack(s, v.val[i], v.vty); o += [('the policies implemented so far', z3.ForAll([i], v.dom[i] == z3.And(i >= 0, i < k, impl(i)), **C07.pat(v.dom, i))), ('with the tasks that use them', z3.ForAll([i, x], z3.Implies(z3.And(i >= 0, i < k, impl(i)), e(i).dom[x] == USE(i, M, x)), patterns=[USE(i, M, x)]))]
            elif isinstance(v, VecV) and v.ety.k != 'int' and 'TaskWeight' in str(v.ety.n):
                q = z3.Int('q!d'); rec = lambda q: g.unpack(s, v.arr[q], v.ety); o += [('one decision per task so far', v.len == k), ('decisions made', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k), z3.And(fld(s, rec(q), 'task_name') == name(q), fld(s, rec(q), 'weight') == z3.If(EL(P, name(q)), weight1, weight0))), **C07.pat(v.arr, q)))]
        if isinstance(w, VecV) and w.ety.k == 'int' and sets:     # the policies of one task
            js = [(r, v) for r, v in ints(L) if z3.simplify(ids(v).arr).eq(z3.simplify(w.arr))] or [(r, v) for r, v in ints(L)]
            for r, p in ints(L):
                if any(r == q for q, _ in js) and len(ints(L)) > 1: continue
                unfold(s, k, p, w.arr)
                for n, (lv, v, v0) in enumerate(sets):
                    for q, j in js: o += [('%d: tasks attached to %s, guard %s, task %s' % (n, r.split('!')[0], gd, q.split('!')[0]), z3.ForAll([x], v.dom[x] == z3.Or(v0.dom[x], z3.And(impl(p) if gd else Not(impl(p)), name(j) == x, IN(p, w.arr, k))), **C07.pat(v.dom, x))) for gd in (True, False)]
            return o
        if isinstance(w, VecV) and w.ety.n == TI.n:
            unfold(s, k)
            for r, p in ints(L):
                unfold(s, k, p)
                for n, (lv, v, v0) in enumerate(sets): o += [('%d: tasks that use %s, guard %s' % (n, r.split('!')[0], gd), z3.ForAll([x], v.dom[x] == z3.Or(v0.dom[x], z3.And(impl(p) if gd else Not(impl(p)), USE(p, k, x))), **C07.pat(v.dom, x))) for gd in (True, False)]
            for n, (lv, v, v0) in enumerate(sets): o.append(('%d: tasks named so far' % n, z3.ForAll([x], v.dom[x] == NAMED(k, x), **C07.pat(v.dom, x))))
            return o
        if getattr(L, 'visited', None) is not None:
            vis = g.read(s, L.visited); used = names(L.node)
            for n, (lv, v, v0) in enumerate(sets):
                for r, c_ in L.st.cells.items():
                    if isinstance(c_, MapV) and c_.vty is None and kind_of(c_.kty) == 'str' and r != lv.root and r.split('!')[0] in used and not (isinstance(w, MapV) and c_.dom.eq(w.dom)): o.append(('%d: without the tasks visited that are not in %s' % (n, r.split('!')[0]), z3.ForAll([x], v.dom[x] == z3.And(v0.dom[x], z3.Or(Not(vis[x]), c_.dom[x])), **C07.pat(v.dom, x))))
            return o
        unfold(s, k)
        for n, (lv, v, v0) in enumerate(sets): o += [('%d: tasks using an unimplemented policy so far' % n, z3.ForAll([x], v.dom[x] == BAD(k, x), **C07.pat(v.dom, x))), ('%d: tasks eligible so far' % n, z3.ForAll([x], v.dom[x] == EL(k, x), **C07.pat(v.dom, x)))]
        return o
    m = z3.Int('m!d'); weight1, weight0 = z3.RealVal(1), z3.RealVal(0); g.loop_hints[:] = [lambda L: (lambda o: (offered.update(n for n, _ in o), o)[1])(hint(L))]; y = start(g); y.assume(EL(m + 1, x) == z3.And(EL(m, x), Not(z3.And(impl(m), USE(m, M, x), Not(allow(m, x)))))); g.oblige(y, z3.Implies(EL(m + 1, x), EL(m, x)), 'lemma: a task once excluded stays excluded (step of the induction)'); st.assume(z3.ForAll([m, x], z3.Implies(z3.And(m >= 0, m <= P, EL(P, x)), EL(m, x)), patterns=[EL(m, x)]))
    y = start(g); y.assume(NAMED(m + 1, x) == z3.Or(NAMED(m, x), name(m) == x)); g.oblige(y, z3.And(z3.Implies(NAMED(m, x), NAMED(m + 1, x)), z3.Implies(name(m) == x, NAMED(m + 1, x))), 'lemma: a task of the spec is named (step of the induction)')
    out = k.run(); j = z3.Int('any task'); kept = {n for h in g.houdini_log for n in h[2]}
    for w in ('tasks attached', 'tasks that use', 'tasks named', 'policies implemented', 'eligible so far', 'decisions made'):      # loops these invariants are not made for: no verdict on them
        if not any(w in n for n in offered) or w == 'eligible so far' and not any(w in n for n in kept) and not any('without the tasks' in n for n in offered): raise Unsupported('loops of another form: ' + w)
    for s, r in out:
        g.oblige(s, r.code == 0, 'a decision is always made'); z = s.copy(); z.assume(r.code == 0)
        if not g.feasible(z): continue
        rv = g.new_root(z, 'decision', g.val(z, r.val)); w = g.read(z, rv.f('task_weights')); e = g.unpack(z, w.arr[j], w.ety); g.oblige(z, w.len == M, 'one decision per task'); g.oblige(z, g.read(z, rv.f('version')) == 1, 'version of the decision'); inr = z3.And(j >= 0, j < M); g.oblige(z, z3.Implies(inr, fld(z, e, 'task_name') == name(j)), 'decisions are in the order of the tasks'); g.oblige(z, z3.Implies(inr, fld(z, e, 'weight') == z3.If(EL(P, name(j)), weight1, weight0)), 'a task is eligible exactly when all its policies are implemented and allow it')
UNITS = [swor, min_sep, data, decide]
HARNESS = dict(main='C20_harness.cc', srcs=TUS + ['fcp/client/opstats/opstats_utils.cc', 'fcp/base/time_util.cc', 'fcp/base/simulated_clock.cc', 'fcp/base/clock.cc', 'fcp/base/digest.cc', 'fcp/base/monitoring.cc', 'fcp/base/platform.cc', 'fcp/base/base_name.cc'], protos=['fcp/protos/opstats.proto', 'fcp/protos/federated_api.proto', 'fcp/protos/population_eligibility_spec.proto', 'fcp/client/selector_context.proto', 'fcp/client/example_query_result.proto', 'tensorflow/core/example/example.proto', 'fcp/client/engine/engine.proto'], libs=['-lre2'] + CRYPTO, secs=4)
