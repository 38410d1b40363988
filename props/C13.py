"""C13: retry delays."""
from vc.spec import *
TUS = ['fcp/client/federated_protocol_util.cc', 'fcp/base/time_util.cc']
NS = 'fcp::client::'
ASSUMPTIONS = ['absl time arithmetic is exact and saturating in quarter-nanosecond ticks', 'floating-point numbers are treated as real numbers and scaling a duration rounds to a neighbouring tick',
               'absl::Uniform(gen, lo, hi) returns a value in [lo, hi)', 'windows of less than 2^53 seconds']
SEC = 2 ** 53
def ticks(s, n): return 4 * (s * 10 ** 9 + n)
def mx(a, b): return z3.If(a >= b, a, b)
def dur(g, st, nm):
    lv = g.new_root(st, nm, g.fresh(st, rec_ty('google::protobuf::Duration'), nm, exact_name=True))
    s, n = g.read(st, lv.f('seconds')), g.read(st, lv.f('nanos'))
    st.assume(z3.And(s > -SEC, s < SEC, n > -10 ** 9, n < 10 ** 9)); return lv, s, n
def gen(g, st, f):
    return g.new_root(st, 'gen', g.fresh(st, f.ps[-1][2].deref(), 'gen'))
def now_model(g, times):
    def now(g_, s, obj, args, e):
        t = z3.Int(g.uname('now')); s.assume(z3.And(t > -4 * SEC * 10 ** 9, t < 4 * SEC * 10 ** 9))
        prev = [x for x in s.trace if x[0] == 'now']
        if prev: s.assume(t >= prev[-1][2][0])
        s.trace.append(('now', None, [t], 0)); return [(s, TimeV(TIME, z3.IntVal(0), t))]
    g.contracts['absl::Now'] = now; g.models['absl::Now'] = now
def pick_time(c):
    "ensures now + max(0, min) <= result <= now + max(max, max(0, min))"
    g = c.engine(TUS); g.safety = {'overflow', 'div'}; now_model(g, None)
    f = c.fn(NS + 'PickRetryTimeFromRange'); st = start(g, f)
    a, s1, n1 = dur(g, st, 'lo'); b, s2, n2 = dur(g, st, 'hi')
    out = call(g, st, f, [a, b, gen(g, st, f)]); cover(g, out); no_abort(g, 'picking a retry time never aborts')
    lo = mx(0, ticks(s1, n1)); hi = mx(ticks(s2, n2), lo)
    for s, r in out:
        t = [x[2][0] for x in s.trace if x[0] == 'now']
        g.oblige(s, z3.And(r.inf == 0, r.ns >= t[0] + lo, r.ns <= t[-1] + hi), 'the retry time lies inside the window counted from now')
def target(c):
    "ensures delay_min == delay_max, inside target*(1 -/+ clamp(jitter)), up to rounding; never negative"
    g = c.engine(TUS); g.safety = {'overflow', 'div'}
    f = c.fn(NS + 'GenerateRetryWindowFromTargetDelay'); st = start(g, f); t = z3.Int('target'); j = z3.Real('jitter')
    st.assume(z3.And(t >= 0, t < 4 * SEC * 10 ** 9))
    out = call(g, st, f, [TimeV(DUR, z3.IntVal(0), t), j, gen(g, st, f)]); cover(g, out); no_abort(g, 'never aborts')
    cj = z3.If(j < 0, 0, z3.If(j > 1, 1, j))
    for s, r in out:
        lv = g.new_root(s, 'r', r); d = [[g.read(s, lv.f(x).f(y)) for y in ('seconds', 'nanos')] for x in ('delay_min', 'delay_max')]
        g.oblige(s, z3.And(d[0][0] == d[1][0], d[0][1] == d[1][1]), 'both bounds are the same delay')
        g.oblige(s, z3.And(g.read(s, lv.f('has_delay_min')), g.read(s, lv.f('has_delay_max'))), 'both bounds are set')
        n = z3.ToReal(ticks(*d[0])); tt = z3.ToReal(t)
        g.oblige(s, n >= tt * (1 - cj) - 5, 'the delay is not below the target minus the jitter')
        g.oblige(s, n <= tt * (1 + cj) + 5, 'the delay is not above the target plus the jitter')
        g.oblige(s, z3.And(d[0][0] >= 0, d[0][1] >= 0), 'the delay is not negative')
def from_time(c):
    "ensures delay_min == delay_max == max(0, retry_time - now), whole nanoseconds"
    g = c.engine(TUS); g.safety = {'overflow', 'div'}; now_model(g, None)
    f = c.fn(NS + 'GenerateRetryWindowFromRetryTime'); st = start(g, f); t = z3.Int('retry')
    st.assume(z3.And(t > -4 * SEC * 10 ** 9, t < 4 * SEC * 10 ** 9))
    out = call(g, st, f, [TimeV(TIME, z3.IntVal(0), t)]); cover(g, out); no_abort(g, 'never aborts')
    for s, r in out:
        now = [x[2][0] for x in s.trace if x[0] == 'now']
        lv = g.new_root(s, 'r', r); d = [[g.read(s, lv.f(x).f(y)) for y in ('seconds', 'nanos')] for x in ('delay_min', 'delay_max')]
        g.oblige(s, z3.And(d[0][0] == d[1][0], d[0][1] == d[1][1]), 'both bounds are the same delay')
        g.oblige(s, z3.And(g.read(s, lv.f('has_delay_min')), g.read(s, lv.f('has_delay_max'))), 'both bounds are set')
        n = ticks(*d[0]); g.oblige(s, z3.And(n >= 0, n <= mx(0, t - now[0]), n > mx(0, t - now[-1]) - 4), 'the delay is the time left, or zero')
UNITS = [pick_time, target, from_time]
HARNESS = dict(main='C13_harness.cc', srcs=['fcp/client/federated_protocol_util.cc', 'fcp/base/time_util.cc'], protos=['fcp/protos/federated_api.proto'], secs=4)
