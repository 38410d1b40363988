"""C12: time and duration conversion."""
from vc.spec import *
TUS = ['fcp/base/time_util.cc']
NS = 'fcp::TimeUtil::'
ASSUMPTIONS = ['absl time arithmetic is exact and saturating in quarter-nanosecond ticks, as documented']
LIM = 2 ** 63 - 2          # whole seconds on both sides of the epoch that both forms can hold
def whole(n): return n * 4
def fld(g, s, v, n): return g.rget(s, v, n, None)
def time_to_proto(c):
    "ensures 0 <= nanos < 10^9 and seconds*10^9 + nanos == floor(t in ns)"
    g = c.engine(TUS); g.safety = {'overflow', 'div'}
    f = c.fn(NS + 'ConvertAbslToProtoTimestamp'); st = start(g, f); n = z3.Int('nanoseconds'); sub = z3.Int('quarter')
    st.assume(z3.And(n >= -LIM * 10 ** 9, n <= LIM * 10 ** 9, sub >= 0, sub < 4))
    out = call(g, st, f, [TimeV(TIME, z3.IntVal(0), n * 4 + sub)]); cover(g, out); no_abort(g, 'conversion never aborts')
    for s, r in out:
        g.oblige(s, z3.And(fld(g, s, r, 'nanos') >= 0, fld(g, s, r, 'nanos') < 10 ** 9), 'nanoseconds of a timestamp are in 0..999999999')
        g.oblige(s, fld(g, s, r, 'seconds') * 10 ** 9 + fld(g, s, r, 'nanos') == n, 'the timestamp denotes the same instant')
def proto_to_time(c):
    "ensures t == seconds*10^9 + nanos"
    g = c.engine(TUS); g.safety = {'overflow', 'div'}
    f = c.fn(NS + 'ConvertProtoToAbslTime'); st = start(g, f); a = params(g, st, f)
    lv = a[0] if isinstance(a[0], LV) else g.new_root(st, 'proto', a[0])
    sec, nan = g.read(st, lv.f('seconds')), g.read(st, lv.f('nanos'))
    st.assume(z3.And(sec >= -LIM, sec <= LIM, nan >= 0, nan < 10 ** 9))
    out = call(g, st, f, [lv]); cover(g, out); no_abort(g, 'conversion never aborts')
    for s, r in out: g.oblige(s, z3.And(r.inf == 0, r.ns == 4 * (sec * 10 ** 9 + nan)), 'the time is the instant the timestamp denotes')
def duration_to_proto(c):
    "ensures |nanos| < 10^9, sign agrees with seconds, seconds*10^9 + nanos == d (whole ns)"
    g = c.engine(TUS); g.safety = {'overflow', 'div'}
    f = c.fn(NS + 'ConvertAbslToProtoDuration'); st = start(g, f); n = z3.Int('nanoseconds')
    st.assume(z3.And(n >= -LIM * 10 ** 9, n <= LIM * 10 ** 9))
    out = call(g, st, f, [TimeV(DUR, z3.IntVal(0), n * 4)]); cover(g, out); no_abort(g, 'conversion never aborts')
    for s, r in out:
        sec, nan = fld(g, s, r, 'seconds'), fld(g, s, r, 'nanos')
        g.oblige(s, z3.And(nan > -10 ** 9, nan < 10 ** 9, z3.Implies(sec > 0, nan >= 0), z3.Implies(sec < 0, nan <= 0)), 'nanoseconds of a duration are within one second and of the same sign')
        g.oblige(s, sec * 10 ** 9 + nan == n, 'the duration message denotes the same length')
def infinite_duration(c):
    "an infinite duration becomes the extreme message of its sign, which converts back to nothing smaller than any finite one"
    g = c.engine(TUS)
    f = c.fn(NS + 'ConvertAbslToProtoDuration')
    for sg in (1, -1):
        st = start(g, f); out = call(g, st, f, [TimeV(DUR, z3.IntVal(sg), z3.IntVal(0))]); cover(g, out); no_abort(g, 'conversion never aborts')
        for s, r in out:
            sec, nan = fld(g, s, r, 'seconds'), fld(g, s, r, 'nanos')
            g.oblige(s, z3.And(sec == (2 ** 63 - 1 if sg > 0 else -2 ** 63), nan == sg * 999999999), 'an infinite duration becomes the extreme message of its sign')
def proto_to_duration(c):
    "ensures d == seconds*10^9 + nanos"
    g = c.engine(TUS); g.safety = {'overflow', 'div'}
    f = c.fn(NS + 'ConvertProtoToAbslDuration'); st = start(g, f); a = params(g, st, f)
    lv = a[0] if isinstance(a[0], LV) else g.new_root(st, 'proto', a[0])
    sec, nan = g.read(st, lv.f('seconds')), g.read(st, lv.f('nanos'))
    st.assume(z3.And(sec >= -LIM, sec <= LIM, nan > -10 ** 9, nan < 10 ** 9))
    out = call(g, st, f, [lv]); cover(g, out); no_abort(g, 'conversion never aborts')
    for s, r in out: g.oblige(s, z3.And(r.inf == 0, r.ns == 4 * (sec * 10 ** 9 + nan)), 'the duration is what the message denotes')
UNITS = [time_to_proto, proto_to_time, duration_to_proto, infinite_duration, proto_to_duration]
HARNESS = dict(main='C12_harness.cc', srcs=['fcp/base/time_util.cc'], secs=3)
