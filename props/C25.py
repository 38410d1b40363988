"""C25: process-wide identifiers, tokens and tags."""
from vc.spec import *
TUS = [V + '/props/inst_ids.cc', 'fcp/base/process_unique_id.cc', 'fcp/tracing/tracing_span_id.cc', 'fcp/base/random_token.cc']
NS = 'verif_inst::'
ASSUMPTIONS = ['a counter that starts at its initial value does not reach 2^63 increments', 'little-endian target', 'RAND_bytes supplies independent random bits (the unguessability of tokens is not part of the proof)']
def ids(c, name):
    """rely: other threads only move the counter forward; guarantee: so does this call, and the value it
    returns was claimed by one atomic step of its own, so the values of all calls lie in disjoint intervals"""
    g = c.engine(TUS, proto=False); g.atomic_rely = lambda old, new: z3.And(new >= old, new < 2 ** 63 - 10, new >= 0)
    f = c.fn(NS + name); st = start(g, f)
    out = call(g, st, f, []); cover(g, out); no_abort(g, 'drawing an id never aborts')
    from vc.engine import Obligation
    for s, r in out:
        steps = [t[2] for t in s.trace if t[0] == 'atomic']
        wr = [(o, n) for o, n in steps if not o.eq(n)]
        for o, n in wr: g.oblige(s, n > o, 'the counter only moves forward, in one step')
        low = z3.Or([z3.And(o <= r, r < n) for o, n in wr] or [F]); high = z3.Or([z3.And(o < r, r <= n) for o, n in wr] or [F])
        pick = low if g.check(s.pc + [z3.Not(low)], 5000)[0] == z3.unsat else high
        g.oblige(s, pick, 'the id lies in the interval this call alone claimed')
def process_ids(c):
    "rely/guarantee over all interleavings: ids of distinct calls differ"
    ids(c, 'NextId')
def span_ids(c):
    "rely/guarantee over all interleavings: span ids of distinct calls differ"
    ids(c, 'NextSpan')
def span_values(c):
    "a span id holds the 64-bit value given; ==, !=, < compare that value"
    g = c.engine(TUS, proto=False); g.safety = {'overflow'}
    a, b = z3.Ints('a b'); i64 = lambda x: z3.And(x >= -2 ** 63, x < 2 ** 63)
    f = c.fn(NS + 'SpanValue'); st = start(g, f); st.assume(i64(a)); out = call(g, st, f, [a]); cover(g, out)
    for s, r in out: g.oblige(s, r == a, 'a span id keeps its value')
    for nm, want in (('SpanEq', a == b), ('SpanNe', a != b), ('SpanLt', a < b)):
        f = c.fn(NS + nm); st = start(g, f); st.assume(z3.And(i64(a), i64(b))); out = call(g, st, f, [a, b]); cover(g, out)
        for s, r in out: g.oblige(s, r == want, nm + ' compares the values')
def span(g, st, nm, n=16, ln=None):
    ct = int_ty(8, True); arr = z3.Array(nm + '.bytes', z3.IntSort(), z3.IntSort()); i = z3.Int('i!b')
    for k in range(20): st.assume(z3.And(arr[k] >= -128, arr[k] < 128))
    lv = g.new_root(st, nm, VecV(ct, z3.IntVal(n) if ln is None else ln, arr))
    return arr, ViewV(ct, lv, z3.IntVal(0), z3.IntVal(n) if ln is None else ln)
def tokens(c):
    "FromBytes(b).ToBytes() == b, FromBytes(b).ToString() == b, == iff all bytes equal; other lengths stop the process"
    g = c.engine(TUS, proto=False); g.safety = {'index'}
    f = c.fn(NS + 'TokenBytes'); st = start(g, f); a, v = span(g, st, 'a'); out = call(g, st, f, [v]); cover(g, out); no_abort(g, 'a 16-byte token is accepted')
    for s, r in out: g.oblige(s, z3.And([r.arr[i] == a[i] for i in range(16)] + [r.len == 16]), 'bytes of a token are the bytes it was made from')
    f = c.fn(NS + 'TokenText'); st = start(g, f); a, v = span(g, st, 'a'); out = call(g, st, f, [v]); cover(g, out); no_abort(g, 'a 16-byte token is accepted')
    for s, r in out: g.oblige(s, z3.And([g.str_at(s, r, z3.IntVal(i)) == a[i] for i in range(16)] + [g.strlen(r) == 16]), 'text of a token is the bytes it was made from')
    f = c.fn(NS + 'TokenBytes'); st = start(g, f); n = z3.Int('length'); st.assume(z3.And(n >= 0, n != 16, n < 2 ** 31)); a, v = span(g, st, 'a', ln=n)
    for s, r in call(g, st, f, [v]): g.oblige(s, F, 'a token is never made from another number of bytes')
    for nm in ('TokenEq', 'TokenNe'):
        f = c.fn(NS + nm); st = start(g, f); a, v = span(g, st, 'a'); b, w = span(g, st, 'b'); out = call(g, st, f, [v, w]); cover(g, out)
        same = z3.And([a[i] == b[i] for i in range(16)])
        for s, r in out: g.oblige(s, r == (same if nm == 'TokenEq' else z3.Not(same)), nm + ' is equality of all bytes')
def tags(c):
    "TracingTag(s).str() == s; == iff the four characters are equal"
    g = c.engine(TUS, proto=False); g.safety = {'index'}
    def arg(st, nm): a, v = span(g, st, nm, 5); return a, v.lv
    f = c.fn(NS + 'TagText'); st = start(g, f); a, v = arg(st, 'a'); out = call(g, st, f, [v]); cover(g, out)
    for s, r in out: g.oblige(s, z3.And([g.str_at(s, r, z3.IntVal(i)) == a[i] for i in range(4)] + [g.strlen(r) == 4]), 'text of a tag is the four characters it was made from')
    for nm in ('TagEq', 'TagNe'):
        f = c.fn(NS + nm); st = start(g, f); a, v = arg(st, 'a'); b, w = arg(st, 'b'); out = call(g, st, f, [v, w]); cover(g, out)
        same = z3.And([a[i] == b[i] for i in range(4)])
        for s, r in out: g.oblige(s, r == (same if nm == 'TagEq' else z3.Not(same)), nm + ' is equality of the four characters')
UNITS = [process_ids, span_ids, span_values, tokens, tags]
HARNESS = dict(main='C25_harness.cc', srcs=['fcp/base/process_unique_id.cc', 'fcp/tracing/tracing_span_id.cc', 'fcp/base/random_token.cc'], libs=CRYPTO, secs=5)
