"""C15: HTTP codes, header lookup, request URIs."""
from vc.spec import *
TUS = ['fcp/client/http/http_client_util.cc']
NS = 'fcp::client::http::'
ASSUMPTIONS = ['SMT string theory models std::string, characters 0 to 255', 'lower-casing and comparing text is a function of the text (AsciiStrToLower)']
KNOWN = {400: 'INVALID_ARGUMENT', 403: 'PERMISSION_DENIED', 404: 'NOT_FOUND', 409: 'ABORTED', 429: 'RESOURCE_EXHAUSTED', 499: 'CANCELLED', 504: 'DEADLINE_EXCEEDED', 501: 'UNIMPLEMENTED', 503: 'UNAVAILABLE', 401: 'UNAUTHENTICATED'}
S = z3.StringVal
def code(c):
    "ensures the status of a response code is the documented one; success exactly for the codes 200 to 299"
    g = c.engine(TUS); g.safety = {'index', 'null', 'overflow'}; f = c.fn(NS + 'ConvertHttpCodeToStatus'); st = start(g, f); ar = params(g, st, f); x = g.val(st, ar[0])
    want = z3.If(z3.And(x >= 200, x < 300), 0, z3.If(z3.And(x >= 400, x < 500), CODES['FAILED_PRECONDITION'], z3.If(z3.And(x >= 500, x < 600), CODES['INTERNAL'], CODES['UNKNOWN'])))
    for k, v in KNOWN.items(): want = z3.If(x == k, CODES[v], want)
    out = call(g, st, f, ar); cover(g, out); no_abort(g, 'never aborts')
    for s, r in out: g.oblige(s, r.code == want, 'the documented status of every response code')
def find(c):
    "ensures the value of the first header whose name equals the wanted one ignoring case, none if there is none"
    g = c.engine(TUS, strings='seq'); g.safety = {'index', 'null'}; f = c.fn(NS + 'FindHeader'); st = start(g, f); ar = params(g, st, f); h = g.val(st, ar[0]); n = g.val(st, ar[1]); ss = z3.StringSort(); low = z3.Function('absl.AsciiStrToLower', ss, ss); ic = z3.Function('absl.EqualsIgnoreCase', ss, ss, z3.BoolSort())
    a_, b_ = z3.Consts('a!s b!s', ss); st.assume(z3.ForAll([a_, b_], ic(a_, b_) == (low(a_) == low(b_)), patterns=[ic(a_, b_)])); q, j = z3.Ints('q j!q'); fs = [k for k, t in g.rec_fields(h.ety)]; nm = lambda i: g.rget(st, g.unpack(st, h.arr[i], h.ety), fs[0], STRING); vl = lambda i: g.rget(st, g.unpack(st, h.arr[i], h.ety), fs[1], STRING); same = lambda i: low(nm(i)) == low(n)
    g.loop_hints[:] = [lambda L: [('no match so far', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), Not(same(j)))))]]
    out = call(g, st, f, ar); cover(g, out); no_abort(g, 'never aborts')
    for s, r in out:
        first = z3.And(q >= 0, q < h.len, same(q), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q), Not(same(j)))))
        z = s.copy(); z.assume(first)
        if g.feasible(z): g.oblige(z, r.has, 'a matching header is found'); g.oblige(z, g.val(z, g.optval(z, r)) == vl(q), 'the value is that of the first matching header')
        z = s.copy(); z.assume(r.has)
        if g.feasible(z): z.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < h.len), Not(same(j))))); g.oblige(z, F, 'nothing is found if no name matches')
def join(c):
    "ensures base and suffix with exactly one slash between them, and refuses a suffix without leading slash"
    g = c.engine(TUS, strings='seq'); g.safety = {'index', 'null'}; f = c.fn(NS + 'JoinBaseUriWithSuffix'); st = start(g, f); ar = params(g, st, f); b, u = g.val(st, ar[0]), g.val(st, ar[1]); out = call(g, st, f, ar); cover(g, out); no_abort(g, 'never aborts')
    bs = z3.If(z3.SuffixOf(S('/'), b), z3.SubString(b, 0, z3.Length(b) - 1), b); us = z3.If(z3.Length(u) == 0, S('/'), u)
    for s, r in out:
        bad = z3.And(z3.Length(u) > 0, Not(z3.PrefixOf(S('/'), u))); g.oblige(s, (r.code != 0) == bad, 'refused exactly if a suffix does not start with a slash'); g.oblige(s, z3.Implies(bad, r.code == CODES['INVALID_ARGUMENT']), 'as an invalid argument')
        z = s.copy(); z.assume(r.code == 0)
        if g.feasible(z): g.oblige(z, g.val(z, r.val) == z3.Concat(bs, us), 'exactly one slash between the parts')
def unres(x, slash):
    rg = lambda a, b: z3.And(x >= ord(a), x <= ord(b)); return z3.Or([rg('a', 'z'), rg('A', 'Z'), rg('0', '9')] + [x == ord(k) for k in '-_.~' + ('/' if slash else '')])
def encode(slash, fn=None, prefix=''):
    def f(c):
        g = c.engine(TUS, strings='seq'); g.safety = {'index', 'null'}; f = c.fn(NS + fn); st = start(g, f); ar = params(g, st, f); x = g.val(st, ar[0]); I = z3.IntSort(); ENC = z3.Function('encoded', I, z3.StringSort()); k = z3.Int('k!q'); ch = lambda i: z3.StrToCode(z3.SubString(x, i, 1)); tab = S('0123456789ABCDEF'); d = lambda v: z3.SubString(tab, v, 1)
        one = lambda i: z3.If(unres(ch(i), slash), z3.SubString(x, i, 1), z3.Concat(S('%'), d(ch(i) / 16), d(ch(i) % 16))); st.assume(ENC(0) == S('')); st.assume(z3.ForAll([k], z3.Implies(k >= 0, ENC(k + 1) == z3.Concat(ENC(k), one(k))), patterns=[ENC(k + 1)]))
        j = z3.Int('j!q'); st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < z3.Length(x)), z3.And(ch(j) >= 0, ch(j) < 256))))
        def hint(L):
            out = []
            for m in L.mods:
                v = g.read(L.st, m)
                if z3.is_expr(v) and v.sort() == z3.StringSort(): out.append(('encoded so far', v == ENC(L.k)))
            return out + [('only ASCII so far', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), ch(j) < 128)))]
        g.generic = lambda n: n[:4] == 'loop' or n.endswith(('== start + k', '>= 0')); g.loop_hints[:] = [hint]; out = call(g, st, f, ar); cover(g, out); no_abort(g, 'never aborts')
        for s, r in out:
            z = s.copy(); z.assume(r.code == 0)
            if g.feasible(z):
                g.oblige(z, g.val(z, r.val) == z3.Concat(S(prefix), ENC(z3.Length(x))) if prefix else g.val(z, r.val) == ENC(z3.Length(x)), 'every byte outside the unreserved set is escaped as % and two hexadecimal digits, others are kept'); e = z3.Int('any position'); g.oblige(z, z3.Implies(z3.And(e >= 0, e < z3.Length(x)), ch(e) < 128), 'text that is not ASCII is refused')
            z = s.copy(); z.assume(r.code != 0)
            if g.feasible(z): g.oblige(z, r.code == CODES['INVALID_ARGUMENT'], 'refused as invalid argument'); z.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < z3.Length(x)), ch(j) < 128))); g.oblige(z, F, 'ASCII text is never refused')
    f.__name__ = fn; f.__doc__ = 'ensures every byte outside the unreserved set is escaped as % and two upper-case hexadecimal digits, all others kept, in order; refuses exactly text that is not ASCII'; return f
UNITS = [code, find, join, encode(False, 'EncodeUriSinglePathSegment'), encode(True, 'EncodeUriMultiplePathSegments'), encode(True, 'CreateByteStreamUploadUriSuffix', '/upload/v1/media/')]
HARNESS = dict(main='C15_harness.cc', srcs=['fcp/client/http/http_client_util.cc'], protos=['google/rpc/status.proto', 'google/rpc/code.proto'], secs=3)
