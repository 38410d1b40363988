"""C16: in-memory HTTP requests and responses."""
from vc.spec import *
TUS = ['fcp/client/http/in_memory_request_response.cc', 'fcp/client/http/http_client_util.cc']
H = 'fcp::client::http::'; RQ, CB = H + 'InMemoryHttpRequest', H + 'InMemoryHttpRequestCallback'
ASSUMPTIONS = ['looking up a header gives a function of the header list and the name (contract proved in C15)', 'text operations other than length and concatenation are functions of their arguments; compressing gives a function of the body or fails (C23)', 'callbacks of one request are called one at a time (they lock the same mutex)']
B, I = z3.BoolSort(), z3.IntSort()
def base(c):
    g = c.engine(TUS); g.safety = {'index', 'null', 'overflow'}; g.feas_qf = True; S = g.str_sort(); x, y = z3.Consts('x!s y!s', S); g.ax = [z3.ForAll([x, y], g.strlen(g.strcat(x, y)) == g.strlen(x) + g.strlen(y), patterns=[g.strcat(x, y)]), z3.ForAll([x], z3.And(g.strlen(x) >= 0, (g.strlen(x) == 0) == (x == g.strlit(''))), patterns=[g.strlen(x)])]; return g
def header(g):
    S = g.str_sort(); seen = {}
    def find(g, s, obj, a, e):
        h, n = g.val(s, a[0]), g.val(s, a[1]); HAS, VAL = z3.Function('has_header', h.arr.sort(), I, S, B), z3.Function('header', h.arr.sort(), I, S, S); return [(s, OptV(STRING, HAS(h.arr, h.len, n), VAL(h.arr, h.len, n), e['t']))]
    g.contracts[H + 'FindHeader'] = find
    return (lambda h, n: z3.Function('has_header', h.arr.sort(), I, S, B)(h.arr, h.len, g.strlit(n))), (lambda h, n: z3.Function('header', h.arr.sort(), I, S, S)(h.arr, h.len, g.strlit(n)))
def request(c):
    """requires 0 <= position <= size of the body; ensures a read hands over the next bytes of the body, as many as asked for or left, moves the position by as many, and reports the end exactly if nothing is left"""
    g = base(c); f = c.fn(RQ + '::ReadBody'); st = start(g, f); [st.assume(a) for a in g.ax]; o = g.new_root(st, 'this', RecV(rec_ty(RQ), {})); fl = g.rec_fields(rec_ty(RQ)); cur = [n for n, t in fl if kind_of(t) == 'int' and t.k != 'enum']
    if len(cur) != 1: raise Unsupported('request')
    for n, t in fl:
        if kind_of(t) == 'str' or n == cur[0]: g.write(st, o.f(n), g.fresh(st, t, n))
    copies = []
    def cp(g, s, obj, a, e):
        d, sp, n = g.val(s, a[0]), g.val(s, a[1]), g.val(s, a[2])
        if isinstance(sp, PtrV): src, off = g.read(s, sp.lv), (sp.off if sp.off is not None else z3.IntVal(0))
        else: src, off = sp, z3.IntVal(0)
        if not z3.is_expr(src) or src.sort() != g.str_sort(): raise Unsupported('source of the copy')
        room = z3.Int('room'); g.oblige(s, z3.And(n >= 0, off >= 0, off + n <= g.strlen(src)), 'copies only bytes of the body'); g.oblige(s, z3.And(n <= room), 'copies no more than fits the buffer'); s.ghost['copy'] = s.ghost.get('copy', ()) + ((src, off, n),); return [(s, d)]
    for n in ('memcpy', 'std::memcpy', '__builtin_memcpy', 'memmove', 'std::memmove'): g.contracts[n] = cp
    buf = PtrV(f.ps[0][2], z3.Bool('no_buffer'), g.new_root(st, 'buf', g.fresh(st, STRING, 'b'))); req = z3.Int('room'); st.assume(z3.And(req < 2 ** 62)); hb = c.fn(RQ + '::HasBody'); pos = g.read(st, o.f(cur[0]))
    # the body is the text HasBody() asks about
    (s1, hv), = call(g, st.copy(), hb, [], this=o); bodies = [n for n, t in fl if kind_of(t) == 'str' and any(v.eq(g.read(st, o.f(n))) for v in z3util_vars(g.val(s1, hv)))]
    if len(bodies) != 1: raise Unsupported('body')
    body = g.read(st, o.f(bodies[0])); L = g.strlen(body); g.oblige(s1, hv == (L > 0), 'a request has a body exactly if it is not empty'); st.assume(z3.And(pos >= 0, pos <= L, L < 2 ** 62)); left = L - pos; st.assume(z3.Implies(left > 0, z3.And(req > 0, Not(buf.null))))
    out = call(g, st, f, [buf, req], this=o); cover(g, out); no_abort(g, 'never aborts the process')
    for s, r in out:
        new = g.read(s, o.f(cur[0])); cs = s.ghost.get('copy', ()); n = z3.If(left < req, left, req); ok = r.code == 0; g.oblige(s, ok == (left > 0), 'the end is reported exactly if nothing is left'); g.oblige(s, z3.Implies(Not(ok), z3.And(r.code == CODES['OUT_OF_RANGE'], new == pos)), 'as out of range, staying there'); g.oblige(s, g.read(s, o.f(bodies[0])) == body, 'the body stays')
        z = s.copy(); z.assume(ok)
        if g.feasible(z): g.oblige(z, g.val(z, r.val) == n, 'a read returns as many bytes as asked for or left'); g.oblige(z, new == pos + n, 'the position moves by the bytes read'); g.oblige(z, z3.And(z3.BoolVal(len(cs) == 1), *[z3.And(x == body, p == pos, k == n) for x, p, k in cs]), 'the bytes handed over are the next ones of the body')
def z3util_vars(e):
    from z3 import z3util
    return z3util.get_vars(e)
def create(c):
    """ensures a request is made exactly for a secure or local address, no given content length and a method that allows a body if there is one; the body is the one given, or compressed and marked so; its length is announced exactly if it is not empty"""
    g = base(c); has, val = header(g); f = c.fn(RQ + '::Create'); st = start(g, f); [st.assume(a) for a in g.ax]; S = g.str_sort(); ar = params(g, st, f); uri, meth, hdrs, body, comp = [g.val(st, a) for a in ar]; GZ, GOK = z3.Function('gzip', S, S), z3.Function('can_gzip', S, B)
    def gz(g, s, obj, a, e): x = g.val(s, a[0]); k = g.fresh_const('code', I); s.assume(z3.And(k > 0, k <= 16)); return [(s, StatusOrV(STRING, z3.If(GOK(x), z3.IntVal(0), k), g.fresh_const('m', S), GZ(x), e['t']))]
    g.contracts['fcp::CompressWithGzip'] = gz; pre = z3.Function('absl.StartsWithIgnoreCase', S, S, B); secure = z3.Or(pre(uri, g.strlit('https://')), pre(uri, g.strlit('http://localhost:'))); b2 = z3.If(comp, GZ(body), body); T_ = hdrs.ety; mk = lambda s, k, v: g.pack(s, RecV(T_, {n: x for (n, t), x in zip(g.rec_fields(T_), (k, v))}), T_)
    def hdrs1(s): return hdrs.len + z3.If(comp, 1, 0), z3.If(comp, z3.Store(hdrs.arr, hdrs.len, mk(s, g.strlit('Content-Encoding'), g.strlit('gzip'))), hdrs.arr)
    st.assume(g.strlen(body) < 2 ** 62); st.assume(g.strlen(GZ(body)) < 2 ** 62); n1, a1 = hdrs1(st); S_ = g.str_sort(); HAS = z3.Function('has_header', hdrs.arr.sort(), I, S_, B); cl = HAS(a1, n1, g.strlit('Content-Length')); en = {k: v for k, v in zip(('head', 'get', 'post', 'put', 'patch', 'delete'), range(6))}; allows = z3.Or([meth == en[k] for k in ('post', 'put', 'patch', 'delete')]); good = z3.And(secure, z3.Implies(comp, GOK(body)), Not(cl), z3.Or(g.strlen(b2) == 0, allows))
    out = call(g, st, f, ar); cover(g, out); no_abort(g, 'never aborts the process')
    for s, r in out:
        g.oblige(s, (r.code == 0) == good, 'a request is made exactly for valid arguments'); z = s.copy(); z.assume(r.code == 0)
        if not g.feasible(z): continue
        w = g.val(z, r.val); q = g.optval(z, w); o = g.new_root(z, 'request', q); g.oblige(z, w.has, 'there is a request')
        def get(n): o2 = [x for x in call(g, z.copy(), c.fn(RQ + '::' + n), [], this=o)]; return g.val(o2[0][0], o2[0][1])
        g.oblige(z, get('uri') == uri, 'the address is the one given'); g.oblige(z, get('method') == meth, 'the method is the one given'); g.oblige(z, get('HasBody') == (g.strlen(b2) > 0), 'there is a body if it is not empty'); h = get('extra_headers'); nb = g.strlen(b2) > 0; tos = z3.Function('str.of.Int', I, S_)
        g.oblige(z, h.len == n1 + z3.If(nb, 1, 0), 'only content encoding and length are added to the headers'); j = z3.Int('j!h'); g.oblige(z, z3.Implies(z3.And(j >= 0, j < n1), h.arr[j] == a1[j]), 'the headers given are kept, compression is marked'); g.oblige(z, z3.Implies(nb, h.arr[n1] == mk(z, g.strlit('Content-Length'), tos(g.strlen(b2)))), 'the announced length is that of the body')
        bodies = [g.rget(z, q, n, t) for n, t in g.rec_fields(q.ty) if kind_of(t) == 'str']; g.oblige(z, z3.Or([b == b2 for b in bodies]), 'the body is the one given, or compressed'); curs = [g.rget(z, q, n, t) for n, t in g.rec_fields(q.ty) if kind_of(t) == 'int' and t.k != 'enum']; g.oblige(z, z3.And([x == 0 for x in curs]), 'reading starts at the beginning')
class Cb:
    """a callback object with arbitrary members, named by what Response() returns of them"""
    def __init__(self, c):
        g = self.g = base(c); self.c = c; self.has, self.val = header(g); st = start(g); [st.assume(a) for a in g.ax]; o = self.o = g.new_root(st, 'this', RecV(rec_ty(CB), {})); fl = g.rec_fields(rec_ty(CB)); self.n = {}
        for n, t in fl:
            if kind_of(t) in ('str', 'opt') or 'Status' in repr(t): g.write(st, o.f(n), g.fresh(st, t, 'm.' + n, exact_name=True))
        V_ = {n: g.read(st, o.f(n)) for n, t in fl if kind_of(t) in ('str', 'opt') or 'Status' in repr(t)}; sts = [n for n, v in V_.items() if isinstance(v, StatusV)]
        if len(sts) != 1: raise Unsupported('callback')
        self.n['status'] = sts[0]; st.assume(z3.And(V_[sts[0]].code >= 0, V_[sts[0]].code <= 16)); self.st = st
        opts = [n for n, v in V_.items() if isinstance(v, OptV)]; z = st.copy()
        for n in opts: z.assume(V_[n].has)
        z.assume(V_[sts[0]].code == 0); f = c.fn(CB + '::Response'); z.fn = f; out = call(g, z, f, [], this=o)
        for y, r in out:
            if not g.feasible(y): continue
            w = g.val(y, r.val); F_ = dict(g.rec_fields(w.ty))
            for k in ('code', 'content_encoding', 'content_type', 'body'):
                x = g.val(y, g.rget(y, w, k, F_[k])); m = [n for n, v in V_.items() if (g.optval(y, v) if isinstance(v, OptV) else v if z3.is_expr(v) else None) is not None and z3.eq(z3.simplify(x), z3.simplify(g.optval(y, v) if isinstance(v, OptV) else v))]
                if len(m) != 1: raise Unsupported('response ' + k)
                self.n[k] = m[0]
        rest = [n for n in opts if n != self.n.get('code')]
        if len(self.n) != 5 or len(rest) != 1: raise Unsupported('callback')
        self.n['expected'] = rest[0]; st.assume(z3.Implies(self.m(st, 'expected').has, g.optval(st, self.m(st, 'expected')) >= 0)); st.assume(z3.And(g.strlen(self.m(st, 'body')) < 2 ** 61))
        self.rq, self.rs = [g.new_root(st, n, RecV(rec_ty(H + k), {})) for n, k in (('req', 'HttpRequest'), ('resp', 'HttpResponse'))]; hl = rec_ty('std::vector', (rec_ty('std::pair', (STRING, STRING)),))
        self.code = z3.Int('response_code'); st.assume(z3.And(self.code >= -2 ** 31, self.code < 2 ** 31)); self.hq, self.hs = g.fresh(st, hl, 'request_headers', exact_name=True), g.fresh(st, hl, 'response_headers', exact_name=True); rq, rs = g.new_root(st, 'hq', self.hq), g.new_root(st, 'hs', self.hs)
        g.contracts[H + 'HttpRequest::extra_headers'] = lambda g, s, obj, a, e: [(s, rq)]; g.contracts[H + 'HttpResponse::headers'] = lambda g, s, obj, a, e: [(s, rs)]; g.contracts[H + 'HttpResponse::code'] = lambda g, s, obj, a, e: [(s, self.code)]
    def m(self, s, k): return self.g.read(s, self.o.f(self.n[k]))
    def run(self, name, extra=()):
        f = self.c.fn(CB + '::' + name); s = self.st.copy(); s.fn = f; out = call(self.g, s, f, list(extra), this=self.o); cover(self.g, out); no_abort(self.g, 'never aborts the process'); return out
    def same(self, s, *ks):
        e = []
        for k in ks:
            a, b = self.m(s, k), self.m(self.st, k); e.append(z3.And(a.has == b.has, z3.Implies(a.has, self.g.optval(s, a) == self.g.optval(s, b))) if isinstance(a, OptV) else a.code == b.code if isinstance(a, StatusV) else a == b)
        return z3.And(e)
def started(c):
    """ensures code, type and encoding of the response are recorded; an encoding the caller did not ask for, a transfer encoding or an unreadable or negative length is refused and recorded as the error; otherwise the announced length is expected"""
    K = Cb(c); g = K.g; S = g.str_sort(); ce, ct, te, cl = ('Content-Encoding', 'Content-Type', 'Transfer-Encoding', 'Content-Length'); low = z3.Function('absl.AsciiStrToLower', S, S); ok, num = z3.Function('atoi.ok', S, B), z3.Function('atoi.64True', S, I); hs = lambda n: K.has(K.hs, n); hv = lambda n: K.val(K.hs, n); ic = z3.Function('absl.EqualsIgnoreCase', S, S, B); a_, b_ = z3.Consts('a!s b!s', S); K.st.assume(z3.ForAll([a_, b_], ic(a_, b_) == (low(a_) == low(b_)), patterns=[ic(a_, b_)])); idn = g.strlit('identity'); K.st.assume(low(idn) == idn)
    e0 = K.m(K.st, 'expected'); K.st.assume(Not(e0.has)); bad1 = z3.And(hs(ce), Not(K.has(K.hq, 'Accept-Encoding'))); bad2 = z3.And(hs(te), low(hv(te)) != idn); bad3 = z3.And(hs(cl), z3.Or(Not(ok(hv(cl))), num(hv(cl)) < 0))
    for s, r in K.run('OnResponseStarted', (K.rq, K.rs)):
        code = K.m(s, 'code'); g.oblige(s, z3.And(code.has, g.optval(s, code) == K.code), 'the response code is recorded'); bad = z3.Or(bad1, bad2, bad3); g.oblige(s, (r.code != 0) == bad, 'refused exactly for an encoding not asked for, a transfer encoding, or an invalid length'); g.oblige(s, z3.Implies(bad, z3.And(K.m(s, 'status').code == r.code)), 'a refusal is recorded as the error')
        z = s.copy(); z.assume(Not(bad))
        if g.feasible(z):
            x = K.m(z, 'expected'); g.oblige(z, x.has == hs(cl), 'a length is expected exactly if announced'); g.oblige(z, z3.Implies(x.has, g.optval(z, x) == num(hv(cl))), 'the expected length is the announced one'); g.oblige(z, K.same(z, 'status', 'body'), 'no data yet and no success yet')
            g.oblige(z, K.m(z, 'content_type') == z3.If(hs(ct), hv(ct), g.strlit('')), 'the type is recorded'); g.oblige(z, K.m(z, 'content_encoding') == z3.If(hs(ce), hv(ce), K.m(K.st, 'content_encoding')), 'the encoding is recorded')
def body(c):
    """ensures data is appended to what was received, unless that would exceed the announced length, which is refused and recorded as the error"""
    K = Cb(c); g = K.g; d = g.fresh(K.st, STRING, 'data', exact_name=True); K.st.assume(g.strlen(d) < 2 ** 61); b0 = K.m(K.st, 'body'); x = K.m(K.st, 'expected'); over = z3.And(x.has, g.strlen(b0) + g.strlen(d) > g.optval(K.st, x))
    for s, r in K.run('OnResponseBody', (K.rq, K.rs, g.new_root(K.st, 'data', d))):
        g.oblige(s, (r.code != 0) == over, 'refused exactly if more than announced'); g.oblige(s, z3.Implies(over, z3.And(K.m(s, 'status').code == r.code, K.m(s, 'body') == b0)), 'a refusal is recorded as the error and no data is taken'); g.oblige(s, z3.Implies(Not(over), z3.And(K.m(s, 'body') == g.strcat(b0, d), K.same(s, 'status'))), 'the data is appended'); g.oblige(s, K.same(s, 'code', 'content_encoding', 'content_type', 'expected'), 'nothing else changes')
def completed(c):
    """requires the response to have started; ensures the result is an error if the data received is not as long as announced, otherwise the status of the response code; a success needs an announced length equal to the data received"""
    K = Cb(c); g = K.g; code = K.m(K.st, 'code'); K.st.assume(code.has); x = K.m(K.st, 'expected'); b = K.m(K.st, 'body'); short = z3.And(x.has, g.strlen(b) != g.optval(K.st, x)); CONV = z3.Function('status_of_code', I, I)
    def conv(g, s, obj, a, e): k = g.val(s, a[0]); s.assume(z3.And(CONV(k) >= 0, CONV(k) <= 16)); return [(s, StatusV(CONV(k), g.fresh_const('m', g.str_sort())))]
    g.contracts[H + 'ConvertHttpCodeToStatus'] = conv
    for s, r in K.run('OnResponseCompleted', (K.rq, K.rs)):
        n = K.m(s, 'status').code; g.oblige(s, z3.Implies(short, n != 0), 'data shorter than announced is an error'); g.oblige(s, z3.Implies(Not(short), n == CONV(g.optval(s, code))), 'otherwise the result is that of the response code'); g.oblige(s, K.same(s, 'code', 'content_encoding', 'content_type', 'expected', 'body'), 'nothing else changes')
def errors(c):
    """ensures an error reported by the client becomes the result, and the result is the recorded response exactly if no error was recorded; before any callback the result is an error"""
    K = Cb(c); g = K.g; e = g.fresh(K.st, STATUS, 'error') if 'STATUS' in globals() else StatusV(z3.Int('error'), g.fresh(K.st, STRING, 'em')); K.st.assume(z3.And(e.code > 0, e.code <= 16)); lv = g.new_root(K.st, 'err', e)
    for fn, ar in (('OnResponseError', (K.rq, lv)), ('OnResponseBodyError', (K.rq, K.rs, lv))):
        for s, r in K.run(fn, ar): g.oblige(s, K.m(s, 'status').code == e.code, 'the error reported is the result'); g.oblige(s, K.same(s, 'code', 'content_encoding', 'content_type', 'expected', 'body'), 'nothing else changes')
    code = K.m(K.st, 'code'); K.st.assume(z3.Implies(K.m(K.st, 'status').code == 0, code.has))
    for s, r in K.run('Response'):
        g.oblige(s, r.code == K.m(K.st, 'status').code, 'the result is the recorded error, if any'); z = s.copy(); z.assume(r.code == 0)
        if g.feasible(z): w = g.val(z, r.val); F_ = dict(g.rec_fields(w.ty)); G = lambda k: g.val(z, g.rget(z, w, k, F_[k])); g.oblige(z, z3.And(G('code') == g.optval(z, code), G('body') == K.m(z, 'body'), G('content_type') == K.m(z, 'content_type'), G('content_encoding') == K.m(z, 'content_encoding')), 'the response has the recorded code, type, encoding and data')
UNITS = [request, create, started, body, completed, errors]
HARNESS = dict(main='C16_harness.cc', srcs=TUS + ['fcp/base/compression.cc', 'fcp/base/scheduler.cc'], protos=['fcp/client/http/http_resource_metadata.proto', 'fcp/client/diag_codes.proto', 'fcp/client/histogram_counters.proto', 'fcp/client/engine/engine.proto', 'google/rpc/status.proto', 'google/rpc/code.proto'], libs=['-lz', '-lpthread'], secs=4)
