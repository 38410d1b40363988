"""C11: what the server collects and which masks it removes."""
from vc.spec import *
import importlib.util
def _load(n):
    s = importlib.util.spec_from_file_location('prop_' + n, os.path.join(V, 'props', n + '.py')); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
C10 = _load('C10'); C07 = C10.C07; NS = C10.NS; I = z3.IntSort(); IMPL = C10.IMPL; AK = rec_ty(NS + 'AesKey'); SH = rec_ty(NS + 'ShamirShare'); PK = rec_ty(NS + 'EcdhPublicKey'); KA = rec_ty(NS + 'EcdhKeyAgreement')
TUS = C10.TUS
ASSUMPTIONS = ['a message field repeats fewer than 2^31 times (limit of the message library)', 'the graph: neighbour lists and positions in them are inverse to each other and being neighbours is symmetric (C06)', 'key agreement and key reconstruction give a function of their inputs or fail (C02, C08)',
               'order of the masks does not matter: removing masks is addition of arbitrary numbers']
SELF, PAIR = (6, 7, 8, 9), (4, 5)
class Im(C10.Srv):
    def __init__(self, c, keep=()):
        super().__init__(c); g = self.g
        for n in keep: g.contracts.pop(IMPL + '::' + n, None)
        self.D = z3.Int('degree'); self.NB = z3.Function('neighbour', I, I, I); self.IDX = z3.Function('position', I, I, I); self.ADJ = z3.Function('adjacent', I, I, z3.BoolSort()); self.OUT = z3.Function('outgoing', I, I, z3.BoolSort()); G = NS + 'SecretSharingGraph::'
        g.contracts[G + 'GetDegree'] = lambda g, s, obj, a, e: [(s, self.D)]; g.contracts[G + 'GetThreshold'] = lambda g, s, obj, a, e: [(s, z3.Int('threshold'))]
        ok = lambda s, *xs: [g.oblige(s, z3.And(x >= 0, x < self.N), 'a client asked about exists') for x in xs]
        def nb(g, s, obj, a, e): x, i = g.val(s, a[0]), g.val(s, a[1]); ok(s, x); g.oblige(s, z3.And(i >= 0, i < self.D), 'a neighbour asked for exists'); return [(s, self.NB(x, i))]
        def pos(g, s, obj, a, e): x, y = g.val(s, a[0]), g.val(s, a[1]); ok(s, x, y); return [(s, OptV(e['t'].args[0] if getattr(e['t'], 'args', None) else I32, self.ADJ(x, y), self.IDX(x, y), e['t']))]
        rel = lambda R: lambda g, s, obj, a, e: (ok(s, g.val(s, a[0]), g.val(s, a[1])), [(s, R(g.val(s, a[0]), g.val(s, a[1])))])[1]
        g.contracts[G + 'GetNeighbor'] = nb; g.contracts[G + 'GetNeighborIndex'] = pos; g.contracts[G + 'AreNeighbors'] = rel(self.ADJ); g.contracts[G + 'IsOutgoingNeighbor'] = rel(self.OUT); g.contracts.pop(IMPL + '::GetNeighborIndex', None)
    def make(self):
        s, o = self.impl(start(self.g)); self.axioms(s); j = z3.Int('j!q'); s.assume(z3.ForAll([j], z3.And(self.a0[j] >= 0, self.a0[j] < 10), patterns=[self.a0[j]])); return s, o
    def axioms(self, s):
        g = self.g; x, y, i = z3.Ints('x!g y!g i!g'); N, D = self.N, self.D; s.assume(z3.And(D >= 1, D <= N)); rg = lambda v, n: z3.And(v >= 0, v < n)
        s.assume(z3.ForAll([x, i], z3.Implies(z3.And(rg(x, N), rg(i, D)), z3.And(rg(self.NB(x, i), N), self.ADJ(x, self.NB(x, i)), self.ADJ(self.NB(x, i), x), self.IDX(x, self.NB(x, i)) == i)), patterns=[self.NB(x, i)]))
        s.assume(z3.ForAll([x, y], z3.Implies(z3.And(rg(x, N), rg(y, N)), z3.And(self.ADJ(x, y) == self.ADJ(y, x), z3.Implies(self.ADJ(x, y), z3.And(rg(self.IDX(x, y), D), rg(self.IDX(y, x), D), self.NB(x, self.IDX(x, y)) == y)))), patterns=[self.ADJ(x, y)]))
        s.assume(z3.ForAll([x, y], z3.Implies(z3.And(rg(x, N), rg(y, N)), self.ADJ(x, y) == self.ADJ(y, x)), patterns=[self.IDX(x, y)]))
    def vfield(self, s, o, pred, what):
        fs = [n for n, t in self.g.rec_fields(rec_ty(IMPL)) if pred(t)]
        if len(fs) != 1: raise Unsupported(what)
        return o.f(fs[0])
def one(x, vs): return z3.Or([x == v for v in vs])
def prng(c):
    """requires the self key of every client whose input is included; ensures the keys to add less the keys to subtract are, in total: minus the self key of every included client, and for every included client and every
    dropped client that is its neighbour the key agreed between them, added if the edge leaves the included client and subtracted otherwise; fails only for an invalid public key"""
    S = Im(c); g = S.g; s, o = S.make(); f = c.fn(IMPL + '::InitializePrng'); s.fn = f; pk = S.vfield(s, o, lambda t: kind_of(t) == 'vec' and 'EcdhPublicKey' in repr(t), 'public keys'); pkv = g.fresh(s, g.read(s, pk).ty, 'pks', exact_name=True); s.assume(pkv.len == S.N); g.write(s, pk, pkv)
    ar = params(g, s, f); res = g.read(s, ar[0]); fl = g.rec_fields(res.ty); ms = {('self' if 'AesKey' in repr(t) else 'ab'): g.rget(s, res, n, t) for n, t in fl}
    if len(ms) != 2: raise Unsupported('reconstruction result')
    AB, SK = ms['ab'], ms['self']; ks, as_, ps = g.sort_of(AK), g.sort_of(KA), g.sort_of(PK); AG, POINT = z3.Function('agreed', as_, ps, ks), z3.Function('valid', ps, z3.BoolSort()); N, a0 = S.N, S.a0
    def agree(g, s, obj, a, e):
        p = g.pack(s, g.val(s, a[0]), PK); k = g.pack(s, g.read(s, obj), KA); code = g.fresh_const('code', I); s.assume(z3.And(code > 0, code <= 16)); return [(s, StatusOrV(AK, z3.If(POINT(p), z3.IntVal(0), code), g.fresh_const('m', g.str_sort()), g.unpack(s, AG(k, p), AK), e['t']))]
    g.contracts[NS + 'EcdhKeyAgreement::ComputeSharedSecret'] = agree
    W = z3.Function('mask_of', ks, I); AS = z3.ArraySort(I, ks); SUM = z3.Function('masks_of', AS, I, I); A_ = z3.Const('a!q', AS); x_ = z3.Const('x!q', ks); j, i_ = z3.Ints('j!q i!q'); DS = AB.dom.sort(); d_ = z3.Const('d!q', DS)
    s.assume(z3.ForAll([A_, j, x_], z3.Implies(j >= 0, SUM(z3.Store(A_, j, x_), j + 1) == SUM(A_, j) + W(x_)), patterns=[SUM(z3.Store(A_, j, x_), j + 1)])); s.assume(z3.ForAll([A_], SUM(A_, 0) == 0, patterns=[SUM(A_, 0)]))
    con = lambda i, k: z3.If(S.ADJ(i, k), z3.If(S.OUT(i, k), W(AG(AB.val[k], pkv.arr[i])), -W(AG(AB.val[k], pkv.arr[i]))), 0)
    PART = z3.Function('pairwise_total', I, DS, I); s.assume(z3.ForAll([i_, d_, j], z3.Implies(Not(d_[j]), PART(i_, z3.Store(d_, j, True)) == PART(i_, d_) + con(i_, j)), patterns=[PART(i_, z3.Store(d_, j, True))])); empty = z3.K(I, F); s.assume(z3.ForAll([i_], PART(i_, empty) == 0, patterns=[PART(i_, empty)]))
    inc = lambda i: one(a0[i], (7, 8, 9)); TOT = z3.Function('total', I, I); s.assume(TOT(0) == 0); s.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), TOT(j + 1) == TOT(j) + z3.If(inc(j), PART(j, AB.dom) - W(SK.val[j]), 0)), patterns=[TOT(j + 1)]))
    s.assume(z3.ForAll([j], z3.Implies(AB.dom[j], z3.And(j >= 0, j < N)), patterns=[AB.dom[j]])); s.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N, inc(j)), SK.dom[j]), patterns=[a0[j]]))
    g.assumptions.add('at this point every included client has status 7, 8 or 9 (C10) and its self key was reconstructed')
    def keys(st, mods):
        t = [(m, g.read(st, m)) for m in mods]; r = []
        for m, v in t:
            if isinstance(v, RecV) and len([1 for n, ty in g.rec_fields(v.ty) if kind_of(ty) == 'vec']) == 2: r += [(m.f(n), g.read(st, m.f(n))) for n, ty in g.rec_fields(v.ty)]
            elif isinstance(v, VecV) and v.arr.sort().range() == ks: r.append((m, v))
        return r
    names = {}
    def hint(L):
        kv = keys(L.st, L.mods); vis = getattr(L, 'visited', None); out = []
        if not kv: return []
        for m, v in kv: out.append(('length of ' + m.path[-1][1] if m.path else 'length', v.len >= 0))
        root, up = kv[0][0].root, kv[0][0].path[:-1]; fl = [n for n, ty in g.rec_fields(g.read(L.st, LV(root, up)).ty)]
        add, sub = [g.read(L.st, LV(root, up).f(n)) for n in fl]; net = SUM(add.arr, add.len) - SUM(sub.arr, sub.len)
        if vis is None: out.append(('keys so far', net == TOT(L.k)))
        else:
            a1, s1 = [g.read(L.pre, LV(root, up).f(n)) for n in fl]; names['i'] = 1; w = g.read(L.st, vis)
            for i, (n, v) in enumerate(cands(L)): out.append(('pairwise keys so far %d' % i, net == SUM(a1.arr, a1.len) - SUM(s1.arr, s1.len) + PART(v, w)))
        return out
    def cands(L):
        r = []
        for root, v in L.pre.cells.items():
            if z3.is_expr(v) and z3.is_int(v) and root[0] in 'i&' : r.append((root, v))
        return r[:4]
    g.loop_hints[:] = [hint]; out = call(g, s, f, ar, this=o); cover(g, out); no_abort(g, 'never aborts the process')
    for y, v in out:
        z = y.copy(); z.assume(v.code == 0)
        if g.feasible(z):
            w = g.val(z, v.val); add, sub = [g.rget(z, w, n, t) for n, t in g.rec_fields(w.ty)]; g.oblige(z, SUM(add.arr, add.len) - SUM(sub.arr, sub.len) == TOT(N), 'the masks removed are exactly the self masks of included clients and their pairwise masks with dropped neighbours, with opposite signs')
        z = y.copy(); z.assume(v.code != 0)
        if g.feasible(z): z.assume(z3.ForAll([j], POINT(pkv.arr[j]), patterns=[pkv.arr[j]])); g.oblige(z, F, 'fails only for an invalid public key')
def two(g, st, v):
    """the entry reader of a list of lists"""
    return lambda n, p: g.unpack(st, v.arr[n], v.ety).arr[p]
def lens(g, st, v): return lambda n: g.unpack(st, v.arr[n], v.ety).len
def setup_shares(S, s, o):
    g = S.g; lv = S.vfield(s, o, lambda t: kind_of(t) == 'vec' and kind_of(t.args[0]) == 'vec', 'encrypted shares'); v = g.fresh(s, g.read(s, lv).ty, 'E', exact_name=True); s.assume(v.len == S.N); g.write(s, lv, v); n = z3.Int('n!q')
    s.assume(z3.ForAll([n], z3.Implies(z3.And(n >= 0, n < S.N), lens(g, s, v)(n) == S.D), patterns=[v.arr[n]])); return lv, v
def share_keys(c, erase=False):
    """ensures a share-keys message is accepted exactly if it has one entry per neighbour, empty exactly for the sender itself and neighbours that never sent keys; then every entry is filed for its recipient at the sender's position, and nothing else changes;
    a refused message changes nothing; erasing empties exactly the sender's entries"""
    S = Im(c, keep=['HandleShareKeysResponse', 'EraseShareKeysForClient']); g = S.g; s, o = S.make(); N, D = S.N, S.D; lv, v0 = setup_shares(S, s, o); f = c.fn(IMPL + ('::EraseShareKeysForClient' if erase else '::HandleShareKeysResponse')); s.fn = f; ar = params(g, s, f); cl = g.val(s, ar[0]); s.assume(z3.And(cl >= 0, cl < N)); E0 = two(g, s, v0)
    m = None if erase else g.val(s, ar[1]); sh = None if erase else [x for x in [g.rget(s, m, n, t) for n, t in g.rec_fields(m.ty)] if isinstance(x, VecV)][0]; n, p, j = z3.Ints('n!q p!q j!q'); s.assume(T if erase else sh.len < 2 ** 31); rg = lambda x, k: z3.And(x >= 0, x < k); emp = g.strlit('')
    new = (lambda i: emp) if erase else (lambda i: sh.arr[i])
    def filed(st, k):
        v = g.read(st, lv); E = two(g, st, v); L_ = lens(g, st, v)
        return And(v.len == N, z3.ForAll([n], z3.Implies(rg(n, N), L_(n) == D), patterns=[v.arr[n]]), z3.ForAll([n, p], z3.Implies(z3.And(rg(n, N), rg(p, D)), E(n, p) == z3.If(z3.And(S.ADJ(n, cl), p == S.IDX(n, cl), S.IDX(cl, n) < k), new(S.IDX(cl, n)), E0(n, p))), patterns=[E(n, p)]))
    exp = lambda i: z3.Or(S.NB(cl, i) == cl, S.a0[S.NB(cl, i)] == 1)
    def hint(L):
        if any(m.root == lv.root and m.path[:len(lv.path)] == lv.path for m in L.mods): return [('entries filed so far', filed(L.st, L.k))]
        return [] if erase else [('entries checked so far', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), (g.strlen(sh.arr[j]) == 0) == exp(j)), patterns=[sh.arr[j]]))]
    g.generic = C10.generic; g.loop_hints[:] = [hint]; fl = [(n_, t) for n_, t in g.rec_fields(rec_ty(IMPL))]; out = call(g, s, f, ar, this=o); cover(g, out); no_abort(g, 'never aborts the process')
    for y, r in out:
        y = y.copy(); a, b = g.read(y, o), g.read(s, o)
        for n_, t in fl:
            if o.f(n_).path == lv.path: continue
            x1, x0 = g.rget(y, a, n_, t), g.rget(y, b, n_, t)
            if x1 is not x0:
                try: g.oblige(y, g.eq(y, x1, x0), 'nothing else changes')
                except Unsupported: pass
        if erase: g.oblige(y, filed(y, D), 'exactly the entries of the sender are emptied'); continue
        good = And(sh.len == D, z3.ForAll([j], z3.Implies(rg(j, D), (g.strlen(sh.arr[j]) == 0) == exp(j)), patterns=[sh.arr[j]])); z = y.copy(); z.assume(r.code == 0)
        if g.feasible(z): g.oblige(z, sh.len == D, 'only a message with one entry per neighbour is accepted'); e = z3.Int('any entry'); g.oblige(z, z3.Implies(rg(e, D), (g.strlen(sh.arr[e]) == 0) == exp(e)), 'only a message with the expected entries is accepted'); g.oblige(z, filed(z, D), 'every entry is filed for its recipient at the sender\'s position, and no other')
        z = y.copy(); z.assume(r.code != 0)
        if g.feasible(z):
            v = g.read(z, lv); g.oblige(z, z3.And(v.len == v0.len, v.arr == v0.arr), 'a refused message changes nothing'); z.assume(good); g.oblige(z, F, 'a message with the expected entries is accepted')
def erase_keys(c): share_keys(c, True)
erase_keys.__doc__ = share_keys.__doc__
def tables_of(S, s, o):
    fs = [n for n, t in S.g.rec_fields(rec_ty(IMPL)) if 'ShamirShare' in repr(t)]
    if len(fs) != 2: raise Unsupported('share tables')
    return [o.f(n) for n in fs]
def tables(c):
    """ensures one table gets an empty row of one place per neighbour for exactly the clients that sent key shares but no input, the other for exactly the clients whose input arrived; statuses stay"""
    S = Im(c, keep=['SetUpShamirSharesTables']); g = S.g; s, o = S.make(); N, D = S.N, S.D; f = c.fn(IMPL + '::SetUpShamirSharesTables'); s.fn = f; P, Q = tables_of(S, s, o); j, p = z3.Ints('j!q p!q'); g.generic = C10.generic; emp = g.strlit('')
    def rows(st, lv, vals, k):
        m = g.read(st, lv); m = m.val if isinstance(m, OptV) else m; r = lambda x: g.unpack(st, m.val[x], m.vty); d = lambda x, y: g.val(st, g.rget(st, g.unpack(st, r(x).arr[y], SH), 'data', STRING))
        return And(z3.ForAll([j], m.dom[j] == z3.And(j >= 0, j < k, one(S.a0[j], vals)), **C07.pat(m.dom, j)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k, one(S.a0[j], vals)), r(j).len == D), **C07.pat(m.val, j)), z3.ForAll([j, p], z3.Implies(z3.And(j >= 0, j < k, one(S.a0[j], vals), p >= 0, p < D), d(j, p) == emp)))
    def hint(L): return [('rows of ' + n, rows(L.st, lv, v, L.k)) for n, lv, v in (('pairwise', P, PAIR), ('self', Q, SELF))]
    g.loop_hints[:] = [hint]; out = call(g, s, f, [], this=o); cover(g, out); no_abort(g, 'never aborts the process')
    for y, r in out:
        for n, lv, v in (('pairwise', P, PAIR), ('self', Q, SELF)): g.oblige(y, g.read(y, lv).has, n + ' table exists'); g.oblige(y, rows(y, lv, v, N), n + ' table has an empty row for exactly the clients concerned')
        g.oblige(y, g.read(y, o.f(S.sf)).arr == S.a0, 'statuses stay')
def make_tables(S, s, o, x=()):
    """tables as set up: rows exactly for the clients concerned, one place per neighbour"""
    g = S.g; r = []; j = z3.Int('j!q')
    for nm, lv, vals in zip(('pairs', 'selfs'), tables_of(S, s, o), (PAIR, SELF)):
        old = g.read(s, lv); m = g.fresh(s, old.ety, nm, exact_name=True); g.write(s, lv, OptV(old.ety, T, m, old.ty)); row = lambda x, m=m: g.unpack(s, m.val[x], m.vty)
        s.assume(z3.ForAll([j], m.dom[j] == z3.And(j >= 0, j < S.N, one(S.a0[j], vals)), **C07.pat(m.dom, j))); s.assume(z3.ForAll([j], z3.Implies(m.dom[j], row(j).len == S.D), **C07.pat(m.val, j))); r.append((lv, m, vals))
    return r
def data(g, st, m):
    def d(x, y): return g.val(st, g.rget(st, g.unpack(st, g.unpack(st, m.val[x], m.vty).arr[y], SH), 'data', STRING))
    return d
def rowlen(g, st, m, x): return g.unpack(st, m.val[x], m.vty).len
def unmask(c):
    """ensures an unmasking response is accepted exactly if it has one share per neighbour, of the private key for clients that dropped after sharing keys, of the self key for clients whose input arrived and none for others; then each share is filed under the client
    it concerns, at the sender's position, and nothing else changes; a refused response changes nothing"""
    S = Im(c, keep=['HandleUnmaskingResponse']); g = S.g; s, o = S.make(); N, D = S.N, S.D; f = c.fn(IMPL + '::HandleUnmaskingResponse'); s.fn = f; tabs = make_tables(S, s, o); ar = params(g, s, f); cl = g.val(s, ar[0]); s.assume(z3.And(cl >= 0, cl < N)); n, p, j = z3.Ints('n!q p!q j!q'); rg = lambda x, k: z3.And(x >= 0, x < k)
    m = g.val(s, ar[1]); sh = [x for x in [g.rget(s, m, n_, t) for n_, t in g.rec_fields(m.ty)] if isinstance(x, VecV)][0]; s.assume(sh.len < 2 ** 31); en = lambda i: g.unpack(s, sh.arr[i], sh.ety); ety = sh.ety; md = g.proto.message(ety); fn = {n_: t for n_, t in g.rec_fields(ety)}; cs = [n_ for n_ in fn if n_.startswith('case')]
    if len(cs) != 1: raise Unsupported('share message')
    num = {k: g.proto.find(md, k)['num'] if isinstance(g.proto.find(md, k), dict) else g.proto.find(md, k).num for k in ('noise_sk_share', 'prf_sk_share')}
    case = lambda i: g.val(s, g.rget(s, en(i), cs[0], fn[cs[0]])); val = lambda i, k: g.val(s, g.rget(s, en(i), k, fn[k])); K = ('noise_sk_share', 'prf_sk_share')
    want = lambda i: z3.If(one(S.a0[S.NB(cl, i)], PAIR), num[K[0]], z3.If(one(S.a0[S.NB(cl, i)], SELF), num[K[1]], 0))
    def filed(st, ti, k):
        lv, m0, vals = tabs[ti]; mm = g.read(st, lv).val; d, d0 = data(g, st, mm), data(g, s, m0); hit = lambda n, p: z3.And(S.ADJ(n, cl), p == S.IDX(n, cl), S.IDX(cl, n) < k)
        return And(mm.dom == m0.dom, z3.ForAll([n], z3.Implies(m0.dom[n], rowlen(g, st, mm, n) == D), **C07.pat(mm.val, n)), z3.ForAll([n, p], z3.Implies(z3.And(m0.dom[n], rg(p, D)), d(n, p) == z3.If(hit(n, p), val(S.IDX(cl, n), K[ti]), d0(n, p)))))
    def hint(L):
        out = [('shares filed so far %d' % i, filed(L.st, i, L.k)) for i in (0, 1) if any(m.root == tabs[i][0].root and m.path[:len(tabs[i][0].path)] == tabs[i][0].path for m in L.mods)]
        return out or [('shares checked so far', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), case(j) == want(j)), patterns=[sh.arr[j]]))]
    g.generic = C10.generic; g.loop_hints[:] = [hint]; out = call(g, s, f, ar, this=o); cover(g, out); no_abort(g, 'never aborts the process'); e = z3.Int('any entry')
    for y, r in out:
        g.oblige(y, g.read(y, o.f(S.sf)).arr == S.a0, 'statuses stay'); z = y.copy(); z.assume(r.code == 0)
        if g.feasible(z):
            g.oblige(z, sh.len == D, 'only a response with one share per neighbour is accepted'); g.oblige(z, z3.Implies(rg(e, D), case(e) == want(e)), 'only a response with the right kinds of shares is accepted')
            for i in (0, 1): g.oblige(z, filed(z, i, D), ('key', 'self key')[i] + ' shares are filed under the client concerned at the sender\'s position, and no others change')
        z = y.copy(); z.assume(r.code != 0)
        if g.feasible(z):
            for lv, m0, vals in tabs: mm = g.read(z, lv).val; g.oblige(z, z3.And(mm.dom == m0.dom, mm.val == m0.val), 'a refused response changes nothing')
            z.assume(And(sh.len == D, z3.ForAll([j], z3.Implies(rg(j, D), case(j) == want(j)), patterns=[sh.arr[j]]))); g.oblige(z, F, 'a response with the right shares is accepted')
def reconstruct(c):
    """ensures every client with a row gets the key rebuilt from exactly its row, with the session's threshold and key size; fails only if some row cannot be rebuilt"""
    S = Im(c); g = S.g; s, o = S.make(); f = c.fn(IMPL + '::HandleShamirReconstruction'); s.fn = f; tabs = make_tables(S, s, o); (pl, pm, _), (sl, sm, _) = tabs; rs = pm.val.sort().range(); st_ = g.str_sort(); B = z3.BoolSort(); th = z3.Int('threshold'); ks, as_ = g.sort_of(AK), g.sort_of(KA)
    REC, ROK, AGR, AOK, KEY, KOK = z3.Function('rebuilt', rs, st_), z3.Function('can_rebuild', rs, B), z3.Function('agreement_of', st_, as_), z3.Function('valid_private_key', st_, B), z3.Function('self_key_of', rs, ks), z3.Function('can_rebuild_self', rs, B)
    def res(g, s, ety, ok, v, t): code = g.fresh_const('code', I); s.assume(z3.And(code > 0, code <= 16)); return [(s, StatusOrV(ety, z3.If(ok, z3.IntVal(0), code), g.fresh_const('m', st_), v, t))]
    def rec(g, s, obj, a, e): row = g.pack(s, g.val(s, a[1]), pm.vty); g.oblige(s, z3.And(g.val(s, a[0]) == th, g.val(s, a[2]) == 32), 'a private key is rebuilt with the threshold of the session and the size of a key'); s.assume(z3.Implies(ROK(row), g.strlen(REC(row)) == 32)); return res(g, s, STRING, ROK(row), REC(row), e['t'])
    def pk(g, s, obj, a, e): k = g.val(s, a[0]); k = g.val(s, k.fields['$k']); ot = e['t'].args[0] if e['t'].args else None; return res(g, s, ot, AOK(k), OptV(KA, T, g.unpack(s, AGR(k), KA), ot), e['t'])
    def sk(g, s, obj, a, e): row = g.pack(s, g.val(s, a[0]), sm.vty); g.oblige(s, g.val(s, a[1]) == th, 'a self key is rebuilt with the threshold of the session'); return res(g, s, AK, KOK(row), g.unpack(s, KEY(row), AK), e['t'])
    def ctor(g, s, obj, a, e):
        x = g.val(s, a[0]); x = g.read(s, x.lv) if isinstance(x, PtrV) else x
        if isinstance(x, RecV): return [(s, x)]
        if not z3.is_expr(x) or x.sort() != st_: raise Unsupported('key bytes')
        g.oblige(s, g.strlen(x) >= 32, 'a private key is read only from 32 bytes'); return [(s, RecV(rec_ty(NS + 'EcdhPrivateKey'), {'$k': x}))]
    g.contracts[NS + 'ShamirSecretSharing::Reconstruct'] = rec; g.contracts[NS + 'EcdhKeyAgreement::CreateFromPrivateKey'] = pk; g.contracts[NS + 'AesKey::CreateFromShares'] = sk; g.contracts[NS + 'EcdhPrivateKey::EcdhPrivateKey'] = ctor
    g.contracts[NS + 'ShamirSecretSharing::ShamirSecretSharing'] = lambda g, s, obj, a, e: [(s, RecV(obj, {}))]; x = z3.Int('x!q')
    want = lambda i, k: AGR(REC(pm.val[k])) if i == 0 else KEY(sm.val[k]); okr = lambda i, k: z3.And(ROK(pm.val[k]), AOK(REC(pm.val[k]))) if i == 0 else KOK(sm.val[k])
    def keys(st, i, m, dom): return And(z3.ForAll([x], m.dom[x] == dom[x]), z3.ForAll([x], z3.Implies(dom[x], m.val[x] == want(i, x))))
    def maps(st, v): r = {(1 if 'AesKey' in repr(t) else 0): g.rget(st, v, n, t) for n, t in g.rec_fields(v.ty)}; return r
    def hint(L):
        vis = getattr(L, 'visited', None); out = []
        if vis is None: return []
        w = g.read(L.st, vis)
        for m in L.mods:
            for q in range(len(m.path) + 1):
                v = g.read(L.st, LV(m.root, m.path[:q]))
                if isinstance(v, RecV) and len(g.rec_fields(v.ty)) == 2 and 'Reconstruction' in repr(v.ty):
                    ms = maps(L.st, v); i = 1 if (L.range_lv and L.range_lv.root == sl.root and L.range_lv.path[:len(sl.path)] == sl.path) else 0; out.append(('keys rebuilt so far', keys(L.st, i, ms[i], w)))
        return out
    g.loop_hints[:] = [hint]; out = call(g, s, f, [], this=o); cover(g, out); no_abort(g, 'never aborts the process')
    for y, r in out:
        z = y.copy(); z.assume(r.code == 0)
        if g.feasible(z):
            ms = maps(z, g.val(z, r.val)); g.oblige(z, keys(z, 0, ms[0], pm.dom), 'every dropped client gets the key agreement rebuilt from its own row'); g.oblige(z, keys(z, 1, ms[1], sm.dom), 'every included client gets the self key rebuilt from its own row')
        z = y.copy(); z.assume(r.code != 0)
        if g.feasible(z):
            for i in (0, 1): z.assume(z3.ForAll([x], okr(i, x)))
            g.oblige(z, F, 'fails only if a key cannot be rebuilt')
def prepare(c, inputs=False):
    """ensures the request to a client carries, for each of its neighbours in order, that neighbour's public keys, resp. the share that neighbour encrypted for it"""
    n = 'PrepareMaskedInputCollectionRequestForClient' if inputs else 'PrepareShareKeysRequestForClient'; S = Im(c, keep=[n]); g = S.g; s, o = S.make(); N, D = S.N, S.D; f = c.fn(IMPL + '::' + n); s.fn = f
    if inputs: lv, v0 = setup_shares(S, s, o)
    else: lv = S.vfield(s, o, lambda t: kind_of(t) == 'vec' and 'PairOfPublicKeys' in repr(t), 'public keys'); v0 = g.fresh(s, g.read(s, lv).ty, 'P', exact_name=True); s.assume(v0.len == N); g.write(s, lv, v0)
    ar = params(g, s, f); cl = g.val(s, ar[0]); s.assume(z3.And(cl >= 0, cl < N)); s.assume(Not(ar[1].null)); q = ar[1].lv; j = z3.Int('j!q'); fl = [n_ for n_, t in g.rec_fields(g.read(s, q).ty) if kind_of(t) == 'vec' and g.sort_of(t.args[0]) == (g.str_sort() if inputs else v0.arr.sort().range())]
    if len(fl) != 1: raise Unsupported('request')
    rv = lambda st: g.read(st, q.f(fl[0])); want = (lambda i: two(g, s, v0)(cl, i)) if inputs else (lambda i: v0.arr[S.NB(cl, i)])
    def so(st, k): r = rv(st); return And(r.len == k, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), r.arr[j] == want(j)), **C07.pat(r.arr, j)))
    g.loop_hints[:] = [lambda L: [('entries so far', so(L.st, L.k))]]; out = call(g, s, f, ar, this=o); cover(g, out); no_abort(g, 'never aborts the process')
    for y, r in out: g.oblige(y, so(y, D), 'the request carries what each neighbour sent for the client, in order'); g.oblige(y, g.read(y, lv).arr == v0.arr, 'what was collected stays')
def prepare_inputs(c): prepare(c, True)
prepare_inputs.__doc__ = prepare.__doc__
def round2(c, drop=False):
    """requires the clients listed as dropped in the input round to be those with that status; ensures it stays so whenever a client is dropped, and that the unmasking request to each live client names exactly the positions, counted from 1, of its neighbours with that status"""
    S = Im(c); g = S.g; s, o, a, k = S.state(2, start(g)); S.axioms(s); N, D = S.N, S.D; R2 = C10.CLS[2]; fs = [n for n, t in g.rec_fields(rec_ty(R2)) if isinstance(g.read(s, o.f(n)), VecV) and g.read(s, o.f(n)).arr.sort() == z3.ArraySort(I, I)]
    if len(fs) != 1: raise Unsupported('list of dropped clients')
    lv = o.f(fs[0]); AS = z3.ArraySort(I, I); BS = z3.ArraySort(I, z3.BoolSort()); MEM = z3.Function('listed', AS, I, BS); A_ = z3.Const('a!q', AS); j, x, n = z3.Ints('j!q x!q n!q'); l0 = g.read(s, lv); empty = z3.K(I, F)
    s.assume(z3.ForAll([A_, j, x], z3.Implies(j >= 0, MEM(z3.Store(A_, j, x), j + 1) == z3.Store(MEM(A_, j), x, True)), patterns=[MEM(z3.Store(A_, j, x), j + 1)])); s.assume(z3.ForAll([A_], MEM(A_, 0) == empty, patterns=[MEM(A_, 0)])); s.assume(z3.ForAll([A_, j], z3.Implies(j >= 0, MEM(A_, j + 1) == z3.Store(MEM(A_, j), A_[j], True)), patterns=[MEM(A_, j + 1)]))
    rg = lambda v, m: z3.And(v >= 0, v < m)
    def listed(st):
        l = g.read(st, lv); w = S.statuses(st, o); return And(l.len >= 0, z3.ForAll([j], z3.Implies(rg(j, N), MEM(l.arr, l.len)[j] == (w[j] == 5))), z3.ForAll([n], z3.Implies(rg(n, l.len), rg(l.arr[n], N)), **C07.pat(l.arr, n)))
    s.assume(listed(s)); g.assumptions.add('a list of fewer than 2^62 entries')
    if drop:
        f = c.fn(C10.BASE + '::AbortClient'); s.fn = f; ar = params(g, s, f); i = g.val(s, ar[0]); s.assume(rg(i, N)); out = call(g, s, f, ar, this=o); cover(g, out); no_abort(g, 'never aborts the process')
        for y, _ in out: g.oblige(y, listed(y), 'the clients listed as dropped in this round are those with that status')
        return
    def ids(st, m):
        r = g.val(st, m); u = [g.rget(st, r, n_, t) for n_, t in g.rec_fields(r.ty) if n_ == 'unmasking_request' or repr(t).endswith('UnmaskingRequest')]
        return u[0] if len(u) == 1 else None
    def reqlist(st, u):
        u = g.optval(st, u) if isinstance(u, OptV) else u; v = [g.rget(st, u, n_, t) for n_, t in g.rec_fields(u.ty) if kind_of(t) == 'vec']
        if len(v) != 1: raise Unsupported('unmasking request')
        return v[0]
    named = lambda i, R, has: And(z3.ForAll([x], z3.Implies(z3.And(rg(x, N), S.ADJ(i, x)), R[S.IDX(i, x) + 1] == has(x)), patterns=[S.ADJ(i, x)]), z3.ForAll([n], z3.Implies(R[n], z3.And(n >= 1, n <= D, has(S.NB(i, n - 1))))))
    sent = []
    def send(g, s2, obj, ar, e):
        m = [v for v in (g.val(s2, q) for q in ar) if isinstance(v, RecV)]; i = [v for v in (g.val(s2, q) for q in ar) if z3.is_expr(v)]
        if len(m) != 1 or len(i) != 1: raise Unsupported('sending')
        u = ids(s2, m[0])
        if u is None: raise Unsupported('message')
        root = g.new_root(s2, 'sent', m[0]); has = C07.present(g, s2, root, 'unmasking_request'); ab = C07.present(g, s2, root, 'abort'); g.oblige(s2, z3.Or(has, ab), 'clients get an unmasking request or an abort'); R = reqlist(s2, u); w = S.statuses(s2, o); p = z3.Int('any position'); sent.append(1); L_ = MEM(R.arr, R.len)
        z = s2.copy(); z.assume(has)
        if g.feasible(z): g.oblige(z, z3.Implies(z3.And(p >= 1, p <= D), L_[p] == (w[S.NB(i[0], p - 1)] == 5)), 'the request names exactly the neighbours dropped in the input round'); g.oblige(z, z3.Implies(L_[p], z3.And(p >= 1, p <= D)), 'the request names neighbours only')
        return [(s2, UnitV())]
    g.contracts[NS + 'SendToClientsInterface::Send'] = send
    def hint(L):
        out = []
        if any(m.root == o.root for m in L.mods):
            w = S.statuses(L.st, o); fin = w[j] == z3.If(z3.And(j < L.k, a[j] == 4), 5, a[j]); return [('dropped clients listed, statuses', And(S.svec(L.st, o).len == N, listed(L.st), z3.ForAll([j], z3.Implies(rg(j, N), fin), **C07.pat(w, j))))] + [(n_, p) for n_, p in S.inv(2, w, S.counts(L.st, o)) if n_[:14] != 'to be aborted '] + [('numbers', z3.And([z3.And(v >= 0, v <= N) for q, v in S.counts(L.st, o).items() if q in ('before', 'after', 'term', 'ready', 'msgs')]))]
        for m in L.mods:
            v = g.read(L.st, m)
            if isinstance(v, VecV) and v.arr.sort() == AS: R = v
            else: continue
            l = L.range_val if isinstance(getattr(L, 'range_val', None), VecV) else g.read(L.st, lv)
            own = {i.get_id(): (root, i) for root, i in L.pre.cells.items() if root not in known and 'range' not in str(root) and z3.is_expr(i) and z3.is_int(i)}
            for root, i in list(own.values())[-2:]: out.append(('named so far %s' % (root,), And(R.len >= 0, R.len <= L.k, named(i, MEM(R.arr, R.len), lambda x: MEM(l.arr, L.k)[x]))))
        return out
    known = set(s.cells); g.loop_hints[:] = [hint]; f = c.fn(R2 + '::ProceedToNextRound'); out = call(g, s, f, [], this=o); cover(g, out); no_abort(g, 'never aborts the process'); g.oblige(s, z3.BoolVal(len(sent) >= 1), 'requests are sent')
def round2_drop(c): round2(c, True)
round2_drop.__doc__ = round2.__doc__
UNITS = [round2, round2_drop, prng, share_keys, erase_keys, tables, unmask, reconstruct, prepare, prepare_inputs]
HARNESS = C07.server_harness(11)
