"""C09: the client's masked input."""
from vc.spec import *
import importlib.util
def _load(n):
    s = importlib.util.spec_from_file_location('prop_' + n, os.path.join(V, 'props', n + '.py')); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
C08 = _load('C08'); C07 = C08.C07; CD = C08.CD; NS = C08.NS; I = C08.I; SH = C08.SH; AK = C08.AK; kbytes = C08.kbytes; kfield = C08.kfield
CL = NS + 'SecAggClientR2MaskedInputCollBaseState'; SV = NS + 'SecAggVector'; SM = rec_ty(NS + 'SecAggVectorMap')
TUS = [CD + n for n in ('secagg_client_r2_masked_input_coll_base_state.cc', 'secagg_client_alive_base_state.cc', 'secagg_client_state.cc')]
ASSUMPTIONS = ['decryption with a key either fails or gives a function of key and ciphertext', 'making masks fails only after the abort signal was given (C04)', 'reader and writer of packed vectors (C03)']
def handle(c):
    """requires one state and two keys per client and empty share lists; ensures masks are made exactly when the request has one entry per client, none for a dead client, every entry of a live client can be opened
    and read, and enough clients are left; then the masks add the self key and the keys of live clients listed before this one and subtract those of live clients listed after it, clients without an
    entry are dead, and the shares kept are those received"""
    k = C08.K(c, TUS); g = k.g; st = start(g); [st.assume(x) for x in k.axs]; f = c.fn(CL + '::HandleMaskedInputCollectionRequest'); S = g.str_sort()
    if len(f.ps) != 16: raise Unsupported('parameters')
    g.generic = lambda n: n[:4] == 'loop' or n[:2] == '&i' and ('+ k' in n or '>= 0' in n); AUTH = z3.Function('authentic', S, S, z3.BoolSort())
    def dec(g, s, obj, a, e):
        kk, x = C08.key(g, s, a[0]), g.val(s, a[1]); code = g.fresh_const('code', I); s.assume(z3.And(code > 0, code <= 16)); g.oblige(s, g.strlen(kk) == 32, 'decryption only with a full-size key')
        return [(s, StatusOrV(STRING, z3.If(AUTH(kk, x), z3.IntVal(0), code), g.fresh_const('m', S), k.OPEN(kk, x), e['t']))]
    g.contracts[NS + 'AesGcmEncryption::Decrypt'] = dec
    for st, this in k.state(c, st, CL):
        a = params(g, st, f); req = g.lval(st, a[0]); ent = g.read(st, req.f('encrypted_key_shares')); me, mn, n = a[1], a[3], a[4]; specs, ek, pk = [g.read(st, a[i]) for i in (2, 5, 6)]
        st.assume(z3.And(n >= 1, n < 2 ** 31, me >= 0, me < n, mn >= 0, ent.len >= 0, ent.len < 2 ** 31)); PT = rec_ty(NS + 'PairOfKeyShares')
        outs = {}
        for i in range(11, 16):
            t = f.ps[i][2].e if hasattr(f.ps[i][2], 'e') else f.ps[i][2].deref(); v = g.zero(st, t) if i in (13, 14, 15) else g.fresh(st, t, 'o%d' % i, exact_name=True); outs[i] = g.new_root(st, 'out%d' % i, v); a[i] = PtrV(f.ps[i][2], F, outs[i])
        al0, pre = g.read(st, outs[11]), g.read(st, outs[12]); [st.assume(v.len == n) for v in (ek, pk, pre)]; j = z3.Int('j!q'); p0 = pre.arr
        st.assume(z3.ForAll([j], z3.And(p0[j] >= 0, p0[j] <= 3), patterns=[p0[j]])); E0 = ent.arr
        kf = lambda s, v, i: kbytes(g, s, g.unpack(s, v.arr[i], v.ety)); KE = z3.Function('enc_key', I, S)
        st.assume(z3.ForAll([j], z3.And(KE(j) == kf(st, ek, j), z3.Implies(z3.And(j >= 0, j < n, j != me, p0[j] == 0), g.strlen(KE(j)) == 32)), patterns=[p0[j]]))
        peer = lambda i: i != me; was = lambda i: p0[i] == 0; lost = lambda i: z3.And(peer(i), was(i), E0[i] == k.EMPTY); lives = lambda i: z3.And(peer(i), was(i), E0[i] != k.EMPTY)
        psort = g.sort_of(PT); par = z3.Function('parse.' + psort.name(), S, psort); pok = z3.Function('parses.' + psort.name(), S, z3.BoolSort()); plain = lambda i: k.OPEN(KE(i), E0[i])
        fine = lambda i: z3.Or(i == me, z3.If(was(i), z3.Or(E0[i] == k.EMPTY, z3.And(AUTH(KE(i), E0[i]), pok(plain(i)))), E0[i] == k.EMPTY))
        def got(s, i, fld): return g.read(s, g.new_root(s, 'pair', g.unpack(s, par(plain(i)), PT)).f(fld))
        LOST = z3.Function('lost', I, I); st.assume(LOST(0) == 0); st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(LOST(j + 1) == LOST(j) + z3.If(lost(j), 1, 0), LOST(j) >= 0)), patterns=[E0[j]])); st.assume(LOST(n) >= 0)
        st.assume(al0 <= n); own = g.rget(st, g.val(st, a[7]), *g.rec_fields(SH)[0]); dat = lambda s, v, i: g.rget(s, g.unpack(s, v.arr[i], v.ety), *g.rec_fields(SH)[0])
        g.assumptions.add('the number of live clients passed in counts the live entries, so it is at least the number of those lost'); st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= n), LOST(j) < al0), patterns=[LOST(j)]))
        ssort = g.sort_of(AK); W = z3.Function('mask_of', ssort, I); SUM = z3.Function('masks_of', z3.ArraySort(I, ssort), I, I); A_ = z3.Const('a!q', z3.ArraySort(I, ssort)); x_ = z3.Const('x!q', ssort)
        # total of the masks of the first l keys of a list, whatever the mask of a key is
        st.assume(z3.ForAll([A_, j, x_], z3.Implies(j >= 0, SUM(z3.Store(A_, j, x_), j + 1) == SUM(A_, j) + W(x_)), patterns=[SUM(z3.Store(A_, j, x_), j + 1)])); st.assume(z3.ForAll([A_], SUM(A_, 0) == 0, patterns=[SUM(A_, 0)]))
        SG = z3.Function('signed', I, I); st.assume(SG(0) == 0); st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), SG(j + 1) == SG(j) + z3.If(lives(j), z3.If(j < me, W(pk.arr[j]), -W(pk.arr[j])), 0)), patterns=[SG(j + 1)]))
        selfk = g.pack(st, g.val(st, a[8]), AK); made = []
        stexp = lambda i, done: z3.If(z3.And(done, lost(i)), 2, p0[i])
        wp = lambda s, v, i: dat(s, v, i) == z3.If(lives(i), got(s, i, 'noise_sk_share'), k.EMPTY); ws = lambda s, v, i: dat(s, v, i) == z3.If(i == me, own, z3.If(lives(i), got(s, i, 'prf_sk_share'), k.EMPTY))
        def mk(g, s, obj, x, e):
            add, sub, sp = [g.val(s, y) for y in x[:3]]; g.oblige(s, SUM(add.arr, add.len) - SUM(sub.arr, sub.len) == W(selfk) + SG(n), "the masks are the self mask, plus those shared with live clients listed before, less those with live clients listed after", e.get('l', 0))
            g.oblige(s, g.pack(s, sp, specs.ty) == g.pack(s, specs, specs.ty), 'the masks are made for the agreed vectors', e.get('l', 0)); g.oblige(s, g.pack(s, g.val(s, x[3]), rec_ty(NS + 'SessionId')) == g.pack(s, g.val(s, a[9]), rec_ty(NS + 'SessionId')), 'the masks are made for the session', e.get('l', 0))
            made.append(1); no = s.copy(); no.assume(z3.And(z3.Bool('abort ever signalled'), Not(g.val(s, x[5]).null) if len(x) > 5 and isinstance(g.val(s, x[5]), PtrV) else F)); return [(no, OptV(SM, F, None, e['t'])), (s, OptV(SM, T, g.fresh(s, SM, 'masks', exact_name=True), e['t']))]
        g.contracts[NS + 'MapOfMasks'] = mk; g.contracts[NS + 'MapOfMasksV3'] = mk
        def hint(L):
            out = []; mod = lambda i: any(m.root == outs[i].root for m in L.mods); rd = lambda i: g.read(L.st, outs[i]); K_ = L.k
            if mod(13) or mod(14) or mod(12):
                v = rd(12); out.append(('states', z3.And(v.len == n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), v.arr[j] == stexp(j, j < K_)), **C07.pat(v.arr, j)))))
                out.append(('clients left', rd(11) == al0 - LOST(K_)))
                for i, w in ((13, wp), (14, ws)):
                    v = rd(i); out.append(('shares #%d' % i, z3.And(v.len == K_, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < K_), w(L.st, v, j)), **C07.pat(v.arr, j)))))
                out.append(('entries seen are fine', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < K_), fine(j)), patterns=[E0[j]])))
            ks = [(m, g.read(L.st, m), g.read(L.pre, m)) for m in L.mods]; ks = [t for t in ks if isinstance(t[1], VecV) and t[1].arr.sort().range() == ssort]
            if len(ks) == 2:
                (m1, v, v0), (m2, w, w0) = ks; sg = SG(K_)
                for n_, (p, p_, q, q_) in enumerate(((v, v0, w, w0), (w, w0, v, v0))): out.append(('masks so far #%d' % n_, z3.And(p.len >= 0, q.len >= 0, SUM(p.arr, p.len) - SUM(q.arr, q.len) == SUM(p_.arr, p_.len) - SUM(q_.arr, q_.len) + sg)))
            return out
        g.loop_hints[:] = [hint]; out = call(g, st, f, a, this=this); cover(g, out); no_abort(g, 'never aborts the process'); q = z3.Int('q')
        if not made: raise Unsupported('no masks are made')
        for y, r in out:
            z = y.copy(); z.assume(r.has)
            if g.feasible(z):
                rd = lambda i: g.read(z, outs[i]); zq = z.copy(); zq.assume(z3.And(q >= 0, q < n)); zq.assume(E0[q] == E0[q]); zq.assume(p0[q] == p0[q])
                g.oblige(z, ent.len == n, 'masked input only if there is one entry per client'); g.oblige(z, al0 - LOST(n) >= mn, 'masked input only if enough clients are left')
                g.oblige(zq, z3.Implies(z3.And(peer(q), Not(was(q))), E0[q] == k.EMPTY), 'an entry for a dead client prevents the masked input'); g.oblige(zq, z3.Implies(lives(q), z3.And(AUTH(KE(q), E0[q]), pok(plain(q)))), 'an entry that cannot be opened or read prevents the masked input')
                g.oblige(z, rd(11) == al0 - LOST(n), 'the number of live clients'); v = rd(12); g.oblige(zq, z3.And(v.len == n, v.arr[q] == stexp(q, T)), 'live clients without an entry, and no others, are now dead')
                for i, w, t in ((13, wp, 'pairwise'), (14, ws, 'self')): v = rd(i); g.oblige(zq, z3.And(v.len == n, w(zq, v, q)), 'the %s-key shares kept are those received' % t)
            z = y.copy(); z.assume(Not(r.has))
            if g.feasible(z):
                m = g.read(z, outs[15]); g.oblige(z, m != k.EMPTY, 'a reason is given otherwise') if not C08.has_any(m, 'abortmsg') else None
                z.assume(z3.And(ent.len == n, al0 - LOST(n) >= mn, Not(z3.Bool('abort ever signalled')))); z.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), fine(j)), patterns=[E0[j]])); g.oblige(z, F, 'a proper request leads to masked input')
def add(c):
    "SecAggVector by contract (C03: it gives back the numbers it was made of); requires values below the modulus; ensures: returns exactly for equal lengths and moduli, every element being the sum modulo the modulus"
    g = c.engine(TUS); g.safety = {'index', 'overflow', 'div'}; st = start(g); f = c.fn(NS + 'AddSecAggVectors'); st.fn = f; AI = z3.ArraySort(I, I); j = z3.Int('j!')
    def vec(n):
        m, l = z3.Ints(n + '.m %s.n' % n); e = z3.Const(n + '.e', AI); st.assume(z3.And(m >= 2, m <= 2 ** 62, l >= 0, l < 2 ** 31)); st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < l), z3.And(e[j] >= 0, e[j] < m)), patterns=[e[j]]))
        return RecV(rec_ty(SV), {'$m': m, '$n': l, '$e': e}, n), m, l, e
    x, m, n, e1 = vec('a'); y, m2, n2, e2 = vec('b')
    for acc, gh in (('modulus', '$m'), ('num_elements', '$n')): g.contracts[SV + '::' + acc] = lambda g, s, obj, x, e, gh=gh: [(s, g.read(s, obj.f(gh)))]
    g.contracts[SV + '::GetAsUint64Vector'] = lambda g, s, obj, a, e: [(s, VecV(U64, g.read(s, obj.f('$n')), g.read(s, obj.f('$e')), e['t']))]
    def ctor(g, s, ty, a, e):
        v = g.val(s, a[0])
        if isinstance(v, RecV): return [(s, v)]
        if isinstance(v, ViewV): v = g.view_vec(s, v)
        if not isinstance(v, VecV): raise Unsupported('vector')
        q = z3.Int('q'); z = s.copy(); z.assume(z3.And(q >= 0, q < v.len)); mm = g.val(s, a[1]); g.oblige(z, z3.And(v.arr[q] >= 0, v.arr[q] < mm), 'only values below the modulus are packed'); return [(s, RecV(ty, {'$e': v.arr, '$n': v.len, '$m': mm}))]
    g.contracts[SV + '::SecAggVector'] = ctor; want = lambda q: z3.If(e1[q] + e2[q] >= m, e1[q] + e2[q] - m, e1[q] + e2[q])
    def hint(L):
        out = []
        for lv in L.mods:
            v = g.read(L.st, lv)
            if isinstance(v, VecV) and v.arr.sort() == AI:
                old = g.read(L.pre, lv); out.append(('sums before the counter', z3.And(v.len == old.len, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), v.arr[j] == z3.If(j < L.k, want(j), old.arr[j])), **C07.pat(v.arr, j)))))
        return out
    g.loop_hints.append(hint); out = call(g, st, f, [x, y]); cover(g, out); no_abort(g, 'vectors of the same length and modulus can be added', z3.And(m == m2, n == n2)); i = z3.Int('i')
    for y, r in out:
        g.oblige(y, z3.And(m == m2, n == n2), 'vectors of another length or modulus are refused'); E, N, M = [g.rget(y, r, t, None) for t in ('$e', '$n', '$m')]
        g.oblige(y, z3.And(N == n, M == m), 'length and modulus of the vectors'); g.oblige(y, z3.Implies(z3.And(i >= 0, i < n), E[i] == want(i)), 'every element is the sum modulo the modulus')
def mapof(g, s, r): return g.rget(s, r, '$base', g.rec_fields(SM)[0][1]) if isinstance(r, RecV) else r
def send(c):
    "addition by contract; requires a mask for every input vector; ensures one message is sent, with exactly the names of the input, each with the packed sum of input and mask of that name"
    k = C08.K(c, TUS); g = k.g; st = start(g); [st.assume(x) for x in k.axs]; f = c.fn(CL + '::SendMaskedInput'); vs = g.sort_of(rec_ty(SV)); AV = z3.Function('sum', vs, vs, vs); BY = z3.Function('packed', vs, g.str_sort())
    g.contracts[NS + 'AddSecAggVectors'] = lambda g, s, obj, x, e: [(s, g.unpack(s, AV(*[g.pack(s, g.val(s, q), rec_ty(SV)) for q in x]), rec_ty(SV)))]
    for n in ('TakePackedBytes', 'GetAsPackedBytes'): g.contracts[SV + '::' + n] = lambda g, s, obj, a, e: [(s, BY(g.pack(s, g.read(s, obj), rec_ty(SV))))]
    for st, this in k.state(c, st, CL):
        st.fn = f; a = params(g, st, f); [st.assume(x.has) for x in a]; In, Ma = [mapof(g, st, g.optval(st, x)) for x in a]; q = z3.Const('q!k', In.dom.sort().domain()); st.assume(z3.ForAll([q], z3.Implies(In.dom[q], Ma.dom[q]), patterns=[In.dom[q]]))
        MV = rec_ty(NS + 'MaskedInputVector'); enc = lambda s, v, x: g.read(s, g.new_root(s, 'mv', g.unpack(s, v.val[x], MV)).f('encoded_vector'))
        def hint(L):
            out = []; vis = getattr(L, 'visited', None)
            if vis is None: return []
            w = g.read(L.st, vis)
            for m in L.mods:
                x = g.read(L.st, m)
                if isinstance(x, MapV):
                    x0 = g.read(L.pre, m); out.append(('names of #%d kept, vectors not yet visited too' % L.mods.index(m), z3.ForAll([q], z3.And(x.dom[q] == x0.dom[q], z3.Implies(Not(w[q]), x.val[q] == x0.val[q])))))
                elif isinstance(x, RecV) and x.ty.n == NS + 'MaskedInputCollectionResponse':
                    v = g.read(L.st, m.f('vectors')); up = LV(m.root, m.path[:-1]); out.append(('vectors so far', z3.ForAll([q], z3.And(v.dom[q] == w[q], z3.Implies(w[q], enc(L.st, v, q) == BY(AV(In.val[q], Ma.val[q])))))))
                    if m.path: out.append(('a response once begun', z3.Or(C07.present(g, L.st, up, 'masked_input_response'), z3.ForAll([q], Not(w[q])))))
            return out
        g.loop_hints[:] = [hint]; out = call(g, st, f, a, this=this); cover(g, out); no_abort(g, 'never aborts if there is a mask for every vector'); i = z3.Const('name', q.sort())
        for y, r in out:
            sent = y.ghost.get('sent', ()); g.oblige(y, z3.BoolVal(len(sent) == 1), 'exactly one message is sent')
            for m in sent:
                m = g.new_root(y, 'sent', m); v = g.read(y, m.f('masked_input_response').f('vectors')); g.oblige(y, v.dom[i] == In.dom[i], 'a vector for every input and no other'); g.oblige(y, z3.Implies(In.dom[i], enc(y, v, i) == BY(AV(In.val[i], Ma.val[i]))), 'each vector is the sum of the input and the mask of that name')
                g.oblige(y, z3.Implies(In.dom[i], C07.present(g, y, m, 'masked_input_response')), 'the message is a masked input')
def validate(c):
    "ensures true exactly when there are as many vectors as specifications and every specification has a vector of its name, modulus and length"
    k = C08.K(c, TUS); g = k.g; st = start(g); f = c.fn(NS + 'SecAggClientState::ValidateInput'); st.fn = f; a = params(g, st, f); M = mapof(g, st, g.val(st, a[0])); sp = g.read(st, a[1]); ivs = sp.ety; fl = g.rec_fields(ivs)
    ACC = {n: z3.Function(n, g.sort_of(rec_ty(SV)), I) for n in ('modulus', 'num_elements')}
    for n in ACC: g.contracts[SV + '::' + n] = lambda g, s, obj, x, e, n=n: (lambda r: (s.assume(z3.And(r >= 0, r < 2 ** 64)), [(s, r)])[1])(ACC[n](g.pack(s, g.read(s, obj), rec_ty(SV))))
    names = [next((n for n, t in fl if q(t)), None) for q in (lambda t: kind_of(t) == 'str', lambda t: t.k == 'int' and t.w == 32, lambda t: t.k == 'int' and t.w == 64)]
    if None in names or len(fl) != 3: raise Unsupported('vector specification')
    def fits(s, i):
        r = g.unpack(s, sp.arr[i], ivs); nm, ln, mo = [g.rget(s, r, n, dict(fl)[n]) for n in names]; return z3.And(M.dom[nm], ACC['modulus'](M.val[nm]) == mo, ACC['num_elements'](M.val[nm]) == ln)
    j = z3.Int('j!q'); st.assume(z3.And(M.size >= 0, sp.len < 2 ** 31, sp.len >= 0)); dummy = st.copy(); ln_ = g.rget(dummy, g.unpack(dummy, sp.arr[j], ivs), names[1], dict(fl)[names[1]]); st.assume(z3.ForAll([j], z3.And(ln_ >= 0, ln_ < 2 ** 31), patterns=[sp.arr[j]]))
    g.loop_hints[:] = [lambda L: [('specifications so far fit', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), fits(L.st, j)), patterns=[sp.arr[j]]))]]; out = call(g, st, f, a, this=g.new_root(st, 'this', RecV(rec_ty(NS + 'SecAggClientState'), {}))); cover(g, out); no_abort(g, 'never aborts'); q = z3.Int('q')
    for y, r in out:
        z = y.copy(); z.assume(r); z1 = z.copy(); z1.assume(z3.And(q >= 0, q < sp.len)); g.oblige(z, M.size == sp.len, 'accepted: as many vectors as specified'); g.oblige(z1, fits(z1, q), 'accepted: every specified vector is there with its modulus and length')
        z = y.copy(); z.assume(z3.And(Not(r), M.size == sp.len)); z.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < sp.len), fits(z, j)), patterns=[sp.arr[j]])); g.oblige(z, F, 'a matching input is accepted')
FILES = {'InputSet': 'input_set', 'InputNotSet': 'input_not_set', 'WaitingForInput': 'waiting_for_input'}
def state(c, kind):
    cls = NS + 'SecAggClientR2MaskedInputColl%sState' % kind
    k = C08.K(c, TUS[:1] + [CD + 'secagg_client_r2_masked_input_coll_%s_state.cc' % FILES[kind], CD + 'secagg_client_alive_base_state.cc', CD + 'secagg_client_state.cc', CD + 'secagg_client_aborted_state.cc', CD + 'secagg_client_completed_state.cc']); g = k.g; st = start(g); [st.assume(x) for x in k.axs]
    ctor = [f for f in c.fns(cls + '::' + cls.split('::')[-1]) if f.ctor and len(f.ps) >= 12]
    if len(ctor) != 1: raise Unsupported('constructor')
    ctor = ctor[0]; st.fn = ctor; a = params(g, st, ctor); o = g.new_root(st, 'this', RecV(rec_ty(cls), {})); [st.assume(x.has) for x in a if isinstance(x, OptV)]
    def nextstate(n):
        def fn(g, s, obj, x, e): s.ghost['next'] = s.ghost.get('next', ()) + ((n, tuple(g.val(s, t) for t in x)),); return [(s, RecV(rec_ty(n), {}))]
        return fn
    for n in ('R3Unmasking', 'R2MaskedInputCollWaitingForInput', 'R2MaskedInputCollInputSet'):
        n = NS + 'SecAggClient%sState' % n
        if n != cls: g.contracts[n + '::' + n.split('::')[-1]] = nextstate(n)
    byty = {}
    for i, x in enumerate(a):
        if isinstance(x, OptV): byty.setdefault(str(x.ety), []).append(x)
    def sendm(g, s, obj, x, e): s.ghost['inputs'] = s.ghost.get('inputs', ()) + (tuple(g.val(s, t) for t in x),); return [(s, UnitV())]
    g.contracts[CL + '::SendMaskedInput'] = sendm; return k, g, st, a, o, cls, byty, ctor
same = lambda g, s, v, w: z3.And(v.has, w.has, g.pack(s, g.optval(s, v), w.ety) == g.pack(s, g.optval(s, w), w.ety))
def message(kind):
    def message(c):
        """HandleMaskedInputCollectionRequest, SendMaskedInput by contract; ensures a request is passed on with the client's position, limits, keys, self key and session; if masks result, the input set before is sent with
        them (or, without input, nothing is sent) and the next state gets counts, states and shares; otherwise exactly one abort message is sent; other messages have no effect"""
        k, g, st, a, o, cls, byty, ctor = state(c, kind); me, mn, al, n = a[:4]; f = c.fn(cls + '::HandleMessage'); w = 1 if kind == 'InputSet' else 0; O = {}; opt = [x for x in a[4:] if isinstance(x, OptV)]
        if len(opt) < 9 + w or len(a) != 15 + w: raise Unsupported('constructor')
        inp = opt[0] if w else None; specs, states, ek, pk, own, selfk = opt[w:w + 6]; sess = opt[w + 8]
        def handle(g, s, obj, x, e):
            if len(x) != 16: raise Unsupported('parameters')
            v = [g.val(s, t) for t in x]; eq = lambda i, ov: g.pack(s, v[i], ov.ety) == g.pack(s, g.optval(s, ov), ov.ety)
            g.oblige(s, g.pack(s, v[0], v[0].ty) == g.pack(s, g.read(s, g.msg.f('masked_input_request')), v[0].ty), 'the request handled is the one received'); g.oblige(s, z3.And(v[1] == me, v[3] == mn, v[4] == n), 'position, threshold and number of clients'); g.oblige(s, z3.And(eq(2, specs), eq(5, ek), eq(6, pk), eq(7, own), eq(8, selfk), eq(9, sess)), 'specifications, keys, own share and session')
            g.oblige(s, z3.And(g.read(s, v[11].lv) == al, same(g, s, OptV(states.ety, T, g.read(s, v[12].lv), states.ty), states)), 'number of live clients and states'); g.oblige(s, z3.And(g.read(s, v[13].lv).len == 0, g.read(s, v[14].lv).len == 0), 'the share lists start empty')
            no = s.copy(); g.write(no, v[15].lv, z3.Const('reason', g.str_sort()))
            for i in range(11, 15): t = U32 if i == 11 else g.read(s, v[i].lv).ty; O[i] = g.fresh(s, t, 'O%d' % i, exact_name=True); g.write(s, v[i].lv, O[i])
            O[0] = OptV(SM, T, g.fresh(s, SM, 'masks', exact_name=True), e['t']); return [(no, OptV(SM, F, None, e['t'])), (s, O[0])]
        g.contracts[CL + '::HandleMaskedInputCollectionRequest'] = handle
        for s, _ in call(g, st, ctor, a, this=o):
            s.fn = f; g.msg = g.new_root(s, 'msg', g.fresh(s, f.ps[0][2], 'msg', exact_name=True)); ab, rq = C07.present(g, s, g.msg, 'abort'), C07.present(g, s, g.msg, 'masked_input_request'); out = call(g, s, f, [g.msg], this=o); cover(g, out); no_abort(g, 'never aborts the process')
            for y, r in out:
                sent, inps, nx = [y.ghost.get(t, ()) for t in ('sent', 'inputs', 'next')]; g.oblige(y, z3.BoolVal(len(sent) + len(inps) <= 1 and (len(nx) == 1) == (len(inps) == 1) or not w and not inps and len(sent) + len(nx) <= 1), 'at most one message; the next round begins exactly after the masked input')
                if sent or nx: g.oblige(y, z3.And(rq, Not(ab)), 'only a request has an effect')
                else: g.oblige(y, z3.Or(ab, Not(rq)), 'a request always has an effect'); g.oblige(y, z3.Implies(r.code != 0, z3.And(Not(rq), Not(ab))), 'an error only for a message of another kind')
                for m in sent: g.oblige(y, C07.present(g, y, g.new_root(y, 'sent', m), 'abort'), 'otherwise only an abort message is sent')
                for p in inps: g.oblige(y, z3.And(same(g, y, p[0], inp), same(g, y, p[1], O[0])), 'the input set before is sent with the masks made')
                for nm, p in nx: handed(g, y, nm, p, a, O, specs)
    message.__name__ = 'message_' + kind; return message
def handed(g, y, nm, p, a, O, specs, masks=None):
    ov = lambda x, v: z3.And(x.has, g.pack(y, g.optval(y, x), v.ty) == g.pack(y, v, v.ty)); r3 = nm.endswith('R3UnmaskingState'); me, mn, al, n = a[:4]
    if r3:
        if len(p) != 10: raise Unsupported('next state')
        g.oblige(y, z3.And(p[0] == me, p[1] == O[11], p[2] == mn, p[3] == n), "the client's position, the threshold and the counts are handed on"); g.oblige(y, z3.And(ov(p[4], O[12]), ov(p[5], O[13]), ov(p[6], O[14])), "the clients' states, pairwise shares and self shares are handed on")
    else:
        if len(p) != 12: raise Unsupported('next state')
        g.oblige(y, z3.And(p[0] == me, p[1] == mn, p[2] == O[11], p[3] == n), "the client's position, the threshold and the counts are handed on"); g.oblige(y, z3.And(same(g, y, p[4], specs), same(g, y, p[5], O[0])), 'specifications and masks are handed on'); g.oblige(y, z3.And(ov(p[6], O[12]), ov(p[7], O[13]), ov(p[8], O[14])), "the clients' states, pairwise shares and self shares are handed on")
def set_input(kind):
    def set_input(c):
        """ValidateInput, SendMaskedInput by contract; ensures an input that does not fit is refused and nothing is sent; a fitting one is sent with the masks kept (or kept, if no request has come yet) and everything is handed
        on to the next state"""
        k, g, st, a, o, cls, byty, ctor = state(c, kind); me, mn, al, n = a[:4]; f = c.fn(cls + '::SetInput'); opt = [x for x in a[4:] if isinstance(x, OptV)]; OKI = z3.Bool('fits'); wait = kind == 'WaitingForInput'
        if len(a) != (12 if wait else 15): raise Unsupported('constructor')
        def val(g, s, obj, x, e):
            g.oblige(s, z3.And(g.pack(s, g.val(s, x[0]), SM) == g.pack(s, g.optval(s, g.inp), SM), g.pack(s, g.val(s, x[1]), opt[0].ety) == g.pack(s, g.optval(s, opt[0]), opt[0].ety)), 'the input is compared with the specification'); return [(s, OKI)]
        g.contracts[NS + 'SecAggClientState::ValidateInput'] = val
        for s, _ in call(g, st, ctor, a, this=o):
            s.fn = f; x = params(g, s, f); g.inp = x[0]; s.assume(x[0].has); out = call(g, s, f, x, this=o); cover(g, out); no_abort(g, 'never aborts the process')
            for y, r in out:
                inps, nx, sent = [y.ghost.get(t, ()) for t in ('inputs', 'next', 'sent')]; g.oblige(y, z3.And(OKI == (len(nx) == 1), z3.BoolVal(len(inps) == (len(nx) if wait else 0) and not sent)), 'exactly a fitting input is taken'); g.oblige(y, (r.code == 0) == OKI, 'an error exactly for an input that does not fit')
                for p in inps: g.oblige(y, z3.And(same(g, y, p[0], g.inp), same(g, y, p[1], opt[1])), 'the input is sent with the masks kept')
                for nm, p in nx:
                    if wait: handed(g, y, nm, p, a, {11: al, 12: g.optval(y, opt[2]), 13: g.optval(y, opt[3]), 14: g.optval(y, opt[4])}, opt[0])
                    else:
                        if len(p) != 16: raise Unsupported('next state')
                        g.oblige(y, z3.And(p[0] == me, p[1] == mn, p[2] == al, p[3] == n, same(g, y, p[4], g.inp)), 'position, threshold, counts and input are handed on'); g.oblige(y, z3.And([same(g, y, p[5 + i], opt[i]) for i in (0, 1, 2, 3, 4, 5, 8)]), 'specifications, states, keys, shares and session are handed on')
    set_input.__name__ = 'set_input_' + kind; return set_input
UNITS = [handle, add, send, validate, message('InputSet'), message('InputNotSet'), set_input('InputNotSet'), set_input('WaitingForInput')]
HARNESS = C07.client_harness(9)
