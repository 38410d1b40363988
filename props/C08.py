"""C08: the client's key exchange."""
from vc.spec import *
import importlib.util
_s = importlib.util.spec_from_file_location('prop_C07', os.path.join(V, 'props', 'C07.py')); C07 = importlib.util.module_from_spec(_s); _s.loader.exec_module(C07)
CD = 'fcp/secagg/client/'
TUS = [CD + n for n in ('secagg_client_r1_share_keys_base_state.cc', 'secagg_client_alive_base_state.cc', 'secagg_client_state.cc')]
NS = 'fcp::secagg::'; CL = NS + 'SecAggClientR1ShareKeysBaseState'; I = z3.IntSort(); SH = rec_ty(NS + 'ShamirShare'); AK = rec_ty(NS + 'AesKey')
ASSUMPTIONS = ['key agreement: the shared key of a key pair and a public key is a function of both and is not blank; a public key either is a point of the curve or is refused',
               'a ciphertext is not empty, can be opened with the key it was made with, and then gives the plain text', 'sharing a secret gives one share per client (C02)']
def key(g, s, x):
    """the bytes of a key object"""
    return kbytes(g, s, g.val(s, x))
def kbytes(g, s, v): return g.rget(s, v, kfield(g, v.ty), STRING)
def kfield(g, ty):
    fs = [n for n, t in g.rec_fields(ty) if kind_of(t) == 'str']
    if len(fs) != 1: raise Unsupported('key')
    return fs[0]
class K:
    def __init__(self, c, tus=TUS):
        g = C07.base(c, tus); self.g = g; S = g.str_sort(); self.PUB, self.PRIV = z3.Function('public_key', S, S), z3.Function('private_key', S, S)
        self.AGREE, self.POINT = z3.Function('agreed_key', S, S, S), z3.Function('is_point', S, z3.BoolSort()); self.SHARE = z3.Function('share_of', S, I, I, I, S)
        self.SEAL, self.OPEN = z3.Function('sealed', S, S, I, S), z3.Function('opened', S, S, S); self.PRE = z3.Function('prefix', S, I, S); self.EMPTY = g.strlit('')
        k1, k2 = z3.Consts('k!1 k!2', S); self.axs = [z3.ForAll([k1, k2], z3.And(g.strlen(self.AGREE(k1, k2)) == 32, self.AGREE(k1, k2) != self.EMPTY), patterns=[self.AGREE(k1, k2)]), g.strlen(self.EMPTY) == 0, z3.ForAll([k1], g.strlen(self.PUB(k1)) == 33, patterns=[self.PUB(k1)])]
        self.axs.append(z3.ForAll([k1], z3.And(g.strlen(k1) >= 0, (g.strlen(k1) == 0) == (k1 == self.EMPTY)), patterns=[g.strlen(k1)]))
        kr = lambda ty, x: RecV(ty, {kfield(g, ty): x})
        def ctor(g, s, obj, a, e):
            t = e['t'] if e and 't' in e and e['t'].k == 'rec' else obj
            if not a: return [(s, kr(t, self.EMPTY))]
            if len(a) == 1 and isinstance(g.val(s, a[0]), RecV): return [(s, g.val(s, a[0]))]
            p = g.val(s, a[0]); x = g.read(s, p.lv) if isinstance(p, PtrV) else None
            if isinstance(p, VecV): return [(s, kr(t, self.bytes_of(g, s, p)))]
            if x is None or not z3.is_expr(x) or x.sort() != S:
                if isinstance(p, PtrV) and p.lv is not None: return [(s, kr(t, self.bytes_of(g, s, p)))]
                raise Unsupported('key bytes')
            n = {'fcp::secagg::EcdhPublicKey': 33}.get(t.n, 32)
            return [(s, kr(t, z3.If(g.strlen(x) == n, x, self.PRE(x, z3.IntVal(n)))))]
        for n in ('Key', 'AesKey', 'EcdhPublicKey', 'EcdhPrivateKey'): g.contracts[NS + n + '::' + n] = ctor
        EK = NS + 'EcdhKeyAgreement::'; idof = lambda s, obj: g.read(s, obj.f('$id'))
        g.contracts[EK + 'PublicKey'] = lambda g, s, obj, a, e: [(s, kr(rec_ty(NS + 'EcdhPublicKey'), self.PUB(idof(s, obj))))]
        g.contracts[EK + 'PrivateKey'] = lambda g, s, obj, a, e: [(s, kr(rec_ty(NS + 'EcdhPrivateKey'), self.PRIV(idof(s, obj))))]
        def agree(g, s, obj, a, e):
            pk = key(g, s, a[0]); bad = g.fresh_const('code', I); s.assume(z3.And(bad > 0, bad <= 16)); ok = self.POINT(pk)
            return [(s, StatusOrV(AK, z3.If(ok, z3.IntVal(0), bad), g.fresh_const('m', S), kr(AK, self.AGREE(idof(s, obj), pk)), e['t']))]
        g.contracts[EK + 'ComputeSharedSecret'] = agree
        def share(g, s, obj, a, e):
            t, n, sec = g.val(s, a[0]), g.val(s, a[1]), a[2]; v = g.val(s, sec); sec = v if z3.is_expr(v) else key(g, s, sec)
            vec = g.fresh(s, rec_ty('std::vector', (SH,)), 'shares'); q = z3.Int('q!s'); f = g.rec_fields(SH)[0][0]
            el = g.pack(s, RecV(SH, {f: self.SHARE(sec, t, n, q)}), SH); s.assume(vec.len == n); s.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), vec.arr[q] == el), patterns=[vec.arr[q]])); return [(s, vec)]
        g.contracts[NS + 'ShamirSecretSharing::Share'] = share; g.contracts[NS + 'ShamirSecretSharing::ShamirSecretSharing'] = lambda g, s, obj, a, e: [(s, RecV(obj, {}))]
        g.contracts[NS + 'AesGcmEncryption::AesGcmEncryption'] = lambda g, s, obj, a, e: [(s, RecV(obj, {}))]
        def seal(g, s, obj, a, e):
            kk, p = key(g, s, a[0]), g.val(s, a[1]); g.oblige(s, g.strlen(kk) == 32, 'encryption only with a full-size key'); nonce = g.fresh_const('nonce', I); c = self.SEAL(kk, p, nonce)
            s.assume(z3.And(c != self.EMPTY, self.OPEN(kk, c) == p)); return [(s, c)]
        g.contracts[NS + 'AesGcmEncryption::Encrypt'] = seal
    def bytes_of(self, g, s, p): raise Unsupported('key bytes')
    def agreement(self, s, name):
        return self.g.new_root(s, name, RecV(rec_ty(NS + 'EcdhKeyAgreement'), {'$id': z3.Const(name, self.g.str_sort())}))
    def state(self, c, s, cls=CL):
        """a state object of the round made by the real constructor"""
        g = self.g; k = [f for f in c.fns(cls + '::' + cls.split('::')[-1]) if f.ctor and len(f.ps) >= 3][0]; s.fn = k; a = params(g, s, k); o = g.new_root(s, 'this', RecV(rec_ty(cls), {}))
        for x in a:
            if isinstance(x, OptV): s.assume(x.has)
        out = call(g, s, k, a, this=o); no_abort(g, 'construction never aborts'); return [(y, o) for y, _ in out]
def request(c):
    """requires empty outputs; ensures the result is true exactly when the request has between the threshold and the maximum number of entries, a session id of 32 bytes, no key of wrong size or
    off the curve, the client's own key pair at exactly one position and enough entries with keys; then every entry's state, agreed keys and the shares are right; a reason is given otherwise"""
    k = K(c); g = k.g; st = start(g); [st.assume(x) for x in k.axs]; f = c.fn(CL + '::HandleShareKeysRequest')
    if len(f.ps) != 17: raise Unsupported('parameters')
    g.generic = lambda n: n[:4] == 'loop' or n[:2] == '&i' and ('+ k' in n or '>= 0' in n)
    for st, this in k.state(c, st):
        enc, noise = k.agreement(st, 'enc_pair'), k.agreement(st, 'noise_pair'); S = g.str_sort(); selfk = z3.Const('self_key', S); st.assume(g.strlen(selfk) == 32)
        a = [None] * 17; a[0] = g.new_root(st, 'req', g.fresh(st, f.ps[0][2], 'req', exact_name=True)); a[1] = enc; a[2], a[3] = z3.Int('max'), z3.Int('thr'); a[4] = noise
        a[5] = g.new_root(st, 'selfkey', RecV(AK, {kfield(g, AK): selfk})); a[6] = g.fresh(st, f.ps[6][2], 'prng')
        st.assume(z3.And(a[2] >= 0, a[2] < 2 ** 31, a[3] >= 0, a[3] < 2 ** 31)); outs = {}
        for i in range(7, 17):
            t = f.ps[i][2].e if hasattr(f.ps[i][2], 'e') else f.ps[i][2].deref(); v = g.zero(st, t) if kind_of(t) not in ('int', 'bool') else g.fresh(st, t, 'o%d' % i); outs[i] = g.new_root(st, 'out%d' % i, v); a[i] = PtrV(f.ps[i][2], F, outs[i])
        pairs = g.read(st, a[0].f('pairs_of_public_keys')); N = pairs.len; sid = g.read(st, a[0].f('session_id')); st.assume(N < 2 ** 31); st.assume(N >= 0)
        pk = lambda s, i, w: (lambda r: g.read(s, r.f(w)))(g.new_root(s, 'pair', g.unpack(s, pairs.arr[i], pairs.ety)))
        j = z3.Int('j!q'); e_, n_ = pk(st, j, 'enc_pk'), pk(st, j, 'noise_pk'); sub = lambda x, i: z3.substitute(x, (j, i)); EM = k.EMPTY
        Ev, Nv = z3.Function('enc_pk', I, S), z3.Function('noise_pk', I, S); st.assume(z3.ForAll([j], z3.And(Ev(j) == e_, Nv(j) == n_), patterns=[pairs.arr[j]]))
        idE, idN = z3.Const('enc_pair', S), z3.Const('noise_pair', S); gone = lambda i: z3.Or(sub(e_, i) == EM, sub(n_, i) == EM); size = lambda i: z3.And(g.strlen(sub(e_, i)) == 33, g.strlen(sub(n_, i)) == 33)
        own = lambda i: z3.And(sub(e_, i) == k.PUB(idE), sub(n_, i) == k.PUB(idN)); pts = lambda i: z3.And(k.POINT(sub(e_, i)), k.POINT(sub(n_, i)))
        fine = lambda i: z3.Or(gone(i), z3.And(size(i), z3.Or(own(i), pts(i))))
        # lost(i): entries without keys among the first i;  mine(i): how often the own keys occur among the first i;  at(i): where
        LOST, MINE, AT = z3.Function('lost', I, I), z3.Function('mine', I, I), z3.Function('at', I, I)
        st.assume(z3.And(LOST(0) == 0, MINE(0) == 0)); A0 = pairs.arr
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), z3.And(LOST(j + 1) == LOST(j) + z3.If(gone(j), 1, 0), MINE(j + 1) == MINE(j) + z3.If(own(j), 1, 0), AT(j + 1) == z3.If(own(j), j, AT(j)), LOST(j) >= 0, LOST(j) <= j, MINE(j) >= 0)), patterns=[A0[j]]))
        st.assume(z3.And(LOST(N) >= 0, LOST(N) <= N)); g.assumptions.add('counting: the number of positions with a property among the first i lies between 0 and i')
        kf = lambda s, v, i: kbytes(g, s, g.unpack(s, v.arr[i], v.ety))
        exp = lambda s, v, i, which: kf(s, v, i) == z3.If(z3.Or(gone(i), own(i)), EM, k.AGREE(idE if which == 11 else idN, sub(e_ if which == 11 else n_, i)))
        def hint(L):
            out = []; rd = lambda i: g.read(L.st, outs[i]); K_ = L.k
            mod = lambda i: any(m.root == outs[i].root for m in L.mods)
            if not any(mod(i) for i in (11, 12, 13)): return []
            for i in (11, 12):
                v = rd(i); body = lambda i, v=v, w=i: exp(L.st, v, i, w)
                out.append(('keys #%d' % i, z3.And(v.len == K_, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < K_), body(j)), **C07.pat(v.arr, j)))))
            v = rd(13); out.append(('states', z3.And(v.len == N, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), v.arr[j] == z3.If(z3.And(j < K_, gone(j)), 1, 0)), **C07.pat(v.arr, j)))))
            out.append(('clients left', rd(9) == N - LOST(K_))); cid = rd(7)
            for m in L.mods:
                b = g.read(L.st, m)
                if z3.is_expr(b) and z3.is_bool(b): out.append(('own position, found at most once', z3.And(b == (MINE(K_) == 1), MINE(K_) <= 1, z3.Implies(MINE(K_) == 1, z3.And(cid == AT(K_), cid >= 0, cid < K_, own(cid))))))
            out.append(('entries seen are fine', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < K_), z3.And(fine(j), z3.Implies(own(j), z3.And(MINE(K_) == 1, AT(K_) == j)))), patterns=[A0[j]])))
            return out
        g.loop_hints[:] = [hint]; out = call(g, st, f, a, this=this); cover(g, out); no_abort(g, 'never aborts the process'); q = z3.Int('q'); thr, mx = a[3], a[2]
        msg = lambda s: g.read(s, outs[8])
        for y, r in out:
            z = y.copy(); z.assume(r)
            if g.feasible(z):
                rd = lambda i: g.read(z, outs[i]); cid = rd(7); zq = z.copy(); zq.assume(z3.And(q >= 0, q < N)); zq.assume(A0[q] == A0[q])
                g.oblige(z, z3.And(N >= thr, N <= mx), 'accepted: not fewer entries than the threshold, not more than the maximum'); g.oblige(z, g.strlen(sid) == 32, 'accepted: the session id has 32 bytes')
                g.oblige(z, N - LOST(N) >= thr, 'accepted: enough clients have both keys'); g.oblige(zq, fine(q), 'accepted: every key has the right size and is valid')
                g.oblige(z, z3.And(cid >= 0, cid < N, own(cid)), "accepted: the client's own keys are listed and give its position"); g.oblige(zq, z3.Implies(own(q), q == cid), "accepted: the client's own keys are listed only once")
                g.oblige(z, z3.And(rd(9) == N - LOST(N), rd(10) == N), 'the numbers of clients and of live clients'); st_ = rd(13)
                g.oblige(zq, z3.And(st_.len == N, st_.arr[q] == z3.If(gone(q), 1, 0)), 'clients without keys, and no others, are dead')
                for i in (11, 12): g.oblige(zq, z3.And(rd(i).len == N, exp(zq, rd(i), q, i)), 'the %s key of each client is the one agreed with it' % ('encryption' if i == 11 else 'masking'))
                dat = lambda v: g.rget(zq, g.unpack(zq, v.arr[q], v.ety), *g.rec_fields(SH)[0]); v14, v15 = rd(14), rd(15)
                g.oblige(zq, z3.And(v14.len == N, v15.len == N, dat(v14) == k.SHARE(selfk, thr, N, q), dat(v15) == k.SHARE(k.PRIV(idN), thr, N, q)), 'the shares are those of the self key and of the masking private key')
                g.oblige(z, g.rget(z, rd(16), *g.rec_fields(rec_ty(NS + 'SessionId'))[0]) == sid, 'the session id is the one given')
            z = y.copy(); z.assume(Not(r))
            if g.feasible(z):
                g.oblige(z, msg(z) != EM, 'a reason is given when the request is refused') if not has_any(msg(z), 'abortmsg') else None
                z.assume(z3.And(N >= thr, N <= mx, g.strlen(sid) == 32, N - LOST(N) >= thr, MINE(N) == 1, Not(z3.Bool('abort ever signalled')))); z.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), z3.And(fine(j), z3.Implies(own(j), AT(N) == j))), patterns=[A0[j]]))
                z.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= N), z3.And(MINE(j) <= MINE(N), LOST(j) <= LOST(N))), patterns=[MINE(j)])); z.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N, MINE(j) == 1), Not(own(j))), patterns=[MINE(j)]))
                g.oblige(z, F, 'a proper request is accepted')
def has_any(x, name): return z3.is_expr(x) and name in str(x)
def respond(c):
    """requires one share pair per client and keys that are blank or full-size; ensures exactly one message is sent unless aborted, with one entry per client: empty for a blank key, otherwise its share pair
    sealed with its key"""
    k = K(c); g = k.g; st = start(g); [st.assume(x) for x in k.axs]; f = c.fn(CL + '::EncryptAndSendResponse')
    for st, this in k.state(c, st):
        a = params(g, st, f); sender = a[3]; st.assume(Not(sender.null)); keys, pair, self_ = [g.read(st, x) for x in a[:3]]; n = keys.len; st.assume(z3.And(n >= 0, n < 2 ** 31, pair.len == n, self_.len == n))
        j = z3.Int('j!q'); kf = lambda s, i: kbytes(g, s, g.unpack(s, keys.arr[i], keys.ety)); KEY = z3.Function('key', I, g.str_sort()); sh = g.rec_fields(SH)[0]
        st.assume(z3.ForAll([j], z3.And(KEY(j) == kf(st, j), z3.Or(KEY(j) == k.EMPTY, g.strlen(KEY(j)) == 32)), patterns=[keys.arr[j]]))
        PT = rec_ty(NS + 'PairOfKeyShares'); dat = lambda s, v, i: g.rget(s, g.unpack(s, v.arr[i], v.ety), *sh)
        def plain(s, i):
            o = g.new_root(s, 'pair', g.zero(s, PT)); g.write(s, o.f('noise_sk_share'), dat(s, pair, i)); g.write(s, o.f('prf_sk_share'), dat(s, self_, i)); return g.proto.serialize(g, s, g.read(s, o))
        def good(s, v, i): return z3.If(kf(s, i) == k.EMPTY, v.arr[i] == k.EMPTY, z3.And(v.arr[i] != k.EMPTY, k.OPEN(kf(s, i), v.arr[i]) == plain(s.copy(), i)))
        def hint(L):
            for m in L.mods:
                v = g.read(L.st, m)
                if isinstance(v, VecV) and v.arr.sort().range() == g.str_sort(): return [('entries so far', z3.And(v.len == L.k, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), good(L.st, v, j)), **C07.pat(v.arr, j))))]
            return []
        g.loop_hints[:] = [hint]; out = call(g, st, f, a, this=this); cover(g, out); no_abort(g, 'never aborts the process'); q = z3.Int('q')
        for y, r in out:
            sent = y.ghost.get('sent', ()); g.oblige(y, r == (len(sent) == 1), 'true exactly when a message was sent'); g.oblige(y, z3.BoolVal(len(sent) <= 1), 'at most one message is sent')
            if not sent: g.oblige(y, z3.Bool('abort ever signalled'), 'nothing is sent only after an abort')
            for m in sent:
                m = g.new_root(y, 'sent', m); v = g.read(y, m.f('share_keys_response').f('encrypted_key_shares')); g.oblige(y, C07.present(g, y, m, 'share_keys_response'), 'the message is a response')
                y.assume(z3.And(q >= 0, q < n)); y.assume(keys.arr[q] == keys.arr[q]); e = v.arr[q]; g.oblige(y, v.len == n, 'one entry per client')
                g.oblige(y, z3.Implies(kf(y, q) == k.EMPTY, e == k.EMPTY), 'no entry for a client without a key'); g.oblige(y, z3.Implies(kf(y, q) != k.EMPTY, z3.And(e != k.EMPTY, k.OPEN(kf(y, q), e) == plain(y, q))), "each client's share pair is sealed with its key")
def message(inp):
    def message(c):
        """requires a state made by its constructor; ensures an abort message ends the protocol and other messages are refused without effect; a share-keys request is passed on unchanged, and if it is accepted and
        answered the next state gets the client's position, threshold, counts, states, keys, its own self-key share, self key and session id unchanged; otherwise exactly one abort message is sent"""
        cls = NS + 'SecAggClientR1ShareKeysInput%sState' % inp; nxt = NS + 'SecAggClientR2MaskedInputCollInput%sState' % inp; low = {'Set': 'input_set', 'NotSet': 'input_not_set'}[inp]
        k = K(c, TUS[:1] + [CD + 'secagg_client_r1_share_keys_%s_state.cc' % low, CD + 'secagg_client_alive_base_state.cc', CD + 'secagg_client_state.cc', CD + 'secagg_client_aborted_state.cc', CD + 'secagg_client_completed_state.cc']); g = k.g; st = start(g); [st.assume(x) for x in k.axs]
        S = g.str_sort(); RND = z3.Function('random_byte', I, I); g.generic = lambda n: n[:4] == 'loop' or '+ k' in n or '>= 0' in n
        def rand8(g, s, obj, a, e):
            n = s.ghost.get('rnd'); lv = g.rnd; v = g.read(s, lv); r = RND(v); s.assume(z3.And(r >= 0, r < 256)); g.write(s, lv, v + 1); return [(s, r)]
        g.contracts[NS + 'SecurePrng::Rand8'] = rand8; g.rnd = g.new_root(st, 'drawn', z3.IntVal(0)); FROM = z3.Const('drawn_key', S); seen = {}
        def bytes_of(g, s, p):
            v = p if isinstance(p, VecV) else g.read(s, p.lv) if not (p.lv.path and p.lv.path[-1][0] == 'i') else g.read(s, LV(p.lv.root, p.lv.path[:-1]))
            q = z3.Int('q'); z = s.copy(); z.assume(z3.And(q >= 0, q < 32)); arr = v.arr if isinstance(v, VecV) else None
            if arr is None: raise Unsupported('key bytes')
            g.oblige(z, arr[q] == RND(q), 'every byte of the self key is drawn from the random source, each its own'); return FROM
        k.bytes_of = bytes_of; O = {}
        def handle(g, s, obj, a, e):
            f = c.fns(CL + '::HandleShareKeysRequest')
            if len(a) != 17: raise Unsupported('parameters')
            g.oblige(s, g.pack(s, g.val(s, a[0]), rec_ty(NS + 'ShareKeysRequest')) == g.pack(s, g.read(s, g.msg.f('share_keys_request')), rec_ty(NS + 'ShareKeysRequest')), 'the request handled is the one received')
            idof = lambda x: g.read(s, g.lval(s, x).f('$id')); g.oblige(s, z3.And(idof(a[1]) == z3.Const('enc_pair', S), idof(a[4]) == z3.Const('noise_pair', S)), 'encryption and masking key pairs are not confused')
            g.oblige(s, z3.And(g.val(s, a[2]) == g.mx, g.val(s, a[3]) == g.thr, key(g, s, a[5]) == FROM), 'limits and self key are passed on'); bad = s.copy(); ok = s
            g.write(bad, g.val(bad, a[8]).lv, z3.Const('reason', S))
            for i in range(7, 17):
                p = g.val(ok, a[i]); old = g.read(ok, p.lv); t = getattr(old, 'ty', None) or ({7: U32, 9: U32, 10: U32, 8: STRING}.get(i))
                if isinstance(old, VecV): g.oblige(ok, old.len == 0, 'output lists start empty')
                v = g.fresh(ok, t, 'O%d' % i, exact_name=True); g.write(ok, p.lv, v); O[i] = v
            for i in range(11, 16): ok.assume(O[i].len == O[10])
            ok.assume(z3.And(O[7] >= 0, O[7] < O[10])); return [(bad, F), (ok, T)]
        g.contracts[CL + '::HandleShareKeysRequest'] = handle
        same = lambda s, v, w: g.pack(s, v, w.ty) == g.pack(s, w, w.ty) if not z3.is_expr(w) else v == w
        def enc(g, s, obj, a, e):
            for i, (x, w) in enumerate(((a[0], 11), (a[1], 15), (a[2], 14))): g.oblige(s, same(s, g.val(s, x), O[w]), 'the response is made from the agreed keys, the pairwise shares and the self shares, in this order')
            no = s.copy(); no.assume(z3.And(z3.Bool('abort ever signalled'), Not(g.abort_null))); s.ghost['responses'] = s.ghost.get('responses', 0) + 1; return [(no, F), (s, T)]
        g.contracts[CL + '::EncryptAndSendResponse'] = enc
        def nextstate(g, s, obj, a, e): s.ghost['next'] = s.ghost.get('next', ()) + (tuple(g.val(s, x) for x in a),); return [(s, RecV(rec_ty(nxt), {}))]
        g.contracts[nxt + '::' + nxt.split('::')[-1]] = nextstate
        ctor = [f for f in c.fns(cls + '::' + cls.split('::')[-1]) if f.ctor and len(f.ps) == (11 if inp == 'Set' else 10)][0]; st.fn = ctor; a = params(g, st, ctor); o = g.new_root(st, 'this', RecV(rec_ty(cls), {})); g.mx, g.thr = a[0], a[1]
        for i, x in enumerate(a):
            if isinstance(x, OptV): st.assume(x.has)
        g.abort_null = a[-1].null
        eka = [i for i, x in enumerate(a) if isinstance(x, OptV) and x.ety.n == NS + 'EcdhKeyAgreement']
        if len(eka) != 2: raise Unsupported('constructor')
        for i, nm in zip(eka, ('enc_pair', 'noise_pair')): a[i] = OptV(a[i].ety, T, RecV(a[i].ety, {'$id': z3.Const(nm, S)}), a[i].ty)
        f = c.fn(cls + '::HandleMessage')
        for s, _ in call(g, st, ctor, a, this=o):
            s.fn = f; g.msg = g.new_root(s, 'msg', g.fresh(s, f.ps[0][2], 'msg', exact_name=True)); j = z3.Int('j!q')
            def hint(L):
                for m in L.mods:
                    v = g.read(L.st, m)
                    if isinstance(v, VecV): return [('bytes drawn so far', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), v.arr[j] == RND(j)), **C07.pat(v.arr, j)))] + [('bytes drawn', g.read(L.st, g.rnd) == L.k)]
                return []
            g.loop_hints[:] = [hint]; ab, rq = C07.present(g, s, g.msg, 'abort'), C07.present(g, s, g.msg, 'share_keys_request'); out = call(g, s, f, [g.msg], this=o); cover(g, out); no_abort(g, 'never aborts the process')
            for y, r in out:
                sent, resp, nx = y.ghost.get('sent', ()), y.ghost.get('responses', 0), y.ghost.get('next', ())
                if resp == 0 and not sent: g.oblige(y, z3.Or(ab, Not(rq)), 'a request is always answered')
                else: g.oblige(y, z3.And(rq, Not(ab)), 'only a request is answered')
                g.oblige(y, z3.BoolVal(len(sent) + resp <= 1), 'at most one message is sent')
                for m in sent: m = g.new_root(y, 'sent', m); g.oblige(y, C07.present(g, y, m, 'abort'), 'apart from a response only an abort message is sent')
                g.oblige(y, z3.BoolVal(len(nx) == resp), 'the next round begins exactly after a response'); g.oblige(y, z3.Implies(r.code != 0, z3.And(Not(rq), Not(ab))), 'an error only for a message of another kind')
                for n in nx:
                    w = 1 if inp == 'Set' else 0
                    if len(n) != 15 + w: raise Unsupported('next state')
                    ov = lambda x: g.optval(y, x); own = g.unpack(y, O[14].arr[O[7]], O[14].ety)
                    g.oblige(y, z3.And(n[0] == O[7], n[1] == g.thr, n[2] == O[9], n[3] == O[10]), "the client's position, the threshold and the counts are handed on")
                    g.oblige(y, z3.And(same(y, ov(n[5 + w]), O[13]), same(y, ov(n[6 + w]), O[11]), same(y, ov(n[7 + w]), O[12])), "the clients' states and keys are handed on"); g.oblige(y, same(y, ov(n[8 + w]), own), "the client's own share of its self key is handed on")
                    g.oblige(y, z3.And(kbytes(g, y, ov(n[9 + w])) == FROM, same(y, ov(n[12 + w]), O[16])), 'self key and session id are handed on')
                    if w: g.oblige(y, same(y, ov(n[4]), g.optval(y, a[3])), 'the input is handed on')
                if not nx and resp == 0 and sent: g.oblige(y, r.code == 0, 'after an abort message the client is aborted')
    message.__name__ = 'message_' + inp; return message
UNITS = [request, respond, message('Set'), message('NotSet')]
HARNESS = C07.client_harness(8)
