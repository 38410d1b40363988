"""C05: the AES-CTR random stream."""
from vc.spec import *
TUS = ['fcp/secagg/shared/aes_ctr_prng.cc', 'fcp/secagg/shared/aes_ctr_prng_factory.cc']
NS = 'fcp::secagg::'; P = NS + 'AesCtrPrng'
I = z3.IntSort()
ASSUMPTIONS = ['OpenSSL: encrypting with AES-256 in counter mode XORs the data with consecutive bytes of a keystream fixed by key and initial counter (EVP_EncryptInit_ex, EVP_EncryptUpdate)']
def members(g):
    global N
    fl = g.rec_fields(rec_ty(P))
    byk = {'arr': [n for n, t in fl if t.k == 'arr'], 'ptr': [n for n, t in fl if t.k == 'ptr'], 'int': [n for n, t in fl if t.k == 'int']}
    if len(byk['arr']) != 1 or len(byk['ptr']) != 1 or len(byk['int']) != 2: raise Unsupported('members of the generator')
    N = dict(fl)[byk['arr'][0]].alen
    return byk['arr'][0], byk['int'][0], byk['ptr'][0], byk['int'][1]
def ssl(g, byte=None):
    """contracts of the library: a context is (key, initial counter, position in the keystream)"""
    g.KS = z3.Array('keystream', I, g.A.isort if g.A.mode == 'bv' else I); g.inits = []
    def new(g, s, obj, a, e):
        r = g.new_root(s, 'ctx', RecV(rec_ty('evp_cipher_ctx_st'), {'$pos': z3.IntVal(-1)})); ok = g.fresh_const('ctxok', z3.BoolSort())
        return [(s, PtrV(e['t'], Not(ok), r))]
    def init(g, s, obj, a, e):
        c, key, iv = g.val(s, a[0]), g.val(s, a[3]), g.val(s, a[4]); r = g.fresh_const('initres', I)
        v = g.read(s, iv.lv) if isinstance(iv, PtrV) else None
        if not isinstance(v, VecV): raise Unsupported('initial counter')
        g.oblige(s, Not(c.null), 'the context exists', e.get('l', 0)); g.inits.append((s, key, v)); s.ghost['init'] = (g.bytes_of_ptr(s, key), v.arr)
        g.write(s, c.lv.f('$pos'), z3.IntVal(0)); return [(s, r)]
    def update(g, s, obj, a, e):
        c, out, n, inp, ln = [g.val(s, x) for x in a]; r = g.fresh_const('updres', I); pos = g.read(s, c.lv.f('$pos')); j = z3.Int('j!u')
        src = g.read(s, inp.lv); so = inp.off if inp.off is not None else z3.IntVal(0); dst = g.read(s, out.lv); do = out.off if out.off is not None else z3.IntVal(0)
        g.oblige(s, z3.And(ln >= 0, so + ln <= src.len, do + ln <= dst.len), 'input and output buffers are long enough', e.get('l', 0))
        k = z3.Int('k!z'); s1 = s.copy(); s1.assume(z3.And(k >= 0, k < ln)); g.oblige(s1, z3.Select(src.arr, so + k) == 0, 'the data encrypted is all zero', e.get('l', 0))
        arr = g.fresh_const('enc', dst.arr.sort())
        s.assume(z3.ForAll([j], z3.Select(arr, j) == z3.If(z3.And(j >= do, j < do + ln), g.KS[pos + j - do], z3.Select(dst.arr, j)), patterns=[z3.Select(arr, j)]))
        g.write(s, out.lv, VecV(dst.ety, dst.len, arr, dst.ty)); g.write(s, n.lv, ln); g.write(s, c.lv.f('$pos'), pos + ln); return [(s, r)]
    g.contracts['EVP_CIPHER_CTX_new'] = new; g.contracts['EVP_EncryptInit_ex'] = init; g.contracts['EVP_EncryptUpdate'] = update
    g.contracts['EVP_aes_256_ctr'] = lambda g, s, obj, a, e: [(s, PtrV(e['t'], F, g.new_root(s, 'cipher', UnitV())))]
def bytes_of_ptr(s, key): return key
def mk(c):
    g = c.engine(TUS, proto=False); g.safety = {'index', 'null', 'overflow', 'div'}; ssl(g); g.bytes_of_ptr = bytes_of_ptr; st = start(g); return g, st
def any_state(g, st):
    """a generator satisfying its invariant: bytes not yet handed out from the cache are keystream bytes c0 + next .. c0 + N - 1 (N the size of the cache), all before the position
    the cipher has reached"""
    ca, nx, cx, bl = members(g); ty = rec_ty(P); ft = dict(g.rec_fields(ty)); arr = z3.Array('cache', I, I); nxt, c0, pos, b = z3.Ints('next c0 pos blocks')
    ctx = g.new_root(st, 'ctx', RecV(rec_ty('evp_cipher_ctx_st'), {'$pos': pos}))
    o = g.new_root(st, 'prng', RecV(ty, {ca: VecV(ft[ca].e if hasattr(ft[ca], 'e') and ft[ca].e is not None else g.elem_ty(ft[ca]), z3.IntVal(N), arr, ft[ca]), nx: nxt, cx: PtrV(ft[cx], F, ctx), bl: b}))
    j = z3.Int('j!c'); st.assume(forall_i(0, 10 ** 18, lambda i: z3.And(g.KS[i] >= 0, g.KS[i] < 256)))
    st.assume(z3.And(nxt >= 0, pos >= 0, pos < 2 ** 50, b >= 0, b < 2 ** 62))
    st.assume(z3.Implies(nxt < N, z3.And(c0 >= 0, c0 + N <= pos))); st.assume(z3.Implies(nxt < N, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), arr[j] == g.KS[c0 + j]))))
    return o, nxt, c0, pos, b
def inv(g, y, o, c0, what):
    ca, nx, cx, bl = members(g); n = g.read(y, o.f(nx)); a = g.read(y, o.f(ca)).arr; p = pos_of(g, y, o); j = z3.Int('j!inv'); z = y.copy(); z.assume(z3.And(n < N, j >= 0, j < N))
    g.oblige(y, z3.And(n >= 0, z3.Implies(n < N, z3.And(c0 >= 0, c0 + N <= p))), 'invariant %s: the cached bytes lie before the cipher position' % what)
    g.oblige(z, a[j] == g.KS[c0 + j], 'invariant %s: the cache holds consecutive keystream bytes' % what)
def pos_of(g, y, o):
    return g.read(y, g.read(y, o.f(members(g)[2])).lv.f('$pos'))
def rand8(c):
    "ensures the next cached keystream byte, or, when none is left, the byte at the cipher position after refilling from there; invariant kept"
    g, st = mk(c); f = c.fn(P + '::Rand8'); st.fn = f; o, nxt, c0, pos, b = any_state(g, st)
    out = call(g, st, f, [], this=o); cover(g, out)
    for y, r in out:
        p2 = pos_of(g, y, o); n2 = g.read(y, o.f(members(g)[1])); left = nxt < N
        g.oblige(y, r == z3.If(left, g.KS[c0 + nxt], g.KS[pos]), 'the next unread keystream byte')
        g.oblige(y, z3.And(p2 == z3.If(left, pos, pos + N), n2 == z3.If(left, nxt + 1, 1)), 'exactly one byte is consumed; a refill continues at the cipher position')
        inv(g, y, o, z3.If(left, c0, pos), 'kept')
def rand_buffer(c):
    "requires a size that is a multiple of 16 or at least the maximum; ensures min(size, maximum) bytes from the cipher position on; cached bytes untouched"
    g, st = mk(c); f = c.fn(P + '::RandBuffer'); st.fn = f; o, nxt, c0, pos, b = any_state(g, st); n, L = z3.Ints('size len'); st.assume(z3.And(n >= 0, n < 2 ** 31, L >= n)); arr = z3.Array('out', I, I)
    buf = g.new_root(st, 'buf', VecV(U8, L, arr)); m = z3.If(n < N, n, N)
    out = call(g, st, f, [PtrV(None, F, buf, z3.IntVal(0)), n], this=o); cover(g, out); j = z3.Int('j')
    for y, r in out:
        a2 = g.read(y, buf).arr; z = y.copy(); z.assume(z3.And(j >= 0, j < m))
        g.oblige(y, r == m, 'as many bytes as asked for, up to the maximum'); g.oblige(z, a2[j] == g.KS[pos + j], 'consecutive keystream bytes from the cipher position')
        g.oblige(y, z3.Implies(z3.Or(j < 0, j >= m), a2[j] == arr[j]), 'nothing else is written')
        g.oblige(y, z3.And(pos_of(g, y, o) == pos + m, g.read(y, o.f(members(g)[1])) == nxt), 'the cipher position moves by that number, the cached bytes stay'); inv(g, y, o, c0, 'kept')
def max_size(c):
    "ensures the maximum buffer size is the size of the internal buffer, a multiple of the block size"
    g, st = mk(c); f = c.fn(P + '::GetMaxBufferSize'); st.fn = f; o, *_ = any_state(g, st); out = call(g, st, f, [], this=o); cover(g, out); no_abort(g, 'never aborts')
    for y, r in out: g.oblige(y, r == N, 'the maximum is what a buffer request is cut to')
def construct(c):
    "ensures nothing is cached and the cipher stands at position 0 with the given key and a counter that is always the same"
    g, st = mk(c); fs = [f for f in c.fns(P + '::AesCtrPrng') if f.ps]; f = fs[0]; st.fn = f; ca, nx, cx, bl = members(g)
    runs = []
    for k in (0, 1):
        s = st.copy(); key = g.new_root(s, 'key', g.fresh(s, f.ps[0][2].deref(), 'key', exact_name=True)); o = g.new_root(s, 'prng', RecV(rec_ty(P), {}, 'p%d' % k)); out = call(g, s, f, [key], this=o); cover(g, out)
        for y, _ in out:
            if 'init' not in y.ghost: g.oblige(y, F, 'the cipher is set up'); continue
            kb, iv = y.ghost['init']; want = g.read(y, key); ks = [v for v in [g.rget(y, want, n, t) for n, t in g.rec_fields(want.ty)] if z3.is_expr(v)]
            n = g.read(y, o.f(nx)); g.oblige(y, z3.And(n >= N, pos_of(g, y, o) == 0), 'nothing is cached, the cipher is at the start')
            data = kb if z3.is_expr(kb) else g.read(y, kb.lv)
            if not (ks and z3.is_expr(data) and data.sort() == ks[0].sort()): raise Unsupported('key pointer')
            g.oblige(y, data == ks[0], 'the cipher key is the given key'); runs.append((y, iv))
    (y0, a), (y1, b) = runs[0], runs[-1]; z = y0.copy(); [z.assume(t) for t in y1.pc]; g.oblige(z, z3.And([a[i] == b[i] for i in range(16)]), 'the initial counter is the same for every generator')
def rand64(c):
    "Rand8 by contract (next byte of the sequence of single-byte results); ensures eight consecutive ones, least significant first"
    g = c.engine(TUS, proto=False, arith='bv'); g.safety = {'index'}; g.bounded = 9; st = start(g); f = c.fn(P + '::Rand64'); st.fn = f; seq = z3.Array('bytes', z3.BitVecSort(64), z3.BitVecSort(8))
    i0 = z3.BitVec('i0', 64); st.assume(z3.ULT(i0, 2 ** 40)); o = g.new_root(st, 'prng', RecV(rec_ty(P), {'$i': i0}, 'p'))
    def r8(g, s, obj, a, e):
        i = g.read(s, obj.f('$i')); g.write(s, obj.f('$i'), i + 1); return [(s, seq[i])]
    g.contracts[P + '::Rand8'] = r8; out = call(g, st, f, [], this=o); cover(g, out); no_abort(g, 'never aborts')
    for y, r in out:
        g.oblige(y, r == z3.Concat(*[seq[i0 + 7 - k] for k in range(8)]), 'little-endian composition of the next eight bytes')
        g.oblige(y, g.read(y, o.f('$i')) == i0 + 8, 'exactly eight bytes are consumed')
UNITS = [rand8, rand_buffer, max_size, construct, rand64]
HARNESS = dict(main='C05_harness.cc', srcs=TUS + ['fcp/secagg/shared/aes_key.cc', 'fcp/secagg/shared/shamir_secret_sharing.cc'], libs=CRYPTO, secs=5)
