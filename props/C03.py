"""C03: packing of secure-aggregation vectors, and adding vectors."""
from vc.spec import *
TUS = ['/repo/fcp/secagg/shared/secagg_vector.cc']
NS = 'fcp::secagg::'
SV = NS + 'SecAggVector'
ASSUMPTIONS = ['vectors of fewer than 2^31 bits (the position arithmetic is 32 bits wide)']
B = z3.BitVecVal
KMAX = 2 ** 40

def eng(c, **kw):
    g = c.engine(TUS, proto=False, arith='bv', strings='bytes', **kw); g.safety = {'index', 'div'}; g.merge = True; return g
def by_order(g, cls, kinds):
    """the members of a class by declaration order, recognised by their types"""
    fl = g.rec_fields(rec_ty(cls))
    if fl is None or len(fl) != len(kinds): raise Unsupported('members of ' + cls)
    for (n, t), k in zip(fl, kinds):
        ok = t.k == 'ptr' if k == 'p' else t is STRING if k == 's' else t.k == 'int' and t.w == int(k[1:])
        if not ok: raise Unsupported('member %s of %s' % (n, cls))
    return [n for n, _ in fl]
def zx(t, w): return z3.ZeroExt(w - t.size(), t)
def width(st):
    w = z3.BitVec('w', 32); st.assume(z3.And(w >= 1, w <= 62)); return w

# ---------------------------------------------------------------- streaming coder / decoder
def coder(c):
    g = eng(c); st = start(g)
    n = by_order(g, SV + '::Coder', ['s', 'i32', 'i64', 'i32', 'i64', 'p', 'i64', 'i8'])
    return g, st, n
def coder_write(c):
    """requires k whole bytes and s < 8 pending bits written so far (pending in the low bits of the scratch word), a value below 2^w;
    ensures k' bytes and s' pending bits with 8k' + s' == 8k + s + w, the new bits being the w bits of the value, earlier bytes unchanged"""
    g, st, (pb, nb, mo, bw, ne, cur, tgt, sp) = coder(c); f = c.fn(SV + '::Coder::WriteValue'); st.fn = f
    w = width(st); k = z3.BitVec('k', 64); s8 = z3.BitVec('s', 8); t = z3.BitVec('t', 64); v = z3.BitVec('v', 64); L = z3.BitVec('L', 64)
    arr = z3.Array('bytes', z3.BitVecSort(64), z3.BitVecSort(8)); m = z3.BitVec('m', 64)
    st.assume(z3.And(z3.ULT(s8, 8), z3.ULT(k, KMAX), z3.ULT(L, KMAX), z3.ULE(k + 8, L), z3.LShR(v, zx(w, 64)) == 0))
    o = g.new_root(st, 'coder', RecV(rec_ty(SV + '::Coder'), {}, 'c'))
    for name, x in ((pb, VecV(I8, L, arr, STRING)), (tgt, t), (sp, s8), (bw, w), (mo, m)): g.write(st, o.f(name), x)
    g.write(st, o.f(cur), PtrV(None, F, o.f(pb), k))
    out = call(g, st, f, [v], this=o); no_abort(g, 'any value is accepted'); cover(g, out)
    s64 = zx(s8, 64); w64 = zx(w, 64)
    full = (zx(t & ((B(1, 64) << s64) - 1), 128)) | (zx(v, 128) << zx(s8, 128))
    adv = z3.LShR(s64 + w64, 3); j = z3.BitVec('j', 64)
    for y, _ in out:
        p = g.read(y, o.f(cur)); k2 = p.off; s2 = g.read(y, o.f(sp)); t2 = g.read(y, o.f(tgt)); a2 = g.read(y, o.f(pb))
        g.oblige(y, And(k2 == k + adv, zx(s2, 64) == ((s64 + w64) & 7)), 'position advances by the bit width')
        g.oblige(y, (t2 & ((B(1, 64) << zx(s2, 64)) - 1)) == z3.Extract(63, 0, z3.LShR(full, zx(adv, 128) << 3)), 'the pending bits are the value bits not yet in whole bytes')
        for i in range(8):
            g.oblige(y, z3.Implies(z3.UGT(adv, i), z3.Select(a2.arr, k + i) == z3.Extract(8 * i + 7, 8 * i, full)), 'byte %d behind the position holds the pending and new bits' % i)
        g.oblige(y, z3.Implies(z3.ULT(j, k), z3.Select(a2.arr, j) == z3.Select(arr, j)), 'bytes already written are unchanged')
        g.oblige(y, And(a2.len == L, g.read(y, o.f(bw)) == w, g.read(y, o.f(mo)) == m), 'buffer length, width and modulus are unchanged')
def coder_create(c):
    """ensures the buffer is cut to the number of bytes needed, the pending bits following the whole bytes, earlier bytes unchanged"""
    g, st, (pb, nb, mo, bw, ne, cur, tgt, sp) = coder(c); f = c.fn(SV + '::Coder::Create'); st.fn = f
    k = z3.BitVec('k', 64); t = z3.BitVec('t', 64); L = z3.BitVec('L', 64); m = z3.BitVec('m', 64); need = z3.BitVec('need', 32); n = z3.BitVec('n', 64); w = width(st); j = z3.BitVec('j', 64)
    arr = z3.Array('bytes', z3.BitVecSort(64), z3.BitVecSort(8))
    st.assume(z3.And(need >= 0, L == zx(need, 64) + 8, z3.ULE(k, zx(need, 64))))
    o = g.new_root(st, 'coder', RecV(rec_ty(SV + '::Coder'), {}, 'c'))
    for name, x in ((pb, VecV(I8, L, arr, STRING)), (tgt, t), (mo, m), (ne, n), (nb, need), (bw, w)): g.write(st, o.f(name), x)
    g.write(st, o.f(cur), PtrV(None, F, o.f(pb), k))
    seen = []
    def vec(g, s, ty, args, e):
        if len(args) < 3 or not isinstance(g.val(s, args[0]), VecV): return None
        seen.append((s, [g.val(s, a) for a in args])); return [(s, RecV(ty, {}, 'made'))]
    g.contracts[SV + '::SecAggVector'] = vec
    out = call(g, st, f, [], this=o); no_abort(g, 'never aborts'); cover(g, out)
    for s, a in seen:
        b = a[0]
        g.oblige(s, And(b.len == zx(need, 64), a[1] == m, a[2] == n), 'the vector gets the needed bytes, the modulus and the number of elements')
        g.oblige(s, z3.Implies(And(z3.ULT(j, k)), z3.Select(b.arr, j) == z3.Select(arr, j)), 'whole bytes are kept')
        g.oblige(s, z3.Implies(z3.ULT(k, zx(need, 64)), z3.Select(b.arr, k) == z3.Extract(7, 0, t)), 'the last partial byte holds the pending bits')
def window(arr, k, L):
    """bytes k-8 .. k+7 as one 128-bit word, and which of its bits lie inside the buffer"""
    W = z3.Concat(*[z3.Select(arr, k + i) for i in range(7, -9, -1)])
    M = z3.Concat(*[z3.If(k + i < L, B(255, 8), B(0, 8)) for i in range(7, -9, -1)])
    return W, M
def dec_fields(g): return by_order(g, SV + '::Decoder', ['p', 'p', 'i64', 'i64', 'i32', 'i8', 'i64', 'i64'])
def dec_inv(W, M, r, scratch, word):
    """scratch holds the 64 bits from position 8k - r on; word the eight bytes from k on (both up to the end of the buffer)"""
    at = z3.ZeroExt(96, B(64, 32) - r)
    return [('scratch holds the next 64 bits', (scratch ^ z3.Extract(63, 0, z3.LShR(W, at))) & z3.Extract(63, 0, z3.LShR(M, at)) == 0),
            ('the word read last is the one at the cursor', (word ^ z3.Extract(127, 64, W)) & z3.Extract(127, 64, M) == 0)]
def decoder_ctor(c):
    """ensures position 0: cursor at the first byte, scratch holding the first 64 bits, bit width and mask of the modulus"""
    g = eng(c); g.timeout = 40000; st = start(g); n = dec_fields(g); cur, end, word, scr, rb, bw, mask, mo = n
    fs = [f for f in c.fns(SV + '::Decoder::Decoder') if len(f.ps) == 2]
    if len(fs) != 1: raise Missing2('Decoder')
    f = fs[0]; st.fn = f; L = z3.BitVec('L', 64); arr = z3.Array('bytes', z3.BitVecSort(64), z3.BitVecSort(8)); m = z3.BitVec('m', 64)
    st.assume(z3.And(z3.ULT(L, KMAX), z3.UGE(m, 2), z3.ULE(m, 2 ** 62)))
    by = g.new_root(st, 'bytes', VecV(I8, L, arr, STRING)); o = g.new_root(st, 'dec', RecV(rec_ty(SV + '::Decoder'), {}, 'd'))
    out = call(g, st, f, [by, m], this=o); no_abort(g, 'never aborts'); cover(g, out)
    for y, _ in out:
        R = lambda x: g.read(y, o.f(x))
        g.oblige(y, And(R(cur).off == 0, R(end).off - R(cur).off == L, R(rb) == 0), 'reading starts at the first bit and ends behind the last byte')
        W, M = window(arr, R(cur).off, L)
        for nm, i in dec_inv(W, M, R(rb), R(scr), R(word)): g.oblige(y, i, nm)
        w = zx(R(bw), 64)
        g.oblige(y, And(z3.UGE(w, 1), z3.ULE(w, 62), z3.LShR(m - 1, w) == 0, z3.LShR(m - 1, w - 1) == 1), 'the width is that of the largest value')
        g.oblige(y, And(R(mask) == (B(1, 64) << w) - 1, R(mo) == m), 'mask and modulus')
def decoder_read(c, part):
    """requires the decoder invariant at bit position 8k - r; ensures the value of the w bits there (less the modulus if not below it),
    and the invariant at the position w bits further on"""
    g = eng(c); st = start(g); n = dec_fields(g); cur, end, word, scr, rb, bw, mask, mo = n
    f = c.fn(SV + '::Decoder::ReadValue'); st.fn = f; L = z3.BitVec('L', 64); arr = z3.Array('bytes', z3.BitVecSort(64), z3.BitVecSort(8)); m = z3.BitVec('m', 64)
    w8 = z3.BitVec('w', 8); k = z3.BitVec('k', 64); r = z3.BitVec('r', 32); j1, j2 = z3.BitVecs('junk1 junk2', 64)
    st.assume(z3.And(z3.ULT(L, KMAX), z3.ULT(k, KMAX), r >= 0, r <= 63, z3.ULE(zx(r, 64), 8 * k), z3.UGE(w8, 1), z3.ULE(w8, 62)))
    W, M = window(arr, k, L)
    # any scratch and word satisfying the invariant: the right bits inside the buffer, anything beyond it
    def pre_of(M):
        at = z3.ZeroExt(96, B(64, 32) - r); xs, ms = z3.Extract(63, 0, z3.LShR(W, at)), z3.Extract(63, 0, z3.LShR(M, at)); xw, mw = z3.Extract(127, 64, W), z3.Extract(127, 64, M)
        return (xs & ms) | (j1 & ~ms), (xw & mw) | (j2 & ~mw)
    sc, wd = pre_of(M); s0 = st.copy()
    for nm, i in dec_inv(W, M, r, sc, wd): g.oblige(s0, i, 'lemma: ' + nm + ' before')
    by = g.new_root(st, 'bytes', VecV(I8, L, arr, STRING)); o = g.new_root(st, 'dec', RecV(rec_ty(SV + '::Decoder'), {}, 'd'))
    for nm, x in ((word, wd), (scr, sc), (rb, r), (bw, w8), (mask, (B(1, 64) << zx(w8, 64)) - 1), (mo, m), (cur, PtrV(None, F, by, k)), (end, PtrV(None, F, by, L))): g.write(st, o.f(nm), x)
    # the value at the position lies inside the buffer
    st.assume(8 * k - zx(r, 64) + zx(w8, 64) <= 8 * L)
    out = call(g, st, f, [], this=o); no_abort(g, 'never aborts'); cover(g, out)
    val = z3.Extract(63, 0, z3.LShR(W, z3.ZeroExt(96, B(64, 32) - r))) & ((B(1, 64) << zx(w8, 64)) - 1)
    for y, res in out:
        R = lambda x: g.read(y, o.f(x)); k2 = R(cur).off; r2 = R(rb)
        g.oblige(y, And(8 * k2 - z3.SignExt(32, r2) == 8 * k - zx(r, 64) + zx(w8, 64), r2 >= 0, r2 <= 63, z3.ULE(k, k2), z3.ULE(k2 - k, 8)), 'position advances by the bit width, the cursor by at most eight bytes')
        g.oblige(y, And(R(end).off == L, R(bw) == w8, R(mask) == (B(1, 64) << zx(w8, 64)) - 1, R(mo) == m), 'end, width, mask and modulus are unchanged')
        if part is None:
            for e in list(range(-8, 8)) + [None]:
                z = y.copy(); z.assume(L == k + e if e is not None else k + 8 <= L)
                if not g.feasible(z): continue
                cut = lambda t: simp(z3.substitute(t, *([(L, k + e)] if e is not None else [(z3.If(k + i < L, B(255, 8), B(0, 8)), B(255, 8)) for i in range(-8, 8)])))
                z.pc = [cut(t) for t in z.pc] if e is not None else z.pc
                g.oblige(z, cut(res == z3.If(z3.ULT(val, m), val, val - m)), 'the value is the one of the w bits at the position, reduced (%s bytes left)' % ('at least 8' if e is None else e))
            continue
        # the rest by cases: how far the cursor moved, how many bytes are left there
        for d in part:
            for e in list(range(-16, 8)) + [None]:
                z = y.copy(); z.assume(k2 == k + d); z.assume(L == k + d + e if e is not None else k + d + 8 <= L)
                if not g.feasible(z): continue
                LL = k + d + e if e is not None else L
                sub = [(z3.Select(arr, simp(k2 + i)), z3.Select(arr, k + d + i)) for i in range(8)] + ([(L, LL)] if e is not None else [])
                cut = lambda t: simp(z3.substitute(t, *sub))
                if e is None:       # every byte concerned lies inside: the masks are all ones
                    ones = [(z3.If(k + i < L, B(255, 8), B(0, 8)), B(255, 8)) for i in range(-8, 8)]
                    cut = lambda t: simp(z3.substitute(z3.substitute(t, *ones), *sub)); M2 = B(2 ** 128 - 1, 128)
                else: z.pc = [cut(c) for c in z.pc]; M2 = cut(window(arr, k + d, L)[1])
                W2, _ = window(arr, k + d, L); case = ' (cursor moved %d bytes, %s left)' % (d, 'at least 8' if e is None else max(e, 0))
                for nm, i in dec_inv(W2, M2, r2, cut(R(scr)), cut(R(word))):
                    g.oblige(z, i, nm + ' afterwards' + case)
def read_case(d):
    def unit(c): decoder_read(c, [d])
    unit.__name__ = 'decoder_read_%d' % d; unit.__doc__ = decoder_read.__doc__ + ' - invariant part, cursor moving by %d bytes' % d
    return unit
def decoder_value(c): decoder_read(c, None)
decoder_value.__doc__ = decoder_read.__doc__ + ' - value part'
# ---------------------------------------------------------------- element-wise codec
def bits(arr, pos, nbytes=9):
    """72 bits of the buffer from the byte holding the bit position on, shifted to start at the position"""
    k = simp(z3.LShR(pos, 3)); W = z3.Concat(*[z3.Select(arr, k + i) for i in range(nbytes - 1, -1, -1)])
    return W, zx(pos & 7, 8 * nbytes), k
def elem_setup(c, name):
    g = eng(c); st = start(g); f = c.fn(SV + '::' + name); st.fn = f; w = width(st); i = z3.BitVec('index', 32)
    L = z3.BitVec('L', 64); arr = z3.Array('bytes', z3.BitVecSort(64), z3.BitVecSort(8)); kb, ob = z3.BitVec('byte', 28), z3.BitVec('bit', 3); pos = z3.Concat(B(0, 1), kb, ob)     # any position below 2^31
    # positions fit: i, w >= 0 and (i+1)*w <= 8L < 2^31
    st.assume(z3.And(i >= 0, i + 1 > 0, pos + w >= 0, z3.ULT(L, 2 ** 28), z3.ULE(zx(pos + w, 64), 8 * L)))
    g.A.products = [(i, w, pos), (i + 1, w, pos + w)]     # pos names index*w; the second by distributivity
    g.bounded = 9; return g, st, f, w, i, L, arr, zx(pos, 64)
def unpack_at(c):
    "ensures the value of the w bits from position index*w on"
    g, st, f, w, i, L, arr, pos = elem_setup(c, 'UnpackUint64FromByteStringAt')
    by = g.new_root(st, 'bytes', VecV(I8, L, arr, STRING))
    out = call(g, st, f, [i, w, by]); no_abort(g, 'never aborts'); cover(g, out)
    W, o, k = bits(arr, pos); val = z3.Extract(63, 0, z3.LShR(W, o)) & ((B(1, 64) << zx(w, 64)) - 1)
    for y, r in out: g.oblige(y, r == val, 'the value is the one of the w bits at the position')
def pack_at(c):
    """requires zero bits from position index*w on, a value below 2^w; ensures the w bits there hold the value, every other bit unchanged"""
    g, st, f, w, i, L, arr, pos = elem_setup(c, 'PackUint64IntoByteStringAt'); v = z3.BitVec('v', 64); st.assume(z3.LShR(v, zx(w, 64)) == 0)
    pb, mo, bw, ne, br = by_order2(g)
    o = g.new_root(st, 'vec', RecV(rec_ty(SV), {}, 'sv')); g.write(st, o.f(pb), VecV(I8, L, arr, STRING)); g.write(st, o.f(bw), w)
    W, sh, k = bits(arr, pos); st.assume(z3.LShR(W, sh) == 0)
    out = call(g, st, f, [i, v], this=o); no_abort(g, 'never aborts'); cover(g, out); j = z3.BitVec('j', 64)
    for y, _ in out:
        a2 = g.read(y, o.f(pb)); W2 = z3.Concat(*[z3.Select(a2.arr, k + n) for n in range(8, -1, -1)])
        g.oblige(y, W2 == W | (zx(v, 72) << sh), 'the w bits at the position hold the value, the bits around them are unchanged')
        g.oblige(y, z3.Implies(z3.Or(z3.ULT(j, k), z3.UGT(j, k + 8)), z3.Select(a2.arr, j) == z3.Select(arr, j)), 'other bytes are unchanged')
        g.oblige(y, a2.len == L, 'length is unchanged')
def by_order2(g):
    fl = g.rec_fields(rec_ty(SV))
    if fl is None or [t.k if t is not STRING else 's' for _, t in fl] != ['s', 'int', 'int', 'int', 'bool'] or [t.w for _, t in fl[1:4]] != [64, 32, 64]: raise Unsupported('members of SecAggVector')
    return [n for n, _ in fl]
def bit_width(c):
    "ensures the width is that of the largest value below the modulus, 1 .. 62 for every supported modulus"
    g = eng(c); st = start(g); f = c.fn(SV + '::GetBitWidth'); m = z3.BitVec('m', 64); st.assume(z3.And(z3.UGE(m, 2), z3.ULE(m, 2 ** 62)))
    out = call(g, st, f, [m]); cover(g, out)
    for y, w in out:
        w = z3.SignExt(32, w); g.oblige(y, And(w >= 1, w <= 62), 'between 1 and 62 bits')
        g.oblige(y, And(z3.LShR(m - 1, w) == 0, z3.LShR(m - 1, w - 1) == 1), 'exactly wide enough for the largest value')

# ---------------------------------------------------------------- whole vectors, by the contracts above
# elem(S, w, j): the number in bits j*w .. j*w+w-1 of the bytes S; elements with different j occupy different bits
I = z3.IntSort(); j_, e_ = z3.Ints('j!q e!q')
def whole(c):
    g = c.engine(TUS, proto=False); g.safety = {'index', 'overflow'}
    S = g.str_sort(); g.elem = z3.Function('elem', S, I, I, I); g.fits = z3.Function('fits', I, I, z3.BoolSort()); g.W = z3.Function('width', I, I)
    pb, mo, bw, ne, br = by_order2(g); g.names = (pb, mo, bw, ne, br)
    el = g.elem
    def width_c(g, s, obj, a, e):
        m = g.val(s, a[0]); w = g.W(m)
        s.assume(z3.Implies(z3.And(m >= 2, m <= 2 ** 62), z3.And(w >= 1, w <= 62, z3.ForAll([e_], z3.Implies(z3.And(e_ >= 0, e_ < m), g.fits(e_, w)), patterns=[g.fits(e_, w)])))); s.assume(z3.And(w >= 0, w <= 64))
        return [(s, w)]
    g.contracts[SV + '::GetBitWidth'] = width_c
    def pack_c(g, s, obj, a, e):
        i, x = g.val(s, a[0]), g.val(s, a[1]); S0 = g.read(s, obj.f(pb)); w = g.read(s, obj.f(bw)); S1 = g.fresh_const('packed', S)
        g.oblige(s, z3.And(i >= 0, (i + 1) * w <= 8 * g.strlen(S0)), 'the element lies inside the buffer', e.get('l', 0))
        g.oblige(s, z3.And(el(S0, w, i) == 0, g.fits(x, w)), 'its bits are still zero and the value fits', e.get('l', 0))
        s.assume(g.strlen(S1) == g.strlen(S0)); s.assume(el(S1, w, i) == x)
        s.assume(z3.ForAll([j_], z3.Implies(j_ != i, el(S1, w, j_) == el(S0, w, j_)), patterns=[el(S1, w, j_)])); g.write(s, obj.f(pb), S1)
        return [(s, UnitV())]
    g.contracts[SV + '::PackUint64IntoByteStringAt'] = pack_c
    def unpack_c(g, s, obj, a, e):
        i, w, b = [g.val(s, x) for x in a]
        g.oblige(s, z3.And(i >= 0, (i + 1) * w <= 8 * g.strlen(b)), 'the element lies inside the buffer', e.get('l', 0))
        r = el(b, w, i); s.assume(z3.And(r >= 0, r < 2 ** 64)); return [(s, r)]
    g.contracts[SV + '::UnpackUint64FromByteStringAt'] = unpack_c
    def coder_c(g, s, ty, a, e):
        if len(a) != 3: return None
        m, w, n = [g.val(s, x) for x in a]
        g.oblige(s, z3.And(w == g.W(m), w >= 1), 'coder for the width of the modulus', e.get('l', 0))
        return [(s, RecV(ty, {'$m': m, '$w': w, '$n': n, '$cnt': z3.IntVal(0), '$v': z3.K(I, z3.IntVal(0))}))]
    g.contracts[SV + '::Coder::Coder'] = coder_c
    def write_c(g, s, obj, a, e):
        r = g.read(s, obj).fields; x = g.val(s, a[0])
        g.oblige(s, z3.And(r['$cnt'] < r['$n'], g.fits(x, r['$w'])), 'room is left and the value fits', e.get('l', 0))
        g.write(s, obj.f('$v'), z3.Store(r['$v'], r['$cnt'], x)); g.write(s, obj.f('$cnt'), r['$cnt'] + 1); return [(s, UnitV())]
    g.contracts[SV + '::Coder::WriteValue'] = write_c
    def create_c(g, s, obj, a, e):
        r = g.read(s, obj).fields; b = g.fresh_const('coded', S); n, w = r['$n'], r['$w']
        s.assume(g.strlen(b) == (n * w + 7) / 8)
        s.assume(z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < r['$cnt']), el(b, w, j_) == r['$v'][j_]), patterns=[el(b, w, j_)]))
        return [(s, RecV(rec_ty(SV), {pb: b, mo: r['$m'], bw: w, ne: n, br: T}))]
    g.contracts[SV + '::Coder::Create'] = create_c
    def dec_c(g, s, ty, a, e):
        if len(a) == 1: v = g.val(s, a[0]); b, m = g.rget(s, v, pb, STRING), g.rget(s, v, mo, U64)
        else: b, m = g.val(s, a[0]), g.val(s, a[1])
        return [(s, RecV(ty, {'$b': b, '$m': m, '$i': z3.IntVal(0)}))]
    g.contracts[SV + '::Decoder::Decoder'] = dec_c
    def read_c(g, s, obj, a, e):
        r = g.read(s, obj).fields; b, m, i = r['$b'], r['$m'], r['$i']; w = g.W(m); x = el(b, w, i)
        g.oblige(s, (i + 1) * w <= 8 * g.strlen(b), 'a value is left to read', e.get('l', 0))
        s.assume(z3.And(x >= 0, x < 2 ** 62)); g.write(s, obj.f('$i'), i + 1); return [(s, z3.If(x < m, x, x - m))]
    g.contracts[SV + '::Decoder::ReadValue'] = read_c
    zero = g.lib.str_repeat
    def rep(st, n, ch):
        r = zero(st, n, ch)
        if cint(ch) == 0:
            w_ = z3.Int('w!q'); st.assume(z3.ForAll([w_, j_], el(r, w_, j_) == 0, patterns=[el(r, w_, j_)]))
        return r
    g.lib.str_repeat = rep
    def hint(L):
        out = []
        def vals(s):
            for root, v in list(s.cells.items()):
                if isinstance(v, RecV): yield root, v
        for root, v in vals(L.st):
            f = v.fields
            if v.ty.n == SV and pb in f and z3.is_expr(f.get(pb)) and f[pb].sort() == S:
                b, w = f[pb], f.get(bw)
                if w is None: continue
                out.append(('bytes keep their length', g.strlen(b) == g.strlen(g.read(L.pre, LV(root).f(pb)))))
                for nm, sp in spans(L):
                    out.append(('elements before the counter are those of ' + nm, z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < L.k), el(b, w, j_) == sp[j_]), patterns=[el(b, w, j_)])))
                out.append(('elements from the counter on are zero', z3.ForAll([j_], z3.Implies(j_ >= L.k, el(b, w, j_) == 0), patterns=[el(b, w, j_)])))
            if '$cnt' in f:
                out.append(('coder has written as many values as rounds', f['$cnt'] == L.k))
                for nm, sp in spans(L): out.append(('coder values are those of ' + nm, z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < L.k), f['$v'][j_] == sp[j_]))))
            if '$i' in f: out.append(('decoder is at the counter', f['$i'] == L.k))
        for fn in getattr(g, 'extra_hints', []): out += fn(L)
        return out
    g.loop_hints.append(hint)
    def spans(L): return getattr(g, 'sources', [])
    return g, names2(g)
def names2(g): return g.names
def big(n, w): return z3.And(n >= 0, n * w + 7 < 2 ** 31, n < 2 ** 31)
def mul_lemma(st, n, w, k=None):
    "i < n, w >= 0 implies (i+1)*w <= n*w"
    i = z3.Int('i!m'); st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), (i + 1) * w <= n * w), patterns=[(i + 1) * w]))
def vec_setup(c, branchless):
    g, (pb, mo, bw, ne, br) = whole(c); st = start(g); m, n = z3.Ints('m n'); arr = z3.Array('vals', I, I); st.assume(z3.And(m >= 0, m < 2 ** 64, n >= 0))
    st.assume(forall_i(0, n, lambda i: z3.And(arr[i] >= 0, arr[i] < 2 ** 64)))
    return g, st, m, n, arr, (pb, mo, bw, ne, br)
def construct(c, branchless):
    g, st, m, n, arr, (pb, mo, bw, ne, br) = vec_setup(c, branchless); w = g.W(m); st.assume(big(n, w)); g.sources = [('the span', arr)]
    g.extra_hints = [lambda L: [('values before the counter are below the modulus', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < L.k), arr[j_] < m)))]]
    fs = [f for f in c.fns(SV + '::SecAggVector') if len(f.ps) == 3 and f.ps[0][2].deref() is not STRING]
    if len(fs) != 1: raise Unsupported('constructor')
    f = fs[0]; st.fn = f; mul_lemma(st, n, w)
    v = g.new_root(st, 'v', VecV(U64, n, arr)); o = g.new_root(st, 'vec', RecV(rec_ty(SV), {}, 'sv'))
    out = call(g, st, f, [ViewV(U64, v, g.A.idx(0), n), m, T if branchless else F], this=o); cover(g, out)
    good = z3.And(m >= 2, m <= 2 ** 62, forall_i(0, n, lambda i: arr[i] < m))
    no_abort(g, 'a supported modulus and values below it are accepted', good)
    i = z3.Int('i')
    for y, _ in out:
        R = lambda x: g.read(y, o.f(x))
        g.oblige(y, z3.And(m >= 2, m <= 2 ** 62), 'an unsupported modulus is refused')
        g.oblige(y, z3.Implies(z3.And(i >= 0, i < n), arr[i] < m), 'a value not below the modulus is refused')
        g.oblige(y, z3.And(R(mo) == m, R(ne) == n, R(bw) == w), 'modulus, number of elements and width are kept')
        g.oblige(y, g.strlen(R(pb)) == (n * w + 7) / 8, 'the packed form has the documented length')
        g.oblige(y, z3.Implies(z3.And(i >= 0, i < n), g.elem(R(pb), w, i) == arr[i]), 'every element holds the number put in')
        g.oblige(y, R(br) == (T if branchless else F), 'the reader chosen is the one of the writer')
def construct_plain(c):
    """requires fewer than 2^31 bits; ensures: returns exactly for a modulus in 2 .. 2^62 and values below it; the packed form has ceil(n*w/8) bytes,
    element j of it being value j (element-wise packing)"""
    construct(c, False)
def construct_branchless(c):
    """the same for the branch-free packing through the streaming writer"""
    construct(c, True)
def sv(g, st, m, n, S, w, br): 
    pb, mo, bw, ne, b = g.names; return g.new_root(st, 'vec', RecV(rec_ty(SV), {pb: S, mo: m, bw: w, ne: n, b: br}))
def valid(g, st, name='S'):
    """a vector as the constructors leave it"""
    m, n = z3.Ints('m n'); w = g.W(m); S = z3.Const(name, g.str_sort())
    st.assume(z3.And(m >= 2, m <= 2 ** 62, w >= 1, w <= 62, g.strlen(S) == (n * w + 7) / 8)); st.assume(big(n, w)); mul_lemma(st, n, w)
    return m, n, w, S
def read_back(c, branchless):
    g, names = whole(c); st = start(g); f = c.fn(SV + '::GetAsUint64Vector'); st.fn = f; m, n, w, S = valid(g, st)
    if branchless: st.assume(forall_i(0, n, lambda i: g.elem(S, w, i) < m))
    def out_hint(L):
        r = []
        for lv in L.mods:
            x = g.read(L.st, lv)
            if isinstance(x, VecV) and x.arr.sort().range() == I:
                r.append(('vector holds the elements read', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < L.k), x.arr[j_] == g.elem(S, w, j_)))))
        return r
    g.extra_hints = [out_hint]
    o = sv(g, st, m, n, S, w, T if branchless else F); out = call(g, st, f, [], this=o); no_abort(g, 'a valid vector can be read'); cover(g, out); i = z3.Int('i')
    for y, r in out:
        g.oblige(y, r.len == n, 'as many numbers as elements')
        g.oblige(y, z3.Implies(z3.And(i >= 0, i < n), r.arr[i] == g.elem(S, w, i)), 'number i is element i')
def read_back_plain(c):
    "ensures GetAsUint64Vector returns the elements in order (element-wise reader)"
    read_back(c, False)
def read_back_branchless(c):
    "ensures GetAsUint64Vector returns the elements in order (streaming reader; elements below the modulus)"
    read_back(c, True)
def from_bytes(c):
    "ensures: accepted exactly for a supported modulus and the documented number of bytes, which are kept"
    g, names = whole(c); pb, mo, bw, ne, br = names; st = start(g); m, n = z3.Ints('m n'); S = z3.Const('S', g.str_sort()); st.assume(z3.And(m >= 0, m < 2 ** 64, g.strlen(S) >= 0)); w = g.W(m); st.assume(big(n, w))
    fs = [f for f in c.fns(SV + '::SecAggVector') if len(f.ps) == 4]
    if len(fs) != 1: raise Unsupported('constructor')
    f = fs[0]; st.fn = f; b = z3.Bool('branchless'); o = g.new_root(st, 'vec', RecV(rec_ty(SV), {}, 'sv'))
    out = call(g, st, f, [g.new_root(st, 's', S), m, n, b], this=o); cover(g, out)
    no_abort(g, 'valid packed bytes are accepted', z3.And(m >= 2, m <= 2 ** 62, g.strlen(S) == (n * w + 7) / 8))
    for y, _ in out:
        R = lambda x: g.read(y, o.f(x))
        g.oblige(y, z3.And(m >= 2, m <= 2 ** 62), 'an unsupported modulus is refused'); g.oblige(y, g.strlen(S) == (n * w + 7) / 8, 'bytes of another length are refused')
        g.oblige(y, z3.And(R(pb) == S, R(mo) == m, R(ne) == n, R(bw) == w, R(br) == b), 'bytes, modulus and number of elements are kept')
def lemmas(c):
    "arithmetic used above: elements lie inside the buffer and do not overlap"
    g = c.engine(TUS, proto=False); st = start(g); i, j, n, w, d = z3.Ints('i j n w d'); st.fn = c.fn(SV + '::GetBitWidth')
    st.assume(z3.And(i >= 0, j >= 0, w >= 1, n >= 0))
    g.oblige(st, z3.Implies(z3.And(i < n, d == n - i - 1), d * w >= 0), 'product of non-negative numbers')
    s = st.copy(); s.assume(z3.And(i < n, d == n - i - 1, d * w >= 0, n * w == (i + 1) * w + d * w)); g.oblige(s, (i + 1) * w <= n * w, 'element i < n ends before bit n*w')
    s = st.copy(); s.assume(z3.And(i < j, d == j - i - 1, d * w >= 0, j * w == i * w + w + d * w)); g.oblige(s, i * w + w <= j * w, 'different elements occupy different bits')

UV = NS + 'SecAggUnpackedVector'
def amod(g):
    def c(g, s, obj, a, e):
        x, y, m = [g.val(s, v) for v in a]
        g.oblige(s, z3.And(x >= 0, y >= 0, x < m, y < m, m <= 2 ** 62), 'precondition of AddModOpt (operands below the modulus; proved exact in C01)', e.get('l', 0))
        return [(s, z3.If(x + y >= m, x + y - m, x + y))]
    g.contracts[NS + 'AddModOpt'] = c
def uv(g):
    fl = [n for n, _ in g.rec_fields(rec_ty(UV))]
    if len(fl) != 2 or fl[0] != '$base': raise Unsupported('members of the unpacked vector')
    return fl
def uvec(g, st, name, m, n):
    """an unpacked vector with modulus m and n elements below it"""
    b, mo = uv(g); arr = z3.Array(name, I, I); st.assume(forall_i(0, n, lambda i: z3.And(arr[i] >= 0, arr[i] < m)))
    vt = dict(g.rec_fields(rec_ty(UV)))[b]
    return g.new_root(st, name, RecV(rec_ty(UV), {b: VecV(U64, n, arr, vt), mo: m})), arr
def add1(c, packed):
    g, names = whole(c); amod(g); st = start(g); b, mo = uv(g)
    fs = [f for f in c.fns(UV + '::Add') if f.ps[0][2].deref().n == (SV if packed else UV)]
    if len(fs) != 1: raise Unsupported('Add')
    f = fs[0]; st.fn = f
    m, n, w, S = valid(g, st); m2, n2 = z3.Ints('m2 n2'); st.assume(z3.And(m2 >= 2, m2 <= 2 ** 62, n2 >= 0, n2 < 2 ** 31))
    o, a = uvec(g, st, 'a', m2, n2)
    if packed:
        st.assume(forall_i(0, n, lambda i: z3.And(g.elem(S, w, i) >= 0, g.elem(S, w, i) < m))); p = sv(g, st, m, n, S, w, z3.Bool('br')); ot = lambda i: g.elem(S, w, i)
    else: p, b2 = uvec(g, st, 'b', m, n); ot = lambda i: b2[i]
    want = lambda i: z3.If(a[i] + ot(i) >= m, a[i] + ot(i) - m, a[i] + ot(i))
    def hint(L):
        x = g.read(L.st, o.f(b)).arr
        return [('elements before the counter are summed', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < L.k), x[j_] == want(j_)))),
                ('elements from the counter on are unchanged', z3.ForAll([j_], z3.Implies(j_ >= L.k, x[j_] == a[j_])))]
    g.extra_hints = [hint]
    out = call(g, st, f, [p], this=o); cover(g, out); i = z3.Int('i')
    no_abort(g, 'vectors of the same length and modulus can be added', z3.And(m == m2, n == n2))
    for y, _ in out:
        r = g.read(y, o.f(b)); g.oblige(y, z3.And(m == m2, n == n2), 'vectors of another length or modulus are refused')
        g.oblige(y, z3.And(r.len == n, g.read(y, o.f(mo)) == m), 'length and modulus are kept')
        g.oblige(y, z3.Implies(z3.And(i >= 0, i < n), r.arr[i] == want(i)), 'every element is the sum modulo the modulus')
def add_packed(c):
    "requires values below the modulus; ensures: returns exactly for equal lengths and moduli; every element is the sum modulo the modulus (packed operand)"
    add1(c, True)
def add_unpacked(c):
    "the same for an unpacked operand"
    add1(c, False)
def unpack(c):
    "ensures an unpacked vector made from a packed one has its elements, length and modulus"
    g, names = whole(c); st = start(g); b, mo = uv(g); m, n, w, S = valid(g, st); st.assume(forall_i(0, n, lambda i: z3.And(g.elem(S, w, i) >= 0, g.elem(S, w, i) < m)))
    fs = [f for f in c.fns(UV + '::SecAggUnpackedVector') if len(f.ps) == 1 and f.ps[0][2].deref().n == SV]
    if len(fs) != 1: raise Unsupported('constructor')
    f = fs[0]; st.fn = f; o = g.new_root(st, 'u', RecV(rec_ty(UV), {}, 'u')); p = sv(g, st, m, n, S, w, z3.Bool('br'))
    g.extra_hints = [lambda L: [('elements before the counter are read', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < L.k), g.read(L.st, o.f(b)).arr[j_] == g.elem(S, w, j_))))]]
    out = call(g, st, f, [p], this=o); cover(g, out); no_abort(g, 'any valid vector can be unpacked'); i = z3.Int('i')
    for y, _ in out:
        r = g.read(y, o.f(b)); g.oblige(y, z3.And(r.len == n, g.read(y, o.f(mo)) == m), 'length and modulus are kept')
        g.oblige(y, z3.Implies(z3.And(i >= 0, i < n), r.arr[i] == g.elem(S, w, i)), 'every element is the packed one')
UM = NS + 'SecAggUnpackedVectorMap'
def mapv(g, st, cls, name):
    fl = g.rec_fields(rec_ty(cls))
    if len(fl) != 1 or fl[0][0] != '$base': raise Unsupported('members of ' + cls)
    return g.new_root(st, name, RecV(rec_ty(cls), {'$base': g.fresh(st, fl[0][1], name, exact_name=True)}))
def add_maps1(c, packed):
    """the sum of two vectors is a name here: vector addition is under contract above"""
    g = c.engine(TUS, proto=False); g.safety = {'index'}; st = start(g); OM = NS + 'SecAggVectorMap' if packed else UM
    fs = [f for f in c.fns(UM + '::Add') if f.ps[0][2].deref().n == OM]
    if len(fs) != 1: raise Unsupported('Add')
    f = fs[0]; st.fn = f; o = mapv(g, st, UM, 'a'); p = mapv(g, st, OM, 'b'); A, Bm = g.read(st, o.f('$base')), g.read(st, p.f('$base'))
    SUM = z3.Function('sum', A.val.sort().range(), Bm.val.sort().range(), A.val.sort().range())
    def add(g, s, obj, a, e):
        g.write(s, obj, g.unpack(s, SUM(g.pack(s, g.read(s, obj), rec_ty(UV)), g.pack(s, g.val(s, a[0]), a[0].ty if isinstance(a[0], RecV) else g.val(s, a[0]).ty)), rec_ty(UV))); return [(s, UnitV())]
    g.contracts[UV + '::Add'] = add
    k = z3.Const('k!q', A.dom.sort().domain())
    def hint(L):
        x = g.read(L.st, o.f('$base')); vis = getattr(L, 'visited', None)
        if vis is None: return []
        vis = g.read(L.st, vis)
        return [('vectors already visited are summed', z3.ForAll([k], z3.Implies(vis[k], x.val[k] == SUM(A.val[k], Bm.val[k])))), ('the others are unchanged', z3.ForAll([k], z3.Implies(Not(vis[k]), x.val[k] == A.val[k]))),
                ('names are unchanged', And(x.dom == A.dom, x.size == A.size)), ('visited names are in the other map', z3.ForAll([k], z3.Implies(vis[k], Bm.dom[k])))]
    g.loop_hints.append(hint)
    out = call(g, st, f, [p], this=o); cover(g, out); i = z3.Const('name', k.sort())
    no_abort(g, 'maps with the same names can be added', And(A.dom == Bm.dom, A.size == Bm.size))
    for y, _ in out:
        r = g.read(y, o.f('$base')); g.oblige(y, z3.Implies(A.dom[i], Bm.dom[i]), 'a map lacking a name is refused'); g.oblige(y, And(r.dom == A.dom, r.size == A.size), 'the names are kept')
        g.oblige(y, z3.Implies(A.dom[i], r.val[i] == SUM(A.val[i], Bm.val[i])), 'every vector is the sum of the two of its name')
def add_map_packed(c):
    "ensures: returns only if the other map has every name; every vector becomes the sum with the vector of the same name (packed operand)"
    add_maps1(c, True)
def add_map_unpacked(c):
    "the same for an unpacked operand"
    add_maps1(c, False)
def add_maps(c):
    """requires two maps with the same names whose vectors have equal lengths and moduli, values below them;
    ensures the result has exactly these names, every vector being the element-wise sum modulo its modulus"""
    g = c.engine(TUS, proto=False); g.safety = {'index'}; amod(g); st = start(g); f = c.fn(UM + '::AddMaps'); st.fn = f
    a, b = mapv(g, st, UM, 'a'), mapv(g, st, UM, 'b'); A, Bm = g.read(st, a.f('$base')), g.read(st, b.f('$base')); U = A.val.sort().range(); bn, mo = uv(g)
    def acc(t, st0=None):
        r = g.unpack(st, t, rec_ty(UV)); v = g.rget(st, r, bn, dict(g.rec_fields(rec_ty(UV)))[bn]); return v.len, v.arr, g.rget(st, r, mo, U64)
    k = z3.Const('k!q', A.dom.sort().domain())
    (la, ea, ma), (lb, eb, mb) = acc(A.val[k]), acc(Bm.val[k])
    inr = lambda e, l, m: z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < l), z3.And(e[j_] >= 0, e[j_] < m)))
    st.assume(z3.ForAll([k], z3.Implies(A.dom[k], z3.And(la >= 0, la < 2 ** 31, la == lb, ma == mb, ma >= 2, ma <= 2 ** 62))))
    st.assume(z3.ForAll([k, j_], z3.Implies(z3.And(A.dom[k], j_ >= 0, j_ < la), z3.And(ea[j_] >= 0, ea[j_] < ma, eb[j_] >= 0, eb[j_] < ma))))
    st.assume(z3.And(A.dom == Bm.dom, A.size == Bm.size))
    want = lambda x, y, m, j: z3.If(x[j] + y[j] >= m, x[j] + y[j] - m, x[j] + y[j])
    def done(R, vis):
        lr, er, mr = acc(R.val[k])
        return [('names so far are those visited', z3.ForAll([k], R.dom[k] == vis[k])), ('lengths and moduli', z3.ForAll([k], z3.Implies(vis[k], z3.And(lr == la, mr == ma)))),
                ('elements are sums', z3.ForAll([k, j_], z3.Implies(z3.And(vis[k], j_ >= 0, j_ < la), er[j_] == want(ea, eb, ma, j_))))]
    def hint(L):
        out = []
        if getattr(L, 'visited', None) is not None:
            for lv in L.mods:
                x = g.read(L.st, lv)
                if isinstance(x, MapV): out += done(x, g.read(L.st, L.visited))
            return out
        for lv in L.mods:
            x = g.read(L.st, lv)
            if isinstance(x, VecV) and x.arr.sort().range() == I:
                ck = cur(L.st)
                if ck is None: continue
                (l1, e1, m1), (l2, e2, m2) = acc(A.val[ck]), acc(Bm.val[ck])
                out += [('sums before the counter', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < L.k), x.arr[j_] == want(e1, e2, m1, j_))))]
        return out
    def cur(s):
        for r, v in reversed(list(s.cells.items())):
            if 'curkey' in str(r): return v
    g.loop_hints.append(hint)
    out = call(g, st, f, [a, b]); cover(g, out); no_abort(g, 'maps with the same names can be added'); i = z3.Const('name', k.sort()); j = z3.Int('j')
    (l1, e1, m1), (l2, e2, m2) = acc(A.val[i]), acc(Bm.val[i])
    for y, r in out:
        R = g.optval(y, r) if isinstance(r, OptV) else g.read(y, r.lv); R = g.rget(y, R, '$base', g.rec_fields(rec_ty(UM))[0][1]); lr, er, mr = acc(R.val[i])
        g.oblige(y, R.dom[i] == A.dom[i], 'the names are those of the maps'); g.oblige(y, z3.Implies(A.dom[i], z3.And(lr == l1, mr == m1)), 'lengths and moduli are kept')
        g.oblige(y, z3.Implies(z3.And(A.dom[i], j >= 0, j < l1), er[j] == want(e1, e2, m1, j)), 'every element is the sum modulo the modulus')
UNITS = [read_case(d) for d in (8, 7, 6, 5, 4, 3, 2, 1, 0)] + [pack_at, decoder_value, unpack_at, coder_write, coder_create, decoder_ctor, bit_width,
         construct_plain, construct_branchless, read_back_plain, read_back_branchless, from_bytes, lemmas, add_packed, add_unpacked, unpack, add_map_packed, add_map_unpacked, add_maps]
HARNESS = dict(main='C03_harness.cc', srcs=['fcp/secagg/shared/secagg_vector.cc'], secs=6)
