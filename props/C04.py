"""C04: pairwise masks."""
from vc.spec import *
TUS = ['fcp/secagg/shared/map_of_masks.cc']
NS = 'fcp::secagg::'; I = z3.IntSort()
ASSUMPTIONS = ['SHA-256 digests and AES keystreams are functions of their inputs (EVP_Digest*, generator of C05)',
               'rejection sampling ends (partial correctness of the drawing loop)']
P2 = z3.Function('P2', I, I); BW = z3.Function('BW', I, I); SB = z3.Function('SB', I, I); LG = z3.Function('LG', I, I)
IM = z3.Function('imod', I, I, I)
def powers(g):
    def pow2(y):
        r = P2(y); ax = [LG(r) == y, r >= 1] + [z3.Implies(y <= c, r <= 2 ** c) for c in (0, 1, 8, 16, 62, 63)] + [z3.Implies(y >= c, r >= 2 ** c) for c in (1, 8, 16, 62, 63)]
        g.axiom(z3.Implies(z3.And(y >= 0, y <= 63), z3.And(ax))); return r
    g.A.pow2 = pow2
    def bw(g, s, obj, a, e):
        x = g.val(s, a[0]); r = BW(x); s.assume(z3.And(r >= 0, r <= 64)); s.assume(z3.Implies(z3.And(x >= 1, x < 2 ** 62), z3.And(r >= 1, r <= 62, P2(r - 1) <= x, x < P2(r)))); return [(s, r)]
    g.contracts['absl::bit_width'] = bw
def divup(g, s, obj, a, e):
    x, y = g.val(s, a[0]), g.val(s, a[1]); g.oblige(s, z3.And(x >= 0, y > 0, x + y < 2 ** 32), 'precondition of DivideRoundUp', e.get('l', 0)); q = (x + y - 1) / y
    return [(s, q)]
def key_str(g, s, k):
    v = g.val(s, k)
    while isinstance(v, RecV):
        fl = g.rec_fields(v.ty); nx = [g.rget(s, v, n, t) for n, t in fl]
        nx = [t for t in nx if isinstance(t, RecV) or z3.is_expr(t) and t.sort() == g.str_sort()]
        if len(nx) != 1: raise Unsupported('key')
        v = nx[0]
    return v
def masks(name):
    def unit(c):
        g = c.engine(TUS, proto=False); g.safety = {'index', 'overflow', 'div'}; g.feas_qf = True; st = start(g); f = c.fn(NS + name); st.fn = f; powers(g); S = g.str_sort()
        D = z3.Function('D', S, I, I); DK = z3.Function('DK', S, I, S, S); IB = z3.Function('IB', I, S); ACC = z3.Function('ACC', S, I, I, I); LOC = z3.Function('LOC', S, I, I, I)
        AM = z3.Function('AM', I, I, I, I); SM = z3.Function('SM', I, I, I, I); x, y, k, j = z3.Ints('x! y! k! j!')
        args = params(g, st, f); add, sub, specs, session = [g.read(st, a) for a in args[:4]]
        ivs = specs.ety; fl = g.rec_fields(ivs); names = [next((n for n, t in fl if q(t)), None) for q in (lambda t: kind_of(t) == 'str', lambda t: t.k == 'int' and t.w == 32, lambda t: t.k == 'int' and t.w == 64)]
        if None in names or len(fl) != 3: raise Unsupported('vector specification')
        def spec(s, i):
            r = g.unpack(s, specs.arr[i], ivs); return [g.rget(s, r, n, dict(fl)[n]) for n in names]
        def keyat(s, v, i): return key_str(g, s, g.unpack(s, v.arr[i], v.ety))
        dummy = st.copy(); nm_, ln_, mo_ = spec(dummy, x)
        st.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < specs.len), z3.And(ln_ >= 0, ln_ < 2 ** 31, mo_ >= 2, mo_ <= 2 ** 62)), patterns=[specs.arr[x]]))
        sess = key_str(g, st, session); st.assume(z3.And(add.len < 2 ** 31, sub.len < 2 ** 31))
        for t in (add, sub): st.assume(t.len >= 0)
        def contrib(s, i, key, j):
            nm, ln, m = spec(s, i); w = BW(m - 1); inp = g.strcat(g.strcat(g.strcat(sess, IB(w)), IB(ln)), nm); s1, s2 = DK(inp, w, key), DK(inp, SB(m), key)
            return z3.If(P2(w) == m, D(s1, j), IM(D(s2, LOC(s2, m, j)), m))
        FA, GA, FS, GS = [z3.Function(n, I, I, I, I) for n in ('FA', 'GA', 'FS', 'GS')]      # values after k keys; G*: the same, not unfolded further
        m_ = mo_
        for Fn, Gn, v, op, base in ((FA, GA, add, AM, z3.IntVal(0)), (FS, GS, sub, SM, FA(x, add.len, j))):
            st.assume(z3.ForAll([x, k, j], z3.And(Fn(x, k, j) == Gn(x, k, j), z3.Implies(m_ >= 1, z3.And(Fn(x, k, j) >= 0, Fn(x, k, j) < m_)), z3.Implies(k == 0, Fn(x, k, j) == base),
                z3.Implies(k > 0, Fn(x, k, j) == op(Gn(x, k - 1, j), contrib(dummy, x, keyat(dummy, v, k - 1), j), m_))), patterns=[Fn(x, k, j)]))
        def mod_op(op, what):
            def fn(g, s, obj, a, e):
                p, q, z = [g.val(s, v) for v in a]; g.oblige(s, z3.And(p >= 0, p < z, q >= 0, q < z), 'precondition of ' + what, e.get('l', 0)); r = op(p, q, z)
                s.assume(z3.And(r >= 0, r < z, z3.Implies(q == 0, r == p))); return [(s, r)]
            return fn
        for n in ('AddMod', 'AddModOpt'): g.contracts[NS + n] = mod_op(AM, n)
        for n in ('SubtractMod', 'SubtractModOpt'): g.contracts[NS + n] = mod_op(SM, n)
        g.contracts[NS + 'DivideRoundUp'] = divup; g.contracts[NS + 'IntToByteString'] = lambda g, s, obj, a, e: [(s, IB(g.val(s, a[0])))]
        def best(g, s, obj, a, e):
            m = g.val(s, a[0]); r = SB(m); s.assume(z3.And(r >= BW(m - 1), r <= 62, P2(r) >= m, r >= 1)); return [(s, r)]
        g.contracts[NS + 'compute_best_sample_bits'] = best
        g.contracts[NS + 'DigestKey'] = lambda g, s, obj, a, e: [(s, RecV(e['t'], {'$s': DK(g.val(s, a[1]), g.val(s, a[2]), key_str(g, s, a[3]))}))]
        g.contracts[NS + 'AesPrngFactory::MakePrng'] = lambda g, s, obj, a, e: [(s, OptV(rec_ty(NS + 'SecurePrng'), T, RecV(rec_ty(NS + 'SecurePrng'), {'$s': g.read(s, g.lval(s, a[0]).f('$s'))}), e['t']))]
        g.contracts[NS + 'AesPrngFactory::SupportsBatchMode'] = lambda g, s, obj, a, e: [(s, T)]
        g.contracts[NS + 'AsyncAbort::Signalled'] = lambda g, s, obj, a, e: [(s, g.fresh_const('signalled', z3.BoolSort()))]
        for n in ('EVP_MD_CTX_create', 'EVP_MD_CTX_new'): g.contracts[n] = lambda g, s, obj, a, e: [(s, PtrV(e['t'], F, g.new_root(s, 'mdctx', UnitV())))]
        def pb(g, s, ty, a, e):
            p = g.val(s, a[0]); stream = g.rget(s, p.val if isinstance(p, OptV) else g.read(s, p.lv), '$s', None); mk, by = g.val(s, a[1]), g.val(s, a[2])
            g.oblige(s, z3.And(by >= 1, by <= 8), 'one to eight bytes per number', e.get('l', 0))
            s.assume(ACC(stream, spec(s, g.spec_k)[2], 0) == 0)
            return [(s, RecV(ty, {'$s': stream, '$n': z3.IntVal(0), '$b': 8 * (by - 1) + LG(mk + 1)}))]
        g.contracts[NS + 'PrngBuffer::PrngBuffer'] = pb
        def nx(g, s, obj, a, e):
            stream, n, b = [g.read(s, obj.f(q)) for q in ('$s', '$n', '$b')]; r = D(stream, n); s.assume(z3.And(r >= 0, r < P2(b), r < 2 ** 64)); g.write(s, obj.f('$n'), n + 1)
            m = spec(s, g.spec_k)[2]; t = IM(P2(SB(m)) - m, m); acc = ACC(stream, m, n)
            s.assume(ACC(stream, m, n + 1) == acc + z3.If(r >= t, 1, 0)); s.assume(z3.Implies(r >= t, LOC(stream, m, acc) == n))
            return [(s, r)]
        g.contracts[NS + 'PrngBuffer::NextMask'] = nx; g.spec_k = z3.IntVal(0); g.made = 0
        def vec(g, s, ty, a, e):
            if len(a) < 2: return None
            b, m = g.val(s, a[0]), g.val(s, a[1])
            if isinstance(b, ViewV): b = g.view_vec(s, b)
            if not isinstance(b, VecV): return None
            nm, ln, mo = spec(s, g.spec_k); q = z3.Int('q'); z = s.copy(); z.assume(z3.And(q >= 0, q < ln)); g.made += 1
            g.oblige(s, z3.And(b.len == ln, m == mo), 'the mask vector has the length and modulus of the specification', e.get('l', 0))
            g.oblige(z, b.arr[q] == FS(g.spec_k, sub.len, q), 'each value is the sum of the contributions of the adding keys less those of the subtracting keys', e.get('l', 0))
            g.oblige(z, z3.And(b.arr[q] >= 0, b.arr[q] < mo), 'each value is below the modulus', e.get('l', 0))
            return [(s, RecV(ty, {}, g.uname('made')))]
        for n in ('SecAggVector::SecAggVector', 'SecAggUnpackedVector::SecAggUnpackedVector'): g.contracts[NS + n] = vec
        g.side = None
        def hint(L):
            if any(isinstance(g.read(L.st, lv), (OptV, MapV)) for lv in L.mods): g.spec_k = L.k; return []
            out = []; vs = [(lv, g.read(L.st, lv)) for lv in L.mods]; i = g.spec_k; nm, ln, m = spec(L.st, i); rl = getattr(L, 'range_lv', None)
            draws = [(lv, v) for lv, v in vs if str(lv).endswith('$n')]; ints = [t for lv, t in vs if z3.is_expr(t) and z3.is_int(t) and not str(lv).endswith('$n')]
            if rl is not None and not draws: g.side = {args[0].root: 'added', args[1].root: 'subtracted'}.get(rl.root)
            sides = [t for t in ((FA, AM, 'added'), (FS, SM, 'subtracted')) if g.side in (None, t[2])]
            for lv, v in vs:
                if not isinstance(v, VecV): continue
                old = g.read(L.pre, lv); out.append(('length kept', v.len == ln))
                for Fn, op, nme in sides:
                    if not draws: out.append(('values after k keys %s' % nme, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln), v.arr[j] == Fn(i, L.k, j)), patterns=[v.arr[j]])))
                    for pl, p in draws:
                        stream = g.read(L.st, LV(pl.root, pl.path[:-1]).f('$s'))
                        con = lambda q: z3.If(P2(BW(m - 1)) == m, D(stream, q), IM(D(stream, LOC(stream, m, q)), m))
                        upto = lambda e: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln), v.arr[j] == z3.If(j < e, op(old.arr[j], con(j), m), old.arr[j])), patterns=[v.arr[j]])
                        if rl is not None: out.append(('%s up to k' % nme, z3.And(p == L.k, upto(L.k)))); continue
                        two = P2(BW(m - 1)) == m; can, cannot = g.feasible(L.pre, two), g.feasible(L.pre, Not(two))
                        for n, q in enumerate(ints if cannot else []): out.append(('%s up to the accepted draws #%d' % (nme, n), z3.And(q == ACC(stream, m, p), p >= 0, q >= 0, q <= ln, upto(q))))
                        if can: out.append(('%s up to k' % nme, z3.And(p == L.k, P2(BW(m - 1)) == m, upto(L.k))))
            return out
        g.generic = lambda n: not any(t in n for t in ('start - k', '<= start', 'keeps its old', 'len == start', '>= start'))
        g.loop_hints.append(hint)
        out = call(g, st, f, args); cover(g, out); no_abort(g, 'never aborts')
        if not g.made: raise Unsupported('no mask vector is made')
    unit.__name__ = name; unit.__doc__ = """ensures for every vector specification and every element: the sum of the contributions of the adding keys less those of the subtracting keys, modulo the modulus,
    where the contribution of a key is the same function of key, session and specification on both sides; every value below the modulus"""
    return unit
UNITS = [masks('MapOfMasks'), masks('MapOfMasksV3'), masks('UnpackedMapOfMasks')]
def best_bits(c):
    "choose_better_sample_bits by contract (one of its two arguments); ensures a width from that of the largest value up to 62, requires of the callee kept"
    g = c.engine(TUS, proto=False); g.safety = {'index', 'overflow', 'div'}; st = start(g); f = c.fn(NS + 'compute_best_sample_bits'); st.fn = f; powers(g); m = z3.Int('m'); st.assume(z3.And(m >= 2, m <= 2 ** 62))
    def better(g, s, obj, a, e):
        z, p, q = [g.val(s, v) for v in a]; g.oblige(s, z3.And(p >= 1, p <= q, q <= 63, q - p <= 16, z == m, p >= BW(m - 1)), 'precondition of the comparison', e.get('l', 0)); b = g.fresh_const('first', z3.BoolSort()); return [(s, z3.If(b, p, q))]
    g.contracts[NS + 'choose_better_sample_bits'] = better
    def hint(L):
        v = [(n, g.read(L.st, lv)) for n, lv in enumerate(L.mods)]; w = BW(m - 1); out = []
        for i, x in v:
            for j, y in v:
                if i != j: out.append(('#%d between the minimum and #%d' % (i, j), z3.And(x >= w, x < y, z3.Or(x == w, x <= 16))))
        return out
    g.loop_hints.append(hint); out = call(g, st, f, [m]); cover(g, out); no_abort(g, 'never aborts')
    for y, r in out: g.oblige(y, z3.And(r >= BW(m - 1), r <= 62, r >= 1), 'wide enough for every value below the modulus, at most 62 bits')
def better_bits(c):
    "ensures one of the two widths"
    g = c.engine(TUS, proto=False); g.safety = {'div'}; st = start(g); f = c.fn(NS + 'choose_better_sample_bits'); st.fn = f; powers(g); m, p, q = z3.Ints('m p q'); st.assume(z3.And(m >= 2, m <= 2 ** 62, p >= 1, p <= q, q <= 62, q - p <= 16, m <= P2(p)))
    g.contracts[NS + 'DivideRoundUp'] = divup
    out = call(g, st, f, [m, p, q]); cover(g, out); no_abort(g, 'never aborts')
    for y, r in out: g.oblige(y, z3.Or(r == p, r == q), 'one of the two widths')
def buffer_members(g):
    ty = rec_ty(NS + 'PrngBuffer'); fl = g.rec_fields(ty); ks = [(n, 'vec' if kind_of(t) == 'vec' else 'u8' if t.k == 'int' and t.w == 8 else 'sz' if t.k == 'int' else 'p' if t.k == 'ptr' else 'o') for n, t in fl]
    by = {}
    for n, k in ks: by.setdefault(k, []).append(n)
    if [len(by.get(k, [])) for k in ('vec', 'u8', 'sz', 'p', 'o')] != [1, 1, 1, 2, 1]: raise Unsupported('members of the mask buffer')
    return ty, dict(fl), by['o'][0], by['u8'][0], by['sz'][0], by['vec'][0], by['p'][0], by['p'][1]
BV64 = z3.BitVecSort(64)
def batch(g, KS):
    "the generator by contract (C05): a buffer request returns consecutive keystream bytes and moves on by their number"
    def rb(g, s, obj, a, e):
        p, n = g.val(s, a[0]), g.val(s, a[1]); pos = g.read(s, obj.f('$pos')); d = g.read(s, p.lv); off = p.off if p.off is not None else z3.BitVecVal(0, 64); n64 = z3.SignExt(32, n); j = z3.BitVec('j!b', 64)
        g.oblige(s, z3.And(n > 0, off == 0, n64 == d.len), 'the whole buffer is filled', e.get('l', 0)); arr = g.fresh_const('filled', d.arr.sort()); s.assume(z3.ForAll([j], arr[j] == KS[pos + j], patterns=[arr[j]]))
        g.write(s, p.lv, VecV(d.ety, d.len, arr, d.ty)); g.write(s, obj.f('$pos'), pos + n64); return [(s, n)]
    for n in ('SecureBatchPrng', 'AesCtrPrng'): g.contracts[NS + n + '::RandBuffer'] = rb
def next_mask(c):
    """requires n bytes of the buffer left, n a multiple of the bytes per number, the buffer holding consecutive keystream bytes up to the generator's position;
    ensures the next bytes-per-number keystream bytes as a big-endian number, the first byte masked; refills exactly when none is left; invariant kept"""
    g = c.engine(TUS, proto=False, arith='bv'); g.safety = {'index', 'null'}; g.bounded = 9; f = c.fn(NS + 'PrngBuffer::NextMask')
    for by in range(1, 9):
        st = start(g); st.fn = f; ty, ft, pr, mk, bo, buf, cur, end = buffer_members(g)
        KS = z3.Array('keystream', BV64, z3.BitVecSort(8)); batch(g, KS); L, at, pos = z3.BitVecs('L at pos', 64); msk = z3.BitVec('msk', 8); j = z3.BitVec('j!k', 64); arr = z3.Array('buf', BV64, z3.BitVecSort(8)); m, d = z3.BitVecs('m d', 64)
        st.assume(z3.And(z3.ULT(0, L), z3.ULT(L, 2 ** 20), L == m * by, at == d * by, z3.ULT(m, 2 ** 20), z3.ULT(d, 2 ** 20), z3.ULE(d, m), z3.ULE(L, pos), z3.ULT(pos, 2 ** 50))); st.assume(z3.ForAll([j], z3.Implies(z3.ULT(j, L), arr[j] == KS[pos - L + j]), patterns=[arr[j]]))
        gen = g.new_root(st, 'gen', RecV(rec_ty(NS + 'SecureBatchPrng'), {'$pos': pos})); o = g.new_root(st, 'pb', RecV(ty, {mk: msk, bo: z3.BitVecVal(by, 64), buf: VecV(U8, L, arr, ft[buf])}))
        g.write(st, o.f(pr), OptV(rec_ty(NS + 'SecureBatchPrng'), T, RecV(rec_ty(NS + 'SecureBatchPrng'), {'$pos': pos}), ft[pr])); g.write(st, o.f(cur), PtrV(ft[cur], F, o.f(buf), at)); g.write(st, o.f(end), PtrV(ft[end], F, o.f(buf), L))
        out = call(g, st, f, [], this=o); cover(g, out, 'some path returns (%d bytes)' % by); no_abort(g, 'never aborts'); full = at == L; q = z3.If(full, pos, pos - L + at)
        for y, r in out:
            want = z3.Concat(*([z3.BitVecVal(0, 8)] * (8 - by) + [KS[q] & msk] + [KS[q + i] for i in range(1, by)])) if by > 0 else None
            g.oblige(y, r == want, 'the next %d keystream bytes, first byte masked' % by); p2 = g.read(y, o.f(pr)); v = g.rget(y, p2.val, '$pos', None); c2 = g.read(y, o.f(cur)).off; a2 = g.read(y, o.f(buf)).arr; i = z3.BitVec('i', 64)
            g.oblige(y, z3.And(c2 == z3.If(full, z3.BitVecVal(0, 64), at) + by, v == z3.If(full, pos + L, pos)), 'exactly %d bytes are consumed; a refill only when none is left' % by)
            g.oblige(y, z3.Implies(z3.ULT(i, L), a2[i] == KS[v - L + i]), 'the buffer holds the keystream bytes before the generator position (%d)' % by)
def construct(c):
    "ensures the buffer filled from the start of the keystream, nothing consumed, mask and bytes per number as given; refuses a buffer size that is not a multiple of the bytes per number"
    g = c.engine(TUS, proto=False, arith='bv'); g.safety = {'index', 'null'}; st = start(g); fs = [f for f in c.fns(NS + 'PrngBuffer::PrngBuffer') if len(f.ps) == 3]
    if len(fs) != 1: raise Unsupported('constructor of the mask buffer')
    f = fs[0]; st.fn = f; ty, ft, pr, mk, bo, buf, cur, end = buffer_members(g); KS = z3.Array('keystream', BV64, z3.BitVecSort(8)); batch(g, KS); N = z3.BitVec('N', 64); st.assume(z3.And(z3.ULT(0, N), z3.ULT(N, 2 ** 20))); z0 = z3.BitVecVal(0, 64)
    for n in ('SecureBatchPrng', 'AesCtrPrng'): g.contracts[NS + n + '::GetMaxBufferSize'] = lambda g, s, obj, a, e: [(s, N)]
    msk = z3.BitVec('msk', 8); by = z3.BitVec('by', 64); st.assume(z3.And(z3.ULE(1, by), z3.ULE(by, 8))); o = g.new_root(st, 'pb', RecV(ty, {}, 'pb')); i = z3.BitVec('i', 64)
    g.write(st, o.f(cur), PtrV(ft[cur], T, None))
    out = call(g, st, f, [OptV(rec_ty(NS + 'SecurePrng'), T, RecV(rec_ty(NS + 'SecurePrng'), {'$pos': z0}), f.ps[0][2]), msk, by], this=o); cover(g, out); no_abort(g, 'a buffer size that is a multiple of the bytes per number is accepted', z3.URem(N, by) == 0)
    for y, r in out:
        R = lambda n: g.read(y, o.f(n)); g.oblige(y, z3.And(R(buf).len == N, R(cur).off == 0, R(end).off == N, R(mk) == msk, R(bo) == by, g.rget(y, R(pr).val, '$pos', None) == N), 'a full buffer, nothing consumed')
        g.oblige(y, z3.Implies(z3.ULT(i, N), R(buf).arr[i] == KS[i]), 'the buffer holds the first keystream bytes')
UNITS += [best_bits, better_bits, next_mask, construct]
SV = NS + 'SecAggVector'
def add_vectors(c):
    """requires values below the modulus (at most 2^62); reader and writer by contract (C03); ensures: returns exactly for equal lengths and moduli, every element being the sum modulo the modulus"""
    g = c.engine(TUS, proto=False); g.safety = {'index', 'overflow', 'div'}; st = start(g); f = c.fn(NS + 'AddVectors'); st.fn = f; AI = z3.ArraySort(I, I); j = z3.Int('j!')
    def vec(n):
        m, l = z3.Ints(n + '.m %s.n' % n); e = z3.Const(n + '.e', AI); st.assume(z3.And(m >= 2, m <= 2 ** 62, l >= 0, l < 2 ** 31)); st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < l), z3.And(e[j] >= 0, e[j] < m)), patterns=[e[j]]))
        return g.new_root(st, n, RecV(rec_ty(SV), {'$m': m, '$n': l, '$e': e}, n)), m, l, e
    a, m, n, e1 = vec('a'); b, m2, n2, e2 = vec('b')
    for acc, gh in (('modulus', '$m'), ('num_elements', '$n')): g.contracts[SV + '::' + acc] = lambda g, s, obj, x, e, gh=gh: [(s, g.read(s, obj.f(gh)))]
    BWm = z3.Int('bw'); g.contracts[SV + '::bit_width'] = lambda g, s, obj, x, e: [(s, BWm)]; st.assume(z3.And(BWm >= 1, BWm <= 62))
    def dec(g, s, ty, x, e):
        v = g.lval(s, x[0])
        if not isinstance(g.read(s, v), RecV): return None
        return [(s, RecV(ty, {'$e': g.read(s, v.f('$e')), '$n': g.read(s, v.f('$n')), '$i': z3.IntVal(0)}))]
    def rd(g, s, obj, x, e):
        i, l, a = [g.read(s, obj.f(q)) for q in ('$i', '$n', '$e')]; g.oblige(s, i < l, 'no value is read behind the last one', e.get('l', 0)); g.write(s, obj.f('$i'), i + 1); r = a[i]; s.assume(z3.And(r >= 0, r < 2 ** 62)); return [(s, r)]
    def cod(g, s, ty, x, e):
        mm, w, l = [g.val(s, q) for q in x]; g.oblige(s, z3.And(mm == m, w == BWm, l == n), 'the writer is set up for the modulus, width and length of the vectors', e.get('l', 0)); return [(s, RecV(ty, {'$e': z3.K(I, z3.IntVal(-1)), '$i': z3.IntVal(0)}))]
    def wr(g, s, obj, x, e):
        i, a = g.read(s, obj.f('$i')), g.read(s, obj.f('$e')); v = g.val(s, x[0]); g.oblige(s, z3.And(i < n, v >= 0, v < m), 'only values below the modulus are written, not more than the length', e.get('l', 0)); g.write(s, obj.f('$e'), z3.Store(a, i, v)); g.write(s, obj.f('$i'), i + 1); return [(s, UnitV())]
    def cr(g, s, obj, x, e): return [(s, RecV(rec_ty(SV), {'$e': g.read(s, obj.f('$e')), '$n': g.read(s, obj.f('$i'))}))]
    g.contracts[SV + '::Decoder::Decoder'] = dec; g.contracts[SV + '::Decoder::ReadValue'] = rd; g.contracts[SV + '::Coder::Coder'] = cod; g.contracts[SV + '::Coder::WriteValue'] = wr; g.contracts[SV + '::Coder::Create'] = cr
    want = lambda q: z3.If(e1[q] + e2[q] >= m, e1[q] + e2[q] - m, e1[q] + e2[q])
    def hint(L):
        out = []
        for lv in L.mods:
            v = g.read(L.st, lv)
            if z3.is_expr(v) and v.sort() == AI: out.append(('sums before the counter', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), v[j] == want(j)))))
        return out
    g.loop_hints.append(hint); out = call(g, st, f, [a, b]); cover(g, out); no_abort(g, 'vectors of the same length and modulus can be added', z3.And(m == m2, n == n2)); i = z3.Int('i')
    for y, r in out:
        g.oblige(y, z3.And(m == m2, n == n2), 'vectors of another length or modulus are refused'); E, N = g.rget(y, r, '$e', None), g.rget(y, r, '$n', None)
        g.oblige(y, N == n, 'as many values as in the vectors'); g.oblige(y, z3.Implies(z3.And(i >= 0, i < n), E[i] == want(i)), 'every element is the sum modulo the modulus')
def add_maps(c):
    "AddVectors by contract; requires the second map to have the names of the first; ensures exactly these names, each with the sum of the two vectors of that name"
    g = c.engine(TUS, proto=False); g.safety = {'index'}; st = start(g); f = c.fn(NS + 'AddMaps'); st.fn = f; ty = f.ps[0][2].deref(); a, b = [g.new_root(st, n, g.fresh(st, ty, n, exact_name=True)) for n in 'ab']
    base = [n for n, t in g.rec_fields(ty) or [] if n == '$base']; get = lambda s, lv: g.read(s, lv.f('$base') if base else lv)
    A, Bm = get(st, a), get(st, b); V = A.val.sort().range(); AV = z3.Function('AV', V, V, V); k = z3.Const('k!q', A.dom.sort().domain()); st.assume(z3.ForAll([k], z3.Implies(A.dom[k], Bm.dom[k])))
    g.contracts[NS + 'AddVectors'] = lambda g, s, obj, x, e: [(s, g.unpack(s, AV(*[g.pack(s, g.val(s, q), rec_ty(SV)) for q in x]), rec_ty(SV)))]
    def hint(L):
        out = []; vis = getattr(L, 'visited', None)
        for lv in L.mods if vis is not None else []:
            x = g.read(L.st, lv); w = g.read(L.st, vis)
            if isinstance(x, MapV): out += [('names so far are those visited', z3.ForAll([k], x.dom[k] == w[k])), ('vectors so far are sums', z3.ForAll([k], z3.Implies(w[k], x.val[k] == AV(A.val[k], Bm.val[k]))))]
        return out
    g.loop_hints.append(hint); out = call(g, st, f, [a, b]); cover(g, out); no_abort(g, 'maps with the same names can be added'); i = z3.Const('name', k.sort())
    for y, r in out:
        R = g.optval(y, r) if isinstance(r, OptV) else g.read(y, r.lv)
        if base: R = g.rget(y, R, '$base', g.rec_fields(ty)[0][1])
        g.oblige(y, R.dom[i] == A.dom[i], 'the names are those of the first map'); g.oblige(y, z3.Implies(A.dom[i], R.val[i] == AV(A.val[i], Bm.val[i])), 'each vector is the sum of the two vectors of that name')
UNITS += [add_vectors, add_maps]
HARNESS = dict(main='C04_harness.cc', srcs=TUS + ['fcp/secagg/shared/secagg_vector.cc', 'fcp/secagg/shared/aes_ctr_prng.cc', 'fcp/secagg/shared/aes_ctr_prng_factory.cc', 'fcp/secagg/shared/aes_key.cc', 'fcp/secagg/shared/input_vector_specification.cc', 'fcp/secagg/shared/shamir_secret_sharing.cc'], libs=CRYPTO, secs=6)
