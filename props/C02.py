"""C02: Shamir secret sharing."""
from vc.spec import *
TUS = ['fcp/secagg/shared/shamir_secret_sharing.cc']
NS = 'fcp::secagg::'; SS = NS + 'ShamirSecretSharing'
P = 2 ** 31 + 11
I = z3.IntSort(); B = z3.BitVecVal
ASSUMPTIONS = ['RAND_bytes fills the buffer with arbitrary bytes']
M = z3.Function('M', I, I, I); E = z3.Function('E', I, I, I)
x_, y_, w_, j_, k_ = z3.Ints('x y w j!q k!q')
rng = lambda t: z3.And(t >= 0, t < P)
def mul(g, st, comm=True):
    """MultiplyMod and AddMod by contract (proved in C01)"""
    st.assume(z3.ForAll([x_, y_], z3.And(M(x_, y_) == M(y_, x_), rng(M(x_, y_))) if comm else rng(M(x_, y_)), patterns=[M(x_, y_)]))
    def mm(g, s, obj, a, e):
        p, q, z = [g.val(s, v) for v in a]
        g.oblige(s, z3.And(z == P, p >= 0, q >= 0, p < 2 ** 32, q < 2 ** 32), 'precondition of MultiplyMod', e.get('l', 0)); return [(s, M(p, q))]
    def am(g, s, obj, a, e):
        p, q, z = [g.val(s, v) for v in a]
        g.oblige(s, z3.And(z == P, rng(p), rng(q)), 'precondition of AddMod', e.get('l', 0)); return [(s, z3.If(p + q >= P, p + q - P, p + q))]
    g.contracts[NS + 'MultiplyMod'] = mm; g.contracts[NS + 'AddMod'] = am
def assoc(st): st.assume(z3.ForAll([x_, y_, w_], M(M(x_, y_), w_) == M(x_, M(y_, w_)), patterns=[M(M(x_, y_), w_)]))
def mk(c, name, pick=None):
    g = c.engine(TUS, proto=False); g.safety = {'index', 'overflow', 'div'}; st = start(g)
    if name is None: return g, st
    fs = [f for f in c.fns(name) if pick is None or pick(f)]
    if len(fs) != 1: raise Unsupported(name)
    st.fn = fs[0]; return g, st, fs[0]
def members(g):
    fl = g.rec_fields(rec_ty(SS)); v = [n for n, t in fl if kind_of(t) == 'vec']
    if len(fl) != 3 or len(v) != 3: raise Unsupported('members of the secret sharing class')
    return v
def random_element(c):
    "ensures a number below the field size"
    g, st, f = mk(c, SS + '::RandomFieldElement'); o = g.new_root(st, 'ss', RecV(rec_ty(SS), {}, 'ss'))
    def rb(g, s, obj, a, e):
        p = g.val(s, a[0]); n = g.val(s, a[1]); g.oblige(s, n == 4, 'all four bytes of the number are drawn', e.get('l', 0)); x = g.fresh_const('rand', I); s.assume(z3.And(x >= 0, x < 2 ** 32)); g.write(s, p.lv, x); return [(s, z3.IntVal(1))]
    g.contracts['RAND_bytes'] = rb; out = call(g, st, f, [], this=o); cover(g, out); no_abort(g, 'never aborts')
    for y, r in out: g.oblige(y, rng(r), 'the number lies in the field')
def evaluate(c):
    """requires coefficients below the field size, 1 <= x <= 2^31; ensures the Horner value G of the coefficients, which is the value of the polynomial
    (share_is_value in lemmas/Shamir.lean)"""
    g, st, f = mk(c, SS + '::EvaluatePolynomial'); n, x = z3.Ints('n x'); a = z3.Array('coef', I, I); G = z3.Function('G', I, I)
    st.assume(z3.And(n >= 1, n < 2 ** 31, x >= 1, x <= 2 ** 31)); st.assume(forall_i(0, n, lambda i: rng(a[i])))
    st.assume(G(n) == 0); st.assume(z3.ForAll([j_], z3.Implies(z3.And(j_ >= 1, j_ < n), G(j_) == ((G(j_ + 1) + a[j_]) * x) % P), patterns=[G(j_)])); st.assume(z3.ForAll([j_], rng(G(j_)), patterns=[G(j_)]))
    st.assume(z3.ForAll([y_], z3.Implies(z3.And(y_ >= 0, y_ < 2 * P), z3.And(y_ * x >= 0, y_ * x < 2 ** 64)), patterns=[y_ * x]))
    s1 = start(g, f); s1.assume(z3.And(y_ >= 0, y_ < 2 * P, x >= 1, x <= 2 ** 31)); g.oblige(s1, z3.And(y_ * x >= 0, y_ * x <= 2 * P * 2 ** 31), 'lemma: products stay below 2^64')
    def hint(L):
        v = [g.read(L.st, lv) for lv in L.mods]; out = []
        v = [t for t in v if z3.is_expr(t) and z3.is_int(t)]
        for i, s in enumerate(v):
            for j, t in enumerate(v):
                if i != j: out.append(('#%d is the Horner value of the coefficients above #%d' % (i, j), z3.And(s == G(t + 1), t >= 0, t < n)))
        return out
    g.loop_hints.append(hint); o = g.new_root(st, 'ss', RecV(rec_ty(SS), {}, 'ss')); v = g.new_root(st, 'poly', VecV(U32, n, a))
    out = call(g, st, f, [v, x], this=o); cover(g, out); no_abort(g, 'never aborts')
    for y, r in out: g.oblige(y, r == (G(1) + a[0]) % P, 'the value of the polynomial')
def mod_pow(c):
    "ensures x^y modulo the field size; by induction on y (the recursive call by this contract)"
    g, st, f = mk(c, NS + 'ModPow'); mul(g, st); x, y = z3.Ints('px py'); st.assume(z3.And(x >= 0, x < 2 ** 32, y >= 0, y < 2 ** 32)); h = y / 2
    powers(st)
    def rec(g, s, obj, a, e):
        p, q = [g.val(s, v) for v in a]; g.oblige(s, z3.And(q < y, q >= 0), 'the exponent gets smaller', e.get('l', 0)); return [(s, E(p, q))]
    g.contracts[f.n] = rec
    out = call(g, st, f, [x, y]); cover(g, out); no_abort(g, 'never aborts')
    for s, r in out: g.oblige(s, r == E(x, y), 'the power')
def powers(st):
    st.assume(z3.ForAll([x_], E(x_, 0) == 1, patterns=[E(x_, 0)])); st.assume(z3.ForAll([x_, y_], rng(E(x_, y_)), patterns=[E(x_, y_)]))
    st.assume(z3.ForAll([x_, y_], z3.Implies(y_ > 0, E(x_, y_) == z3.If(y_ % 2 == 0, M(E(x_, y_ / 2), E(x_, y_ / 2)), M(x_, M(E(x_, y_ / 2), E(x_, y_ / 2))))), patterns=[E(x_, y_)]))
INV = lambda t: E(t, P - 2)
def cached(g, st, inv):
    n = z3.Int('cached'); a = z3.Array('inverses', I, I); st.assume(z3.And(n >= 0, n < P)); st.assume(forall_i(0, n, lambda i: a[i] == INV(i + 1))); return VecV(U32, n, a, dict(g.rec_fields(rec_ty(SS)))[inv])
def mod_inverse(c):
    """requires the inverses cached so far to be right; ensures the (p-2)-th power, which is the inverse (lemma inverse), and the cache still right;
    refuses 0 and numbers not below the field size"""
    g, st, f = mk(c, SS + '::ModInverse'); inv, li, lo = members(g); st.assume(z3.ForAll([x_, y_], rng(E(x_, y_)), patterns=[E(x_, y_)]))
    def mp(g, s, obj, a, e): return [(s, E(g.val(s, a[0]), g.val(s, a[1])))]
    g.contracts[NS + 'ModPow'] = mp; n = z3.Int('n'); st.assume(z3.And(n >= 0, n < 2 ** 32)); o = g.new_root(st, 'ss', RecV(rec_ty(SS), {inv: cached(g, st, inv)}, 'ss'))
    def hint(L):
        v = g.read(L.st, o.f(inv)); return [('the cache holds inverses', z3.And(v.len >= 0, v.len < P, z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < v.len), v.arr[j_] == INV(j_ + 1)))))]
    g.loop_hints.append(hint); out = call(g, st, f, [n], this=o); cover(g, out); no_abort(g, 'a number in the field other than zero is accepted', z3.And(n > 0, n < P)); j = z3.Int('j')
    for y, r in out:
        g.oblige(y, z3.And(n > 0, n < P), 'zero and numbers outside the field are refused'); g.oblige(y, r == INV(n), 'the inverse')
        v = g.read(y, o.f(inv)); g.oblige(y, z3.Implies(z3.And(j >= 0, j < v.len), v.arr[j] == INV(j + 1)), 'the cached inverses are right'); g.oblige(y, z3.And(v.len >= 0, v.len < P), 'the cache covers field elements only')
def lagrange_setup(c):
    n = z3.Int('n'); xs = z3.Array('xs', I, I)
    return n, xs
def factor(a, b):
    """contribution of point a to the coefficient of point b (factor_above and factor_below in lemmas/Shamir.lean)"""
    return z3.If(a > b, M(a, INV(a - b)), M(M(a, P - 1), INV(b - a)))
def lagrange(c):
    """requires at least two distinct positive points below 2^31 and the cached result to belong to the cached points; ensures for every point the product of the
    factors of all other points, and the cache right again"""
    g, st, f = mk(c, SS + '::LagrangeCoefficients'); inv, li, lo = members(g); mul(g, st, False); assoc(st); n, xs = lagrange_setup(c); st.assume(z3.ForAll([x_, y_], rng(E(x_, y_)), patterns=[E(x_, y_)]))
    st.assume(z3.ForAll([x_], z3.Implies(rng(x_), M(x_, 1) == x_), patterns=[M(x_, 1)]))
    st.assume(z3.And(n >= 0, n < 2 ** 30)); st.assume(forall_i(0, n, lambda i: z3.And(xs[i] < 2 ** 31, xs[i] >= -2 ** 31))); st.assume(z3.ForAll([j_, k_], z3.Implies(z3.And(j_ >= 0, j_ < n, k_ >= 0, k_ < n, j_ != k_), xs[j_] != xs[k_])))
    def mi(g, s, obj, a, e):
        v = g.val(s, a[0]); g.oblige(s, z3.And(v > 0, v < P), 'precondition of ModInverse', e.get('l', 0)); return [(s, INV(v))]
    g.contracts[SS + '::ModInverse'] = mi
    AI = z3.ArraySort(I, I); LP = z3.Function('LP', AI, I, I, I, I)     # LP(points, number, i, j): product of the factors of points 0..j-1 other than i
    LQ = z3.Function('LQ', AI, I, I, I, I)     # the same function; its definition unfolds once per occurrence of LP
    st.assume(z3.ForAll([j_, k_], z3.And(rng(LP(xs, n, j_, k_)), LP(xs, n, j_, k_) == LQ(xs, n, j_, k_),
        z3.Implies(k_ == 0, LP(xs, n, j_, k_) == 1), z3.Implies(k_ > 0, LP(xs, n, j_, k_) == z3.If(j_ == k_ - 1, LQ(xs, n, j_, k_ - 1), M(LQ(xs, n, j_, k_ - 1), factor(xs[k_ - 1], xs[j_]))))), patterns=[LP(xs, n, j_, k_)]))
    ft = dict(g.rec_fields(rec_ty(SS))); cn = z3.Int('cn'); cx, cy = z3.Const('cx', AI), z3.Const('cy', AI); cm = z3.Int('cm'); st.assume(z3.And(cn >= 0, cm >= 0))
    # equal points have equal coefficients: the cache is right for its own points
    st.assume(z3.Implies(z3.And(cn == n, z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < n), cx[j_] == xs[j_]))), z3.And(cm == n, z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < n), cy[j_] == LP(xs, n, j_, n))))))
    o = g.new_root(st, 'ss', RecV(rec_ty(SS), {inv: cached(g, st, inv), li: VecV(I32, cn, cx, ft[li]), lo: VecV(U32, cm, cy, ft[lo])}, 'ss')); v = g.new_root(st, 'points', VecV(I32, n, xs))
    def hint(L):
        r = g.read(L.st, o.f(lo)); ints = [(k, g.read(L.st, lv)) for k, lv in enumerate(L.mods)]; ints = [(k, t) for k, t in ints if z3.is_expr(t) and z3.is_int(t)]; out = []
        if any(lv.root == o.root for lv in L.mods):
            # outer loop: one finished coefficient per round; inner loop: the last one is the product so far
            if cint(simp(g.read(L.pre, o.f(lo)).len)) == 0: out.append(('finished coefficients', z3.And(r.len == L.k, z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < L.k), r.arr[j_] == LP(xs, n, j_, n))))))
            else:
              out.append(('coefficients before the last are finished', z3.And(r.len >= 1, z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < r.len - 1), r.arr[j_] == LP(xs, n, j_, n))))))
              out.append(('the last coefficient is the product so far', r.arr[r.len - 1] == LP(xs, n, r.len - 1, L.k)))
        return out + [('points looked at are positive', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < L.k), xs[j_] > 0)))]
    g.feas_qf = True; g.loop_hints.append(hint); g.generic = lambda n: not any(t in n for t in ('start - k', '<= start', 'keeps its old', 'len == start'))
    out = call(g, st, f, [v], this=o); cover(g, out); no_abort(g, 'two or more positive points are accepted', z3.And(n >= 2, forall_i(0, n, lambda i: xs[i] > 0))); j = z3.Int('j')
    for y, r in out:
        z = y.copy(); z.assume(z3.And(j >= 0, j < n))
        g.oblige(y, z3.And(n >= 2, r.len == n), 'one coefficient per point, at least two'); g.oblige(z, xs[j] > 0, 'points that are not positive are refused'); g.oblige(z, r.arr[j] == LP(xs, n, j, n), 'the coefficient is the product of the factors of the other points')
        a, b = g.read(y, o.f(li)), g.read(y, o.f(lo)); g.oblige(z, z3.And(a.len == n, a.arr[j] == xs[j], b.len == n, b.arr[j] == r.arr[j]), 'the cached result belongs to the cached points')
def lemmas(c):
    "the mathematics: interpolation at zero from threshold distinct points gives the secret; Fermat inverses; the field size is prime"
    g, st = mk(c, None)
    if not lean_lemmas(c, 'Shamir.lean'): raise Unsupported('Lean did not confirm lemmas/Shamir.lean')
UNITS = [random_element, evaluate, mod_pow, mod_inverse, lagrange, lemmas]
HARNESS = dict(main='C02_harness.cc', srcs=TUS, libs=CRYPTO, secs=6)
