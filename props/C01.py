"""C01: modular arithmetic helpers."""
from vc.spec import *
TUS = [V + '/props/inst_math.cc']
NS = 'fcp::secagg::'
ASSUMPTIONS = ['callers pass operands below a modulus of at most 2^62 (the documented no-overflow responsibility of the caller)',
               'absl::uint128 multiplication and remainder are exact', 'absl::big_endian::Store32 stores the most significant byte first']
ZMAX = 2 ** 62

def mk(c, name, lim=ZMAX, below=True, **kw):
    g = c.engine(TUS, proto=False); g.A.exactdiv = kw.get('exactdiv', False); g.safety = {'div', 'overflow', 'index'}
    f = c.fn(NS + name); st = start(g, f); a, b, z = z3.Ints('a b z')
    st.assume(z3.And(z >= 1, z <= lim, a >= 0, b >= 0))
    if below: st.assume(z3.And(a < z, b < z))
    return g, f, st, a, b, z

def add(c, name):
    g, f, st, a, b, z = mk(c, name)
    out = call(g, st, f, [a, b, z]); no_abort(g, 'valid operands are accepted'); cover(g, out)
    for s, r in out: g.oblige(s, r == z3.If(a + b >= z, a + b - z, a + b), name + ' is the sum reduced modulo z')
def sub(c, name):
    g, f, st, a, b, z = mk(c, name)
    out = call(g, st, f, [a, b, z]); no_abort(g, 'valid operands are accepted'); cover(g, out)
    for s, r in out: g.oblige(s, r == z3.If(a >= b, a - b, a - b + z), name + ' is the difference reduced modulo z')
def add_mod(c):
    "requires a, b < z <= 2^62; ensures AddMod == (a + b) mod z"
    add(c, 'AddMod')
def add_mod_opt(c):
    "requires a, b < z <= 2^62; ensures AddModOpt == (a + b) mod z, no failed check"
    add(c, 'AddModOpt')
def subtract_mod(c):
    "requires a, b < z <= 2^62; ensures SubtractMod == (a - b) mod z"
    sub(c, 'SubtractMod')
def subtract_mod_opt(c):
    "requires a, b < z <= 2^62; ensures SubtractModOpt == (a - b) mod z, no failed check"
    sub(c, 'SubtractModOpt')
def multiply_mod(c):
    "requires a, b < 2^32, 1 <= z <= 2^32; ensures r < z and a*b == k*z + r"
    g, f, st, a, b, z = mk(c, 'MultiplyMod', 2 ** 32, below=False); st.assume(z3.And(a < 2 ** 32, b < 2 ** 32))
    out = call(g, st, f, [a, b, z]); no_abort(g, 'valid operands are accepted'); cover(g, out)
    for s, r in out:
        g.cur = s; g.oblige(s, r == g.A.mod(a * b, z), 'MultiplyMod is the exact product reduced modulo z')
        g.oblige(s, z3.And(r >= 0, r < z), 'MultiplyMod is below z')
def multiply_mod64(c):
    "requires a, b < 2^64, 1 <= z < 2^64; ensures the exact 128-bit product reduced modulo z"
    g, f, st, a, b, z = mk(c, 'MultiplyMod64', 2 ** 64 - 1, below=False); st.assume(z3.And(a < 2 ** 64, b < 2 ** 64))
    out = call(g, st, f, [a, b, z]); no_abort(g, 'valid operands are accepted'); cover(g, out)
    for s, r in out:
        g.cur = s; g.oblige(s, r == g.A.mod(a * b, z), 'MultiplyMod64 is the exact product reduced modulo z')
        g.oblige(s, z3.And(r >= 0, r < z), 'MultiplyMod64 is below z')
def divide_round_up(c):
    "requires b >= 1, a + b - 1 < 2^32; ensures (q-1)*b < a <= q*b"
    g, f, st, a, b, z = mk(c, 'DivideRoundUp', below=False, exactdiv=True); st.assume(z3.And(b >= 1, a + b - 1 < 2 ** 32, a < 2 ** 32, b < 2 ** 32))
    out = call(g, st, f, [a, b]); cover(g, out)
    for s, q in out:
        g.oblige(s, b * q >= a, 'quotient times divisor covers the dividend')
        g.oblige(s, z3.Implies(a > 0, b * q - b < a), 'quotient is the smallest such number'); g.oblige(s, z3.Implies(a == 0, q == 0), 'nothing needs no parts')
def inverse_mod_prime(c):
    """requires z prime, 0 < a < z; ensures (a * InverseModPrime(a, z)) mod z == 1.
    MultiplyMod64 by its contract M; loop invariant M(inverse, P(a, exponent)) == P(a0, z-2);
    lemmas about M and P (associativity, halving of the exponent, Fermat) are proved in lemmas/ModPow.lean."""
    g, f, st, a, b, z = mk(c, 'InverseModPrime', 2 ** 63)
    I = z3.IntSort(); M = z3.Function('M', I, I, I); P = z3.Function('P', I, I, I)
    x, y, w, e = z3.Ints('x y w e')
    in_ = lambda t: z3.And(t >= 0, t < z)
    st.assume(z3.And(z >= 2, a > 0))
    st.assume(z3.ForAll([x, y], z3.Implies(z3.And(in_(x), in_(y)), z3.And(in_(M(x, y)), M(x, y) == M(y, x))), patterns=[M(x, y)]))
    st.assume(z3.ForAll([x, y, w], z3.Implies(z3.And(in_(x), in_(y), in_(w)), M(M(x, y), w) == M(x, M(y, w))), patterns=[M(M(x, y), w)]))
    st.assume(z3.ForAll([x], z3.Implies(in_(x), M(x, 1) == x), patterns=[M(x, 1)]))
    st.assume(z3.ForAll([x, e], z3.Implies(z3.And(in_(x), e > 0), P(x, e) == z3.If(e % 2 == 1, M(x, P(M(x, x), e / 2)), P(M(x, x), e / 2))), patterns=[P(x, e)]))
    st.assume(z3.ForAll([x, e], z3.Implies(z3.And(in_(x), e >= 0), in_(P(x, e))), patterns=[P(x, e)]))
    st.assume(z3.ForAll([x], z3.Implies(in_(x), P(x, 0) == 1), patterns=[P(x, 0)]))
    st.assume(M(a, P(a, z - 2)) == 1)
    g.assumptions.add('lemmas/ModPow.lean (checked by Lean on every run): modular multiplication is associative and commutative, powers halve their exponent, Fermat')
    def mm(g, s, obj, args, e):
        p, q, m = [g.val(s, v) for v in args]
        g.oblige(s, z3.And(m == z, in_(p), in_(q)), 'precondition of MultiplyMod64 (operands reduced, same modulus)', e.get('l', 0))
        return [(s, M(p, q))]
    g.contracts[NS + 'MultiplyMod64'] = mm
    def hint(L):
        ints = [g.read(L.st, lv) for lv in L.mods]
        if len(ints) != 3 or not all(z3.is_expr(v) and z3.is_int(v) for v in ints): return []
        import itertools
        out = [('v%d below the modulus' % i, in_(v)) for i, v in enumerate(ints)]
        pre = [g.read(L.pre, lv) for lv in L.mods]; perms = list(itertools.permutations(range(3)))
        like = [p for p in perms if z3.is_int_value(pre[p[0]]) and pre[p[1]].eq(a)]      # the accumulator starts as a number, the base as a
        for p in like or perms:
            i, b_, ex = [ints[k] for k in p]
            out.append(('product of the accumulator #%d and the remaining power #%d^#%d' % p, z3.And(in_(i), in_(b_), ex >= 0, M(i, P(b_, ex)) == P(a, z - 2))))
        return out
    g.loop_hints.append(hint); g.generic = lambda n: 'start' not in n
    out = call(g, st, f, [a, z]); cover(g, out)
    for s, r in out: g.oblige(s, M(a, r) == 1, 'the inverse times the number is one modulo z')
    if not lean_lemmas(c, 'ModPow.lean'): raise Unsupported('Lean did not confirm lemmas/ModPow.lean')
def int_to_bytes(c):
    "ensures a 4-byte string whose i-th byte is bits 31-8i .. 24-8i of the number (injective)"
    g = c.engine(TUS, proto=False); f = c.fn(NS + 'IntToByteString'); st = start(g, f); v = z3.Int('v'); st.assume(z3.And(v >= 0, v < 2 ** 32))
    out = call(g, st, f, [v]); cover(g, out)
    for s, r in out:
        g.oblige(s, g.strlen(r) == 4, 'four bytes')
        for i in range(4):
            b = g.str_at(s, r, z3.IntVal(i)); g.oblige(s, z3.If(b < 0, b + 256, b) == (v / (1 << 8 * (3 - i))) % 256, 'byte %d is the big-endian one' % i)
UNITS = [add_mod, add_mod_opt, subtract_mod, subtract_mod_opt, multiply_mod, multiply_mod64, divide_round_up, inverse_mod_prime, int_to_bytes]
HARNESS = dict(main='C01_harness.cc', srcs=[], secs=6)
