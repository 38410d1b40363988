"""C22: checked integer conversion and address mapping."""
from vc.spec import *
TUS = [V + '/props/inst_bounds.cc']
NS = 'verif_inst::'
ASSUMPTIONS = ['pointers are 64-bit numbers (reinterpret_cast between pointers and uint64_t is the identity on addresses)']
TYPES = ['int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t']
def ty(n): return int_ty(int(n.strip('uint_t')), n[0] != 'u')
def casts(c, part):
    g = c.engine(TUS, proto=False); g.safety = {'overflow'}
    for to in TYPES:
        for fr in TYPES:
            if (TYPES.index(to) + TYPES.index(fr)) % 4 != part: continue
            t, f_ = ty(to), ty(fr)
            f = c.fn(NS + 'Try_%s_%s' % (to, fr)); st = start(g, f); v = z3.Int('value'); st.assume(g.A.in_range(v, f_))
            lv = g.new_root(st, 'out', z3.Int('before')); fits = z3.And(v >= g.A.lo(t), v <= g.A.hi(t))
            out = call(g, st, f, [v, PtrV(ptr_ty(t), F, lv)]); cover(g, out); no_abort(g, 'trying never aborts')
            for s, r in out:
                g.oblige(s, r == fits, '%s to %s: succeeds exactly when representable' % (fr, to))
                g.oblige(s, z3.Implies(r, g.read(s, lv) == v), '%s to %s: success stores the same value' % (fr, to))
                g.oblige(s, z3.Implies(z3.Not(r), g.read(s, lv) == z3.Int('before')), '%s to %s: failure leaves the target alone' % (fr, to))
            f = c.fn(NS + 'Checked_%s_%s' % (to, fr)); st = start(g, f); st.assume(g.A.in_range(v, f_))
            out = call(g, st, f, [v]); cover(g, out); no_abort(g, '%s to %s: representable values are accepted' % (fr, to), fits)
            for s, r in out: g.oblige(s, z3.And(fits, r == v), '%s to %s: checked conversion returns only the same value' % (fr, to))
def casts0(c):
    "TryCastInteger/CastIntegerChecked: succeeds iff the value is representable, then stores it; otherwise target untouched / process stops"
    casts(c, 0)
def casts1(c):
    "as casts0, next quarter of the type pairs"
    casts(c, 1)
def casts2(c):
    "as casts0, next quarter of the type pairs"
    casts(c, 2)
def casts3(c):
    "as casts0, last quarter of the type pairs"
    casts(c, 3)
def mapping(c):
    "requires start + size < 2^64; ensures result == start + ptr if ptr + element*count <= size, else null"
    g = c.engine(TUS, proto=False); g.safety = {'overflow'}
    f = c.fn(NS + 'Map'); st = start(g, f); a, n, p, el, k = z3.Ints('start size ptr element count')
    st.assume(z3.And(a >= 0, n >= 0, p >= 0, el >= 0, k >= 0, a + n < 2 ** 64, n < 2 ** 64, a < 2 ** 64, p < 2 ** 64, el < 2 ** 32, k < 2 ** 32))
    tot = z3.Int('bytes'); st.assume(tot == el * k); st.assume(z3.And(tot >= 0, tot < 2 ** 64)); st.cells['mem'] = ('sym', VOID, 'mem')
    out = call(g, st, f, [PtrV(f.ps[0][2], a == 0, LV('mem'), a), n, p, el, k]); cover(g, out); no_abort(g, 'mapping never aborts')
    for s, r in out:
        ad = g.lib.addr(s, r)
        g.oblige(s, z3.If(p + tot <= n, ad == a + p, ad == 0), 'maps exactly the spans inside the space')
def spaces(c):
    "Embedded accepts exactly start + size < 2^64 and keeps both; Current is [0, 2^64-1)"
    g = c.engine(TUS, proto=False)
    f = c.fn(NS + 'Embed'); st = start(g, f); a, n = z3.Ints('start size'); st.assume(z3.And(a >= 0, n >= 0, a < 2 ** 64, n < 2 ** 64)); st.cells['mem'] = ('sym', VOID, 'mem')
    out = call(g, st, f, [PtrV(f.ps[0][2], a == 0, LV('mem'), a), n]); cover(g, out); no_abort(g, 'a space that ends below 2^64 is accepted', a + n < 2 ** 64)
    for s, r in out:
        g.oblige(s, z3.And(a + n < 2 ** 64, g.lib.addr(s, g.rget(s, r, 'start', None)) == a, g.rget(s, r, 'size', None) == n), 'an embedded space never wraps around and keeps its extent')
    f = c.fn(NS + 'Native'); st = start(g, f); out = call(g, st, f, []); cover(g, out)
    for s, r in out: g.oblige(s, z3.And(g.lib.addr(s, g.rget(s, r, 'start', None)) == 0, g.rget(s, r, 'size', None) == 2 ** 64 - 1), 'the native space starts at zero and has maximal size')
    f = c.fn(NS + 'Mul'); st = start(g, f); st.assume(z3.And(a >= 0, n >= 0, a < 2 ** 32, n < 2 ** 32)); out = call(g, st, f, [a, n])
    for s, r in out: g.oblige(s, r == a * n, 'SafeMultiply is the exact product')
UNITS = [casts0, casts1, casts2, casts3, mapping, spaces]
HARNESS = dict(main='C22_harness.cc', srcs=[], secs=5)
