"""C06: neighbour relations of the secret-sharing graphs."""
from vc.spec import *
TUS = ['fcp/secagg/server/secret_sharing_harary_graph.cc', V + '/props/inst_graph.cc']
NS = 'fcp::secagg::'
ASSUMPTIONS = ['std::shuffle returns a permutation of its range', 'graphs have fewer than 2^29 nodes (int arithmetic on node indices)']

def shuffle(g, st, obj, args, e):
    """contract of std::shuffle over a whole vector: the result is a permutation, witnessed by a bijection of positions"""
    a, b = g.val(st, args[0]), g.val(st, args[1])
    v = g.read(st, a.lv)
    q = z3.Function(g.uname('perm'), z3.IntSort(), z3.IntSort()); qi = z3.Function(g.uname('permi'), z3.IntSort(), z3.IntSort())
    arr = g.fresh_const('shuffled', v.arr.sort()); i = z3.Int('i!sh')
    rng = lambda t: z3.And(t >= 0, t < v.len)
    st.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(q(i)), rng(qi(i)), q(qi(i)) == i, qi(q(i)) == i, arr[i] == v.arr[q(i)])), patterns=[q(i), qi(i), arr[i]]))
    g.write(st, a.lv, VecV(v.ety, v.len, arr, v.ty))
    st.ghost['perm'] = (arr, qi)
    return [(st, UnitV())]

def harary(c):
    g = c.engine(TUS, proto=False)
    g.loop_hints.append(inverse_hints); g.generic = lambda n: not any(x in n for x in ('start - k', '<= start', 'len == start', 'keeps its old'))
    g.contracts['std::shuffle'] = shuffle
    g.contracts[NS + 'SslBitGen::SslBitGen'] = lambda g, st, t, args, e: [(st, UnitV())]
    g.safety = {'index', 'null', 'div', 'overflow'}
    f = c.fn(NS + 'SecretSharingGraphFactory::CreateHararyGraph')
    st = start(g, f)
    n, d, t = z3.Ints('nodes degree threshold'); rnd = z3.Bool('random')
    for x in (n, d, t): st.assume(z3.And(x >= -2**31, x < 2**31))
    st.assume(n < 2**29)
    pre = z3.And(n >= 1, d <= n, d % 2 == 1, t >= 1, t <= d)
    out = call(g, st, f, [n, d, t, rnd])
    no_abort(g, 'a valid configuration is accepted', pre)
    cover(g, out)
    res = []
    for s, r in out:
        g.oblige(s, pre, 'an invalid configuration is refused')
        res.append((*invariant(g, s, g.lval(s, r).d(), n, d, t), n, d, t))
    return g, res

def invariant(g, s, this, n, d, t):
    """class invariant: the two integer vectors of the object are mutually inverse permutations of 0..n-1.
    Proved for the constructed object, then the only thing known about it (fresh vectors)."""
    obj = g.read(s, this)
    vecs = [(k, v) for k, v in obj.fields.items() if isinstance(v, VecV)]
    if len(vecs) != 2: return s, this
    (ka, a), (kb, b) = vecs
    i = z3.Int('i!inv'); s1 = s.copy(); s1.assume(z3.And(i >= 0, i < n))
    if 'perm' in s.ghost:
        arr, qi = s.ghost['perm']; w = z3.Int('w!inv'); s1.assume(w == arr[qi(i)])
    ok = all([g.oblige(s1, f, 'class invariant: ' + nm) for nm, f in (
        ('one entry per node', z3.And(a.len == n, b.len == n)), ('entries are nodes', z3.And(a.arr[i] >= 0, a.arr[i] < n, b.arr[i] >= 0, b.arr[i] < n)),
        ('mutually inverse', z3.And(b.arr[a.arr[i]] == i, a.arr[b.arr[i]] == i)))])
    if not ok: return s, this
    A, B = [z3.Const(x, a.arr.sort()) for x in ('perm!A', 'perm!B')]
    s2 = start(g, s.fn); s2.exact = s.exact
    for c in s.pc:
        if not has_quant(c) and '!' not in str(c): s2.assume(c)
    fs = {}
    for k, v in obj.fields.items():
        if z3.is_expr(v) and not any(v.eq(c) for c in (n, d, t)):
            g.quiet += 1
            for c in (n, d, t):
                if g.prove(s, v == c, 2000, False)[0] == 'proved': v = c; break
            g.quiet -= 1
        fs[k] = v
    fs[ka] = VecV(a.ety, n, A, a.ty); fs[kb] = VecV(b.ety, n, B, b.ty)
    rng = lambda x: z3.And(x >= 0, x < n)
    s2.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(A[i]), B[A[i]] == i)), patterns=[A[i]]))
    s2.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(B[i]), A[B[i]] == i)), patterns=[B[i]]))
    return s2, g.new_root(s2, 'graph', RecV(obj.ty, fs, obj.base))

def complete(c):
    g = c.engine(TUS, proto=False); g.safety = {'index', 'null', 'div', 'overflow'}
    f = c.fn(NS + 'SecretSharingGraphFactory::CreateCompleteGraph')
    st = start(g, f); n, t = z3.Ints('nodes threshold')
    for x in (n, t): st.assume(z3.And(x >= -2**31, x < 2**31))
    pre = z3.And(n >= 1, t >= 1, t <= n)
    out = call(g, st, f, [n, t]); no_abort(g, 'a valid configuration is accepted', pre)
    for s, _ in out: g.oblige(s, pre, 'an invalid configuration is refused')
    cover(g, out)
    return g, [(s, g.lval(s, r).d(), n, n, t) for s, r in out]

def ask(c, g, s, this, m, *args):
    """-> [(state, value)] of a const query; aborts only outside the valid index ranges"""
    cls = g.read(s, this).ty.n
    return call(g, s, c.fn(cls + '::' + m), args, this)

def basics(c, mk):
    g, res = mk(c); x = z3.Int('x'); i = z3.Int('idx')
    for s, this, n, d, t in res:
        for m, val in (('GetNumNodes', n), ('GetDegree', d), ('GetThreshold', t)):
            for s2, v in ask(c, g, s.copy(), this, m): g.oblige(s2, v == val, m + ' reports the configured value')
        s.assume(z3.And(x >= 0, x < n))
        for s2, v in ask(c, g, s.copy(), this, 'AreNeighbors', x, x): g.oblige(s2, v, 'every node is its own neighbour')
        for s2, v in ask(c, g, s.copy(), this, 'IsOutgoingNeighbor', x, x): g.oblige(s2, v, 'a node is its own outgoing neighbour')
        s3 = s.copy(); s3.assume(z3.And(i >= 0, i < d))
        for s2, v in ask(c, g, s3, this, 'GetNeighbor', x, i):
            g.oblige(s2, z3.And(v >= 0, v < n), 'a neighbour is a node of the graph')
        no_abort(g, 'valid neighbour positions are answered')
        bad = s.copy(); bad.assume(z3.And(z3.Or(i < 0, i >= d), i >= -2**31, i < 2**31))
        for s2, v in ask(c, g, bad, this, 'GetNeighbor', x, i): g.oblige(s2, F, 'a position outside the degree is refused')

def positions(c, mk):
    g, res = mk(c); x, i = z3.Ints('x idx')
    for s, this, n, d, t in res:
        s.assume(z3.And(x >= 0, x < n, i >= 0, i < d))
        for s2, y in ask(c, g, s.copy(), this, 'GetNeighbor', x, i):
            for s3, o in ask(c, g, s2.copy(), this, 'GetNeighborIndex', x, y):
                g.oblige(s3, o.has, 'a neighbour by position has a position', kind='spec')
                s3.assume(o.has)
                p = g.optval(s3, o)
                g.oblige(s3, z3.And(p >= 0, p < d), 'positions are below the degree')
                g.oblige(s3, p == i, 'the position of the neighbour at a position is that position')
            no_abort(g, 'position lookup of valid nodes does not abort')

def inverse(c, mk):
    g, res = mk(c); x, y = z3.Ints('x y')
    for s, this, n, d, t in res:
        s.assume(z3.And(x >= 0, x < n, y >= 0, y < n))
        for s2, o in ask(c, g, s.copy(), this, 'GetNeighborIndex', x, y):
            for s3, a in ask(c, g, s2.copy(), this, 'AreNeighbors', x, y):
                g.oblige(s3, a == o.has, 'two nodes are neighbours exactly when there is a position')
            s2.assume(o.has); p = g.optval(s2, o)
            if not g.feasible(s2): continue
            for s3, z in ask(c, g, s2.copy(), this, 'GetNeighbor', x, p):
                g.oblige(s3, z == y, 'the neighbour at the position of a node is that node')
            no_abort(g, 'a returned position is a valid position')

def symmetric(c, mk):
    g, res = mk(c); x, y = z3.Ints('x y')
    for s, this, n, d, t in res:
        s.assume(z3.And(x >= 0, x < n, y >= 0, y < n))
        for s2, a in ask(c, g, s.copy(), this, 'AreNeighbors', x, y):
            for s3, b in ask(c, g, s2, this, 'AreNeighbors', y, x):
                g.oblige(s3, a == b, 'being neighbours is symmetric')
                for s4, p in ask(c, g, s3.copy(), this, 'IsOutgoingNeighbor', x, y):
                    for s5, q in ask(c, g, s4, this, 'IsOutgoingNeighbor', y, x):
                        g.oblige(s5, z3.Implies(z3.And(a, x != y), p != q), 'exactly one end of an edge holds it as outgoing')
                        g.oblige(s5, z3.Implies(z3.Not(a), z3.And(z3.Not(p), z3.Not(q))), 'nodes that are not neighbours have no outgoing edge')

def harary_basics(c):
    "requires a valid configuration; ensures reported sizes, self-neighbourhood, neighbours in range, refusals"
    basics(c, harary)
def harary_positions(c):
    "ensures GetNeighborIndex(x, GetNeighbor(x, i)) == i for every position i below the degree"
    positions(c, harary)
def harary_inverse(c):
    "ensures GetNeighbor(x, GetNeighborIndex(x, y)) == y, and AreNeighbors(x, y) iff a position exists"
    inverse(c, harary)
def harary_symmetric(c):
    "ensures symmetry of AreNeighbors and antisymmetry of IsOutgoingNeighbor on distinct neighbours"
    symmetric(c, harary)
def complete_basics(c):
    "complete graph: reported sizes, self-neighbourhood, range, refusals"
    basics(c, complete)
def complete_positions(c):
    "complete graph: position of the neighbour at a position"
    positions(c, complete)
def complete_inverse(c):
    "complete graph: neighbour at the position of a node"
    inverse(c, complete)
def complete_symmetric(c):
    "complete graph: symmetry and edge orientation"
    symmetric(c, complete)
UNITS = [harary_basics, harary_positions, harary_inverse, harary_symmetric, complete_basics, complete_positions, complete_inverse, complete_symmetric]
HARNESS = dict(main='C06_harness.cc', srcs=['fcp/secagg/server/secret_sharing_harary_graph.cc', 'fcp/secagg/server/ssl_bit_gen.cc', 'fcp/base/monitoring.cc'], libs=CRYPTO, secs=10)
