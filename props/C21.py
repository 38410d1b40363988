"""C21: vocabulary lookups."""
import importlib.util
from vc.spec import *
def load(n):
    s = importlib.util.spec_from_file_location('prop_' + n, os.path.join(V, 'props', n + '.py')); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
C07, C10 = load('C07'), load('C10')
TUS = ['fcp/dictionary/dictionary.cc']; D = 'fcp::dictionary::Dictionary'
ASSUMPTIONS = ['token plus special ids stay below 2^31 and ids asked for are not negative', 'hash maps behave as finite maps', 'text is compared as opaque values']
class Dic:
    """runs Create on an arbitrary description; what an observer of the dictionary sees is compared with the description"""
    def __init__(self, c, distinct):
        g = self.g = c.engine(TUS, proto=['fcp/dictionary/dictionary.proto']); g.safety = {'index', 'null', 'overflow'}; g.generic = C10.generic; g.feas_qf = True; self.c = c; f = c.fn(D + '::Create'); st = self.st = start(g, f); a = params(g, st, f); d = self.d = a[0] if isinstance(a[0], LV) else g.new_root(st, 'description', a[0]); m = g.proto.message(f.ps[0][2]); G = self.get = lambda lv, n: g.read(st, lv.f(n)); P = lambda lv, n: C07.present(g, st, lv, n)
        self.voc = P(d, 'vocabulary'); vl = d.f('vocabulary'); self.idx = G(vl, 'case_vocabulary') == 2; tl = vl.f('index').f('token'); self.tok = g.read(st, tl); bl = d.f('output_blocklist_ids').f('id'); self.block = g.read(st, bl); self.hasblock = P(d, 'output_blocklist_ids'); sp = d.f('special_ids'); self.hs = P(d, 'special_ids')
        self.has = {k: z3.And(self.hs, P(sp, k)) for k in ('unk', 'bos', 'eos')}; self.sp = {k: z3.If(self.has[k], G(sp, k), -1) for k in self.has}; mx = z3.IntVal(-1)
        for k in self.sp: mx = z3.If(self.sp[k] > mx, self.sp[k], mx)
        self.mx = mx; t, b = self.tok, self.block; st.assume(z3.And(t.len >= 0, t.len < 2 ** 31, b.len >= 0, b.len < 2 ** 30, mx + t.len < 2 ** 30)); j, k = z3.Ints('j!t k!t'); j2 = z3.Int('j!u'); self.empty = g.strlit('')
        for q in self.sp.values(): st.assume(z3.And(q >= -2 ** 31, q < 2 ** 30))
        if distinct: POS = self.POS = z3.Function('position of token', g.str_sort(), z3.IntSort()); st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < t.len), POS(t.arr[j]) == j), **C07.pat(t.arr, j)))
        NAMED, DIST = self.NAMED, self.DIST = z3.Function('among the first words', z3.IntSort(), g.str_sort(), z3.BoolSort()), z3.Function('different words among the first', z3.IntSort(), z3.IntSort()); self.f = f; self.a = a
        def hint(L):
            o = []; s = L.st; k = L.k; x = z3.Const('x!s', g.str_sort()); bv = {}
            k1 = z3.simplify(k - 1); s.assume(z3.ForAll([x], NAMED(k, x) == z3.And(k > 0, z3.Or(NAMED(k1, x), t.arr[k1] == x)), patterns=[NAMED(k, x)])); s.assume(DIST(k) == z3.If(k <= 0, 0, DIST(k1) + z3.If(NAMED(k1, t.arr[k1]), 0, 1)))    # what the two functions stand for
            for lv in L.mods:
                try: v = g.read(s, lv)
                except Exception: continue
                if isinstance(v, MapV) and kind_of(v.vty) == 'int' and kind_of(v.kty) == 'str':
                    o += [('a word in the map stands at its number', z3.ForAll([x], z3.Implies(v.dom[x], z3.And(v.val[x] >= 0, v.val[x] < k, t.arr[v.val[x]] == x)), **C07.pat(v.dom, x))), ('every word so far is in the map, with its last position', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.And(v.dom[t.arr[j]], v.val[t.arr[j]] >= j)), **C07.pat(t.arr, j))), ('the words in the map are those so far', z3.ForAll([x], v.dom[x] == NAMED(k, x), **C07.pat(v.dom, x))), ('the map has one entry per different word', v.size == DIST(k)), ('no more entries than words', v.size <= k)]
                if isinstance(v, VecV) and kind_of(v.ety) == 'str': o += [('one entry per word', v.len == k), ('entries are the words', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), v.arr[j] == t.arr[j]), **C07.pat(v.arr, j)))]
                if isinstance(v, VecV) and kind_of(v.ety) == 'int':
                    p = g.read(L.pre, lv); o += [('one id per pass', v.len == p.len + k), ('special ids', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), v.arr[j] == j), **C07.pat(v.arr, j))), ('earlier ids stay', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p.len), v.arr[j] == p.arr[j]), **C07.pat(v.arr, j))), ('listed ids', z3.ForAll([j], z3.Implies(z3.And(j >= p.len, j < p.len + k), v.arr[j] == b.arr[j - p.len]), **C07.pat(v.arr, j)))]
            j1 = z3.Int('j!1'); o += [('ids so far above the special ones', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), b.arr[j] > mx), **C07.pat(b.arr, j))), ('ids so far ascending', z3.ForAll([j], z3.Implies(z3.And(j >= 1, j < k), b.arr[j] > b.arr[j - 1]), **C07.pat(b.arr, j))), ('words so far are not empty', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), g.strlen(t.arr[j]) != 0), **C07.pat(t.arr, j)))]
            return o
        g.loop_hints[:] = [hint]
        j = z3.Int('j!t'); self.blockok = z3.Implies(self.hasblock, z3.And(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < b.len), b.arr[j] > mx), **C07.pat(b.arr, j)), z3.ForAll([j], z3.Implies(z3.And(j >= 1, j < b.len), b.arr[j] > b.arr[j - 1]), **C07.pat(b.arr, j)))); self.good = z3.And(self.voc, self.idx, self.blockok); self.tokok = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < t.len), g.strlen(t.arr[j]) != 0), **C07.pat(t.arr, j)); self.spok = z3.And([z3.Implies(self.has[k], self.sp[k] >= 0) for k in self.sp])
    def run(self): out = call(self.g, self.st, self.f, self.a); cover(self.g, out); return out
    def obs(self, s, o, n, *a):
        g = self.g; fs = [f for f in g.p.fns.values() if f.cls is o.ty and f.n.endswith('::' + n)]
        if len(fs) != 1: raise Unsupported('dictionary has no ' + n)
        f = fs[0]; r = call(g, s.copy(), f, list(a), this=o.lv); cover(g, r); return r
    def dicts(self, out):
        g = self.g
        for s, r in out:
            z = s.copy(); z.assume(r.code == 0)
            if not g.feasible(z): continue
            w = g.val(z, r.val)
            if not isinstance(w, OptV) or not isinstance(w.val, RecV): raise Unsupported('dictionary')
            g.oblige(z, w.has, 'there is a dictionary'); o = lambda: None; o.lv = g.new_root(z, 'dictionary', w.val); o.cls = w.val.ty.n; o.ty = w.val.ty; yield z, o
def create(c):
    """ensures a dictionary is made only from a description with a word list whose blocked ids are ascending and above the special ids, and always from one with no empty word and no negative special id"""
    K = Dic(c, False); g = K.g; out = K.run(); j = z3.Int('j!t')
    for s, r in out:
        z = s.copy(); z.assume(r.code == 0)
        if g.feasible(z): g.oblige(z, z3.And(K.voc, K.idx), 'only a description with a word list is accepted'); i = z3.Int('any id'); b = K.block; hb = z3.And(K.hasblock, i >= 0, i < b.len); g.oblige(z, z3.Implies(hb, b.arr[i] > K.mx), 'only blocked ids above the special ids are accepted'); g.oblige(z, z3.Implies(z3.And(hb, i >= 1), b.arr[i] > b.arr[i - 1]), 'only ascending blocked ids are accepted'); g.oblige(z, K.spok, 'only special ids that are not negative are accepted')
        z = s.copy(); z.assume(r.code != 0)
        if g.feasible(z): g.oblige(z, Not(K.good), 'a well-formed description is accepted')
    no_abort(g, 'aborts only for an empty word or a negative special id', pre=z3.And(K.tokok, K.spok))
def forward(c):
    """ensures a word of the list gets a number at which it stands, offset by the special ids, and any other text the unknown id"""
    K = Dic(c, False); g = K.g; t = K.tok; x = z3.Const('any text', g.str_sort()); i = z3.Int('any position')
    for z, o in K.dicts(K.run()):
        for y, v in K.obs(z, o, 'TokenToId', x):
            v = g.val(y, v); p = v - K.mx - 1; known = z3.And(i >= 0, i < t.len, t.arr[i] == x); g.oblige(y, z3.Implies(known, z3.And(p >= i, p < t.len, t.arr[p] == x)), 'a word of the list gets a number at which it stands'); g.oblige(y, z3.Or(v == K.sp['unk'], z3.And(p >= 0, p < t.len, t.arr[p] == x)), 'any other text gets the unknown id')
def backward(c):
    """ensures a number maps to the word standing there, numbers of the special ids and past the end to no word"""
    K = Dic(c, False); g = K.g; t = K.tok; n = z3.Int('any number'); K.st.assume(z3.And(n >= 0, n < 2 ** 31))
    for z, o in K.dicts(K.run()):
        for y, v in K.obs(z, o, 'IdToToken', n): p = n - K.mx - 1; g.oblige(y, g.val(y, v) == z3.If(z3.And(p >= 0, p < t.len), t.arr[p], K.empty), 'a number maps to the word standing there')
        for y, v in K.obs(z, o, 'IsSpecialId', n): g.oblige(y, g.val(y, v) == (n <= K.mx), 'the special ids are the numbers up to the largest one')
        for y, v in K.obs(z, o, 'GetSpecialIds'):
            q = v if isinstance(v, LV) else g.new_root(y, 'ids', v)
            for k in K.sp: g.oblige(y, z3.If(C07.present(g, y, q, k), g.read(y, q.f(k)), -1) == K.sp[k], 'the special ids are those of the description: ' + k)
def size(c):
    """ensures the size counts the special ids and the different words"""
    K = Dic(c, False); g = K.g
    for z, o in K.dicts(K.run()):
        for y, v in K.obs(z, o, 'Size'): g.oblige(y, g.val(y, v) == K.mx + 1 + K.DIST(K.tok.len), 'the size counts the special ids and the different words')
def blocked(c):
    """ensures the ids to filter are the special ids followed by the blocked ids"""
    K = Dic(c, False); g = K.g; i = z3.Int('any position'); b = K.block; n = z3.If(K.hasblock, b.len, 0); K.st.assume(z3.Implies(Not(K.hasblock), b.len == 0))
    for z, o in K.dicts(K.run()):
        for y, v in K.obs(z, o, 'GetSortedOutputBlocklistIds'):
            w = g.val(y, v); g.oblige(y, w.len == K.mx + 1 + n, 'one id per special id and blocked id'); g.oblige(y, z3.Implies(z3.And(i >= 0, i < w.len), w.arr[i] == z3.If(i <= K.mx, i, b.arr[i - K.mx - 1])), 'the special ids followed by the blocked ones')
UNITS = [create, forward, backward, size, blocked]
HARNESS = dict(main='C21_harness.cc', srcs=TUS, protos=['fcp/dictionary/dictionary.proto'], secs=3)
