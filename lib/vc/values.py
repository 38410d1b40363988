"""Symbolic values, z3 sorts for C++ types, packing of structured values into containers."""
import z3
from .program import *

class LV:
    """An lvalue: a root cell and an access path. Path elements:
    ('f', name) record field, ('i', term) vector element, ('k', term) map value at key,
    ('p', key) key/value pair of a map, ('d',) content of optional / unique_ptr / StatusOr, ('a', n) variant alternative."""
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()): self.root = root; self.path = path
    def f(self, name):
        if self.path and self.path[-1][0] == 'p' and name == 'second': return LV(self.root, self.path[:-1] + (('k', self.path[-1][1]),))
        return LV(self.root, self.path + (('f', name),))
    def i(self, t): return LV(self.root, self.path + (('i', t),))
    def k(self, t): return LV(self.root, self.path + (('k', t),))
    def d(self): return LV(self.root, self.path + (('d',),))
    def a(self, n): return LV(self.root, self.path + (('a', n),))
    def __repr__(self): return '&%s%s' % (self.root, ''.join('.' + (str(p[1]) if len(p) > 1 else '*') for p in self.path))

class RecV:
    __slots__ = ('ty', 'fields', 'base')
    def __init__(self, ty, fields=None, base=None): self.ty = ty; self.fields = fields or {}; self.base = base
    def __repr__(self): return '%s{%s}' % (self.ty.n, ', '.join('%s=%r' % kv for kv in self.fields.items()))
class VecV:
    __slots__ = ('ety', 'len', 'arr', 'ty')
    def __init__(self, ety, ln, arr, ty=None): self.ety = ety; self.len = ln; self.arr = arr; self.ty = ty
    def __repr__(self): return 'Vec(%s)' % self.len
class MapV:
    __slots__ = ('kty', 'vty', 'dom', 'val', 'size', 'ty')
    def __init__(self, kty, vty, dom, val, size, ty=None):
        self.kty = kty; self.vty = vty; self.dom = dom; self.val = val; self.size = size; self.ty = ty
class OptV:
    __slots__ = ('ety', 'has', 'val', 'ty')
    def __init__(self, ety, has, val, ty=None): self.ety = ety; self.has = has; self.val = val; self.ty = ty
    def __repr__(self): return 'Opt(%s,%r)' % (self.has, self.val)
class StatusV:
    __slots__ = ('code', 'msg')
    def __init__(self, code, msg): self.code = code; self.msg = msg
    def __repr__(self): return 'Status(%s)' % self.code
class StatusOrV:
    __slots__ = ('ety', 'code', 'msg', 'val', 'ty')
    def __init__(self, ety, code, msg, val, ty=None): self.ety = ety; self.code = code; self.msg = msg; self.val = val; self.ty = ty
    def __repr__(self): return 'StatusOr(%s,%r)' % (self.code, self.val)
class PtrV:
    __slots__ = ('ty', 'null', 'lv', 'off')
    def __init__(self, ty, null, lv, off=None): self.ty = ty; self.null = null; self.lv = lv; self.off = off
    def __repr__(self): return 'Ptr(%s,%r)' % (self.null, self.lv)
class IterV:
    """Iterator: container lvalue; vec: pos index term; map: key term and end flag."""
    __slots__ = ('lv', 'kind', 'pos', 'end', 'rev')
    def __init__(self, lv, kind, pos, end=None, rev=False): self.lv = lv; self.kind = kind; self.pos = pos; self.end = end; self.rev = rev
class FnV:
    __slots__ = ('fns', 'env', 'this', 'name')
    def __init__(self, fns, env, this, name=None): self.fns = fns; self.env = env; self.this = this; self.name = name
class VarV:
    __slots__ = ('ty', 'tys', 'idx', 'vals')
    def __init__(self, ty, tys, idx, vals): self.ty = ty; self.tys = tys; self.idx = idx; self.vals = vals
class OpaqueV:
    __slots__ = ('ty', 'term')
    def __init__(self, ty, term): self.ty = ty; self.term = term
class ViewV:
    """absl::Span<T> over a mutable container, or pointer range."""
    __slots__ = ('ety', 'lv', 'off', 'len')
    def __init__(self, ety, lv, off, ln): self.ety = ety; self.lv = lv; self.off = off; self.len = ln
class SplitV:
    """result of absl::StrSplit by one separator, before conversion"""
    __slots__ = ('s', 'd', 'max')
    def __init__(self, s, d, mx): self.s = s; self.d = d; self.max = mx
class TimeV:
    """absl::Time / absl::Duration: inf in {-1,0,1}; ns: nanoseconds (Int) when finite."""
    __slots__ = ('ty', 'inf', 'ns')
    def __init__(self, ty, inf, ns): self.ty = ty; self.inf = inf; self.ns = ns
class UnitV:
    __slots__ = ('ty',)
    def __init__(self, ty=None): self.ty = ty

VEC = {'std::vector', 'absl::InlinedVector', 'std::array', 'std::initializer_list', 'std::deque', 'std::queue',
       'google::protobuf::RepeatedField', 'google::protobuf::RepeatedPtrField', 'absl::Span', 'absl::FixedArray'}
MAP = {'std::map', 'std::unordered_map', 'absl::flat_hash_map', 'absl::node_hash_map', 'absl::btree_map',
       'google::protobuf::Map', 'std::multimap', 'absl::btree_multimap'}
SET = {'std::set', 'std::unordered_set', 'absl::flat_hash_set', 'absl::node_hash_set', 'absl::btree_set'}
OPT = {'std::optional', 'absl::optional', 'std::unique_ptr'}
UNIT = {'absl::Mutex', 'absl::MutexLock', 'absl::ReaderMutexLock', 'absl::WriterMutexLock', 'verif_log::NullStream', 'verif_log::Voidify', 'absl::CondVar',
        'std::mutex', 'std::monostate', 'std::nullopt_t', 'fcp::TracingSpan', 'fcp::UnscopedTracingSpan', 'fcp::TracingSpanRef', 'std::nothrow_t',
        'std::allocator', 'std::hash', 'std::less', 'std::equal_to', 'std::default_delete', 'absl::nullopt_t',
        'std::basic_ostringstream', 'std::basic_stringstream', 'fcp::Error', 'fcp::SourceLocation', 'std::piecewise_construct_t',
        'std::in_place_t'}

BYTES = [False]     # strings as byte vectors (Engine(strings='bytes')); otherwise opaque or z3 strings
def kind_of(ty):
    if ty.k in ('int', 'enum'): return 'int'
    if ty.k in ('bool', 'float', 'ptr', 'nullptr', 'void', 'fn'): return {'nullptr': 'ptr'}.get(ty.k, ty.k)
    if ty.k == 'arr': return 'vec'
    if ty.k == 'rec':
        n = ty.n
        if ty is STRING: return 'vec' if BYTES[0] else 'str'
        if n in VEC: return 'vec'
        if n in MAP: return 'map'
        if n in SET: return 'set'
        if n in OPT: return 'opt'
        if n == 'absl::Status' or n == 'fcp::internal::StatusBuilder': return 'status'
        if n == 'absl::StatusOr': return 'statusor'
        if n in ('absl::Time', 'absl::Duration'): return 'time'
        if n in ('std::pair', 'std::tuple'): return 'rec'
        if n == 'std::variant' or n == 'absl::variant': return 'variant'
        if n in ('std::function', 'absl::FunctionRef', 'absl::AnyInvocable') or n.startswith('lambda#'): return 'fn'
        if n == 'std::shared_ptr' or n == 'std::weak_ptr': return 'ptr'
        if n == 'std::atomic': return 'atomic'
        if n in UNIT: return 'unit'
        if n in ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::reverse_iterator'): return 'iter'
        return 'rec'
    return 'opaque'

def simp(t): return z3.simplify(t)
def is_true(t): return z3.is_true(t)
def is_false(t): return z3.is_false(t)
T, F = z3.BoolVal(True), z3.BoolVal(False)

def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a): return F
    return T if not a else a[0] if len(a) == 1 else z3.And(*a)
def Or(*a):
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a): return T
    return F if not a else a[0] if len(a) == 1 else z3.Or(*a)
def Not(a):
    if z3.is_true(a): return F
    if z3.is_false(a): return T
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def Implies(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a) or z3.is_true(b): return T
    return z3.Implies(a, b)
def If(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    return z3.If(c, a, b)
def Eq(a, b):
    if a.eq(b): return T
    if z3.is_int_value(a) and z3.is_int_value(b): return z3.BoolVal(a.as_long() == b.as_long())
    for x, y in ((a, b), (b, a)):
        if z3.is_int_value(x) and z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(y.arg(1)) and z3.is_int_value(y.arg(2)):
            v = x.as_long(); p, q = y.arg(1).as_long() == v, y.arg(2).as_long() == v
            return T if p and q else F if not p and not q else y.arg(0) if p else Not(y.arg(0))
    return a == b

def cint(t):
    """Concrete value of an integer term, or None."""
    if isinstance(t, int): return t
    if z3.is_int_value(t): return t.as_long()
    if z3.is_bv_value(t): return t.as_long()
    return None

class Arith:
    """Machine integers. mode 'int': mathematical integers kept in range by explicit wrap-around
    for unsigned types (signed overflow is undefined behaviour: reported as its own obligation);
    mode 'bv': bit vectors of the C++ width."""
    def __init__(self, mode='int'):
        self.mode = mode
        self.fpmode = 'real'
    # -- sorts and constants
    def sort(self, ty):
        if self.mode == 'int': return z3.IntSort()
        return z3.BitVecSort(ty.w)
    @property
    def isort(self): return z3.IntSort() if self.mode == 'int' else z3.BitVecSort(64)
    def const(self, v, ty):
        if self.mode == 'int': return z3.IntVal(v)
        return z3.BitVecVal(v, ty.w)
    def idx(self, v): return z3.IntVal(v) if self.mode == 'int' else z3.BitVecVal(v, 64)
    def lo(self, ty): return -(1 << (ty.w - 1)) if ty.s else 0
    def hi(self, ty): return (1 << (ty.w - 1)) - 1 if ty.s else (1 << ty.w) - 1
    def in_range(self, t, ty):
        if self.mode == 'bv' or z3.is_int_value(t): return T
        return z3.And(t >= self.lo(ty), t <= self.hi(ty))
    # -- comparison of indices
    def lt(self, a, b): return self.cmp('<', a, b, U64)
    def le(self, a, b): return self.cmp('<=', a, b, U64)
    def cmp(self, op, a, b, ty):
        if self.mode == 'int' or (isinstance(ty, Ty) and ty.k == 'float'):
            x, y = cint(a), cint(b)
            if x is not None and y is not None:
                return z3.BoolVal({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op])
            if op == '==': return Eq(a, b)
            if op == '!=': return Not(Eq(a, b))
            return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()
        if op == '==': return simp(a == b) if z3.is_bv_value(a) and z3.is_bv_value(b) else a == b
        if op == '!=': return Not(self.cmp('==', a, b, ty))
        if ty.s: r = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()
        else: r = {'<': lambda: z3.ULT(a, b), '<=': lambda: z3.ULE(a, b), '>': lambda: z3.UGT(a, b), '>=': lambda: z3.UGE(a, b)}[op]()
        if z3.is_bv_value(a) and z3.is_bv_value(b): r = simp(r)
        return r
    def wrap(self, t, ty):
        """Reduce a mathematical integer into the range of ty."""
        c = cint(t)
        m = 1 << ty.w
        if c is not None:
            c %= m
            if ty.s and c >= m // 2: c -= m
            return z3.IntVal(c)
        if not ty.s: return t % m
        return (t + m // 2) % m - m // 2
    def conv(self, t, fr, to):
        """integral conversion"""
        if fr.k == 'bool': return If(t, self.const(1, to), self.const(0, to))
        if self.mode == 'int':
            if self.lo(to) <= self.lo(fr) and self.hi(to) >= self.hi(fr): return t
            if cint(t) is None and self.known(self.in_range(t, to)): return t
            if not to.s and fr.s and to.w >= fr.w and cint(t) is None: return z3.If(t < 0, t + (1 << to.w), t)
            return self.wrap(t, to)
        if to.w == fr.w: return t
        if to.w < fr.w: return simp(z3.Extract(to.w - 1, 0, t))
        return simp(z3.SignExt(to.w - fr.w, t) if fr.s else z3.ZeroExt(to.w - fr.w, t))
    def to_idx(self, t, ty):
        return self.conv(t, ty, U64 if not ty.s else I64)
    def binop(self, op, a, b, ty, bty=None, ovf=None):
        """ovf: callback(cond) receiving the no-overflow condition of signed arithmetic"""
        if self.mode == 'bv': return self._bv(op, a, b, ty, bty or ty)
        x, y = cint(a), cint(b)
        M = 1 << ty.w
        if op == '+':
            if x is not None and y is not None: return self.wrap(z3.IntVal(x + y), ty)
            if x == 0: return b
            if y == 0: return a
            s = a + b
            if ty.s:
                if ovf: ovf(self.in_range(s, ty))
                return s
            if self.known(s < M): return s
            return z3.If(s >= M, s - M, s)
        if op == '-':
            if x is not None and y is not None: return self.wrap(z3.IntVal(x - y), ty)
            if y == 0: return a
            s = a - b
            if ty.s:
                if ovf: ovf(self.in_range(s, ty))
                return s
            if self.known(s >= 0): return s
            return z3.If(s < 0, s + M, s)
        if op == '*':
            if x is not None and y is not None: return self.wrap(z3.IntVal(x * y), ty)
            if x == 0 or y == 0: return z3.IntVal(0)
            if x == 1: return b
            if y == 1: return a
            s = a * b
            if ty.s:
                if ovf: ovf(self.in_range(s, ty))
                return s
            H = 1 << (ty.w // 2)
            if self.known(z3.And(a < H, b < H)) or self.known(s < M): return s
            return s % M
        if op in ('/', '%'):
            if x is not None and y:
                q = abs(x) // abs(y); q = -q if (x < 0) != (y < 0) else q
                return z3.IntVal(q if op == '/' else x - q * y)
            if not ty.s or self.known(z3.And(a >= 0, b > 0)): return self.div(a, b) if op == '/' else self.mod(a, b)
            D = self.div
            if y is not None and y > 0: q = z3.If(a >= 0, a / b, -((-a) / b))
            elif self.known(b > 0): q = z3.If(a >= 0, D(a, b), -D(-a, b))
            else: q = z3.If(a >= 0, z3.If(b >= 0, D(a, b), -D(a, -b)), z3.If(b >= 0, -D(-a, b), D(-a, -b)))
            if op == '%' and y is None:
                m = self.mod; absb = z3.If(b >= 0, b, -b)
                return z3.If(a >= 0, m(a, absb), -m(-a, absb))
            return q if op == '/' else a - q * b
        if op == '<<':
            if x == 1 and y is None and self.pow2 is not None: return self.pow2(b)
            if y is not None:
                if x is not None: return self.wrap(z3.IntVal(x << y), ty)
                s = a * (1 << y)
                return s if ty.s or self.known(s < M) else s % M
        if op == '>>':
            if y is not None:
                if x is not None: return z3.IntVal(x >> y)
                return a / (1 << y)
        if op == '&':
            if x is not None and y is not None: return self.wrap(z3.IntVal(x & y), ty)
            for c, o in ((x, b), (y, a)):
                if c is not None and c >= 0 and (c & (c + 1)) == 0: return o % (c + 1)
        if op == '|' and x is not None and y is not None: return self.wrap(z3.IntVal(x | y), ty)
        if op == '^' and x is not None and y is not None: return self.wrap(z3.IntVal(x ^ y), ty)
        if op == '|' and x == 0: return b
        if op == '|' and y == 0: return a
        # general case: through bit vectors
        A = z3.Int2BV(a, ty.w); B = z3.Int2BV(b, ty.w)
        r = self._bv(op, A, B, ty, ty)
        return z3.BV2Int(r, ty.s)
    pow2 = None         # powers of two with a symbolic exponent, by a function of the contract file (integer mode)
    emit = None
    decide = None
    def known(self, c): return self.decide is not None and self.decide(c)
    exactdiv = False
    def div(self, a, b): return a / b if cint(b) is not None else self.divmod(a, b)[0]
    def mod(self, a, b): return a % b if cint(b) is not None else self.divmod(a, b)[1]
    def divmod(self, a, b):
        """division by a variable: function symbols with the linear consequences of small quotients
        (and, with exactdiv, the nonlinear definition)"""
        I = z3.IntSort()
        q, m = z3.Function('idiv', I, I, I)(a, b), z3.Function('imod', I, I, I)(a, b)
        if self.emit is not None:
            for c in (0, 1, 2):
                self.emit(z3.Implies(z3.And(b > 0, a >= c * b, a < (c + 1) * b), z3.And(m == a - c * b, q == c)))
            self.emit(z3.Implies(z3.And(b > 0, a < 0, a >= -b), z3.And(m == a + b, q == -1)))
            self.emit(z3.Implies(b > 0, z3.And(m >= 0, m < b)))
            self.emit(z3.Implies(z3.And(b > 0, a >= 0), z3.And(q >= 0, q <= a, m <= a)))
            if self.exactdiv: self.emit(z3.Implies(b > 0, a == b * q + m))
        return q, m
    products = ()       # (a, b, a*b): products known under a name (bit-vector mode)
    def _bv(self, op, a, b, ty, bty):
        if op == '*':
            for x, y, p in self.products:
                if p.size() == ty.w and (simp(x).eq(simp(a)) and simp(y).eq(simp(b)) or simp(x).eq(simp(b)) and simp(y).eq(simp(a))): return p
        if op in ('<<', '>>') and bty.w != ty.w:
            b = self.conv(b, bty, ty) if self.mode == 'bv' else b
        if op in '/%' and ty.s and cint(b) is not None and cint(b) > 0 and cint(b) & (cint(b) - 1) == 0 and cint(simp(z3.Extract(ty.w - 1, ty.w - 1, a))) == 0:
            n = cint(b).bit_length() - 1
            return simp(z3.LShR(a, n) if op == '/' else a & (cint(b) - 1))      # a non-negative number by a power of two
        f = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
             '/': lambda: (a / b) if ty.s else z3.UDiv(a, b),
             '%': lambda: z3.SRem(a, b) if ty.s else z3.URem(a, b),
             '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
             '<<': lambda: a << b, '>>': lambda: (a >> b) if ty.s else z3.LShR(a, b)}[op]
        return simp(f())
    def neg(self, a, ty, ovf=None):
        if self.mode == 'bv': return -a
        if ty.s:
            return -a if cint(a) is None else z3.IntVal(-cint(a))
        return self.wrap(-a, ty) if cint(a) is not None else z3.If(a == 0, a, (1 << ty.w) - a)
    def inv(self, a, ty):
        if self.mode == 'bv': return ~a
        if cint(a) is not None: return self.wrap(z3.IntVal(~cint(a)), ty)
        return -a - 1 if ty.s else (1 << ty.w) - 1 - a
