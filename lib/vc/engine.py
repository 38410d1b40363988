"""Symbolic execution and verification-condition generation over the extracted AST."""
import time, subprocess, tempfile, os, select, signal
import z3
from .program import *
from .values import *

class State:
    __slots__ = ('cells', 'env', 'pc', 'trace', 'this', 'notes', 'ghost', 'fn', 'depth', 'pcids', 'exact')
    def __init__(self):
        self.cells = {}; self.env = {}; self.pc = []; self.trace = []; self.this = None; self.notes = []
        self.ghost = {}; self.fn = None; self.depth = 0; self.pcids = set(); self.exact = True
    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells); s.env = self.env; s.pc = list(self.pc); s.trace = list(self.trace)
        s.this = self.this; s.notes = list(self.notes); s.ghost = dict(self.ghost); s.fn = self.fn; s.depth = self.depth
        s.pcids = set(self.pcids); s.exact = self.exact
        return s
    def assume(self, c):
        if z3.is_true(c): return
        if c.get_id() in self.pcids: return
        self.pcids.add(c.get_id()); self.pc.append(c)

class Obligation:
    def __init__(self, name, fn, line, status, secs, model=None, note='', exact=True, backend='z3', smt=None, kind='spec'):
        self.name = name; self.fn = fn; self.line = line; self.status = status; self.secs = secs; self.model = model
        self.note = note; self.exact = exact; self.backend = backend; self.smt = smt; self.kind = kind

class PathLimit(Unsupported): pass

class Loop:
    """What a loop-invariant hint sees."""
    def __init__(self, eng, st0, st, k, mods, node, extra):
        self.eng = eng; self.pre = st0; self.st = st; self.k = k; self.mods = mods; self.node = node; self.__dict__.update(extra)

class Engine:
    def __init__(self, prog, arith='int', strings='opaque', timeout=8000, proto=None):
        self.p = prog; self.A = Arith(arith); self.strings = strings; BYTES[0] = strings == 'bytes'; self.timeout = timeout; self.proto = proto
        self.obs = []; self.aborts = []; self.contracts = {}; self.events = {}; self.models = {}
        self.loop_hints = []; self.generic = None; self.feas_qf = False          # callables(Loop) -> [(name, formula)]
        self.assumptions = set()      # assumed contracts and models used
        self.inlined = set()          # repo functions executed through
        self.nroot = 0; self.quiet = 0; self.wpass = 0; self.recorders = []; self.max_unroll = 70; self.max_depth = 40
        self.safety = set()           # obligation kinds enabled: 'index', 'null', 'overflow', 'div', 'abort', 'value'
        self.sorts = {}; self.strlits = {}; self.solver_time = 0.0; self.nsolve = 0
        self.paths = 0; self.max_paths = 4000; self.deadline = None; self.opaque_sorts = {}
        self.atomic_rely = None       # what other threads may do to a global atomic between two accesses: f(old, new)
        self.bounded = None           # unwind loops this often, with the obligation that no further round is possible
        self.hint_ms = 2500; self.hint_strong = lambda name: True     # solver time per candidate invariant; a second solver for those given
        self.join = False             # one state after a switch instead of one per case where only scalars differ
        self.merge = False            # ?: on scalars as if-then-else instead of two paths
        self.dyn = {}; self.fnspecs = {}; self.lib = None; self.axioms = []; self.unmodeled = set()
        self.ov_cache = {}; self.houdini_log = []; self.sym_index_ok = True
        self.axids = set()
        self.A.emit = self.axiom; self.A.decide = self.known; self.cur = None; self.kn_cache = {}
        from . import models
        self.lib = models.Models(self)

    def axiom(self, c):
        if self.cur is not None: self.cur.assume(c); return
        if c.get_id() not in self.axids: self.axids.add(c.get_id()); self.axioms.append(c)
    def known(self, c):
        """does the current path (quantifier-free part) imply c? used to pick the unwrapped form of machine arithmetic"""
        st = self.cur
        if st is None: return False
        c = simp(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = (c.get_id(), len(st.pc), st.pc[-1].get_id() if st.pc else 0)
        if k not in self.kn_cache:
            r, _ = self.check([x for x in st.pc if not has_quant(x)] + [z3.Not(c)], 300, [a for a in self.axioms if not has_quant(a)])
            if r == z3.sat and any(has_quant(x) for x in st.pc): r, _ = self.check(st.pc + [z3.Not(c)], 250)
            self.kn_cache[k] = (r == z3.unsat, c, st.pc[-1] if st.pc else None)
        return self.kn_cache[k][0]
    # ------------------------------------------------------------ sorts
    def str_sort(self):
        if self.strings == 'seq': return z3.StringSort()
        return self.usort('Str')
    def usort(self, name):
        if name not in self.opaque_sorts: self.opaque_sorts[name] = z3.DeclareSort(name)
        return self.opaque_sorts[name]
    def strlit(self, data):
        if isinstance(data, str): data = data.encode('latin1')
        data = bytes(data)
        if self.strings == 'seq':
            return z3.StringVal(''.join(chr(b) if 32 <= b < 127 and b not in (92,) else '\\u{%x}' % b for b in data))
        if data not in self.strlits:
            c = z3.Const('lit!%d' % len(self.strlits), self.str_sort())
            ident = z3.Function('str.id', self.str_sort(), z3.IntSort())
            self.strlits[data] = c
            self.axioms += [ident(c) == len(self.strlits), self.strlen(c) == len(data)]
        return self.strlits[data]
    def strlen(self, s):
        if self.strings == 'seq': return z3.Length(s)
        return z3.Function('str.len', self.str_sort(), z3.IntSort())(s)
    def strcat(self, a, b):
        if self.strings == 'seq': return z3.Concat(a, b)
        return z3.Function('str.cat', self.str_sort(), self.str_sort(), self.str_sort())(a, b)

    def sort_of(self, ty):
        ty = ty.deref()
        s = self.sorts.get(ty.key)
        if s is not None: return s
        k = kind_of(ty)
        if k == 'int': s = self.A.sort(ty)
        elif k == 'bool': s = z3.BoolSort()
        elif k == 'float': s = z3.RealSort()
        elif k == 'str': s = self.str_sort()
        elif k == 'vec':
            if 'vec' in self.sorts.get('__building', ()): pass
            e = self.sort_of(self.elem_ty(ty))
            d = z3.Datatype(self._sname(ty)); d.declare('mk', ('len', self.A.isort), ('arr', z3.ArraySort(self.A.isort, e))); s = d.create()
        elif k in ('map', 'set'):
            ks = self.sort_of(self.map_kty(ty)); vs = self.sort_of(self.map_vty(ty)) if k == 'map' else z3.BoolSort()
            d = z3.Datatype(self._sname(ty)); d.declare('mk', ('dom', z3.ArraySort(ks, z3.BoolSort())), ('val', z3.ArraySort(ks, vs)), ('size', self.A.isort)); s = d.create()
        elif k == 'opt':
            e = self.sort_of(ty.args[0])
            d = z3.Datatype(self._sname(ty)); d.declare('mk', ('has', z3.BoolSort()), ('val', e)); s = d.create()
        elif k == 'status':
            d = z3.Datatype('Status'); d.declare('mk', ('code', z3.IntSort()), ('msg', self.str_sort())); s = d.create()
        elif k == 'statusor':
            d = z3.Datatype(self._sname(ty)); d.declare('mk', ('code', z3.IntSort()), ('msg', self.str_sort()), ('val', self.sort_of(ty.args[0]))); s = d.create()
        elif k == 'time':
            d = z3.Datatype(self._sname(ty)); d.declare('mk', ('inf', z3.IntSort()), ('ns', z3.IntSort())); s = d.create()
        elif k == 'variant':
            tys = self.variant_tys(ty)
            d = z3.Datatype(self._sname(ty)); d.declare('mk', ('idx', z3.IntSort()), *[('v%d' % i, self.sort_of(t)) for i, t in enumerate(tys)]); s = d.create()
        elif k == 'rec':
            fl = self.rec_fields(ty)
            if fl is None or ty.key in self.sorts.get('__stack', ()):
                s = self.usort('U_' + ty.key)
            else:
                st = self.sorts.setdefault('__stack', [])
                st.append(ty.key)
                try:
                    fs = [(n, self.sort_of(t)) for n, t in fl]
                    d = z3.Datatype(self._sname(ty)); d.declare('mk', *[('f_' + n, x) for n, x in fs]); s = d.create()
                finally: st.pop()
        else:
            s = self.usort('U_' + ty.key)
        self.sorts[ty.key] = s
        return s
    def _sname(self, ty): return 'S%d_%s' % (len(self.sorts), ty.key[:60])
    def elem_ty(self, ty):
        if ty.k == 'arr': return ty.e
        if ty is STRING: return I8
        return ty.args[0].deref()
    def map_kty(self, ty): return ty.args[0]
    def map_vty(self, ty): return ty.args[1]
    def variant_tys(self, ty): return list(ty.args)
    def rec_fields(self, ty):
        """[(name, Ty)] of a record type, or None if its layout is not known."""
        if ty.n == 'std::pair': return [('first', ty.args[0].deref()), ('second', ty.args[1].deref())]
        if ty.n == 'std::tuple': return [('_%d' % i, a.deref()) for i, a in enumerate(ty.args)]
        if self.proto:
            m = self.proto.message(ty)
            if m is not None: return self.proto.fields(m)
        fl = self.p.all_fields(ty)
        if fl is None: return None
        return [(n, t.deref() if t.k == 'ref' else t) for n, t, _ in fl]

    # ------------------------------------------------------------ pack / unpack
    def pack(self, st, v, ty):
        ty = ty.deref()
        if isinstance(v, z3.ExprRef): return v
        k = kind_of(ty); s = self.sort_of(ty)
        if isinstance(v, VecV): return s.mk(v.len, v.arr)
        if isinstance(v, ViewV): return self.pack(st, self.view_vec(st, v), ty)
        if isinstance(v, MapV): return s.mk(v.dom, v.val if v.vty is not None else z3.K(self.sort_of(v.kty), T), v.size)
        if isinstance(v, OptV): return s.mk(v.has, self.pack(st, self.optval(st, v), ty.args[0]))
        if isinstance(v, StatusV): return s.mk(v.code, v.msg)
        if isinstance(v, StatusOrV): return s.mk(v.code, v.msg, self.pack(st, v.val, ty.args[0]))
        if isinstance(v, TimeV): return s.mk(v.inf, v.ns)
        if isinstance(v, VarV): return s.mk(v.idx, *[self.pack(st, v.vals[i] if i in v.vals else self.fresh(st, t, 'uninit'), t) for i, t in enumerate(v.tys)])
        if isinstance(v, RecV):
            if isinstance(v.base, z3.ExprRef) and not v.fields: return v.base
            fl = self.rec_fields(ty)
            if fl is None or not hasattr(s, 'mk'): return self.fresh_const('opq', s)
            return s.mk(*[self.pack(st, self.rget(st, v, n, t), t) for n, t in fl])
        if isinstance(v, OpaqueV): return v.term if v.term.sort() == s else self.fresh_const('opq', s)
        if isinstance(v, PtrV):
            # identity of a pointer stored in a container: an opaque name
            if v.lv is None:
                if not z3.is_true(v.null): raise Unsupported('pointer left over from a loop')
                return z3.Const('ptr!null', s)
            return z3.Const('ptr!%r' % v.lv, s) if z3.is_false(v.null) else z3.If(v.null, z3.Const('ptr!null', s), z3.Const('ptr!%r' % v.lv, s))
        return self.fresh_const('opq', s)

    def unpack(self, st, t, ty):
        ty = ty.deref(); k = kind_of(ty)
        if k == 'int':
            st.assume(self.A.in_range(t, ty)); return t
        if k in ('bool', 'float', 'str'): return t
        s = self.sort_of(ty)
        if not hasattr(s, 'mk'): return OpaqueV(ty, t) if k not in ('ptr', 'fn') else self.fresh_ptr(st, ty, str(t)) if k == 'ptr' else OpaqueV(ty, t)
        acc = lambda i: simp_acc(s, i, t)
        if k == 'vec':
            n = acc(0); self.assume_len(st, n)
            if ty.k == 'arr': st.assume(n == ty.alen)
            return VecV(self.elem_ty(ty), n, acc(1), ty)
        if k in ('map', 'set'):
            n = acc(2); self.assume_len(st, n)
            m = MapV(self.map_kty(ty), self.map_vty(ty) if k == 'map' else None, acc(0), acc(1) if k == 'map' else None, n, ty)
            return m
        if k == 'opt': return OptV(ty.args[0], acc(0), ('packed', acc(1)), ty)
        if k == 'status':
            c = acc(0); st.assume(z3.And(c >= 0, c <= 16)); return StatusV(c, acc(1))
        if k == 'statusor':
            c = acc(0); st.assume(z3.And(c >= 0, c <= 16)); return StatusOrV(ty.args[0], c, acc(1), ('packed', acc(2)), ty)
        if k == 'time':
            st.assume(z3.And(acc(0) >= -1, acc(0) <= 1, z3.Implies(acc(0) != 0, acc(1) == 0))); return TimeV(ty, acc(0), acc(1))
        if k == 'variant':
            tys = self.variant_tys(ty); st.assume(z3.And(acc(0) >= 0, acc(0) < len(tys)))
            return VarV(ty, tys, acc(0), {i: ('packed', acc(1 + i)) for i in range(len(tys))})
        if k == 'rec': return RecV(ty, {}, t)
        return OpaqueV(ty, t)

    def assume_len(self, st, n):
        if self.A.mode == 'int': st.assume(n >= 0); st.assume(n < 2 ** 62)
        else: st.assume(z3.ULT(n, z3.BitVecVal(2 ** 40, 64)))

    def res(self, st, v, ty):
        """Resolve a lazily packed value."""
        if isinstance(v, tuple) and v and v[0] == 'packed': return self.unpack(st, v[1], ty)
        if isinstance(v, tuple) and v and v[0] == 'lazy': return self.fresh(st, ty, v[1], exact_name=True)
        return v
    def optval(self, st, o): return self.res(st, o.val, o.ety)

    def rget(self, st, r, name, ty):
        v = r.fields.get(name)
        if ty is None and not z3.is_expr(v): ty = self.field_ty(r.ty, name)
        if v is not None: return self.res(st, v, ty)
        if isinstance(r.base, z3.ExprRef):
            s = self.sort_of(r.ty); fl = self.rec_fields(r.ty)
            for i, (n, t) in enumerate(fl or []):
                if n == name: return self.unpack(st, simp_acc(s, i, r.base), t)
            return self.fresh(st, ty, 'nofield.' + name)
        if isinstance(r.base, str): return self.fresh(st, ty, r.base + '.' + name, exact_name=True)
        if isinstance(r.base, tuple): return self.proto.default_field(self, st, self.proto.message(r.ty), name)
        v = self.fresh(st, ty, 'uninit.' + name)
        return v

    # ------------------------------------------------------------ fresh values
    def uname(self, name):
        self.nroot += 1
        return '%s!%d' % (name, self.nroot)
    def fresh_const(self, name, sort, exact_name=False):
        return z3.Const(name if exact_name else self.uname(name), sort)
    def fresh(self, st, ty, name, exact_name=False):
        """An arbitrary value of the type."""
        ty = ty.deref(); k = kind_of(ty)
        nm = name if exact_name else self.uname(name)
        if k == 'int':
            t = z3.Const(nm, self.A.sort(ty)); st.assume(self.A.in_range(t, ty)); return t
        if k == 'bool': return z3.Bool(nm)
        if k == 'float': return z3.Real(nm)
        if k == 'str':
            t = z3.Const(nm, self.str_sort())
            if self.strings != 'seq': st.assume(self.strlen(t) >= 0)
            return t
        if k == 'vec':
            n = z3.Const(nm + '.len', self.A.isort)
            if ty.k == 'arr': n = self.A.idx(ty.alen)
            elif ty.n == 'std::array': n = self.A.idx(ty.args[1])
            else: self.assume_len(st, n)
            ety = self.elem_ty(ty)
            return VecV(ety, n, z3.Const(nm + '.arr', z3.ArraySort(self.A.isort, self.sort_of(ety))), ty)
        if k in ('map', 'set'):
            kty = self.map_kty(ty); vty = self.map_vty(ty) if k == 'map' else None
            n = z3.Const(nm + '.size', self.A.isort); self.assume_len(st, n)
            ks = self.sort_of(kty)
            dom = z3.Const(nm + '.dom', z3.ArraySort(ks, z3.BoolSort()))
            st.assume((n == self.A.idx(0)) == (dom == z3.K(ks, F)))
            return MapV(kty, vty, dom, z3.Const(nm + '.val', z3.ArraySort(ks, self.sort_of(vty))) if vty else None, n, ty)
        if k == 'opt': return OptV(ty.args[0], z3.Bool(nm + '.has'), ('lazy', nm + '.*'), ty)
        if k == 'status':
            c = z3.Int(nm + '.code'); st.assume(z3.And(c >= 0, c <= 16)); return StatusV(c, z3.Const(nm + '.msg', self.str_sort()))
        if k == 'statusor':
            c = z3.Int(nm + '.code'); st.assume(z3.And(c >= 0, c <= 16))
            return StatusOrV(ty.args[0], c, z3.Const(nm + '.msg', self.str_sort()), ('lazy', nm + '.*'), ty)
        if k == 'time':
            i = z3.Int(nm + '.inf'); st.assume(z3.And(i >= -1, i <= 1)); return TimeV(ty, i, z3.Int(nm + '.ns'))
        if k == 'variant':
            tys = self.variant_tys(ty); i = z3.Int(nm + '.idx'); st.assume(z3.And(i >= 0, i < len(tys)))
            return VarV(ty, tys, i, {j: ('lazy', '%s.%d' % (nm, j)) for j in range(len(tys))})
        if k == 'ptr': return self.fresh_ptr(st, ty, nm)
        if k == 'rec': return RecV(ty, {}, nm)
        if k == 'atomic': return self.fresh(st, ty.args[0], nm, True)
        if k == 'unit' or k == 'void': return UnitV(ty)
        if k == 'fn': return FnV(None, None, None, nm)
        return OpaqueV(ty, z3.Const(nm, self.usort('U_' + ty.key)))
    def pointee(self, ty):
        if ty.k == 'ptr': return ty.e
        if ty.k == 'rec': return ty.args[0]
        return VOID
    def fresh_ptr(self, st, ty, nm):
        e = self.pointee(ty)
        root = nm + '*'
        if root not in st.cells: st.cells[root] = ('sym', e, root)
        return PtrV(ty, z3.Bool(nm + '.null'), LV(root))

    def zero(self, st, ty):
        """Value-initialised object."""
        ty = ty.deref(); k = kind_of(ty)
        if k == 'int': return self.A.const(0, ty)
        if k == 'bool': return F
        if k == 'float': return z3.RealVal(0)
        if k == 'str': return self.strlit(b'')
        if k == 'vec':
            ety = self.elem_ty(ty); n = 0
            if ty.k == 'arr': n = ty.alen
            elif ty.n == 'std::array': n = ty.args[1]
            es = self.sort_of(ety)
            z = self.pack(st, self.zero(st, ety), ety) if n or kind_of(ety) in ('int', 'bool', 'str') else z3.Const('dflt.elem.' + ety.key, es)
            return VecV(ety, self.A.idx(n), z3.K(self.A.isort, z), ty)
        if k in ('map', 'set'):
            kty = self.map_kty(ty); vty = self.map_vty(ty) if k == 'map' else None
            ks = self.sort_of(kty)
            return MapV(kty, vty, z3.K(ks, F), z3.Const('dflt.map.' + ty.key, z3.ArraySort(ks, self.sort_of(vty))) if vty else None, self.A.idx(0), ty)
        if k == 'opt': return OptV(ty.args[0], F, ('lazy', self.uname('none')), ty)
        if k == 'status': return StatusV(z3.IntVal(0), self.strlit(b''))
        if k == 'statusor': return StatusOrV(ty.args[0], z3.IntVal(2), self.strlit(b''), ('lazy', self.uname('noval')), ty)
        if k == 'time': return TimeV(ty, z3.IntVal(0), z3.IntVal(0))
        if k == 'ptr': return PtrV(ty, T, None)
        if k == 'variant':
            tys = self.variant_tys(ty); return VarV(ty, tys, z3.IntVal(0), {0: self.zero(st, tys[0])})
        if k == 'atomic': return self.zero(st, ty.args[0])
        if k == 'unit' or k == 'void': return UnitV(ty)
        if k == 'fn': return FnV(None, None, None, 'empty')
        if k == 'rec':
            if self.proto and self.proto.message(ty) is not None: return self.proto.default(self, st, ty)
            fl = self.rec_fields(ty)
            if fl is None: return RecV(ty, {}, self.uname('dflt'))
            return RecV(ty, {n: self.zero(st, t) for n, t in fl})
        return OpaqueV(ty, self.fresh_const('zero', self.usort('U_' + ty.key)))

    # ------------------------------------------------------------ reading / writing lvalues
    def root_value(self, st, root):
        v = st.cells.get(root)
        if isinstance(v, tuple) and v and v[0] == 'sym':
            v = self.fresh(st, v[1], v[2], exact_name=True); st.cells[root] = v
        elif isinstance(v, tuple) and v and v[0] == 'glob':
            raise Unsupported('global ' + root)
        if v is None: raise Unsupported('read of unknown cell %s' % root)
        return v
    def read(self, st, lv):
        if not isinstance(lv, LV): return lv
        v = self.root_value(st, lv.root)
        for p in lv.path: v = self.step(st, v, p)
        return v
    def step(self, st, v, p):
        if p[0] == 'f':
            if isinstance(v, RecV):
                w = v.fields.get(p[1])
                if z3.is_expr(w): return w
                return self.rget(st, v, p[1], self.field_ty(v.ty, p[1]))
            if isinstance(v, OpaqueV): raise Unsupported('field %s of opaque %s' % (p[1], v.ty))
            raise Unsupported('field %s of %r' % (p[1], type(v).__name__))
        if p[0] == 'i':
            if isinstance(v, VecV): return self.unpack(st, z3.Select(v.arr, p[1]), v.ety)
            if isinstance(v, ViewV): return self.read(st, LV(v.lv.root, v.lv.path).i(self.add(v.off, p[1])))
            if z3.is_expr(v) and v.sort() == self.str_sort(): return self.str_at(st, v, p[1])
        if p[0] == 'k' and isinstance(v, MapV):
            if v.vty is None: return self.unpack(st, p[1], v.kty)
            return self.unpack(st, z3.Select(v.val, p[1]), v.vty)
        if p[0] == 'p' and isinstance(v, MapV):
            if v.vty is None: return self.unpack(st, p[1], v.kty)
            return RecV(rec_ty('std::pair', (v.kty, v.vty)), {'first': self.unpack(st, p[1], v.kty), 'second': self.unpack(st, z3.Select(v.val, p[1]), v.vty)})
        if p[0] == 'd':
            if isinstance(v, OptV): return self.optval(st, v)
            if isinstance(v, StatusOrV): return self.res(st, v.val, v.ety)
            return v
        if p[0] == 'a': return self.res(st, v.vals.get(p[1], ('lazy', self.uname('alt'))), v.tys[p[1]])
        raise Unsupported('step %s of %s' % (p[0], type(v).__name__))
    def str_at(self, st, s, i):
        if self.strings == 'seq':
            c = z3.StrToCode(z3.SubString(s, i, 1)); st.assume(z3.And(c >= 0, c < 256))
            return If(c >= 128, c - 256, c)   # char is signed
        c = z3.Function('str.at', self.str_sort(), z3.IntSort(), z3.IntSort())(s, i)
        st.assume(z3.And(c >= -128, c <= 127)); return c
    def field_ty(self, ty, name):
        fl = self.rec_fields(ty)
        for n, t in fl or []:
            if n == name: return t
        raise Unsupported('no field %s in %s' % (name, ty))
    def add(self, a, b): 
        x, y = cint(a), cint(b)
        if x == 0: return b
        if y == 0: return a
        if x is not None and y is not None: return self.A.idx(x + y)
        return a + b

    def write(self, st, lv, v):
        self.record_write(lv)
        if not lv.path:
            st.cells[lv.root] = v; return
        st.cells[lv.root] = self.upd(st, self.root_value(st, lv.root), lv.path, v)
    def record_write(self, lv):
        for r in self.recorders:
            pre = []
            for p in lv.path:
                if p[0] == 'f': pre.append(p)
                elif p[0] == 'd': pre.append(p)
                else: break
            r.add((lv.root, tuple(pre)))
    def upd(self, st, base, path, v):
        if not path: return v
        p = path[0]; rest = path[1:]
        nv = v if not rest else self.upd(st, self.step(st, base, p), rest, v)
        if p[0] == 'f':
            if not isinstance(base, RecV): raise Unsupported('write field %s of %s' % (p[1], type(base).__name__))
            f = dict(base.fields)
            rd = self.p.records.get(base.ty.key)
            f[p[1]] = nv
            return RecV(base.ty, f, base.base)
        if p[0] == 'i':
            if isinstance(base, VecV):
                return VecV(base.ety, base.len, z3.Store(base.arr, p[1], self.pack(st, nv, base.ety)), base.ty)
            if isinstance(base, ViewV):
                self.write(st, base.lv.i(self.add(base.off, p[1])), nv); return base
            if z3.is_expr(base) and base.sort() == self.str_sort(): return self.str_set(st, base, p[1], nv)
        if p[0] == 'k' and isinstance(base, MapV):
            return MapV(base.kty, base.vty, base.dom, z3.Store(base.val, p[1], self.pack(st, nv, base.vty)), base.size, base.ty)
        if p[0] == 'd':
            if isinstance(base, OptV): return OptV(base.ety, base.has, nv, base.ty)
            if isinstance(base, StatusOrV): return StatusOrV(base.ety, base.code, base.msg, nv, base.ty)
            return nv
        if p[0] == 'a':
            vals = dict(base.vals); vals[p[1]] = nv
            return VarV(base.ty, base.tys, base.idx, vals)
        raise Unsupported('write step %s of %s' % (p[0], type(base).__name__))
    def str_set(self, st, s, i, c):
        if self.strings == 'seq':
            code = If(c < 0, c + 256, c)
            return z3.Concat(z3.SubString(s, 0, i), z3.StrFromCode(code), z3.SubString(s, i + 1, z3.Length(s) - i - 1))
        r = z3.Function('str.set', self.str_sort(), z3.IntSort(), z3.IntSort(), self.str_sort())(s, i, c)
        st.assume(self.strlen(r) == self.strlen(s)); return r

    def new_root(self, st, name, v):
        r = self.uname(name); st.cells[r] = v; return LV(r)
    def val(self, st, x):
        """prvalue of an evaluated expression (loads lvalues)."""
        return self.read(st, x) if isinstance(x, LV) else x
    def lval(self, st, x, name='tmp'):
        return x if isinstance(x, LV) else self.new_root(st, name, x)
    def view_vec(self, st, v):
        """Copy of a view as a vector value."""
        base = self.read(st, v.lv)
        if isinstance(base, ViewV): 
            base2 = self.view_vec(st, base); base = base2
        if z3.is_expr(base): raise Unsupported('view of string as vector')
        if cint(v.off) == 0: return VecV(v.ety, v.len, base.arr)
        j = z3.Const('vj', self.A.isort)
        return VecV(v.ety, v.len, z3.Lambda([j], z3.Select(base.arr, j + v.off)))

    # ------------------------------------------------------------ solving
    def _solver(self, timeout=None):
        s = z3.Solver(); s.set('timeout', int(timeout or self.timeout)); s.set('random_seed', 1)
        return s
    def check(self, cs, timeout=None, axioms=None):
        ax = self.axioms if axioms is None else axioms; quant = any(has_quant(c) for c in cs) or any(has_quant(a) for a in ax)
        t0 = time.time(); s = self._solver(1000000 if quant else timeout)
        for a in ax: s.add(a)
        for c in cs: s.add(c)
        if quant: r = self._forked(s, int(timeout or self.timeout))
        else: r = s.check(); self.why = s.reason_unknown() if r == z3.unknown else ''
        self.solver_time += time.time() - t0; self.nsolve += 1
        return r, s
    def _forked(self, s, ms):
        """quantified queries run in a child process that is killed at the time limit: cancelling them inside the library occasionally never returns"""
        rd, wr = os.pipe(); pid = os.fork()
        if pid == 0:
            try:
                r = s.check(); os.write(wr, b's' if r == z3.sat else b'u' if r == z3.unsat else b'?' + s.reason_unknown().encode()[:200])
            finally: os._exit(0)
        os.close(wr); out = b''
        try:
            if select.select([rd], [], [], ms / 1000.0)[0]: out = os.read(rd, 300)
            else: out = b'?timeout'
        finally:
            os.close(rd)
            try: os.kill(pid, signal.SIGKILL)
            except ProcessLookupError: pass
            os.waitpid(pid, 0)
        self.why = out[1:].decode('utf8', 'replace') if out[:1] == b'?' else 'died' if not out else ''
        if out == b's':
            r = s.check(); return z3.sat if r == z3.unknown else r     # for the model
        return z3.unsat if out == b'u' else z3.unknown
    def feasible(self, st, c=None):
        if c is not None:
            if z3.is_true(c): return True
            if z3.is_false(c): return False
            c = simp(c)
            if z3.is_true(c): return True
            if z3.is_false(c): return False
        cs = st.pc + ([c] if c is not None else [])
        qf = [x for x in cs if not has_quant(x)]
        r, _ = self.check(qf, 1500, [a for a in self.axioms if not has_quant(a)])
        if r == z3.unsat: return False
        if len(qf) == len(cs) or self.feas_qf: return True
        r, _ = self.check(cs, 400)
        return r != z3.unsat
    def prove(self, st, goal, timeout=None, strong=None):
        strong = not self.quiet if strong is None else strong
        """-> (status, model, secs, backend): status in proved, refuted, unknown, timeout"""
        if z3.is_true(goal): return 'proved', None, 0.0, 'trivial'
        t0 = time.time()
        g = simp(goal)
        if z3.is_true(g): return 'proved', None, time.time() - t0, 'simplifier'
        r, s = self.check(st.pc + [z3.Not(goal)], timeout)
        if r == z3.unsat: return 'proved', None, time.time() - t0, 'z3'
        if r == z3.sat: return 'refuted', self._model(s), time.time() - t0, 'z3'
        why = self.why
        if strong:
            c = self.z3old(s, 3 if self.quiet else 10)
            if c == 'unsat': return 'proved', None, time.time() - t0, 'z3 4.8'
        if not self.quiet:
            c = self.cvc5(s)
            if c == 'unsat': return 'proved', None, time.time() - t0, 'cvc5'
            if c == 'sat': return 'refuted', None, time.time() - t0, 'cvc5'
        return ('timeout' if any(w in why for w in ('timeout', 'canceled', 'resource', 'died', 'memory')) else 'unknown'), None, time.time() - t0, 'z3'
    def _model(self, s):
        try: return s.model()
        except z3.Z3Exception: return None
    def z3old(self, s, secs=10):
        """the system's older z3: other quantifier heuristics"""
        try:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(s.to_smt2())
            try: return subprocess.run(['/usr/bin/z3', '-T:%d' % secs, f.name], capture_output=True, text=True, timeout=secs + 10).stdout.strip().split('\n')[0]
            finally: os.unlink(f.name)
        except Exception: return 'error'
    def cvc5(self, s, secs=20):
        try:
            q = '(set-logic ALL)\n' + s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(q)
            try:
                r = subprocess.run(['cvc5', '--tlimit=%d' % (secs * 1000), f.name], capture_output=True, text=True, timeout=secs + 10)
                o = r.stdout.strip().split('\n')[0] if r.stdout else ''
                return o
            finally: os.unlink(f.name)
        except Exception: return 'error'
    def oblige(self, st, goal, name, line=0, kind='spec', timeout=None):
        if self.quiet: return True
        status, model, secs, be = self.prove(st, goal, timeout)
        if st.exact == 'slow' and status != 'proved': status = 'timeout'
        self.obs.append(Obligation(name, st.fn.n if st.fn else '', line, status, secs, model, exact=st.exact is True, backend=be, kind=kind))
        self.obs[-1].smt = (st, goal) if status != 'proved' else None
        return status == 'proved'
    def safe(self, st, kind, cond, name, line):
        """implicit safety obligation; the condition is assumed afterwards"""
        if kind in self.safety and not z3.is_true(cond):
            self.oblige(st, cond, name, line, kind=kind)
        if kind != 'overflow': st.assume(cond)

    def branch(self, st, c):
        """-> (state where c holds or None, state where not c holds or None)"""
        if z3.is_true(c): return st, None
        if z3.is_false(c): return None, st
        cs = simp(c)
        if z3.is_true(cs): return st, None
        if z3.is_false(cs): return None, st
        ft = self.feasible(st, c); ff = self.feasible(st, Not(c)) if ft else True
        if ft and ff:
            a = st.copy(); b = st
            a.assume(c); b.assume(Not(c)); self.paths += 1
            if self.paths > self.max_paths: raise PathLimit('too many paths')
            if self.deadline and time.time() > self.deadline: raise PathLimit('time limit')
            return a, b
        if ft: st.assume(c); return st, None
        st.assume(Not(c)); return None, st

    # ------------------------------------------------------------ expressions
    def ev(self, st, e):
        """-> [(state, value-or-lvalue)]"""
        m = getattr(self, 'e_' + e['k'], None)
        if m is None: raise Unsupported('expression %s line %s' % (e.get('what', e['k']), e.get('l')))
        return m(st, e)
    def evs(self, st, es):
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(s, e): nxt.append((s2, vs + [v]))
            out = nxt
        return out
    def evv(self, st, e): return [(s, self.val(s, v)) for s, v in self.ev(st, e)]

    def e_int(self, st, e):
        t = e['t']
        if t.k == 'bool': return [(st, z3.BoolVal(bool(e['v'])))]
        return [(st, self.A.const(e['v'], t if t.k in ('int', 'enum') else I32))]
    def e_flt(self, st, e): return [(st, z3.RealVal(e['v']))]
    def e_str(self, st, e): return [(st, self.strlit(bytes(e['v'])))]
    def e_nullptr(self, st, e): return [(st, PtrV(e['t'], T, None))]
    def e_zero(self, st, e): return [(st, self.zero(st, e['t']))]
    def e_opaque(self, st, e): return [(st, self.fresh(st, e['t'], 'opaque'))]
    def e_this(self, st, e): return [(st, PtrV(e['t'], F, st.this))]
    def e_temp(self, st, e):
        out = []
        for s, v in self.ev(st, e['e']): out.append((s, self.lval(s, v, 'tmp')))
        return out
    def e_ref(self, st, e):
        lv = st.env.get(e['id'])
        if lv is not None: return [(st, lv)]
        g = self.p.globals.get(e['id'])
        if g is not None:
            root = 'global.' + g['n']
            if root in st.cells: return [(st, LV(root))]
            hook = self.models.get('global:' + g['n'])
            if hook: st.cells[root] = hook(self, st); return [(st, LV(root))]
            if g['init'] is not None and ('const' in g or True):
                k = kind_of(g['t'])
                if k in ('atomic',):
                    st.cells[root] = self.fresh(st, g['t'], root, True)
                    return [(st, LV(root))]
                r = self.ev(st, g['init'])
                if len(r) == 1:
                    s, v = r[0]; v = self.val(s, v)
                    s.cells[root] = v
                    return [(s, LV(root))]
            st.cells[root] = ('sym', g['t'], root)
            return [(st, LV(root))]
        raise Unsupported('unknown variable %s line %s' % (e.get('n'), e.get('l')))
    def e_mem(self, st, e):
        out = []
        for s, b in self.ev(st, e['b']):
            lv = self.deref(s, b, e) if e.get('arrow') else self.lval(s, b)
            u = self.lib.union_member(s, lv, e['f'])
            if u is not None: out.append((s, u)); continue
            out.append((s, lv.f(e['f'])))
            # reference-typed members hold an lvalue
            v = None
            try:
                base = self.read(s, lv)
                if isinstance(base, RecV):
                    fv = base.fields.get(e['f'])
                    if isinstance(fv, PtrV) and self._is_ref_field(base.ty, e['f']): out[-1] = (s, fv.lv)
                    elif fv is None and self._is_ref_field(base.ty, e['f']):
                        p = self.fresh_ptr(s, ptr_ty(self.field_ty(base.ty, e['f'])), '%s.%s' % (base.base, e['f']))
                        self.write(s, lv.f(e['f']), p); out[-1] = (s, p.lv)
            except Unsupported: pass
        return out
    def _is_ref_field(self, ty, name):
        fl = self.p.all_fields(ty)
        for n, t, _ in fl or []:
            if n == name: return t.k == 'ref'
        return False
    def deref(self, st, b, e=None):
        """lvalue a pointer value designates"""
        p = self.val(st, b)
        line = e.get('l', 0) if e else 0
        if isinstance(p, PtrV):
            self.safe(st, 'null', Not(p.null), 'pointer is not null', line)
            if p.lv is None: raise Unsupported('dereference of null, line %s' % line)
            if p.off is not None: return p.lv.i(p.off)
            return p.lv
        if isinstance(p, OptV):
            self.safe(st, 'null', p.has, 'pointer/optional has a value', line)
            return self.lval(st, b).d()
        if isinstance(p, IterV): return self.lib.iter_deref(st, p)
        if z3.is_expr(p) and p.sort() == self.str_sort(): return self.lval(st, p).i(self.A.idx(0))
        if isinstance(p, VecV): return self.lval(st, b).i(self.A.idx(0))
        raise Unsupported('dereference of %s line %s' % (type(p).__name__, line))
    def e_idx(self, st, e):
        out = []
        for s, (b, i) in self.evs(st, [e['b'], e['i']]):
            self.cur = s; iv = self.A.to_idx(self.val(s, i), e['i']['t'])
            p = self.val(s, b)
            if isinstance(p, PtrV):
                off = iv if p.off is None else self.add(p.off, iv)
                base = self.read(s, p.lv)
                if isinstance(base, (VecV, ViewV)): self.safe(s, 'index', self.A.lt(off, base.len), 'array index in bounds', e.get('l', 0))
                out.append((s, p.lv.i(off)))
            elif isinstance(p, (VecV, ViewV)) or z3.is_expr(p):
                if isinstance(p, VecV): self.safe(s, 'index', self.A.lt(iv, p.len), 'array index in bounds', e.get('l', 0))
                out.append((s, self.lval(s, b).i(iv)))
            else: raise Unsupported('subscript of %s' % type(p).__name__)
        return out
    def ovf(self, st, line):
        return lambda c: self.safe(st, 'overflow', c, 'no signed overflow', line)
    def e_un(self, st, e):
        op = e['op']; out = []
        if op in ('++', '--', 'p++', 'p--'):
            for s, lv in self.ev(st, e['e']):
                t = e['e']['t'].deref(); old = self.read(s, lv); self.cur = s
                if isinstance(old, (PtrV, IterV)): new = self.lib.ptr_add(s, old, self.A.idx(1), '+' if '+' in op else '-')
                else: new = self.A.binop(op[-1], old, self.A.const(1, t), t, ovf=self.ovf(s, e.get('l', 0))) if t.k != 'float' else (old + 1 if '+' in op else old - 1)
                self.write(s, lv, new)
                out.append((s, old if op[0] == 'p' else lv))
            return out
        for s, v in self.ev(st, e['e']):
            t = e['t'].deref()
            if op == '*': out.append((s, self.deref(s, v, e))); continue
            if op == '&':
                if isinstance(v, LV):
                    if v.path and v.path[-1][0] == 'i': out.append((s, PtrV(e['t'], F, LV(v.root, v.path[:-1]), v.path[-1][1])))
                    else: out.append((s, PtrV(e['t'], F, v)))
                    continue
                if isinstance(v, FnV): out.append((s, v)); continue
                raise Unsupported('address of rvalue')
            v = self.val(s, v)
            if op == '!': out.append((s, Not(self.truth(s, v))))
            elif op == '-': out.append((s, -v if t.k == 'float' else self.A.neg(v, t)))
            elif op == '+': out.append((s, v))
            elif op == '~': out.append((s, self.A.inv(v, t)))
            elif op == '__extension__': out.append((s, v))
            else: raise Unsupported('unary ' + op)
        return out
    def truth(self, st, v):
        v = self.val(st, v)
        if isinstance(v, PtrV): return Not(v.null)
        if isinstance(v, OptV): return v.has
        if isinstance(v, FnV): return z3.BoolVal(v.name != 'empty')
        if z3.is_bool(v): return v
        if z3.is_int(v): return Not(Eq(v, z3.IntVal(0)))
        if z3.is_bv(v): return v != 0
        raise Unsupported('truth of %s' % type(v).__name__)
    def pure_eval(self, st, e, guard):
        """Evaluate e under guard without forking, if that is possible: -> value or None (state st gains guarded facts)."""
        n0 = self.paths; o0 = len(self.obs)
        s = st.copy(); s.assume(guard)
        npc = len(s.pc)
        rec = set(); self.recorders.append(rec); nr = self.nroot
        try: r = self.evv(s, e)
        finally: self.recorders.pop()
        real = [w for w in rec if w[0] in st.cells]
        if len(r) != 1 or r[0][0] is not s or real or len(s.trace) != len(st.trace):
            return None, r
        for c in s.pc[npc:]: st.assume(Implies(guard, c))
        for root, v in s.cells.items():
            if root not in st.cells: st.cells[root] = v
        return r[0][1], r
    def e_bin(self, st, e):
        op = e['op']; out = []
        if op in ('&&', '||'):
            for s, a in self.evv(st, e['a']):
                a = self.truth(s, a)
                g = a if op == '&&' else Not(a)
                sg = simp(g)
                if z3.is_false(sg): out.append((s, F if op == '&&' else T)); continue
                if z3.is_true(sg):
                    out += [(s2, self.truth(s2, b)) for s2, b in self.evv(s, e['b'])]; continue
                q = self.quiet; self.quiet += 1
                no = len(self.obs)
                try:
                    try: v, r = self.pure_eval(s.copy(), e['b'], g)
                    finally: self.quiet = q
                except Unsupported:
                    if not self.feasible(s, g): out.append((s, F if op == '&&' else T)); continue
                    raise
                if v is not None and not self.quiet and self.safety:
                    v, r = self.pure_eval(s, e['b'], g)   # again, recording obligations
                elif v is not None:
                    v, r = self.pure_eval(s, e['b'], g)
                if v is not None:
                    b = self.truth(s, v)
                    out.append((s, And(a, b) if op == '&&' else Or(a, b)))
                else:
                    y, n = self.branch(s, g)
                    if y is not None: out += [(s2, self.truth(s2, b)) for s2, b in self.evv(y, e['b'])]
                    if n is not None: out.append((n, F if op == '&&' else T))
            return out
        if op == '=':
            for s, (b, a) in self.evs(st, [e['b'], e['a']]):
                self.write(s, a, self.val(s, b)); out.append((s, a))
            return out
        if op == ',':
            for s, (a, b) in self.evs(st, [e['a'], e['b']]): out.append((s, b))
            return out
        for s, (a, b) in self.evs(st, [e['a'], e['b']]):
            out += self.lib.binary(s, op, self.val(s, a), self.val(s, b), e['a']['t'].deref(), e['b']['t'].deref(), e['t'].deref(), e)
        return out
    def e_cassign(self, st, e):
        out = []
        for s, (b, lv) in self.evs(st, [e['b'], e['a']]):
            t = e['a']['t'].deref(); ct = e['ct'].deref(); op = e['op'][:-1]
            old = self.read(s, lv); b = self.val(s, b); self.cur = s
            if isinstance(old, (PtrV, IterV)):
                new = self.lib.ptr_add(s, old, self.A.to_idx(b, e['b']['t']), op)
                self.write(s, lv, new); out.append((s, lv)); continue
            if ct.k == 'float' or t.k == 'float':
                x = z3.ToReal(old) if z3.is_int(old) else old
                y = z3.ToReal(b) if z3.is_int(b) else b
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[op]()
                if t.k != 'float': r = z3.ToInt(r)
                self.write(s, lv, r); out.append((s, lv)); continue
            if t.k == 'bool':
                x = old; y = self.truth(s, b)
                r = {'|': Or, '&': And}[op](x, y) if op in '|&' else z3.Xor(x, y)
                self.write(s, lv, r); out.append((s, lv)); continue
            x = self.A.conv(old, t, ct)
            if op in ('/', '%'): self.safe(s, 'div', b != 0, 'divisor is not zero', e.get('l', 0))
            bt = e['b']['t'].deref()
            r = self.A.binop(op, x, b, ct, bt, ovf=self.ovf(s, e.get('l', 0)))
            self.write(s, lv, self.A.conv(r, ct, t)); out.append((s, lv))
        return out
    def e_cond(self, st, e):
        out = []
        for s, c in self.evv(st, e['c']):
            c = self.truth(s, c)
            if self.merge and kind_of(e['t'].deref()) in ('int', 'bool') and not z3.is_true(simp(c)) and not z3.is_false(simp(c)):
                s2 = s.copy(); no = len(self.obs)
                a, _ = self.pure_eval(s2, e['a'], c); b, _ = self.pure_eval(s2, e['b'], Not(c)) if a is not None else (None, None)
                if z3.is_expr(a) and z3.is_expr(b): out.append((s2, If(c, a, b))); continue
                del self.obs[no:]
            y, n = self.branch(s, c)
            if y is not None: out += self.ev(y, e['a'])
            if n is not None: out += self.ev(n, e['b'])
        return self.try_merge(st, out)
    def try_merge(self, st, out): return out
    def e_cast(self, st, e):
        ck = e['ck']; out = []
        for s, v in self.ev(st, e['e']):
            to = e['t'].deref(); fr = e['e']['t'].deref(); self.cur = s
            if ck == 'LValueToRValue': out.append((s, self.val(s, v)))
            elif ck in ('IntegralCast',):
                out.append((s, self.A.conv(self.val(s, v), fr, to)))
            elif ck == 'IntegralToBoolean': out.append((s, self.truth(s, v)))
            elif ck in ('PointerToBoolean', 'MemberPointerToBoolean'): out.append((s, self.truth(s, v)))
            elif ck == 'BooleanToSignedIntegral': out.append((s, self.A.conv(self.val(s, v), BOOL, to)))
            elif ck == 'IntegralToFloating':
                x = self.val(s, v)
                if z3.is_bool(x): x = If(x, z3.IntVal(1), z3.IntVal(0))
                if z3.is_bv(x): x = z3.BV2Int(x, fr.s)
                out.append((s, z3.ToReal(x)))
            elif ck == 'FloatingToIntegral':
                x = self.val(s, v); r = If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
                out.append((s, self.A.wrap(r, to) if self.A.mode == 'int' else z3.Int2BV(r, to.w)))
            elif ck == 'FloatingCast': out.append((s, self.val(s, v)))
            elif ck == 'FloatingToBoolean': out.append((s, self.val(s, v) != 0))
            elif ck in ('NoOp', 'UserDefinedConversion', 'ConstructorConversion'): out.append((s, v))
            elif ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic'):
                fb = (fr.e if fr.k == 'ptr' else fr).deref(); tb = (to.e if to.k == 'ptr' else to).deref()
                sub = ck.endswith('ToBase') and self.p.container_base(fb) is not None and tb.key not in self.p.records
                if isinstance(v, PtrV): out.append((s, PtrV(e['t'], v.null, v.lv.f('$base') if sub and v.lv is not None else v.lv, v.off)))
                elif sub: out.append((s, self.lval(s, v).f('$base')))
                else: out.append((s, v))
            elif ck == 'NullToPointer': out.append((s, PtrV(e['t'], T, None)))
            elif ck == 'ArrayToPointerDecay':
                x = self.val(s, v)
                if z3.is_expr(x): out.append((s, x))
                else: out.append((s, PtrV(e['t'], F, self.lval(s, v), self.A.idx(0))))
            elif ck in ('BitCast', 'AddressSpaceConversion', 'LValueBitCast', 'PointerToIntegral', 'IntegralToPointer'):
                out += self.lib.bitcast(s, v, fr, to, e)
            elif ck == 'ToVoid': out.append((s, UnitV()))
            elif ck == 'FunctionToPointerDecay': out.append((s, v))
            else: raise Unsupported('cast %s line %s' % (ck, e.get('l')))
        return out
    def e_fnref(self, st, e): return [(st, FnV([e['f']], None, None))]
    def e_memfn(self, st, e): raise Unsupported('member function value')
    def e_stmtexpr(self, st, e):
        body = e['s']['b']; out = []
        states = [(st, None)]
        for s0 in body[:-1]:
            nxt = []
            for s, fl in states:
                if fl is not None: nxt.append((s, fl)); continue
                nxt += self.ex(s, s0)
            states = nxt
        for s, fl in states:
            if fl is not None:
                s.ghost['__escape'] = fl; out.append((s, UnitV())); continue
            last = body[-1]
            if last['k'] == 'expr':
                for s2, v in self.ev(s, last['e']): out.append((s2, self.val(s2, v)))
            else:
                for s2, fl in self.ex(s, last): out.append((s2, UnitV()))
        return out
    def e_lambda(self, st, e):
        env = dict(); this = None
        states = [(st, {}, None)]
        for c in e['caps']:
            nxt = []
            for s, en, th in states:
                if c.get('this'): nxt.append((s, en, s.this)); continue
                if 'id' not in c: nxt.append((s, en, th)); continue
                if c.get('initcap') and c.get('init') is not None:
                    for s2, v in self.ev(s, c['init']):
                        lv = v if c['byref'] and isinstance(v, LV) else self.new_root(s2, 'cap.' + c['n'], self.val(s2, v))
                        en2 = dict(en); en2[c['id']] = lv; nxt.append((s2, en2, th))
                elif c['byref']:
                    en2 = dict(en); en2[c['id']] = s.env[c['id']]; nxt.append((s, en2, th))
                else:
                    if c['id'] not in s.env: nxt.append((s, en, th)); continue
                    v = self.read(s, s.env[c['id']])
                    en2 = dict(en); en2[c['id']] = self.new_root(s, 'cap.' + c['n'], v); nxt.append((s, en2, th))
            states = nxt
        return [(s, FnV(e['fns'], en, th)) for s, en, th in states]
    def e_initlist(self, st, e):
        t = e['t'].deref(); out = []
        for s, vs in self.evs(st, e['args']):
            k = kind_of(t)
            if k == 'vec':
                ety = self.elem_ty(t)
                if len(e['args']) == 1 and t.k == 'rec' and t.n == 'std::array' and e['args'][0]['k'] == 'initlist':
                    v = self.val(s, vs[0]); out.append((s, VecV(ety, v.len, v.arr, t))); continue
                if len(e['args']) == 1 and e['args'][0]['k'] == 'str': out.append((s, vs[0])); continue
                z = self.zero(s, t) if t.k == 'arr' or t.n == 'std::array' else VecV(ety, self.A.idx(len(vs)), z3.K(self.A.isort, self.fresh_const('e', self.sort_of(ety))), t)
                arr = z.arr
                for i, v in enumerate(vs): arr = z3.Store(arr, self.A.idx(i), self.pack(s, self.val(s, v), ety))
                out.append((s, VecV(ety, z.len if t.k == 'arr' or t.n == 'std::array' else self.A.idx(len(vs)), arr, t)))
            elif k == 'rec':
                fl = self.p.all_fields(t)
                if fl is None:
                    if self.rec_fields(t) is not None:
                        names = [n for n, _ in self.rec_fields(t)]
                        out.append((s, RecV(t, {n: self.val(s, v) for n, v in zip(names, vs)}))); continue
                    raise Unsupported('aggregate %s' % t)
                rd = self.p.records.get(t.key)
                if rd and rd['union']:
                    f = {}
                    if e.get('ufield'): f[e['ufield']] = self.val(s, vs[0])
                    out.append((s, RecV(t, f, self.uname('union')))); continue
                f = {}
                nb = len(rd['bases']) if rd else 0
                own = rd['fields'] if rd else fl
                for (n, ft, init), v in zip(own, vs[nb:]):
                    f[n] = PtrV(ptr_ty(ft.e), F, self.lval(s, v)) if ft.k == 'ref' else self.val(s, v)
                for b in vs[:nb]:
                    bv = self.val(s, b)
                    if isinstance(bv, RecV): f.update(bv.fields)
                out.append((s, RecV(t, f)))
            elif k in ('int', 'bool', 'float', 'ptr', 'str'):
                out.append((s, self.val(s, vs[0]) if vs else self.zero(s, t)))
            else: raise Unsupported('init list of %s' % t)
        return out
    def e_stdinit(self, st, e):
        out = []
        for s, v in self.ev(st, e['e']):
            x = self.val(s, v); out.append((s, x))
        return out
    def e_new(self, st, e):
        out = []
        if e.get('array'): raise Unsupported('array new')
        rs = self.ev(st, e['init']) if e.get('init') else [(st, self.zero(st, e['at']))]
        for s, v in rs:
            lv = self.new_root(s, 'new', self.val(s, v))
            out.append((s, PtrV(e['t'], F, lv)))
        return out
    def e_delete(self, st, e): return [(s, UnitV()) for s, _ in self.ev(st, e['e'])]
    def e_throw(self, st, e):
        self.aborts.append((st, e.get('l', 0), 'throw')); return []
    def e_ctor(self, st, e): return self.lib.construct(st, e)
    def e_inhctor(self, st, e): raise Unsupported('inherited constructor')
    def e_call(self, st, e): return self.lib.call(st, e)

    # ------------------------------------------------------------ calls of repository functions
    def invoke(self, st, f, this, args, line=0):
        """Execute the body of repository function f with evaluated args (LV for references). -> [(state, value)]"""
        if st.depth > self.max_depth: raise Unsupported('call depth (recursion?) in ' + f.n)
        self.inlined.add(f.id)
        env0, this0, fn0 = st.env, st.this, st.fn
        env = dict(env0) if f.n.find('operator()') >= 0 and '(anonymous' in f.n else {}
        if f.cls is not None and f.cls.n and f.cls.n.startswith('lambda#'): pass
        for (pid, pn, pt), a in zip(f.ps, args):
            if pt.k == 'ref': env[pid] = self.lval(st, a, pn or 'arg')
            else: env[pid] = self.new_root(st, pn or 'arg', self.val(st, a))
        st.env = env; st.this = this; st.depth += 1; st.fn = f
        out = []
        for s, fl in self.run_body(st, f):
            s.env, s.this, s.fn = env0, this0, fn0; s.depth -= 1
            v = UnitV()
            if isinstance(fl, tuple) and fl[0] == 'ret': v = fl[1]
            out.append((s, v))
        return out
    def run_body(self, st, f):
        states = [(st, None)]
        if f.ctor:
            for i in f.inits:
                nxt = []
                for s, fl in states:
                    if 'f' in i:
                        ft = i['ft']
                        e = i['e']
                        if e['k'] == 'ctor' and not e['args'] and e['f'].dflt and False: pass
                        for s2, v in self.ev(s, e):
                            if ft.k == 'ref': v = PtrV(ptr_ty(ft.e), F, self.lval(s2, v))
                            else: v = self.val(s2, v)
                            self.write(s2, s2.this.f(i['f']), v); nxt.append((s2, None))
                    elif 'base' in i or i.get('deleg'):
                        e = i['e']
                        if e['k'] == 'ctor':
                            g = self.p.fns.get(e['f'].id)
                            if g is not None:
                                for s2, vs in self.evs(s, e['args']):
                                    for s3, _ in self.invoke(s2, g, s2.this, vs): nxt.append((s3, None))
                                continue
                            if 'base' in i and kind_of(e['t'].deref()) in ('vec', 'map', 'set'):
                                for s2, v in self.ev(s, e):
                                    self.write(s2, s2.this.f('$base'), self.val(s2, v)); nxt.append((s2, None))
                                continue
                        nxt.append((s, None))
                    else: nxt.append((s, None))
                states = nxt
        if f.body is None: return states
        out = []
        for s, _ in states: out += self.ex(s, f.body)
        return out

    def call_fnv(self, st, fv, args, line=0):
        """Call a closure or function value."""
        fv = self.val(st, fv)
        if not isinstance(fv, FnV): raise Unsupported('call of %s' % type(fv).__name__)
        if fv.fns is None: return self.lib.external_fn(st, fv, args, line)
        cand = fv.fns[0]
        if len(fv.fns) > 1:
            cs = [c for c in fv.fns if len(c.p) == len(args)]
            cand = cs[0] if cs else cand
        f = self.p.fns.get(cand.id)
        if f is None: return self.lib.call_named(st, cand, None, args, line)
        if fv.env is None: return self.invoke(st, f, None, args, line)
        env0, this0, fn0 = st.env, st.this, st.fn
        env = dict(fv.env)
        for (pid, pn, pt), a in zip(f.ps, args):
            if pt.k == 'ref': env[pid] = self.lval(st, a, pn or 'arg')
            else: env[pid] = self.new_root(st, pn or 'arg', self.val(st, a))
        st.env = env; st.this = fv.this; st.depth += 1
        if st.depth > self.max_depth: raise Unsupported('call depth')
        out = []
        for s, fl in self.run_body(st, f):
            s.env, s.this, s.fn = env0, this0, fn0; s.depth -= 1
            out.append((s, fl[1] if isinstance(fl, tuple) and fl[0] == 'ret' else UnitV()))
        return out

    # ------------------------------------------------------------ statements
    def ex(self, st, s):
        """-> [(state, flow)], flow: None, ('ret', v), 'break', 'cont'"""
        if self.deadline and time.time() > self.deadline: raise PathLimit('time limit')
        m = getattr(self, 's_' + s['k'], None)
        if m is None: raise Unsupported('statement %s line %s' % (s.get('what', s['k']), s.get('l')))
        out = []
        for s2, fl in m(st, s):
            esc = s2.ghost.pop('__escape', None)
            out.append((s2, esc if esc is not None else fl))
        return out
    def s_block(self, st, s):
        states = [(st, None)]
        for c in s['b']:
            nxt = []
            for x, fl in states:
                if fl is not None: nxt.append((x, fl))
                else: nxt += self.ex(x, c)
            states = nxt
        return states
    def s_null(self, st, s): return [(st, None)]
    def s_label(self, st, s): return self.ex(st, s['s'])
    def s_expr(self, st, s): return [(x, None) for x, _ in self.ev(st, s['e'])]
    def s_decl(self, st, s):
        states = [st]
        for d in s['d']:
            nxt = []
            for x in states: nxt += self.declare(x, d)
            states = nxt
        return [(x, None) for x in states]
    def declare(self, st, d):
        t = d['t']
        if d.get('static'):
            root = 'static.%s.%s' % (d['id'], d['n'])
            if root in st.cells:
                st.env = dict(st.env); st.env[d['id']] = LV(root); return [st]
            hook = self.models.get('static:' + d['n'])
            if hook:
                st.cells[root] = hook(self, st); st.env = dict(st.env); st.env[d['id']] = LV(root); return [st]
        out = []
        if d.get('init') is not None:
            rs = self.ev(st, d['init'])
        else:
            rs = [(st, self.fresh(st, t, 'uninit.' + d['n']) if kind_of(t.deref()) in ('int', 'bool', 'float', 'ptr') else self.zero(st, t))]
        for s, v in rs:
            if '__escape' in s.ghost: out.append(s); continue
            s.env = dict(s.env)
            if t.k == 'ref' : lv = self.lval(s, v, d['n'])
            else:
                lv = self.new_root(s, d['n'], self.val(s, v))
                if d.get('static'):
                    s.cells[root] = s.cells.pop(lv.root); lv = LV(root)
            s.env[d['id']] = lv
            if d.get('bind'): self.bind(s, d, lv)
            out.append(s)
        return out
    def bind(self, s, d, lv):
        base = self.read(s, lv)
        if not isinstance(base, RecV): raise Unsupported('structured binding of %s' % type(base).__name__)
        fl = self.rec_fields(base.ty)
        for b, (n, ft) in zip(d['bind'], fl): s.env[b['id']] = lv.f(n)
    def s_return(self, st, s):
        if s.get('e') is None: return [(st, ('ret', UnitV()))]
        f = st.fn; out = []
        for x, v in self.ev(st, s['e']):
            if '__escape' in x.ghost: out.append((x, None)); continue
            e = s['e']
            # functions returning references keep the lvalue
            if isinstance(v, LV) and not self.returns_ref(x): v = self.val(x, v)
            out.append((x, ('ret', v)))
        return out
    def returns_ref(self, st): return st.fn is not None and st.fn.r.k == 'ref'
    def s_if(self, st, s):
        states = [(st, None)]
        if s.get('init'): states = self.ex(st, s['init'])
        out = []
        for x, fl in states:
            if fl is not None: out.append((x, fl)); continue
            xs = [x]
            if s.get('var'): xs = self.declare(x, s['var'])
            for y in xs:
                for z, c in self.evv(y, s['c']):
                    if '__escape' in z.ghost: out.append((z, None)); continue
                    a, b = self.branch(z, self.truth(z, c))
                    if a is not None: out += self.ex(a, s['then'])
                    if b is not None:
                        if s.get('else'): out += self.ex(b, s['else'])
                        else: out.append((b, None))
        return out
    def s_break(self, st, s): return [(st, 'break')]
    def s_continue(self, st, s): return [(st, 'cont')]
    def s_case(self, st, s): return self.ex(st, s['s']) if s.get('s') else [(st, None)]
    def s_default(self, st, s): return self.ex(st, s['s']) if s.get('s') else [(st, None)]
    def s_try(self, st, s): return self.ex(st, s['b'])
    def s_switch(self, st, s):
        before = st.copy() if self.join else None
        states = [(st, None)]
        if s.get('init'): states = self.ex(st, s['init'])
        out = []
        body = s['body']
        items = body['b'] if body['k'] == 'block' else [body]
        # flatten nested case labels: list of (labels, stmt); labels: list of case values or 'default'
        flat = []
        for it in items:
            labels = []
            while it is not None and it['k'] in ('case', 'default'):
                labels.append(it if it['k'] == 'case' else 'default'); it = it.get('s')
            flat.append((labels, it))
        for x, fl in states:
            xs = [x]
            if s.get('var'): xs = self.declare(x, s['var'])
            for y in xs:
                for z, c in self.evv(y, s['c']):
                    ct = s['c']['t'].deref()
                    rest = z; done = False; dflt = None
                    for i, (labels, _) in enumerate(flat):
                        for l in labels:
                            if l == 'default': dflt = i; continue
                            if rest is None: continue
                            cv = l['v']['v']
                            cond = self.A.cmp('==', c, self.A.const(cv, ct), ct) if ct.k != 'bool' else (c if cv else Not(c))
                            a, rest = self.branch(rest, cond)
                            if a is not None: out += self.run_from(a, flat, i)
                    if rest is not None:
                        if dflt is not None: out += self.run_from(rest, flat, dflt)
                        else: out.append((rest, None))
        out = [(x, None if fl == 'break' else fl) for x, fl in out]
        return self.join_states(before, out) if self.join else out
    def join_states(self, st, out):
        """One state for the ways through a statement that differ in scalars only: the path conditions become a disjunction, the scalars a choice."""
        n = len(st.pc); groups = {}; rest = []
        for x, fl in out:
            if fl is not None or len(x.pc) < n or any(a is not b for a, b in zip(st.pc, x.pc)) or any(x.ghost.get(q) is not v for q, v in st.ghost.items()) or len(x.ghost) != len(st.ghost): rest.append((x, fl)); continue
            new = tuple(sorted((r, id(x.cells.get(r))) for r in st.cells if x.cells.get(r) is not st.cells[r] and not (z3.is_expr(x.cells.get(r)) and x.cells[r].sort() in (z3.IntSort(), z3.BoolSort()))))
            groups.setdefault((new, x.exact), []).append(x)
        for xs in groups.values():
            if len(xs) == 1: rest.append((xs[0], None)); continue
            y = xs[-1].copy(); cs = [z3.And(*x.pc[n:]) if len(x.pc) > n else z3.BoolVal(True) for x in xs]; y.pc = list(st.pc); y.pcids = set(st.pcids)
            for r in st.cells:
                v = [x.cells[r] for x in xs]
                if any(a is not v[0] for a in v):
                    t = v[-1]
                    for c, a in list(zip(cs, v))[-2::-1]: t = z3.If(c, a, t)
                    y.cells[r] = t
            for r in list(y.cells):
                if r not in st.cells: del y.cells[r]
            y.trace = list(st.trace); y.assume(z3.Or(*cs)); rest.append((y, None))
        return rest
    def run_from(self, st, flat, i):
        states = [(st, None)]
        for labels, stmt in flat[i:]:
            if stmt is None: continue
            nxt = []
            for x, fl in states:
                if fl is not None: nxt.append((x, fl))
                else: nxt += self.ex(x, stmt)
            states = nxt
        return states

    # ------------------------------------------------------------ loops
    def s_for(self, st, s):
        states = self.ex(st, s['init']) if s.get('init') else [(st, None)]
        out = []
        for x, fl in states:
            if fl is not None: out.append((x, fl)); continue
            cond = (lambda y: self.evv(y, s['c'])) if s.get('c') else (lambda y: [(y, T)])
            if s.get('var'): raise Unsupported('for with condition variable')
            inc = (lambda y: [z for z, _ in self.ev(y, s['inc'])]) if s.get('inc') else (lambda y: [y])
            out += self.loop(x, cond, s['body'], inc, s)
        return out
    def s_while(self, st, s):
        if s.get('var'): raise Unsupported('while with condition variable')
        return self.loop(st, lambda y: self.evv(y, s['c']), s['body'], lambda y: [y], s)
    def s_do(self, st, s):
        c = s['c']
        if c['k'] == 'int' and not c['v'] or (c['k'] == 'cast' and c['e'].get('k') == 'int' and not c['e']['v']):
            return [(x, None if fl in ('break', 'cont') else fl) for x, fl in self.ex(st, s['body'])]
        out = []
        for x, fl in self.ex(st, s['body']):
            if fl == 'break': out.append((x, None))
            elif isinstance(fl, tuple): out.append((x, fl))
            else: out += self.loop(x, lambda y: self.evv(y, s['c']), s['body'], lambda y: [y], s)
        return out
    def s_forrange(self, st, s):
        out = []
        states = [(st, None)]
        if s.get('init'): states = self.ex(st, s['init'])
        for x0, fl in states:
            for x, r in self.ev(x0, s['range']):
                lv = self.lval(x, r, 'range')
                out += self.range_loop(x, lv, s)
        return out
    def range_loop(self, st, lv, s):
        v = self.read(st, lv)
        d = s['var']
        if isinstance(v, RecV) and self.p.container_base(v.ty) is not None:
            lv = lv.f('$base'); v = self.read(st, lv)
        if isinstance(v, RecV) and self.lib.range_of(st, v) is not None:
            v = self.lib.range_of(st, v); lv = self.new_root(st, 'range', v)
        if isinstance(v, (VecV, ViewV)) or (z3.is_expr(v) and v.sort() == self.str_sort()):
            ci = self.new_root(st, 'range.i', self.A.idx(0))
            n0 = v.len if not z3.is_expr(v) else self.strlen(v)
            def cond(y): return [(y, self.A.lt(self.read(y, ci), n0))]
            def pre(y):
                y.env = dict(y.env); i = self.read(y, ci)
                if isinstance(v, ViewV): el = v.lv.i(self.add(v.off, i))
                else: el = lv.i(i)
                self.bind_loop_var(y, d, el)
                return [y]
            def inc(y):
                self.write(y, ci, self.add(self.read(y, ci), self.A.idx(1))); return [y]
            return self.loop(st, cond, s['body'], inc, s, pre=pre, extra=dict(kind='vec', range_lv=lv, range_val=v, idx=ci, n=n0))
        if isinstance(v, MapV): return self.map_loop(st, lv, v, s)
        raise Unsupported('range-for over %s' % type(v).__name__)
    def bind_loop_var(self, y, d, el):
        if d['t'].k == 'ref': y.env[d['id']] = el
        else: y.env[d['id']] = self.new_root(y, d['n'], self.read(y, el))
        if d.get('bind'): self.bind(y, d, y.env[d['id']])
    def map_loop(self, st, lv, m, s):
        """for (auto& kv : map): arbitrary order; ghost 'visited' set."""
        ks = self.sort_of(m.kty)
        vis = self.new_root(st, 'visited', z3.K(ks, F)); cur = self.new_root(st, 'curkey', self.fresh_const('key', ks))
        d = s['var']
        def cond(y): return [(y, Not(Eq(self.read(y, vis), m.dom)))]
        def pre(y):
            k = self.fresh_const('key', ks); vs = self.read(y, vis)
            y.assume(z3.Select(m.dom, k)); y.assume(z3.Not(z3.Select(vs, k)))
            if kind_of(m.kty) == 'int': y.assume(self.A.in_range(k, m.kty))
            st_order = self.lib.map_order(y, m, k, vs)
            self.write(y, cur, k)
            y.env = dict(y.env)
            el = LV(lv.root, lv.path + (('p', k),))
            if m.vty is None: el = self.new_root(y, 'elem', self.unpack(y, k, m.kty))
            if d['t'].k == 'ref' or m.vty is None: self.bind_loop_var(y, d, el)
            else: self.bind_loop_var(y, dict(d), el)
            return [y]
        def inc(y):
            self.write(y, vis, z3.Store(self.read(y, vis), self.read(y, cur), T)); return [y]
        return self.loop(st, cond, s['body'], inc, s, pre=pre, extra=dict(kind='map', range_lv=lv, range_val=m, visited=vis, cur=cur))

    def loop(self, st, cond, body, inc, node, pre=None, extra=None):
        extra = dict(extra or {}); extra.setdefault('kind', 'plain')
        # 1. constant trip count: execute exactly; otherwise start over with invariants
        st0 = st.copy() if self.bounded is None else None
        mark = (len(self.obs), len(self.aborts), self.paths)
        def abstract():
            del self.obs[mark[0]:]; del self.aborts[mark[1]:]; self.paths = mark[2]
            return self.inv_loop(st0, cond, body, inc, node, pre, extra)
        out = []; states = [st]; n = 0
        while states:
            nxt = []
            for x in states:
                for y, c in cond(x):
                    c = self.truth(y, c); cs = simp(c)
                    if z3.is_false(cs): out.append((y, None)); continue
                    if not z3.is_true(cs):
                        ft = self.feasible(y, c); ff = self.feasible(y, Not(c)) if ft else True
                        if not ft: out.append((y, None)); continue
                        if ff:
                            if self.bounded is None: return abstract()
                            a, b = self.branch(y, c)
                            if b is not None: out.append((b, None))
                            if a is not None and n >= self.bounded: self.oblige(a, F, 'the loop ends within %d rounds' % self.bounded, node.get('l', 0))
                            if a is None or n >= self.bounded: continue
                            y = a
                    if self.bounded is not None and n >= max(self.bounded, self.max_unroll): raise Unsupported('loop unwinding')
                    ys = pre(y) if pre else [y]
                    for z in ys:
                        for w, fl in self.ex(z, body):
                            if fl == 'break': out.append((w, None))
                            elif isinstance(fl, tuple): out.append((w, fl))
                            else: nxt += inc(w)
            states = nxt; n += 1
            if n > self.max_unroll and self.bounded is None and states: return abstract()
        return out
    def exact_trip(self, st, c): return True

    def havoc_like(self, st, lv, name):
        """Replace the value at lv by an arbitrary one of the same shape."""
        v = self.read(st, lv)
        nv = self.havoc_value(st, v, name)
        if lv.path: st.cells[lv.root] = self.upd(st, self.root_value(st, lv.root), lv.path, nv)
        else: st.cells[lv.root] = nv
    def havoc_value(self, st, v, name):
        nm = self.uname(name)
        if isinstance(v, z3.ExprRef):
            t = z3.Const(nm, v.sort())
            if self.strings != 'seq' and v.sort() == self.str_sort(): st.assume(self.strlen(t) >= 0)
            return t
        if isinstance(v, VecV):
            n = z3.Const(nm + '.len', self.A.isort); self.assume_len(st, n)
            if v.ty is not None and (v.ty.k == 'arr' or v.ty.n == 'std::array'): n = v.len
            return VecV(v.ety, n, z3.Const(nm + '.arr', v.arr.sort()), v.ty)
        if isinstance(v, MapV):
            n = z3.Const(nm + '.size', self.A.isort); self.assume_len(st, n)
            dom = z3.Const(nm + '.dom', v.dom.sort()); st.assume((n == self.A.idx(0)) == (dom == z3.K(self.sort_of(v.kty), F)))
            return MapV(v.kty, v.vty, dom, z3.Const(nm + '.val', v.val.sort()) if v.val is not None else None, n, v.ty)
        if isinstance(v, OptV): return OptV(v.ety, z3.Bool(nm + '.has'), ('lazy', nm + '.*'), v.ty)
        if isinstance(v, StatusV):
            c = z3.Int(nm + '.code'); st.assume(z3.And(c >= 0, c <= 16)); return StatusV(c, z3.Const(nm + '.msg', self.str_sort()))
        if isinstance(v, StatusOrV):
            c = z3.Int(nm + '.code'); st.assume(z3.And(c >= 0, c <= 16)); return StatusOrV(v.ety, c, z3.Const(nm + '.msg', self.str_sort()), ('lazy', nm + '.*'), v.ty)
        if isinstance(v, TimeV):
            i = z3.Int(nm + '.inf'); st.assume(z3.And(i >= -1, i <= 1)); return TimeV(v.ty, i, z3.Int(nm + '.ns'))
        if isinstance(v, RecV): return RecV(v.ty, {}, nm)
        if isinstance(v, IterV):
            if v.kind == 'vec':
                t = z3.Const(nm + '.pos', self.A.isort); return IterV(v.lv, 'vec', t, v.end, v.rev)
            m = self.read(st, v.lv)
            if not isinstance(m, MapV): raise Unsupported('havoc of iterator')
            return IterV(v.lv, 'map', z3.Const(nm + '.key', self.sort_of(m.kty)), z3.Bool(nm + '.end'))
        if isinstance(v, PtrV):
            if v.off is not None: return PtrV(v.ty, v.null, v.lv, z3.Const(nm + '.off', self.A.isort))
            return PtrV(v.ty, z3.Bool(nm + '.null'), None)     # using it before it is assigned again is not supported
        if isinstance(v, ViewV): return ViewV(v.ety, v.lv, z3.Const(nm + '.off', self.A.isort), z3.Const(nm + '.len', self.A.isort))
        if isinstance(v, (UnitV, FnV)): return v
        if isinstance(v, OpaqueV): return OpaqueV(v.ty, z3.Const(nm, v.term.sort()))
        if isinstance(v, VarV):
            i = z3.Int(nm + '.idx'); st.assume(z3.And(i >= 0, i < len(v.tys)))
            return VarV(v.ty, v.tys, i, {j: ('lazy', '%s.%d' % (nm, j)) for j in range(len(v.tys))})
        raise Unsupported('havoc of %s' % type(v).__name__)

    def type_of_scalar(self, st, lv): return None

    def inv_loop(self, st, cond, body, inc, node, pre, extra):
        line = node.get('l', 0)
        # a. which cells does the loop write?
        self.quiet += 1; self.wpass += 1
        na = len(self.aborts)
        try:
            wset = self.loop_writes(st, cond, body, inc, node, pre)
        finally: self.quiet -= 1; self.wpass -= 1
        del self.aborts[na:]
        # declared types of written scalars: needed to keep machine ranges after havoc
        k = z3.Int('k!%d' % self._next()) if self.A.mode == 'int' else z3.BitVec('k!%d' % self._next(), 64)
        st0 = st.copy()
        h = st.copy(); h.exact = h.exact if h.exact == 'slow' else False
        mods = []
        for root, path in sorted(wset, key=str):
            lv = LV(root, path)
            pre_v = self.read(st0, lv)
            self.havoc_like(h, lv, root.split('!')[0])
            self.range_of_cell(h, lv, st0)
            mods.append(lv)
        h.assume(k >= 0 if self.A.mode == 'int' else z3.ULT(k, z3.BitVecVal(2 ** 40, 64)))
        # trace: events of earlier iterations are summarised
        has_events = self.loop_events
        if has_events:
            h.trace = h.trace + [('loop', line, k, self.loop_event_names)]
        # b. candidates
        hinted = set()
        def cands(s, kk):
            L = Loop(self, st0, s, kk, mods, node, extra)
            out = [x for x in self.generic_cands(L) if self.generic is None or self.generic(x[0])]
            for hnt in self.loop_hints:
                r = hnt(L)
                if r: out += list(r); hinted.update(x[0] for x in r)
            return out
        entry = st.copy()
        zero = z3.IntVal(0) if self.A.mode == 'int' else z3.BitVecVal(0, 64)
        one = z3.IntVal(1) if self.A.mode == 'int' else z3.BitVecVal(1, 64)
        # while only looking for the cells an enclosing loop writes, no invariant is needed
        e0 = cands(entry, zero) if not self.wpass else []
        alive = {}
        self.quiet += 1
        try:
            for name, f in e0:
                r = self.prove(entry, f, self.hint_ms, name in hinted and self.hint_strong(name))[0]
                if r == 'proved': alive[name] = True
                elif r == 'timeout' and name in hinted: h.exact = 'slow'
            rounds = 0
            # the hidden index of a range loop is written by the loop itself only
            sure = {n for n in alive if extra['kind'] == 'vec' and (n == 'loop index within range' or n.startswith('&range.i#') and n.endswith(('== start + k', '>= 0')))}
            while not self.wpass:
                rounds += 1
                if sure and not set(alive) - sure: break
                x = h.copy()
                if extra['kind'] == 'map':
                    m = extra['range_val']; x.assume((self.read(x, extra['visited']) == m.dom) == (k == m.size)); x.assume(k <= m.size)
                for name, f in cands(x, k):
                    if name in alive: x.assume(f)
                bad = set()
                na2 = len(self.aborts)
                for y in self.one_iter(x, cond, body, inc, pre):
                    for name, f in cands(y, k + one):
                        if name in alive and name not in bad and name not in sure:
                            r = self.prove(y, f, self.hint_ms, name in hinted and self.hint_strong(name))[0]
                            if r != 'proved': bad.add(name)
                            # an invariant lost to the solver's time limit: what fails for want of it was not refuted
                            if r == 'timeout' and name in hinted: h.exact = 'slow'
                del self.aborts[na2:]
                if not bad: break
                for b in bad: alive.pop(b, None)
                if rounds > 12: alive = {}; break
        finally: self.quiet -= 1
        if not self.wpass: self.houdini_log.append((st.fn.n if st.fn else '', line, sorted(alive), [n for n, _ in e0 if n not in alive]))
        # invariants as named obligations (already shown above; recorded with the solver's verdict)
        if not self.quiet:
            for name in sorted(alive):
                self.obs.append(Obligation('loop line-independent invariant: ' + name, st.fn.n if st.fn else '', line, 'proved', 0.0, exact=False, kind='invariant'))
        # c. the arbitrary iteration, with obligations
        x = h.copy()
        if extra['kind'] == 'map':
            m = extra['range_val']; x.assume((self.read(x, extra['visited']) == m.dom) == (k == m.size)); x.assume(k <= m.size)
        for name, f in cands(x, k) if not self.wpass else []:
            if name in alive: x.assume(f)
        out = []
        for y, c in cond(x):
            c = self.truth(y, c)
            a, b = self.branch(y, c)
            if b is not None:
                out.append((b, None))
            if a is not None:
                for z in (pre(a) if pre else [a]):
                    for w, fl in self.ex(z, body):
                        if fl == 'break': out.append((w, None))
                        elif isinstance(fl, tuple): out.append((w, fl))
        return out
    def _next(self): self.nroot += 1; return self.nroot
    def one_iter(self, x, cond, body, inc, pre):
        out = []
        for y, c in cond(x):
            a, _ = self.branch(y, self.truth(y, c))
            if a is None: continue
            for z in (pre(a) if pre else [a]):
                for w, fl in self.ex(z, body):
                    if fl in (None, 'cont'): out += inc(w)
        return out
    def loop_writes(self, st, cond, body, inc, node, pre):
        wset = set(); self.loop_events = False; ev_names = set()
        for _ in range(6):
            x = st.copy()
            for root, path in wset: self.havoc_like(x, LV(root, path), 'w')
            rec = set(); self.recorders.append(rec); ntr = len(x.trace)
            try:
                ends = []
                for y, c in cond(x):
                    y.assume(self.truth(y, c))
                    for z in (pre(y) if pre else [y]):
                        for w, fl in self.ex(z, body):
                            ends.append(w)
                            if fl in (None, 'cont'): ends += inc(w)
                for w in ends:
                    if len(w.trace) > ntr:
                        for evn in w.trace[ntr:]: ev_names.add(evn[0])
            finally: self.recorders.pop()
            new = {(r, p) for r, p in rec if r in st.cells}
            new = self.prefix_close(new | wset)
            if new == wset: break
            wset = new
        for r in self.recorders: r |= wset
        self.loop_events = bool(ev_names); self.loop_event_names = ev_names
        return wset
    def prefix_close(self, ws):
        """drop entries whose prefix is also written"""
        out = set()
        for r, p in ws:
            if any(r == r2 and len(p2) < len(p) and p[:len(p2)] == p2 for r2, p2 in ws): continue
            out.add((r, p))
        return out
    def range_of_cell(self, h, lv, st0):
        v = self.read(h, lv)
        if isinstance(v, z3.ExprRef) and z3.is_int(v):
            t = self.cell_ty(st0, lv)
            if t is not None and t.k in ('int', 'enum'): h.assume(self.A.in_range(v, t))
            elif t is None: h.assume(z3.And(v >= -(1 << 63), v < (1 << 64)))
        elif isinstance(v, IterV) and v.kind == 'vec': h.assume(v.pos >= 0)
    def cell_ty(self, st, lv):
        if not lv.path:
            for did, l in st.env.items():
                if l.root == lv.root and not l.path: return self.var_tys.get(did)
            return None
        try:
            base = self.read(st, LV(lv.root, lv.path[:-1]))
            if isinstance(base, RecV) and lv.path[-1][0] == 'f': return self.field_ty(base.ty, lv.path[-1][1])
        except Unsupported: return None
        return None
    @property
    def var_tys(self):
        if not hasattr(self, '_vt'):
            self._vt = {}
            def walk(x):
                if isinstance(x, dict):
                    if 'id' in x and 'n' in x and 't' in x and isinstance(x['t'], Ty) and x.get('k') is None: self._vt[x['id']] = x['t']
                    for v in x.values():
                        if isinstance(v, (dict, list)): walk(v)
                elif isinstance(x, list):
                    for v in x: walk(v)
            for f in self.p.fns.values():
                for pid, pn, pt in f.ps: self._vt[pid] = pt
                walk(f.body)
        return self._vt

    # generic invariant templates, instantiated on whatever the loop modifies
    def generic_cands(self, L):
        A = self.A; out = []
        j = z3.Const('j!inv', A.isort)
        zero, one = A.idx(0), A.idx(1)
        for lv in L.mods:
            try: v0 = self.read(L.pre, lv); v = self.read(L.st, lv)
            except Unsupported: continue
            nm = repr(lv).split('!')[0]
            key = '%s#%d' % (nm, L.mods.index(lv))
            if isinstance(v, z3.ExprRef) and (z3.is_int(v) or (z3.is_bv(v) and v.size() == 64)):
                kk = L.k
                out.append((key + ' == start + k', v == v0 + kk))
                if z3.is_int(v):
                    out.append((key + ' == start - k', v == v0 - kk))
                    out.append((key + ' >= start', v >= v0)); out.append((key + ' <= start', v <= v0)); out.append((key + ' >= 0', v >= 0))
            elif isinstance(v, VecV):
                out.append((key + '.len unchanged', v.len == v0.len))
                out.append((key + '.len == start + k', v.len == v0.len + L.k))
                lt = (lambda a, b: a < b) if A.mode == 'int' else z3.ULT
                out.append((key + ' keeps its old elements', z3.ForAll([j], z3.Implies(z3.And(lt(j, v0.len), *( [j >= 0] if A.mode == 'int' else [])), z3.Select(v.arr, j) == z3.Select(v0.arr, j)))))
            elif isinstance(v, IterV) and v.kind == 'vec':
                out.append((key + ' iterator == start + k', v.pos == v0.pos + L.k))
                if A.mode == 'int':
                    if v.rev: out.append((key + ' iterator == start - k', v.pos == v0.pos - L.k))
                    try: u = self.read(L.st, v.lv); out.append((key + ' iterator within its vector', z3.And(v.pos >= 0, v.pos <= u.len)))
                    except Exception: pass
            elif isinstance(v, PtrV) and v.off is not None and v0.off is not None:
                out.append((key + ' pointer == start + k', v.off == v0.off + L.k))
            elif isinstance(v, StatusV):
                out.append((key + ' status unchanged', v.code == v0.code))
            elif z3.is_expr(v) and z3.is_bool(v):
                out.append((key + ' unchanged', v == v0))
        if L.kind == 'vec':
            i = self.read(L.st, L.idx); le = (lambda a, b: a <= b) if A.mode == 'int' else z3.ULE
            out.append(('loop index within range', le(i, L.n)))
        if L.kind == 'map':
            kc = z3.Const('kc!inv', self.sort_of(L.range_val.kty)); vs = self.read(L.st, L.visited)
            out.append(('visited within the map', z3.ForAll([kc], z3.Implies(z3.Select(vs, kc), z3.Select(L.range_val.dom, kc)))))
        if L.kind == 'plain':
            c = L.node.get('c')
            # i < n  ==>  i <= n stays true
            try:
                core = c
                while core and core.get('k') == 'cast': core = core['e']
                if core and core.get('k') == 'bin' and core['op'] in ('<', '!=', '<='):
                    y = L.st.copy(); n0 = self.nroot
                    ra = self.evv(y, core['a']); rb = self.evv(y, core['b'])
                    if len(ra) == 1 and len(rb) == 1 and z3.is_int(ra[0][1]) and z3.is_int(rb[0][1]):
                        a, b = ra[0][1], rb[0][1]
                        out.append(('loop variable within its bound', a <= b if core['op'] != '<=' else a <= b + 1))
                if core and core.get('k') == 'bin' and core['op'] in ('>', '>='):
                    y = L.st.copy()
                    ra = self.evv(y, core['a']); rb = self.evv(y, core['b'])
                    if len(ra) == 1 and len(rb) == 1 and z3.is_int(ra[0][1]) and z3.is_int(rb[0][1]):
                        a, b = ra[0][1], rb[0][1]
                        out.append(('loop variable within its bound', a >= b if core['op'] == '>' else a >= b - 1))
            except Unsupported: pass
        return out

_HQ = {}
def has_quant(t):
    k = t.get_id(); r = _HQ.get(k)
    if r is None:
        r = z3.is_quantifier(t) or any(has_quant(c) for c in t.children())
        _HQ[k] = r; _KEEP.append(t)
    return r
_KEEP = []
def simp_acc(s, i, t):
    """i-th field of a datatype term, looking through the constructor"""
    if z3.is_app(t) and t.decl().eq(s.mk): return t.arg(i)
    return s.accessor(0, i)(t)
