"""Assumed contracts of the C++ standard library, abseil and protobuf, as used by /repo.
Every model that is used in a run is listed in the evidence (eng.assumptions)."""
import re, z3
from z3 import z3util
from .program import *
from .values import *

CODES = dict(OK=0, CANCELLED=1, UNKNOWN=2, INVALID_ARGUMENT=3, DEADLINE_EXCEEDED=4, NOT_FOUND=5, ALREADY_EXISTS=6,
             PERMISSION_DENIED=7, RESOURCE_EXHAUSTED=8, FAILED_PRECONDITION=9, ABORTED=10, OUT_OF_RANGE=11,
             UNIMPLEMENTED=12, INTERNAL=13, UNAVAILABLE=14, DATA_LOSS=15, UNAUTHENTICATED=16)
_ERR = {'CancelledError': 1, 'UnknownError': 2, 'InvalidArgumentError': 3, 'DeadlineExceededError': 4, 'NotFoundError': 5,
        'AlreadyExistsError': 6, 'PermissionDeniedError': 7, 'ResourceExhaustedError': 8, 'FailedPreconditionError': 9,
        'AbortedError': 10, 'OutOfRangeError': 11, 'UnimplementedError': 12, 'InternalError': 13, 'UnavailableError': 14,
        'DataLossError': 15, 'UnauthenticatedError': 16}
_IS = {'Is' + k[:-5]: v for k, v in _ERR.items()}
TICK = 4 * 10 ** 9            # absl durations count quarter nanoseconds
TMAX = (1 << 63) * TICK
_UNITS = {'Nanoseconds': 4, 'Microseconds': 4000, 'Milliseconds': 4 * 10 ** 6, 'Seconds': TICK, 'Minutes': 60 * TICK, 'Hours': 3600 * TICK}
_TOINT = {'ToInt64' + k: v for k, v in _UNITS.items()}
_TODBL = {'ToDouble' + k: v for k, v in _UNITS.items()}
_FROMUNIX = {'FromUnixNanos': 4, 'FromUnixMicros': 4000, 'FromUnixMillis': 4 * 10 ** 6, 'FromUnixSeconds': TICK, 'FromTimeT': TICK}
_TOUNIX = {'ToUnixNanos': 4, 'ToUnixMicros': 4000, 'ToUnixMillis': 4 * 10 ** 6, 'ToUnixSeconds': TICK, 'ToTimeT': TICK}
TIME = rec_ty('absl::Time'); DUR = rec_ty('absl::Duration')

class Models:
    def __init__(self, eng):
        self.g = eng
        self.external_ok = lambda f: False     # functions without body that may be treated as arbitrary
    def used(self, what): self.g.assumptions.add(what)

    # =================================================================== dispatch
    def call(self, st, e):
        g = self.g
        if 'fe' in e:
            out = []
            for s, vs in g.evs(st, [e['fe']] + e['args']):
                fv = g.val(s, vs[0])
                if isinstance(fv, PtrV): fv = g.read(s, fv.lv)
                out += g.call_fnv(s, fv, vs[1:], e.get('l', 0))
            return out
        f = e['f']
        if f.cls is not None and f.cls.n == 'verif_log::NullStream': return [(st, UnitV(f.cls))]
        if f.cls is not None and f.cls.n == 'verif_log::FatalStream' and 'obj' in e:
            return g.ev(st, e['obj'])
        if f.n.startswith('std::') and f.short in ('operator<<',) and not (f.cls is not None and 'bitset' in f.cls.n): return [(st, UnitV())]
        out = []
        es = ([e['obj']] if 'obj' in e else []) + e['args']
        for s, vs in g.evs(st, es):
            obj = None; args = vs
            if 'obj' in e:
                obj, args = vs[0], vs[1:]
                if e.get('arrow'): obj = g.deref(s, obj, e)
                else: obj = g.lval(s, obj, 'obj')
            out += self.dispatch(s, f, obj, args, e)
        return out

    def call_named(self, st, f, obj, args, line): return self.dispatch(st, f, obj, args, dict(k='call', t=f.r, l=line, args=[]))

    def dispatch(self, st, f, obj, args, e):
        g = self.g
        c = g.contracts.get(f.n) or g.contracts.get(f.id)
        if c is not None:
            r = c(g, st, obj, args, e)
            if r is not None: return r
        fn = g.p.fns.get(f.id)
        if obj is not None:
            v = g.read(st, obj)
            if f.cassign or f.massign: return self.assign(st, f, obj, args[0])
            if isinstance(v, RecV):
                if g.proto and g.proto.message(v.ty) is not None:
                    r = g.proto.method(g, st, f, obj, v, args, e)
                    if r is not None: return r
                if f.virt and not e.get('nonvirt'):
                    o = g.p.overrider(v.ty, f.id, f.short)
                    if o is not None: fn = o
                    elif f.pure or f.virt:
                        if fn is None or True: return self.external(st, f, obj, v, args, e)
                if fn is not None: return g.invoke(st, fn, None if f.static else obj, args, e.get('l', 0))
                if g.p.container_base(v.ty) is not None and (f.cls is None or f.cls.key not in g.p.records):
                    lv = obj.f('$base'); r = self.method(st, f, lv, g.read(st, lv), args, e)
                    if r is not None: return r
                r = self.rec_method(st, f, obj, v, args, e)
                if r is not None: return r
                return self.external(st, f, obj, v, args, e)
            r = self.method(st, f, obj, v, args, e)
            if r is not None: return r
            if fn is not None: return g.invoke(st, fn, obj, args, e.get('l', 0))
            raise Unsupported('method %s on %s line %s' % (f.n, type(v).__name__, e.get('l')))
        # free functions: the repository's own are executed, the rest modelled
        if fn is not None and not self.prefer_model(f): return g.invoke(st, fn, None, args, e.get('l', 0))
        r = self.free(st, f, args, e)
        if r is not None: return r
        if fn is not None: return g.invoke(st, fn, None, args, e.get('l', 0))
        return self.external(st, f, None, None, args, e)

    def prefer_model(self, f): return f.n in ('fcp::internal::MakeStatusBuilder', 'fcp::internal::AsStatus')

    def external(self, st, f, obj, v, args, e):
        """A function whose body is not part of the verified program: its effect is an event, its result arbitrary."""
        g = self.g
        if not (f.virt or f.pure or self.external_ok(f)): raise Unsupported('no body or model for %s (line %s)' % (f.n, e.get('l')))
        self.used('arbitrary result and event-only effect of external call %s' % f.n)
        vals = [g.val(st, a) for a in args]
        out = [a for a in args]
        for a, t in zip(args, f.p):
            # mutable reference/pointer arguments may be changed arbitrarily
            if isinstance(a, LV) and t.k == 'ref' and not t.e.const and not t.rv and self.is_out(f, t): g.write(st, a, g.havoc_value(st, g.read(st, a), 'out'))
        st.trace.append((f.n, obj, vals, e.get('l', 0)))
        r = g.fresh(st, f.r, 'ext.' + f.short)
        hook = g.events.get(f.n)
        if hook: r2 = hook(g, st, obj, vals, r); r = r if r2 is None else r2
        return [(st, r)]
    def is_out(self, f, t): return False
    def external_fn(self, st, fv, args, line):
        g = self.g; vals = [g.val(st, a) for a in args]
        st.trace.append(('fn:' + str(fv.name), None, vals, line))
        hook = g.events.get('fn')
        if hook: return hook(g, st, fv, vals)
        raise Unsupported('call of unknown function value %s' % fv.name)

    def assign(self, st, f, obj, a):
        g = self.g; v = g.val(st, a)
        dst = g.read(st, obj)
        fn = g.p.fns.get(f.id)
        if isinstance(dst, RecV) and fn is not None and not fn.defaulted and not fn.implicit: return g.invoke(st, fn, obj, [a])
        v = self.convert(st, v, dst, f)
        if f.massign: self.moved_from(st, a, obj)
        g.write(st, obj, v)
        return [(st, obj)]
    def convert(self, st, v, dst, f): return v
    def moved_from(self, st, a, dst=None):
        """What a move leaves behind in its source."""
        g = self.g
        if not isinstance(a, LV): return
        if dst is not None and repr(dst) == repr(a): return
        v = g.read(st, a)
        if isinstance(v, VecV) and not (v.ty is not None and (v.ty.k == 'arr' or v.ty.n == 'std::array')): g.write(st, a, VecV(v.ety, g.A.idx(0), v.arr, v.ty))
        elif isinstance(v, OptV) and v.ty is not None and v.ty.n == 'std::unique_ptr': g.write(st, a, OptV(v.ety, F, v.val, v.ty))
        elif isinstance(v, MapV): g.write(st, a, g.zero(st, v.ty))
        elif z3.is_expr(v) and v.sort() == g.str_sort(): g.write(st, a, g.fresh_const('moved', v.sort()))
        elif isinstance(v, PtrV) and v.ty.k == 'rec': g.write(st, a, PtrV(v.ty, T, None))

    # =================================================================== constructors
    def construct(self, st, e):
        g = self.g; f = e['f']; t = e['t'].deref(); out = []
        if f.cls is not None and f.cls.n == 'verif_log::FatalStream':
            g.aborts.append((st, e.get('l', 0), 'check')); return []
        if t.n == 'verif_log::NullStream': return [(st, UnitV(t))]
        for s, args in g.evs(st, e['args']): out += self.construct_v(s, f, t, args, e)
        return out
    def construct_v(self, st, f, t, args, e):
        g = self.g; k = kind_of(t)
        c = g.contracts.get(f.n)
        if c is not None:
            r = c(g, st, t, args, e)
            if r is not None: return r
        fn = g.p.fns.get(f.id)
        if (f.copy or f.move) and k != 'rec' or ((f.copy or f.move) and (fn is None or fn.defaulted or fn.implicit)):
            v = g.val(st, args[0])
            if f.move and k == 'rec' and isinstance(args[0], LV) and isinstance(v, RecV) and any(self.user_move(ft) for _, ft in g.rec_fields(v.ty) or []): return self.move_rec(st, args[0], v, e)
            if f.move:
                self.moved_from(st, args[0])
                if k == 'rec' and isinstance(args[0], LV) and isinstance(v, RecV): self.move_fields(st, args[0], v)
            return [(st, v)]
        if k == 'rec':
            if g.proto and g.proto.message(t) is not None: return [(st, g.proto.default(g, st, t))]
            if t.n in ('std::pair', 'std::tuple'): return [(st, self.make_tuple(st, t, args))]
            if fn is not None and fn.body is not None or (fn is not None and fn.inits):
                lv = g.new_root(st, 'obj', RecV(t, {}))
                return [(s, g.read(s, lv)) for s, _ in g.invoke(st, fn, lv, args, e.get('l', 0))]
            if not args:
                fl = g.p.all_fields(t)
                if fl is not None: return self.default_rec(st, t, fl, e.get('zero'))
            if g.p.container_base(t) is not None and len(g.p.all_fields(t)) == 1:
                # an inherited constructor of a container without data members of its own
                b = g.p.container_base(t)
                return [(st, RecV(t, {'$base': self.make_vec(st, f, b, args, e) if kind_of(b) == 'vec' else self.make_map(st, b, args, e)}))]
            r = self.construct_lib(st, f, t, args, e)
            if r is not None: return r
            raise Unsupported('constructor of %s line %s' % (t, e.get('l')))
        if k == 'str': return [(st, self.make_string(st, f, args, e))]
        if k == 'vec': return [(st, self.make_vec(st, f, t, args, e))]
        if k in ('map', 'set'): return [(st, self.make_map(st, t, args, e))]
        if k == 'opt':
            if not args: return [(st, g.zero(st, t))]
            v = g.val(st, args[0])
            if isinstance(v, UnitV) or (isinstance(v, PtrV) and z3.is_true(v.null)): return [(st, g.zero(st, t))]
            if isinstance(v, OptV):
                self.moved_from(st, args[0]); return [(st, OptV(v.ety, v.has, v.val, v.ty if t.n == 'std::unique_ptr' else t))]
            if t.n == 'std::unique_ptr':
                if isinstance(v, PtrV): return [(st, OptV(t.args[0], Not(v.null), g.read(st, v.lv), t))]
                raise Unsupported('unique_ptr from %s' % type(v).__name__)
            if self.is_inplace(args[0], v):
                pass
            v = self.coerce(st, v, t.args[0])
            self.moved_from_rv(st, args[0], f)
            return [(st, OptV(t.args[0], T, v, t))]
        if k == 'status':
            if not args: return [(st, g.zero(st, t))]
            v = g.val(st, args[0])
            if isinstance(v, StatusV): return [(st, v)]
            m = g.val(st, args[1]) if len(args) > 1 else None
            m = m if z3.is_expr(m) and m.sort() == g.str_sort() else g.strlit(b'')
            return [(st, StatusV(self.code_in(v), m))]
        if k == 'statusor':
            if not args: return [(st, g.zero(st, t))]
            v = g.val(st, args[0])
            if isinstance(v, StatusV):
                st.assume(v.code != 0)
                self.used('StatusOr is never constructed from an OK status')
                return [(st, StatusOrV(t.args[0], v.code, v.msg, ('lazy', g.uname('noval')), t))]
            if isinstance(v, StatusOrV): return [(st, StatusOrV(t.args[0], v.code, v.msg, v.val, t))]
            v = self.coerce(st, v, t.args[0])
            self.moved_from_rv(st, args[0], f)
            return [(st, StatusOrV(t.args[0], z3.IntVal(0), g.strlit(b''), v, t))]
        if k == 'time': return [(st, g.val(st, args[0]) if args else g.zero(st, t))]
        if k == 'variant':
            if not args: return [(st, g.zero(st, t))]
            v = g.val(st, args[0])
            if isinstance(v, VarV): return [(st, v)]
            at = f.p[0].deref() if f.p else None
            for i, x in enumerate(t.args):
                if at is not None and x.key == at.key: return [(st, VarV(t, list(t.args), z3.IntVal(i), {i: v}))]
            for i, x in enumerate(t.args):
                if self.val_matches(v, x): return [(st, VarV(t, list(t.args), z3.IntVal(i), {i: v}))]
            raise Unsupported('variant construction')
        if k == 'fn':
            if not args: return [(st, FnV(None, None, None, 'empty'))]
            v = g.val(st, args[0])
            if isinstance(v, PtrV) and v.lv is not None: v = g.read(st, v.lv)
            return [(st, v)]
        if k == 'ptr':
            if not args: return [(st, PtrV(t, T, None))]
            v = g.val(st, args[0])
            if isinstance(v, PtrV):
                if t.k == 'rec': self.moved_from_rv(st, args[0], f)
                return [(st, PtrV(t, v.null, v.lv, v.off))]
            if isinstance(v, OptV):   # shared_ptr from unique_ptr
                lv = g.new_root(st, 'shared', g.optval(st, v)); return [(st, PtrV(t, Not(v.has), lv))]
        if k == 'atomic':
            return [(st, g.val(st, args[0]) if args else g.zero(st, t))]
        if k == 'iter': return [(st, g.val(st, args[0]) if args else UnitV(t))]
        if k == 'unit': return [(st, UnitV(t))]
        if k in ('int', 'bool', 'float'): return [(st, g.val(st, args[0]) if args else g.zero(st, t))]
        r = self.construct_lib(st, f, t, args, e)
        if r is not None: return r
        raise Unsupported('construction of %s (%s) line %s' % (t, k, e.get('l')))
    def is_inplace(self, a, v): return False
    def moved_from_rv(self, st, a, f):
        if f.p and f.p[0].k == 'ref' and f.p[0].rv: self.moved_from(st, a)
    def user_move(self, t):
        """the user-defined move constructor of a class type, if it has one"""
        if kind_of(t) != 'rec' or t.n in ('std::pair', 'std::tuple'): return None
        if not hasattr(self, 'moves'):
            self.moves = {fn.cls.key: fn for fn in self.g.p.fns.values() if fn.ctor and fn.cls is not None and len(fn.ps) == 1 and fn.ps[0][2].k == 'ref' and fn.ps[0][2].rv and fn.ps[0][2].e.key == fn.cls.key
                          and not fn.defaulted and not fn.implicit and (fn.body is not None or fn.inits)}
        return self.moves.get(t.key)
    def move_rec(self, st, src, v, e):
        """memberwise move of a record some of whose members have a move constructor of their own"""
        g = self.g; states = [(st, {})]
        for n, ft in g.rec_fields(v.ty):
            nxt = []
            for s, fs in states:
                m = self.user_move(ft)
                if m is None:
                    x = g.read(s, src.f(n)); self.moved_from(s, src.f(n)); nxt.append((s, dict(fs, **{n: x}))); continue
                lv = g.new_root(s, 'obj', RecV(ft, {}))
                for s2, _ in g.invoke(s, m, lv, [src.f(n)], e.get('l', 0)): nxt.append((s2, dict(fs, **{n: g.read(s2, lv)})))
            states = nxt
        return [(s, RecV(v.ty, fs)) for s, fs in states]
    def move_fields(self, st, lv, v):
        for n, t in self.g.rec_fields(v.ty) or []:
            if n in v.fields or isinstance(v.base, (str, z3.ExprRef)):
                try: self.moved_from(st, lv.f(n))
                except Unsupported: pass
    def default_rec(self, st, t, fl, zero):
        g = self.g; states = [(st, {})]
        for n, ft, init in fl:
            nxt = []
            for s, fs in states:
                if init is not None:
                    for s2, v in g.evv(s, init): nxt.append((s2, dict(fs, **{n: v})))
                elif ft.k == 'ref': nxt.append((s, fs))
                elif kind_of(ft) in ('int', 'bool', 'float', 'ptr') and not zero: nxt.append((s, fs))
                elif kind_of(ft) == 'rec' and g.p.all_fields(ft) is not None and not (g.proto and g.proto.message(ft) is not None) and ft.n not in ('std::pair', 'std::tuple'):
                    for s2, v in self.default_rec(s, ft, g.p.all_fields(ft), zero): nxt.append((s2, dict(fs, **{n: v})))
                else: nxt.append((s, dict(fs, **{n: g.zero(s, ft)})))
            states = nxt
        return [(s, RecV(t, fs)) for s, fs in states]
    def val_matches(self, v, t):
        k = kind_of(t)
        if isinstance(v, RecV): return v.ty.key == t.key
        if isinstance(v, StatusV): return k == 'status'
        if isinstance(v, VecV): return k == 'vec'
        if isinstance(v, MapV): return k in ('map', 'set')
        if isinstance(v, OptV): return k == 'opt'
        if isinstance(v, z3.ExprRef): return k == {'Bool': 'bool', 'Int': 'int', 'Real': 'float'}.get(str(v.sort()), 'str')
        return False
    def coerce(self, st, v, t):
        """Implicit conversion hidden inside a library template (e.g. string literal -> std::string)."""
        g = self.g; t = t.deref() if isinstance(t, Ty) else t; k = kind_of(t)
        if k == 'statusor' and not isinstance(v, StatusOrV):
            if isinstance(v, StatusV): return StatusOrV(t.args[0], v.code, v.msg, ('lazy', g.uname('noval')), t)
            return StatusOrV(t.args[0], z3.IntVal(0), g.strlit(b''), self.coerce(st, v, t.args[0]), t)
        if k == 'opt' and not isinstance(v, OptV):
            if isinstance(v, UnitV) or (isinstance(v, PtrV) and z3.is_true(v.null)): return g.zero(st, t)
            if isinstance(v, PtrV) and t.n == 'std::unique_ptr': return OptV(t.args[0], Not(v.null), g.read(st, v.lv), t)
            return OptV(t.args[0], T, self.coerce(st, v, t.args[0]), t)
        if k == 'float' and z3.is_expr(v) and z3.is_int(v): return z3.ToReal(v)
        if k == 'vec' and isinstance(v, ViewV): return v
        if isinstance(v, VecV): return VecV(v.ety, v.len, v.arr, t if k == 'vec' else v.ty)
        return v
    def make_tuple(self, st, t, args):
        g = self.g; fl = g.rec_fields(t)
        if not args: return g.zero(st, t)
        vs = [g.val(st, a) for a in args]
        if len(vs) == 1 and isinstance(vs[0], RecV) and len(fl) != 1:
            src = vs[0]; sf = g.rec_fields(src.ty)
            return RecV(t, {n: self.coerce(st, g.rget(st, src, m, mt), ft) for (n, ft), (m, mt) in zip(fl, sf)})
        return RecV(t, {n: self.coerce(st, v, ft) for (n, ft), v in zip(fl, vs)})
    def make_string(self, st, f, args, e):
        g = self.g
        if not args: return g.strlit(b'')
        v = g.val(st, args[0])
        if z3.is_expr(v) and v.sort() == g.str_sort():
            if len(args) >= 2:
                n = g.val(st, args[1])
                if z3.is_expr(n) and z3.is_int(n):
                    if len(args) == 2 and not isinstance(v, PtrV): return self.substr(st, v, z3.IntVal(0), n)
                    return self.substr(st, v, n, g.val(st, args[2]))
            return v
        if isinstance(v, z3.ExprRef) and z3.is_int(v) and len(args) >= 2:   # string(n, c)
            return self.str_repeat(st, v, g.val(st, args[1]))
        if isinstance(v, IterV) and len(args) >= 2: return self.str_range(st, v, g.val(st, args[1]))
        if isinstance(v, PtrV):
            s = g.read(st, v.lv)
            if len(args) >= 2 and z3.is_expr(s): return self.substr(st, s, v.off if v.off is not None else z3.IntVal(0), g.val(st, args[1]))
            return self.bytes_to_str(st, v, g.val(st, args[1]) if len(args) > 1 else None)
        if isinstance(v, (VecV, ViewV)): return self.vec_to_str(st, v)
        if isinstance(v, OpaqueV): return g.fresh_const('str', g.str_sort())
        if z3.is_expr(v) and z3.is_int(v) and len(args) == 1 and f is not None and ('AlphaNum' in f.n or 'substitute_internal' in f.n): return self.to_str(st, v)
        raise Unsupported('string from %s line %s' % (type(v).__name__, e.get('l')))
    def str_repeat(self, st, n, c):
        g = self.g
        if cint(n) is not None and cint(c) is not None and cint(n) < 100: return g.strlit(bytes([cint(c) % 256]) * cint(n))
        if g.strings == 'seq':
            r = g.fresh_const('rep', g.str_sort()); st.assume(z3.Length(r) == n); return r
        r = z3.Function('str.rep', z3.IntSort(), z3.IntSort(), g.str_sort())(n, c); st.assume(g.strlen(r) == n)
        return r
    def str_range(self, st, a, b):
        if isinstance(a, IterV) and a.rev: raise Unsupported('range read backwards')
        g = self.g; s = g.read(st, a.lv)
        if z3.is_expr(s): return self.substr(st, s, a.pos, b.pos - a.pos)
        if isinstance(s, VecV): return self.vec_to_str(st, VecV(s.ety, b.pos - a.pos, s.arr) if cint(a.pos) == 0 else g.view_vec(st, ViewV(s.ety, a.lv, a.pos, b.pos - a.pos)))
        raise Unsupported('string from range')
    def vec_to_str(self, st, v):
        g = self.g
        if isinstance(v, ViewV): v = g.view_vec(st, v)
        r = g.fresh_const('vstr', g.str_sort()); self.used('a string built from a byte vector has the same length and bytes')
        st.assume(g.strlen(r) == v.len)
        j = z3.Int('j!vs')
        if g.strings != 'seq':
            at = z3.Function('str.at', g.str_sort(), z3.IntSort(), z3.IntSort())
            sg = v.ety.s
            st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < v.len), at(r, j) == (v.arr[j] if sg else z3.If(v.arr[j] >= 128, v.arr[j] - 256, v.arr[j])))))
        return r
    def bytes_to_str(self, st, p, n):
        g = self.g; base = g.read(st, p.lv)
        if isinstance(base, VecV) and base.ety.w > 8 and n is not None and cint(n) is not None and cint(n) <= 64 and g.strings != 'seq':
            r = g.fresh_const('bstr', g.str_sort()); st.assume(g.strlen(r) == n); self.used('little-endian target')
            g.safe(st, 'index', n <= base.len * (base.ety.w // 8), 'bytes read lie inside the object', 0)
            for i in range(cint(n)):
                b = self.byte_at(st, p, i); st.assume(g.str_at(st, r, g.A.idx(i)) == z3.If(b >= 128, b - 256, b))
            return r
        if isinstance(base, VecV) and n is not None: return self.vec_to_str(st, g.view_vec(st, ViewV(base.ety, p.lv, p.off if p.off is not None else g.A.idx(0), n)))
        if z3.is_expr(base) and base.sort() == g.str_sort() and cint(p.off if p.off is not None else 0) == 0:
            if n is None: self.used('C strings handed out by libraries contain no zero byte'); return base
            g.safe(st, 'index', z3.And(n >= 0, n <= g.strlen(base)), 'bytes read lie inside the string', 0); return self.substr(st, base, g.A.idx(0), n)
        raise Unsupported('string from pointer')
    def substr(self, st, s, pos, n):
        g = self.g
        if g.strings == 'seq':
            L = z3.Length(s)
            return z3.SubString(s, pos, z3.If(n < L - pos, n, L - pos)) if cint(n) is None or cint(n) < 0 or cint(n) > 2**40 else z3.SubString(s, pos, n)
        L = g.strlen(s)
        if cint(pos) == 0 and n.eq(L): return s
        r = z3.Function('str.sub', g.str_sort(), z3.IntSort(), z3.IntSort(), g.str_sort())(s, pos, n)
        st.assume(g.strlen(r) == z3.If(n < L - pos, n, L - pos)); st.assume(z3.Implies(z3.And(pos == 0, n >= L), r == s))
        return r
    def make_vec(self, st, f, t, args, e):
        g = self.g
        if not args or (len(args) == 1 and isinstance(g.val(st, args[0]), UnitV)): return g.zero(st, t)
        ety = g.elem_ty(t); v = g.val(st, args[0])
        if t.n == 'absl::Span':
            if isinstance(v, VecV): return ViewV(ety, g.lval(st, args[0]), g.A.idx(0), v.len) if isinstance(args[0], LV) else v
            if isinstance(v, ViewV): return v
            if isinstance(v, PtrV): return ViewV(ety, v.lv, v.off if v.off is not None else g.A.idx(0), g.A.to_idx(g.val(st, args[1]), f.p[1].deref()))
        if isinstance(v, ViewV): v = g.view_vec(st, v)
        if isinstance(v, VecV):
            return VecV(ety, v.len, v.arr, t)
        if isinstance(v, IterV) and len(args) >= 2: return self.vec_range(st, v, g.val(st, args[1]), ety, t)
        if isinstance(v, PtrV) and len(args) >= 2:
            w = g.val(st, args[1])
            if isinstance(w, PtrV): return self.vec_range(st, IterV(v.lv, 'vec', v.off if v.off is not None else g.A.idx(0)), IterV(v.lv, 'vec', w.off if w.off is not None else g.A.idx(0)), ety, t)
        if z3.is_expr(v):      # vector(n) / vector(n, x)
            x = g.val(st, args[1]) if len(args) > 1 and not isinstance(g.val(st, args[1]), UnitV) else g.zero(st, ety)
            n = g.A.to_idx(v, f.p[0].deref())
            return VecV(ety, n, z3.K(g.A.isort, g.pack(st, self.coerce(st, x, ety), ety)), t)
        raise Unsupported('vector from %s line %s' % (type(v).__name__, e.get('l')))
    def vec_range(self, st, a, b, ety, t):
        if isinstance(a, IterV) and a.rev: raise Unsupported('range read backwards')
        g = self.g; src = g.read(st, a.lv)
        if a.kind == 'vec':
            if isinstance(src, VecV):
                n = simp(b.pos - a.pos)
                if cint(a.pos) == 0: return VecV(ety, n, src.arr, t)
                r = g.view_vec(st, ViewV(ety, a.lv, a.pos, n)); return VecV(ety, n, r.arr, t)
            if z3.is_expr(src):
                n = simp(b.pos - a.pos); arr = g.fresh_const('bytes', z3.ArraySort(g.A.isort, z3.IntSort())); j = z3.Int('j!sv')
                at = lambda i: g.str_at(st.copy(), src, i)
                c = at(j + a.pos)
                st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), arr[j] == (c if ety.s else z3.If(c < 0, c + 256, c)))))
                return VecV(ety, n, arr, t)
        raise Unsupported('vector from range')
    def make_map(self, st, t, args, e):
        g = self.g
        if not args: return g.zero(st, t)
        v = g.val(st, args[0])
        if isinstance(v, MapV): return v
        if isinstance(v, VecV) and cint(v.len) is not None:
            m = g.zero(st, t)
            for i in range(cint(v.len)):
                x = g.unpack(st, z3.Select(v.arr, g.A.idx(i)), v.ety)
                if m.vty is None: k, val = g.pack(st, x, m.kty), None
                else: k, val = g.pack(st, g.rget(st, x, 'first', m.kty), m.kty), g.rget(st, x, 'second', m.vty)
                m = self.map_insert(st, m, k, val)
            return m
        raise Unsupported('map construction from %s' % type(v).__name__)
    def construct_lib(self, st, f, t, args, e):
        g = self.g; n = t.n
        if n == 'absl::string_view' or n == 'absl::Cord': return [(st, g.val(st, args[0]))]
        if n in ('std::reference_wrapper',): return [(st, PtrV(t, F, g.lval(st, args[0])))]
        if n and n.startswith('std::') or n and n.startswith('absl::'):
            if n in ('absl::BitGen', 'std::mt19937_64', 'std::random_device', 'std::uniform_int_distribution', 'std::uniform_real_distribution', 'absl::random_internal::NonsecureURBGBase'):
                fs = {}
                if 'distribution' in n and len(args) >= 2: fs = {'a': g.val(st, args[0]), 'b': g.val(st, args[1])}
                return [(st, RecV(t, fs, g.uname('rng')))]
            if n in ('absl::AlphaNum', 'absl::strings_internal::AlphaNum'): return [(st, self.to_str(st, g.val(st, args[0])))]
            if n in ('absl::str_format_internal::FormatArgImpl', 'absl::str_format_internal::FormatSpecTemplate'): return [(st, g.val(st, args[0]) if args else UnitV())]
        return None

    # =================================================================== status helpers
    def code_in(self, v): return z3.BV2Int(v) if z3.is_bv(v) else v
    def code_out(self, c): return c if self.g.A.mode == 'int' else (z3.BitVecVal(cint(c), 32) if cint(c) is not None else z3.Int2BV(c, 32))

    # =================================================================== equality and comparison
    def equal(self, st, a, b, ty=None):
        g = self.g
        if isinstance(a, ViewV): a = g.view_vec(st, a)
        if isinstance(b, ViewV): b = g.view_vec(st, b)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.sort() != b.sort():
                if z3.is_int(a) and z3.is_real(b): a = z3.ToReal(a)
                elif z3.is_real(a) and z3.is_int(b): b = z3.ToReal(b)
                else: raise Unsupported('comparison of %s and %s' % (a.sort(), b.sort()))
            return Eq(a, b)
        if isinstance(a, OptV):
            if isinstance(b, UnitV) or (isinstance(b, PtrV) and z3.is_true(b.null)): return Not(a.has)
            if isinstance(b, OptV): return Or(And(Not(a.has), Not(b.has)), And(a.has, b.has, self.equal(st, g.optval(st, a), g.optval(st, b))))
            if not isinstance(b, PtrV): return And(a.has, self.equal(st, g.optval(st, a), b))
        if isinstance(b, OptV): return self.equal(st, b, a)
        if isinstance(a, VecV) and isinstance(b, VecV):
            n1, n2 = cint(a.len), cint(b.len)
            if n1 is not None and n2 is not None and n1 <= 64:
                if n1 != n2: return F
                return And(*[Eq(z3.simplify(z3.Select(a.arr, g.A.idx(i))), z3.simplify(z3.Select(b.arr, g.A.idx(i)))) for i in range(n1)])
            j = z3.Const('j!eq', g.A.isort)
            return And(Eq(a.len, b.len), z3.ForAll([j], z3.Implies(And(g.A.lt(j, a.len), j >= 0 if g.A.mode == 'int' else T), z3.Select(a.arr, j) == z3.Select(b.arr, j))))
        if isinstance(a, MapV) and isinstance(b, MapV):
            k = z3.Const('k!eq', g.sort_of(a.kty))
            return And(a.dom == b.dom, z3.ForAll([k], z3.Implies(a.dom[k], a.val[k] == b.val[k])) if a.vty is not None else T)
        if isinstance(a, StatusV) and isinstance(b, StatusV): return And(Eq(a.code, b.code), Eq(a.msg, b.msg))
        if isinstance(a, TimeV) and isinstance(b, TimeV): return And(Eq(a.inf, b.inf), Or(Not(Eq(a.inf, z3.IntVal(0))), Eq(a.ns, b.ns)))
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            for x, y in ((a, b), (b, a)):
                if x.lv is None:
                    if not z3.is_true(x.null): raise Unsupported('pointer left over from a loop')
                    return y.null
            if repr(LV(a.lv.root, a.lv.path)) == repr(LV(b.lv.root, b.lv.path)):
                if a.off is not None or b.off is not None:
                    z = g.A.idx(0); return Eq(a.off if a.off is not None else z, b.off if b.off is not None else z)
                return Eq(a.null, b.null) if not (z3.is_false(a.null) and z3.is_false(b.null)) else T
            self.used('distinct pointer parameters do not alias')
            return And(a.null, b.null)
        if isinstance(a, IterV) and isinstance(b, IterV):
            if a.kind == 'vec': return Eq(a.pos, b.pos)
            return self.map_iter_eq(a, b)
        if isinstance(a, RecV) and isinstance(b, RecV):
            if isinstance(a.base, z3.ExprRef) and isinstance(b.base, z3.ExprRef) and not a.fields and not b.fields and a.base.sort() == b.base.sort(): return a.base == b.base
            if g.proto and g.proto.message(a.ty) is not None: return g.pack(st, a, a.ty) == g.pack(st, b, b.ty)
            fl = g.rec_fields(a.ty)
            return And(*[self.equal(st, g.rget(st, a, n, t), g.rget(st, b, n, t)) for n, t in fl])
        if isinstance(a, VarV) and isinstance(b, VarV):
            return And(Eq(a.idx, b.idx), *[Implies(a.idx == i, self.equal(st, g.res(st, a.vals[i], t), g.res(st, b.vals[i], t))) for i, t in enumerate(a.tys) if i in a.vals and i in b.vals])
        if isinstance(a, UnitV) and isinstance(b, UnitV): return T
        if isinstance(a, OpaqueV) and isinstance(b, OpaqueV) and a.term.sort() == b.term.sort(): return a.term == b.term
        raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))
    def less(self, st, a, b, op='<'):
        g = self.g
        if isinstance(a, TimeV):
            lt = lambda x, y: Or(x.inf < y.inf, And(x.inf == y.inf, x.inf == 0, x.ns < y.ns))
            return {'<': lambda: lt(a, b), '>': lambda: lt(b, a), '<=': lambda: Not(lt(b, a)), '>=': lambda: Not(lt(a, b))}[op]()
        if isinstance(a, IterV) and a.rev: a, b = b, a
        if isinstance(a, IterV): return {'<': a.pos < b.pos, '>': a.pos > b.pos, '<=': a.pos <= b.pos, '>=': a.pos >= b.pos}[op]
        if isinstance(a, PtrV): return {'<': a.off < b.off, '>': a.off > b.off, '<=': a.off <= b.off, '>=': a.off >= b.off}[op]
        if isinstance(a, z3.ExprRef) and a.sort() == g.str_sort():
            lt = z3.Function('str.lt', g.str_sort(), g.str_sort(), z3.BoolSort())
            if g.strings == 'seq': lt = lambda x, y: x < y
            return {'<': lambda: lt(a, b), '>': lambda: lt(b, a), '<=': lambda: Not(lt(b, a)), '>=': lambda: Not(lt(a, b))}[op]()
        if isinstance(a, RecV) and isinstance(b, RecV):
            fl = g.rec_fields(a.ty); r = F; eq = T
            for n, t in fl:
                x, y = g.rget(st, a, n, t), g.rget(st, b, n, t)
                r = Or(r, And(eq, self.less(st, x, y, '<'))); eq = And(eq, self.equal(st, x, y))
            if op == '<': return r
            if op == '>=': return Not(r)
            if op == '<=': return Or(r, eq)
            return And(Not(r), Not(eq))
        if isinstance(a, z3.ExprRef): return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        raise Unsupported('ordering of %s' % type(a).__name__)
    def binary(self, st, op, a, b, ta, tb, tr, e):
        """Built-in binary operators -> [(st, value)]"""
        g = self.g; A = g.A; g.cur = st
        if isinstance(a, (PtrV, IterV)) or isinstance(b, (PtrV, IterV)):
            if op in ('==', '!='):
                r = self.equal(st, a, b); return [(st, r if op == '==' else Not(r))]
            if op in ('<', '<=', '>', '>='): return [(st, self.less(st, a, b, op))]
            if op == '+':
                p, n, tn = (a, b, tb) if isinstance(a, (PtrV, IterV)) else (b, a, ta)
                return [(st, self.ptr_add(st, p, A.to_idx(n, tn), '+'))]
            if op == '-':
                if isinstance(b, (PtrV, IterV)): return [(st, self.ptr_diff(a, b))]
                return [(st, self.ptr_add(st, a, A.to_idx(b, tb), '-'))]
            raise Unsupported('pointer operator ' + op)
        if z3.is_expr(a) and a.sort() == g.str_sort():
            # pointer arithmetic on a char pointer represented by the rest of its string
            if op == '+': return [(st, self.substr(st, a, b, g.strlen(a) - b))]
            if op in ('==', '!='):
                if isinstance(b, PtrV): return [(st, F if op == '==' else T)]
                r = Eq(a, b); return [(st, r if op == '==' else Not(r))]
        if ta.k == 'float' or tb.k == 'float':
            x = z3.ToReal(a) if z3.is_int(a) else a; y = z3.ToReal(b) if z3.is_int(b) else b
            if op == '/': g.safe(st, 'div', y != 0, 'divisor is not zero', e.get('l', 0))
            r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y, '<': lambda: x < y, '<=': lambda: x <= y,
                 '>': lambda: x > y, '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()
            self.used('floating-point arithmetic treated as exact real arithmetic')
            return [(st, r)]
        if ta.k == 'bool' and tb.k == 'bool':
            r = {'==': lambda: Eq(a, b), '!=': lambda: Not(Eq(a, b)), '&': lambda: And(a, b), '|': lambda: Or(a, b), '^': lambda: z3.Xor(a, b)}.get(op)
            if r is None: raise Unsupported('bool operator ' + op)
            return [(st, r())]
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return [(st, A.cmp(op, a, b, ta))]
        if op in ('/', '%'): g.safe(st, 'div', Not(Eq(b, A.const(0, tb))), 'divisor is not zero', e.get('l', 0))
        return [(st, A.binop(op, a, b, tr, tb, ovf=g.ovf(st, e.get('l', 0))))]
    def ptr_add(self, st, p, n, op):
        g = self.g
        if isinstance(p, PtrV):
            off = p.off if p.off is not None else g.A.idx(0)
            return PtrV(p.ty, p.null, p.lv, self._sum(off, n, op))
        if p.kind != 'vec': return self.map_iter_next(st, p)
        if p.rev: op = '-' if op == '+' else '+'
        return IterV(p.lv, 'vec', self._sum(p.pos, n, op), p.end, p.rev)
    def _sum(self, a, b, op):
        x, y = cint(a), cint(b)
        if x is not None and y is not None: return self.g.A.idx(x + y if op == '+' else x - y)
        if y == 0: return a
        return a + b if op == '+' else a - b
    def ptr_diff(self, a, b):
        z = self.g.A.idx(0)
        if isinstance(a, IterV): return self._sum(a.pos, b.pos, '-') if not a.rev else self._sum(b.pos, a.pos, '-')
        return self._sum(a.off if a.off is not None else z, b.off if b.off is not None else z, '-')
    def addr(self, st, p):
        """numeric address of a pointer"""
        g = self.g
        if p.lv is None: return z3.IntVal(0)
        if p.lv.root == 'mem': return p.off
        a = z3.Int('addr!%r' % p.lv); st.assume(z3.And(a >= 0, a < 1 << 64)); st.assume((a == 0) == p.null)
        return a if p.off is None else a + p.off
    def bitcast(self, st, v, fr, to, e):
        g = self.g
        if e['ck'] == 'PointerToIntegral' and g.A.mode == 'int': return [(st, g.A.conv(self.addr(st, g.val(st, v)), U64, to))]
        if e['ck'] == 'IntegralToPointer' and g.A.mode == 'int':
            x = g.A.conv(g.val(st, v), fr, U64)
            if 'mem' not in st.cells: st.cells['mem'] = ('sym', VOID, 'mem')
            return [(st, PtrV(e['t'], Eq(x, z3.IntVal(0)), LV('mem'), x))]
        if isinstance(v, PtrV) or (isinstance(v, z3.ExprRef) and v.sort() == g.str_sort()):
            if isinstance(v, PtrV): return [(st, PtrV(e['t'], v.null, v.lv, v.off))]
            return [(st, v)]
        if isinstance(v, LV): return [(st, v)]
        raise Unsupported('bit cast line %s' % e.get('l'))

    # =================================================================== iterators
    def iter_deref(self, st, it):
        g = self.g
        if it.kind == 'vec':
            pos = it.pos if not it.rev else simp(it.pos - 1)
            v = g.read(st, it.lv)
            if isinstance(v, (VecV, ViewV)): g.safe(st, 'index', And(pos >= 0 if g.A.mode == 'int' else T, g.A.lt(pos, v.len)), 'iterator is dereferenceable', 0)
            return it.lv.i(pos)
        g.safe(st, 'null', Not(it.end), 'map iterator is dereferenceable', 0)
        return LV(it.lv.root, it.lv.path + (('p', it.pos),))
    def map_iter_eq(self, a, b):
        if z3.is_true(b.end): return a.end
        if z3.is_true(a.end): return b.end
        return And(Eq(a.end, b.end), Or(a.end, Eq(a.pos, b.pos)))
    def map_iter_next(self, st, p): raise Unsupported('map iterator increment')
    def map_order(self, st, m, k, vis):
        g = self.g
        if self.ordered(m):
            q = z3.Const('q!ord', g.sort_of(m.kty))
            st.assume(z3.ForAll([q], z3.Implies(z3.Select(vis, q), z3.Not(self.key_le(m.kty, k, q)))))
            st.assume(z3.ForAll([q], z3.Implies(z3.And(z3.Select(m.dom, q), z3.Not(z3.Select(vis, q))), self.key_le(m.kty, k, q))))
    def ordered(self, m):
        return m.ty is not None and m.ty.n in ('std::map', 'std::set', 'absl::btree_map', 'absl::btree_set') and (kind_of(m.kty) in ('int', 'time') or (kind_of(m.kty) == 'str' and self.g.strings == 'seq'))
    def key_le(self, kty, a, b):
        if kind_of(kty) == 'time':
            s = self.g.sort_of(kty); ia, ib, na, nb = [s.accessor(0, i)(x) for i in (0, 1) for x in (a, b)]
            return z3.Or(ia < ib, z3.And(ia == ib, z3.Or(ia != 0, na <= nb)))
        return a <= b
    def range_of(self, st, v): return None
    def begin(self, st, lv, v, end=False, rev=False):
        g = self.g
        if isinstance(v, (VecV, ViewV)):
            if isinstance(v, ViewV):
                return IterV(v.lv, 'vec', v.off if not end else g.add(v.off, v.len))
            return IterV(lv, 'vec', (v.len if end != rev else g.A.idx(0)), rev=rev)
        if isinstance(v, MapV):
            if end: return IterV(lv, 'map', None, T)
            raise Unsupported('map begin()')
        if z3.is_expr(v): return IterV(lv, 'vec', g.strlen(v) if end else g.A.idx(0))
        raise Unsupported('begin of %s' % type(v).__name__)

    # =================================================================== maps
    def key(self, st, m, a):
        g = self.g; v = g.val(st, a) if not isinstance(a, z3.ExprRef) else a
        return g.pack(st, v, m.kty)
    def map_insert(self, st, m, k, v, only_new=False):
        g = self.g; has = z3.Select(m.dom, k)
        size = z3.If(has, m.size, m.size + g.A.idx(1))
        sh = simp(has)
        if z3.is_true(sh): size = m.size
        elif z3.is_false(sh): size = g.add(m.size, g.A.idx(1))
        nv = None
        if m.vty is not None:
            p = g.pack(st, v, m.vty)
            nv = z3.Store(m.val, k, p if not only_new else z3.If(has, z3.Select(m.val, k), p))
        return MapV(m.kty, m.vty, z3.Store(m.dom, k, T), nv, size, m.ty)
    def map_erase(self, st, m, k):
        g = self.g; has = z3.Select(m.dom, k)
        return MapV(m.kty, m.vty, z3.Store(m.dom, k, F), m.val, z3.If(has, m.size - g.A.idx(1), m.size), m.ty)
    def card(self, st, m):
        """facts tying size to membership"""
        g = self.g
        st.assume((m.size == g.A.idx(0)) == (m.dom == z3.K(g.sort_of(m.kty), F)))

    # =================================================================== time
    def sat(self, ty, ns):
        """finite value or infinity on overflow of the representable range"""
        c = cint(ns)
        if c is not None and -TMAX <= c < TMAX: return TimeV(ty, z3.IntVal(0), ns)
        return TimeV(ty, z3.If(ns >= TMAX, z3.IntVal(1), z3.If(ns < -TMAX, z3.IntVal(-1), z3.IntVal(0))), ns)
    def t_add(self, ty, a, b, sign=1):
        binf = b.inf if sign > 0 else (z3.IntVal(-cint(b.inf)) if cint(b.inf) is not None else -b.inf)
        s = self.sat(ty, a.ns + b.ns if sign > 0 else a.ns - b.ns)
        if cint(a.inf) == 0 and cint(binf) == 0: return s
        return TimeV(ty, z3.If(a.inf != 0, a.inf, z3.If(binf != 0, binf, s.inf)), s.ns)
    def t_from_int(self, ty, n, unit):
        if cint(n) is not None: return self.sat(ty, z3.IntVal(cint(n) * unit))
        ns = n * unit
        if unit <= TICK: return TimeV(ty, z3.IntVal(0), ns)
        return self.sat(ty, ns)
    def t_from_real(self, st, ty, x, unit):
        self.used('absl duration from floating point rounds to the nearest quarter nanosecond')
        return self.sat(ty, z3.ToInt(x * unit + z3.Q(1, 2)))
    def trunc_div(self, n, d): return z3.If(n >= 0, n / d, -((-n) / d))
    def sat64(self, x): return z3.If(x > (1 << 63) - 1, z3.IntVal((1 << 63) - 1), z3.If(x < -(1 << 63), z3.IntVal(-(1 << 63)), x))
    def t_to_int(self, t, unit, floor=False):
        q = t.ns / unit if floor else self.trunc_div(t.ns, unit)
        q = self.sat64(q) if unit < TICK else q
        if cint(t.inf) == 0: return q
        return z3.If(t.inf > 0, z3.IntVal((1 << 63) - 1), z3.If(t.inf < 0, z3.IntVal(-(1 << 63)), q))
    def to_real(self, v):
        return z3.ToReal(v) if z3.is_expr(v) and z3.is_int(v) else v
    def t_scale(self, st, ty, a, x, op):
        r = self.to_real(x)
        if z3.is_expr(x) and z3.is_int(x):
            n = a.ns * x if op == '*' else self.trunc_div(a.ns, x) if cint(x) is not None and cint(x) > 0 else None
            if n is None: n = z3.If((a.ns >= 0) == (x > 0), z3.If(a.ns >= 0, a.ns, -a.ns) / z3.If(x > 0, x, -x), -(z3.If(a.ns >= 0, a.ns, -a.ns) / z3.If(x > 0, x, -x)))
            fin = self.sat(ty, n)
            inf0 = cint(a.inf)
            if inf0 == 0: return fin
            return TimeV(ty, z3.If(a.inf != 0, z3.If(x < 0, -a.inf, a.inf), fin.inf), fin.ns)
        self.used('multiplying a duration by a floating-point number is exact up to one quarter-nanosecond tick')
        y = z3.ToReal(a.ns) * r if op == '*' else z3.ToReal(a.ns) / r
        n = self.g.fresh_const('scaled', z3.IntSort())
        st.assume(z3.And(z3.ToReal(n) >= y - 1, z3.ToReal(n) <= y + 1))
        st.assume(z3.Implies(y >= 0, n >= 0)); st.assume(z3.Implies(y <= 0, n <= 0))
        for c in (a.ns,):
            st.assume(z3.Implies(z3.And(a.ns >= 0, r <= 1, r >= 0), n <= a.ns))
        fin = self.sat(ty, n)
        if cint(a.inf) == 0: return fin
        return TimeV(ty, z3.If(a.inf != 0, z3.If(r < 0, -a.inf, a.inf), fin.inf), fin.ns)

    # =================================================================== strings
    def to_str(self, st, v, what='num'):
        g = self.g
        if isinstance(v, z3.ExprRef):
            if v.sort() == g.str_sort(): return v
            if g.strings == 'seq' and z3.is_int(v) and cint(v) is not None: return g.strlit(str(cint(v)))
            f = z3.Function('str.of.%s' % v.sort().name(), v.sort(), g.str_sort()); r = f(v)
            if g.strings != 'seq': st.assume(g.strlen(r) >= 0)
            return r
        return g.fresh_const('str', g.str_sort())

    # =================================================================== methods on library objects
    def method(self, st, f, obj, v, args, e):
        k = None
        if isinstance(v, (VecV, ViewV)): k = 'vec'
        elif isinstance(v, MapV): k = 'map'
        elif isinstance(v, OptV): k = 'opt'
        elif isinstance(v, StatusV): k = 'status'
        elif isinstance(v, StatusOrV): k = 'statusor'
        elif isinstance(v, TimeV): k = 'time'
        elif isinstance(v, IterV): k = 'iter'
        elif isinstance(v, PtrV): k = 'ptr'
        elif isinstance(v, FnV): k = 'fn'
        elif isinstance(v, VarV): k = 'variant'
        elif isinstance(v, UnitV): k = 'unit'
        elif isinstance(v, SplitV): k = 'split'
        elif isinstance(v, z3.ExprRef):
            if v.sort() == self.g.str_sort(): k = 'str'
            else: k = 'scalar'
        if k is None: return None
        if f.cls is not None and f.cls.n == 'std::reference_wrapper': return [(st, v.lv)]
        return getattr(self, 'm_' + k)(st, f, f.short, obj, v, args, e)

    def m_unit(self, st, f, n, obj, v, args, e):
        g = self.g
        if n in ('operator<<', 'operator='): return [(st, obj)]
        return [(st, g.fresh(st, f.r, 'unit') if f.r.k != 'void' else UnitV())]
    def m_scalar(self, st, f, n, obj, v, args, e):
        g = self.g
        # std::atomic
        if f.cls is not None and f.cls.n in ('std::atomic', 'std::__atomic_base', 'std::atomic_bool'):
            self.used('std::atomic operations are atomic')
            t = f.cls.args[0] if f.cls.args else BOOL
            if g.atomic_rely is not None and obj.root.startswith('global.'):
                # other threads may have acted since the last access, within the rely condition
                nv = g.fresh(st, t, g.uname('env'), True); st.assume(g.atomic_rely(v, nv)); g.write(st, obj, nv); v = nv
            if g.atomic_rely is not None:
                r = self.atomic_op(st, f, n, obj, v, args, t)
                if r is not None: st.trace.append(('atomic', obj, [v, g.read(st, obj)], e.get('l', 0)))
                return r
            return self.atomic_op(st, f, n, obj, v, args, t)
        return None
    def atomic_op(self, st, f, n, obj, v, args, t):
            g = self.g
            if n == 'load' or n.startswith('operator ') : return [(st, v)]
            a = g.val(st, args[0]) if args else None
            if n == 'store' or n == 'operator=': g.write(st, obj, a); return [(st, a)]
            if n == 'exchange': g.write(st, obj, a); return [(st, v)]
            if n in ('fetch_add', 'fetch_sub'):
                g.write(st, obj, g.A.wrap(v + a if n == 'fetch_add' else v - a, t) if g.A.mode == 'int' else (v + a if n == 'fetch_add' else v - a)); return [(st, v)]
            if n in ('operator++', 'operator--'):
                one = g.A.const(1, t); new = v + one if n == 'operator++' else v - one
                new = g.A.wrap(new, t) if g.A.mode == 'int' else new
                g.write(st, obj, new); return [(st, v if args else new)]
            if n in ('operator+=', 'operator-='):
                new = v + a if n == 'operator+=' else v - a
                new = g.A.wrap(new, t) if g.A.mode == 'int' else new
                g.write(st, obj, new); return [(st, new)]
            return None
    def m_fn(self, st, f, n, obj, v, args, e):
        if n == 'operator()': return self.g.call_fnv(st, v, args, e.get('l', 0))
        if n.startswith('operator ') or n == 'operator bool': return [(st, v)] if 'bool' not in n else [(st, z3.BoolVal(v.name != 'empty'))]
        if n == 'operator=':
            self.g.write(st, obj, self.g.val(st, args[0])); return [(st, obj)]
        return None
    def m_status(self, st, f, n, obj, v, args, e):
        g = self.g
        if n == 'ok': return [(st, Eq(v.code, z3.IntVal(0)))]
        if n == 'code' or n == 'raw_code': return [(st, self.code_out(v.code))]
        if n == 'message': return [(st, v.msg)]
        if n == 'ToString': return [(st, self.to_str(st, v.msg))]
        if n == 'operator<<': return [(st, obj)]
        if n.startswith('operator '):
            t = f.r.deref()
            return [(st, self.coerce(st, v, t))]
        if n == 'Update':
            w = g.val(st, args[0]); nv = StatusV(z3.If(v.code == 0, w.code, v.code), z3.If(v.code == 0, w.msg, v.msg)); g.write(st, obj, nv); return [(st, UnitV())]
        if n == 'IgnoreError': return [(st, UnitV())]
        if n == 'operator=': g.write(st, obj, g.val(st, args[0])); return [(st, obj)]
        if n in ('SetPayload', 'ErasePayload'): return [(st, UnitV())]
        return None
    def m_statusor(self, st, f, n, obj, v, args, e):
        g = self.g
        if n == 'ok': return [(st, Eq(v.code, z3.IntVal(0)))]
        if n == 'status': return [(st, StatusV(v.code, v.msg))]
        if n in ('value', 'operator*', 'operator->', 'ValueOrDie'):
            y, no = g.branch(st, Eq(v.code, z3.IntVal(0)))
            if no is not None: g.aborts.append((no, e.get('l', 0), 'StatusOr value() on an error'))
            if y is None: return []
            return [(y, obj.d() if n != 'operator->' else PtrV(ptr_ty(v.ety), F, obj.d()))]
        if n == 'operator=':
            w = g.val(st, args[0]); g.write(st, obj, self.coerce(st, w, v.ty)); self.moved_from_rv(st, args[0], f); return [(st, obj)]
        if n == 'value_or':
            y, no = g.branch(st, Eq(v.code, z3.IntVal(0))); out = []
            if y is not None: out.append((y, g.read(y, obj.d())))
            if no is not None: out.append((no, self.coerce(no, g.val(no, args[0]), v.ety)))
            return out
        return None
    def m_opt(self, st, f, n, obj, v, args, e):
        g = self.g
        if n in ('has_value', 'operator bool') or n == 'operator _Bool': return [(st, v.has)]
        if n in ('value', 'operator*', 'operator->', 'get'):
            if n == 'value':
                y, no = g.branch(st, v.has)
                if no is not None: g.aborts.append((no, e.get('l', 0), 'value() of empty optional'))
                return [(y, obj.d())] if y is not None else []
            if n == 'get': return [(st, PtrV(f.r, Not(v.has), obj.d()))]
            g.safe(st, 'null', v.has, 'optional/unique_ptr is not empty', e.get('l', 0))
            return [(st, obj.d() if n == 'operator*' else PtrV(ptr_ty(v.ety), F, obj.d()))]
        if n == 'reset':
            if args and not (isinstance(g.val(st, args[0]), PtrV) and z3.is_true(g.val(st, args[0]).null)):
                p = g.val(st, args[0]); g.write(st, obj, OptV(v.ety, Not(p.null), g.read(st, p.lv), v.ty)); return [(st, UnitV())]
            g.write(st, obj, OptV(v.ety, F, v.val, v.ty)); return [(st, UnitV())]
        if n == 'release':
            lv = g.new_root(st, 'released', g.optval(st, v)); g.write(st, obj, OptV(v.ety, F, v.val, v.ty)); return [(st, PtrV(f.r, Not(v.has), lv))]
        if n == 'operator=':
            w = g.val(st, args[0]); self.moved_from_rv(st, args[0], f)
            g.write(st, obj, self.coerce(st, w, v.ty)); return [(st, obj)]
        if n == 'emplace':
            out = []
            for s, x in self.emplace_value(st, v.ety, args, e): g.write(s, obj, OptV(v.ety, T, x, v.ty)); out.append((s, obj.d()))
            return out
        if n == 'value_or':
            y, no = g.branch(st, v.has); out = []
            if y is not None: out.append((y, g.read(y, obj.d())))
            if no is not None: out.append((no, self.coerce(no, g.val(no, args[0]), v.ety)))
            return out
        if n == 'swap':
            w = g.val(st, args[0]); g.write(st, obj, w); g.write(st, args[0], v); return [(st, UnitV())]
        return None
    def emplace_value(self, st, ety, args, e, f=None):
        """Construct an element in place from constructor arguments."""
        g = self.g; ety = ety.deref(); k = kind_of(ety)
        vs = [g.val(st, a) for a in args]
        if len(vs) == 1 and self.val_matches(vs[0], ety):
            self.moved_from(st, args[0]) if False else None
            return [(st, vs[0])]
        if k == 'rec':
            if not vs and g.proto and g.proto.message(ety) is not None: return [(st, g.proto.default(g, st, ety))]
            if ety.n in ('std::pair', 'std::tuple'): return [(st, self.make_tuple(st, ety, args))]
            cands = [c for c in g.p.fns.values() if c.ctor and c.cls is ety and len(c.ps) >= len(args)]
            if g.p.all_fields(ety) is not None:
                best = [c for c in cands if len(c.ps) == len(args) and not c.implicit]
                if len(best) > 1: best = [c for c in best if all(self.val_matches(v, p[2].deref()) for v, p in zip(vs, c.ps))] or best
                if best:
                    lv = g.new_root(st, 'obj', RecV(ety, {}))
                    return [(s, g.read(s, lv)) for s, _ in g.invoke(st, best[0], lv, args)]
                if not args: return self.default_rec(st, ety, g.p.all_fields(ety), True)
            k = g.contracts.get(ety.n + '::' + ety.n.split('::')[-1])
            if k is not None: return k(g, st, ety, args, None)
            raise Unsupported('emplace of %s' % ety)
        if k == 'str': 
            class _F: pass
            return [(st, self.make_string(st, None, args, e))]
        if k == 'vec' and len(vs) <= 2:
            if not vs: return [(st, g.zero(st, ety))]
            if z3.is_expr(vs[0]): return [(st, VecV(g.elem_ty(ety), vs[0], z3.K(g.A.isort, g.pack(st, vs[1] if len(vs) > 1 else g.zero(st, g.elem_ty(ety)), g.elem_ty(ety))), ety))]
            return [(st, self.coerce(st, vs[0], ety))]
        if not vs: return [(st, g.zero(st, ety))]
        return [(st, self.coerce(st, vs[0], ety))]
    def m_ptr(self, st, f, n, obj, v, args, e):
        g = self.g
        if n == 'operator->' or n == 'get' or n == 'lock': return [(st, PtrV(v.ty, v.null, v.lv, v.off))]
        if n == 'operator*': return [(st, g.deref(st, v, e))]
        if n in ('operator bool', 'operator _Bool'): return [(st, Not(v.null))]
        if n == 'reset':
            g.write(st, obj, PtrV(v.ty, T, None)); return [(st, UnitV())]
        if n == 'operator=':
            w = g.val(st, args[0])
            if isinstance(w, OptV):
                lv = g.new_root(st, 'shared', g.optval(st, w)); w = PtrV(v.ty, Not(w.has), lv)
            self.moved_from_rv(st, args[0], f); g.write(st, obj, PtrV(v.ty, w.null, w.lv, w.off)); return [(st, obj)]
        return None
    def m_variant(self, st, f, n, obj, v, args, e):
        g = self.g
        if n == 'index': return [(st, v.idx)]
        if n == 'operator=':
            w = g.val(st, args[0])
            if isinstance(w, VarV): g.write(st, obj, w); return [(st, obj)]
            for i, x in enumerate(v.tys):
                if self.val_matches(w, x): g.write(st, obj, VarV(v.ty, v.tys, z3.IntVal(i), {i: w})); return [(st, obj)]
        return None
    def m_time(self, st, f, n, obj, v, args, e):
        g = self.g; a = g.val(st, args[0]) if args else None
        if n == 'operator+=': r = self.t_add(v.ty, v, a)
        elif n == 'operator-=': r = self.t_add(v.ty, v, a, -1)
        elif n == 'operator=': r = a
        elif n == 'operator*=': r = self.t_scale(st, v.ty, v, a, '*')
        elif n == 'operator/=': r = self.t_scale(st, v.ty, v, a, '/')
        else: return self.free_op(st, f, n, [v] + [g.val(st, x) for x in args], e)
        g.write(st, obj, r); return [(st, obj)]
    def m_iter(self, st, f, n, obj, v, args, e):
        g = self.g
        if n == 'operator*':  return [(st, self.iter_deref(st, v))]
        if n == 'operator->': return [(st, PtrV(ptr_ty(VOID), F, self.iter_deref(st, v)))]
        if n in ('operator++', 'operator--'):
            nv = self.ptr_add(st, v, g.A.idx(1), '+' if n == 'operator++' else '-')
            g.write(st, obj, nv); return [(st, v if args else obj)]
        if n in ('operator+', 'operator-'):
            a = g.val(st, args[0])
            if isinstance(a, IterV): return [(st, self.ptr_diff(v, a))]
            return [(st, self.ptr_add(st, v, g.A.to_idx(a, f.p[0].deref()), n[-1]))]
        if n in ('operator+=', 'operator-='):
            g.write(st, obj, self.ptr_add(st, v, g.A.to_idx(g.val(st, args[0]), f.p[0].deref()), n[-2])); return [(st, obj)]
        if n in ('operator==', 'operator!='):
            r = self.equal(st, v, g.val(st, args[0])); return [(st, r if n == 'operator==' else Not(r))]
        if n in ('operator<', 'operator>', 'operator<=', 'operator>='): return [(st, self.less(st, v, g.val(st, args[0]), n[8:]))]
        if n == 'operator=': g.write(st, obj, g.val(st, args[0])); return [(st, obj)]
        if n == 'operator[]': return [(st, v.lv.i(self._sum(v.pos, g.A.to_idx(g.val(st, args[0]), f.p[0].deref()), '+')))]
        if n == 'base': return [(st, IterV(v.lv, v.kind, v.pos))]
        return None
    def m_vec(self, st, f, n, obj, v, args, e):
        g = self.g; A = g.A; line = e.get('l', 0)
        ix = lambda i: A.to_idx(g.val(st, args[i]), f.p[i].deref())
        if n in ('size', 'length'): return [(st, v.len if not (f.r.k == 'int' and f.r.w == 32) else A.conv(v.len, U64, f.r))]
        if n == 'empty': return [(st, Eq(v.len, A.idx(0)))]
        if n in ('operator[]', 'at', 'Get', 'Mutable'):
            i = ix(0)
            inb = And(A.lt(i, v.len), i >= 0 if A.mode == 'int' else T)
            if n == 'at':
                y, no = g.branch(st, inb)
                if no is not None: g.aborts.append((no, line, 'at() out of range'))
                if y is None: return []
                st = y
            else: g.safe(st, 'index', inb, 'index within the container', line)
            lv = obj.i(i) if not isinstance(v, ViewV) else v.lv.i(g.add(v.off, i))
            return [(st, lv if n != 'Mutable' else PtrV(f.r, F, lv))]
        if n in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend', 'crbegin', 'crend'):
            return [(st, self.begin(st, obj, v, 'end' in n, n.lstrip('c').startswith('r')))]
        if n == 'data':
            if isinstance(v, ViewV): return [(st, PtrV(f.r, F, v.lv, v.off))]
            return [(st, PtrV(f.r, F, obj, A.idx(0)))]
        if n in ('front', 'back'):
            g.safe(st, 'index', Not(Eq(v.len, A.idx(0))), n + '() of a non-empty container', line)
            i = A.idx(0) if n == 'front' else self._sum(v.len, A.idx(1), '-')
            return [(st, obj.i(i) if not isinstance(v, ViewV) else v.lv.i(g.add(v.off, i)))]
        if isinstance(v, ViewV):
            if n in ('subspan', 'first', 'last'):
                if n == 'subspan':
                    o = ix(0); l = ix(1) if len(args) > 1 else self._sum(v.len, o, '-')
                    if len(args) > 1 and not (cint(l) is not None and cint(l) < 2**40): l = z3.If(l < v.len - o, l, v.len - o)
                    if cint(l) is not None and cint(l) >= 2**40: l = self._sum(v.len, o, '-')
                elif n == 'first': o, l = A.idx(0), ix(0)
                else: l = ix(0); o = self._sum(v.len, l, '-')
                return [(st, ViewV(v.ety, v.lv, g.add(v.off, o), l))]
            if n in ('remove_prefix',): g.write(st, obj, ViewV(v.ety, v.lv, g.add(v.off, ix(0)), self._sum(v.len, ix(0), '-'))); return [(st, UnitV())]
            if n == 'operator=': g.write(st, obj, g.val(st, args[0])); return [(st, obj)]
            return None
        if n in ('push_back', 'Add', 'AddAllocated', 'push') or (n in ('emplace_back', 'emplace') and f.cls.n in ('std::vector', 'std::deque', 'absl::InlinedVector', 'std::queue')):
            if n == 'Add' and not args: res = [(st, g.zero(st, v.ety))]
            elif n in ('push_back', 'Add', 'push'):
                res = [(st, self.coerce(st, g.val(st, args[0]), v.ety))]; self.moved_from_rv(st, args[0], f)
            else: res = self.emplace_value(st, v.ety, args, e)
            out = []
            for s, x in res:
                w = g.read(s, obj)
                g.write(s, obj, VecV(w.ety, g.add(w.len, A.idx(1)), z3.Store(w.arr, w.len, g.pack(s, x, w.ety)), w.ty))
                r = obj.i(w.len)
                out.append((s, PtrV(f.r, F, r) if f.r.k == 'ptr' else r))
            return out
        if n in ('pop_back', 'RemoveLast'):
            g.safe(st, 'index', Not(Eq(v.len, A.idx(0))), 'pop_back of a non-empty container', line)
            g.write(st, obj, VecV(v.ety, self._sum(v.len, A.idx(1), '-'), v.arr, v.ty)); return [(st, UnitV())]
        if n in ('reserve', 'shrink_to_fit', 'Reserve'): return [(st, UnitV())]
        if n in ('clear', 'Clear'):
            g.write(st, obj, VecV(v.ety, A.idx(0), v.arr, v.ty)); return [(st, UnitV())]
        if n == 'resize' or n == 'Resize':
            x = g.pack(st, g.val(st, args[1]) if len(args) > 1 else g.zero(st, v.ety), v.ety); k = ix(0)
            if cint(v.len) == 0: arr = z3.K(A.isort, x)
            else:
                j = z3.Const('j!rs', A.isort); arr = z3.Lambda([j], z3.If(A.lt(j, v.len), z3.Select(v.arr, j), x))
            g.write(st, obj, VecV(v.ety, k, arr, v.ty)); return [(st, UnitV())]
        if n == 'swap':
            w = g.val(st, args[0]); g.write(st, obj, w); g.write(st, args[0], v); return [(st, UnitV())]
        if n == 'operator=':
            w = g.val(st, args[0])
            if isinstance(w, ViewV): w = g.view_vec(st, w)
            self.moved_from_rv(st, args[0], f); g.write(st, obj, VecV(v.ety, w.len, w.arr, v.ty)); return [(st, obj)]
        if n == 'assign':
            a = g.val(st, args[0])
            if isinstance(a, IterV): g.write(st, obj, self.vec_range(st, a, g.val(st, args[1]), v.ety, v.ty)); return [(st, UnitV())]
            g.write(st, obj, VecV(v.ety, ix(0), z3.K(A.isort, g.pack(st, g.val(st, args[1]), v.ety)), v.ty)); return [(st, UnitV())]
        if n == 'fill':
            g.write(st, obj, VecV(v.ety, v.len, z3.K(A.isort, g.pack(st, g.val(st, args[0]), v.ety)), v.ty)); return [(st, UnitV())]
        if n == 'insert': return self.vec_insert(st, obj, v, args, e)
        if n == 'Set': g.write(st, obj.i(ix(0)), g.val(st, args[1])); return [(st, UnitV())]
        if n == 'erase': return self.vec_erase(st, obj, v, args, e)
        return None
    def vec_insert(self, st, obj, v, args, e):
        g = self.g; it = g.val(st, args[0])
        if len(args) == 3 and it.pos.eq(v.len):
            a, b = g.val(st, args[1]), g.val(st, args[2])
            if isinstance(a, IterV):
                if a.rev: raise Unsupported('range read backwards')
                src = g.read(st, a.lv); n = simp(b.pos - a.pos); j = z3.Const('j!in', g.A.isort)
                arr = z3.Lambda([j], z3.If(g.A.lt(j, v.len), z3.Select(v.arr, j), z3.Select(src.arr, j - v.len + a.pos)))
                g.write(st, obj, VecV(v.ety, v.len + n, arr, v.ty)); return [(st, IterV(obj, 'vec', v.len))]
        raise Unsupported('vector insert')
    def vec_erase(self, st, obj, v, args, e): raise Unsupported('vector erase')
    def m_map(self, st, f, n, obj, m, args, e):
        g = self.g; A = g.A; line = e.get('l', 0)
        if n == 'size': return [(st, m.size if not (f.r.k == 'int' and f.r.w == 32) else A.conv(m.size, U64, f.r))]
        if n == 'empty': return [(st, Eq(m.size, A.idx(0)))]
        if n in ('contains', 'count'):
            has = z3.Select(m.dom, self.key(st, m, args[0])); st.assume(z3.Implies(has, m.size >= 1) if A.mode == 'int' else T)
            return [(st, has if n == 'contains' else z3.If(has, A.const(1, U64), A.const(0, U64)))]
        if n == 'find':
            k = self.key(st, m, args[0]); return [(st, IterV(obj, 'map', k, Not(z3.Select(m.dom, k))))]
        if n in ('end', 'cend'): return [(st, IterV(obj, 'map', None, T))]
        if n in ('begin', 'cbegin'):
            k = g.fresh_const('begin', g.sort_of(m.kty)); st.assume(z3.Implies(m.size > 0, z3.Select(m.dom, k)))
            if self.ordered(m):
                q = z3.Const('q!b', g.sort_of(m.kty)); st.assume(z3.ForAll([q], z3.Implies(z3.Select(m.dom, q), self.key_le(m.kty, k, q))))
            return [(st, IterV(obj, 'map', k, Eq(m.size, A.idx(0))))]
        if n == 'at':
            k = self.key(st, m, args[0]); y, no = g.branch(st, z3.Select(m.dom, k))
            if no is not None: g.aborts.append((no, line, 'map at() of a missing key'))
            return [(y, obj.k(k))] if y is not None else []
        if n == 'operator[]':
            k = self.key(st, m, args[0]); has = simp(z3.Select(m.dom, k))
            if not z3.is_true(has):
                vt = m.vty
                g.write(st, obj, self.map_insert(st, m, k, g.zero(st, vt), only_new=True))
            return [(st, obj.k(k))]
        if n in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            if m.vty is None:
                a0 = g.val(st, args[0])
                if isinstance(a0, (IterV,)) and len(args) == 2: return self.map_insert_range(st, obj, m, a0, g.val(st, args[1]))
                k = self.key(st, m, args[0]); val = None
            else:
                if n == 'insert' or (n == 'emplace' and len(args) == 1):
                    p = g.val(st, args[0])
                    if isinstance(p, IterV): return self.map_insert_range(st, obj, m, p, g.val(st, args[1]))
                    k = g.pack(st, g.rget(st, p, 'first', m.kty), m.kty); val = g.rget(st, p, 'second', m.vty)
                elif n == 'insert_or_assign': k = self.key(st, m, args[0]); val = g.val(st, args[1])
                else:
                    k = self.key(st, m, args[0]); out = []
                    for s, val in self.emplace_value(st, m.vty, args[1:], e):
                        m2 = g.read(s, obj); had = z3.Select(m2.dom, k)
                        g.write(s, obj, self.map_insert(s, m2, k, self.coerce(s, val, m2.vty), only_new=True))
                        out.append((s, RecV(rec_ty('std::pair', (VOID, BOOL)), {'first': IterV(obj, 'map', k, F), 'second': Not(had)})))
                    return out
                val = self.coerce(st, val, m.vty)
            had = z3.Select(m.dom, k)
            g.write(st, obj, self.map_insert(st, m, k, val, only_new=(n != 'insert_or_assign')))
            if f.r.deref().k == 'void': return [(st, UnitV())]
            return [(st, RecV(rec_ty('std::pair', (VOID, BOOL)), {'first': IterV(obj, 'map', k, F), 'second': Not(had)}))]
        if n == 'erase':
            a = g.val(st, args[0])
            if isinstance(a, IterV) and len(args) == 1: k = a.pos; r = UnitV()
            elif isinstance(a, IterV): raise Unsupported('map range erase')
            else: k = self.key(st, m, args[0]); r = z3.If(z3.Select(m.dom, k), A.const(1, U64), A.const(0, U64))
            g.write(st, obj, self.map_erase(st, m, k)); return [(st, r)]
        if n == 'clear': g.write(st, obj, g.zero(st, m.ty)); return [(st, UnitV())]
        if n == 'operator=':
            w = g.val(st, args[0])
            g.write(st, obj, w if isinstance(w, MapV) else self.make_map(st, m.ty, args, e)); return [(st, obj)]
        if n == 'swap':
            w = g.val(st, args[0]); g.write(st, obj, w); g.write(st, args[0], m); return [(st, UnitV())]
        if n in ('reserve', 'rehash'): return [(st, UnitV())]
        return None
    def map_insert_range(self, st, obj, m, a, b):
        g = self.g
        raise Unsupported('map range insert')
    def m_split(self, st, f, n, obj, v, args, e):
        g = self.g; t = e['t'].deref()
        if not n.startswith('operator ') or g.strings != 'seq' or t.n != 'std::pair': raise Unsupported('use of a split string')
        self.used('absl::StrSplit converted to a pair yields the pieces before and after the first separator (the second cut at the next one unless limited)')
        i = z3.IndexOf(v.s, v.d, z3.IntVal(0)); rest = z3.SubString(v.s, i + z3.Length(v.d), z3.Length(v.s) - i - z3.Length(v.d)); j = z3.IndexOf(rest, v.d, z3.IntVal(0))
        a = z3.If(i < 0, v.s, z3.SubString(v.s, 0, i))
        b = z3.If(i < 0, z3.StringVal(''), rest if v.max == 1 else z3.If(j < 0, rest, z3.SubString(rest, 0, j)))
        return [(st, RecV(t, {'first': a, 'second': b}))]
    def m_str(self, st, f, n, obj, v, args, e):
        g = self.g; A = g.A; line = e.get('l', 0); L = g.strlen(v)
        arg = lambda i: g.val(st, args[i])
        if n in ('size', 'length'): return [(st, L)]
        if n == 'empty': return [(st, Eq(L, z3.IntVal(0)) if g.strings != 'seq' else Eq(v, g.strlit(b'')))]
        if n in ('data', 'c_str'): return [(st, PtrV(f.r, F, obj, A.idx(0)))]
        if n in ('operator[]', 'at'):
            i = arg(0); g.safe(st, 'index', z3.And(i >= 0, i < L) if n == 'operator[]' else T, 'string index in bounds', line)
            return [(st, obj.i(i))]
        if n in ('front', 'back'):
            g.safe(st, 'index', L > 0, n + '() of a non-empty string', line); return [(st, obj.i(z3.IntVal(0) if n == 'front' else L - 1))]
        if n == 'substr':
            p = arg(0) if args else z3.IntVal(0); k = arg(1) if len(args) > 1 else z3.IntVal(2 ** 64 - 1)
            y, no = g.branch(st, p <= L)
            if no is not None: g.aborts.append((no, line, 'substr out of range'))
            if y is None: return []
            return [(y, self.substr(y, v, p, k))]
        if n == 'remove_prefix':
            g.safe(st, 'index', arg(0) <= L, 'remove_prefix within the view', line); g.write(st, obj, self.substr(st, v, arg(0), L - arg(0))); return [(st, UnitV())]
        if n == 'remove_suffix':
            g.safe(st, 'index', arg(0) <= L, 'remove_suffix within the view', line); g.write(st, obj, self.substr(st, v, z3.IntVal(0), L - arg(0))); return [(st, UnitV())]
        if n in ('append', 'operator+=', 'push_back', 'Append'):
            a = arg(0)
            if z3.is_int(a) if z3.is_expr(a) else False:
                if n == 'append': x = self.str_repeat(st, a, arg(1))
                else: x = self.char_str(st, a)
            elif len(args) >= 2 and z3.is_expr(a): x = self.substr(st, a, arg(1), arg(2)) if len(args) == 3 else self.substr(st, a, z3.IntVal(0), arg(1))
            elif isinstance(a, PtrV): x = self.make_string(st, f, args, e)
            elif isinstance(a, IterV): x = self.str_range(st, a, arg(1))
            else: x = a
            r = g.strcat(v, x)
            if g.strings != 'seq': st.assume(g.strlen(r) == L + g.strlen(x))
            g.write(st, obj, r); return [(st, obj)]
        if n == 'operator=':
            x = self.make_string(st, f, args[:1], e) if not (z3.is_expr(arg(0)) and arg(0).sort() == g.str_sort()) else arg(0)
            self.moved_from_rv(st, args[0], f); g.write(st, obj, x); return [(st, obj)]
        if n == 'assign': g.write(st, obj, self.make_string(st, f, args, e)); return [(st, obj)]
        if n == 'clear': g.write(st, obj, g.strlit(b'')); return [(st, UnitV())]
        if n in ('reserve', 'shrink_to_fit'): return [(st, UnitV())]
        if n == 'resize':
            k = arg(0); r = g.fresh_const('resized', g.str_sort()); st.assume(g.strlen(r) == k)
            if g.strings == 'seq':
                st.assume(z3.Implies(k <= L, r == z3.SubString(v, 0, k))); st.assume(z3.Implies(k > L, z3.PrefixOf(v, r)))
            else:
                j = z3.Int('j!rz'); at = z3.Function('str.at', g.str_sort(), z3.IntSort(), z3.IntSort())
                fill = arg(1) if len(args) > 1 else z3.IntVal(0)
                st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), at(r, j) == z3.If(j < L, at(v, j), fill))))
            g.write(st, obj, r); return [(st, UnitV())]
        if n in ('begin', 'end', 'cbegin', 'cend'): return [(st, self.begin(st, obj, v, 'end' in n))]
        if n == 'find' and g.strings == 'seq':
            a = arg(0); a = self.char_str(st, a) if z3.is_int(a) else a
            p = arg(1) if len(args) > 1 else z3.IntVal(0)
            r = z3.IndexOf(v, a, p); return [(st, z3.If(r < 0, z3.IntVal(2 ** 64 - 1), r))]
        if n in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of'):
            r = g.fresh_const('found', z3.IntSort()); st.assume(z3.Or(r == 2 ** 64 - 1, z3.And(r >= 0, r < L))); return [(st, r)]
        if n == 'compare':
            r = g.fresh_const('cmp', z3.IntSort()); st.assume(z3.And(r >= -2**31, r < 2**31, (r == 0) == (v == arg(0)))); return [(st, r)]
        if n.startswith('operator ') or n == 'Flatten': return [(st, v)]
        if n in ('starts_with', 'ends_with') and g.strings == 'seq':
            return [(st, z3.PrefixOf(arg(0), v) if n == 'starts_with' else z3.SuffixOf(arg(0), v))]
        return None
    def char_str(self, st, c):
        g = self.g
        if cint(c) is not None: return g.strlit(bytes([cint(c) % 256]))
        if g.strings == 'seq': return z3.StrFromCode(z3.If(c < 0, c + 256, c))
        r = z3.Function('str.chr', z3.IntSort(), g.str_sort())(c); st.assume(g.strlen(r) == 1); return r
    def rec_method(self, st, f, obj, v, args, e):
        g = self.g; n = f.short
        if v.ty.n in ('std::uniform_int_distribution',) and n == 'operator()':
            r = g.fresh(st, f.r, 'uniform'); st.assume(z3.And(r >= v.fields['a'], r <= v.fields['b'])); self.used('std::uniform_int_distribution returns a value in its closed range'); return [(st, r)]
        if v.ty.n in ('std::pair', 'std::tuple'):
            if n == 'operator=':
                w = g.val(st, args[0]); g.write(st, obj, self.make_tuple(st, v.ty, args)); return [(st, obj)]
        return None

    # =================================================================== free functions
    def free_op(self, st, f, n, vs, e):
        g = self.g; op = n[8:]
        if len(vs) == 2:
            a, b = vs
            if op == '==' : return [(st, self.equal(st, a, b))]
            if op == '!=' : return [(st, Not(self.equal(st, a, b)))]
            if isinstance(a, TimeV) or isinstance(b, TimeV):
                if op in ('<', '<=', '>', '>='): return [(st, self.less(st, a, b, op))]
                if op == '+': return [(st, self.t_add(a.ty if a.ty is TIME or b.ty is DUR else b.ty, a, b))]
                if op == '-':
                    ty = DUR if a.ty is b.ty else a.ty
                    return [(st, self.t_add(ty, a, b, -1))]
                if op in '*/':
                    if isinstance(a, TimeV) and isinstance(b, TimeV): # integer division of durations
                        return [(st, self.sat64(z3.If((a.ns >= 0) == (b.ns > 0), z3.If(a.ns >= 0, a.ns, -a.ns) / z3.If(b.ns > 0, b.ns, -b.ns), -(z3.If(a.ns >= 0, a.ns, -a.ns) / z3.If(b.ns > 0, b.ns, -b.ns)))))]
                    t, x = (a, b) if isinstance(a, TimeV) else (b, a)
                    return [(st, self.t_scale(st, DUR, t, x, op))]
                if op == '%':
                    q = self.trunc_div(a.ns, b.ns); return [(st, TimeV(DUR, a.inf, a.ns - q * b.ns))]
            if op == '+' and any(z3.is_expr(x) and x.sort() == g.str_sort() for x in vs):
                xs = [x if x.sort() == g.str_sort() else self.char_str(st, x) for x in vs]
                r = g.strcat(*xs)
                if g.strings != 'seq': st.assume(g.strlen(r) == g.strlen(xs[0]) + g.strlen(xs[1]))
                return [(st, r)]
            if op in ('<', '<=', '>', '>='): return [(st, self.less(st, a, b, op))]
            if isinstance(a, IterV):
                if op == '-': return [(st, self.ptr_diff(a, b))]
                if op == '+': return [(st, self.ptr_add(st, a, b, '+'))]
            if all(z3.is_expr(x) and z3.is_int(x) for x in vs) and f.r.deref().k == 'int' and op in ('+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^'):
                g.cur = st; return [(st, g.A.binop(op, a, b, f.r.deref()))]
            if op == '<<': return [(st, a)]
            if op == '|' and isinstance(a, z3.ExprRef): return [(st, g.A.binop('|', a, b, f.r.deref()))]
        if len(vs) == 1 and op == '-' and isinstance(vs[0], TimeV):
            a = vs[0]; return [(st, TimeV(DUR, -a.inf if cint(a.inf) is None else z3.IntVal(-cint(a.inf)), -a.ns))]
        return None

    def free(self, st, f, args, e):
        g = self.g; A = g.A; n = f.n; s = f.short
        arg = lambda i: g.val(st, args[i])
        ns = n[:-len(s)]
        if s in ('move', 'forward', 'as_const', '__addressof') and ns == 'std::':
            if s == 'move' and len(args) == 3: return self.algorithm(st, f, 'copy', args, e)
            if s == '__addressof': return [(st, PtrV(f.r, F, g.lval(st, args[0])))]
            return [(st, args[0])]
        if s == 'addressof': return [(st, PtrV(f.r, F, g.lval(st, args[0])))]
        if s.startswith('operator') and not (s[8:9].isalnum() or s[8:9] == '_'):
            if s == 'operator""': return None
            vs = [g.val(st, a) for a in args]
            r = self.free_op(st, f, s, vs, e)
            if r is not None: return r
            return None
        if s == 'bit_width' and len(args) == 1:
            x = arg(0); r = A.const(0, f.r.deref()); w = f.p[0].deref().w
            for k in range(1, w + 1): r = z3.If((z3.UGE(x, 1 << (k - 1)) if A.mode == 'bv' else x >= 1 << (k - 1)), A.const(k, f.r.deref()), r)
            return [(st, r)]
        if s == 'erase_if' and len(args) == 2 and isinstance(args[0], LV) and isinstance(g.read(st, args[0]), MapV):
            m = g.read(st, args[0])
            if m.vty is None and f.r.deref().k in ('void', 'int'):
                ks = g.sort_of(m.kty); x = z3.Const('x!ei', ks); el = g.new_root(st, 'elem', g.unpack(st, x, m.kty)); p = self.pred_formula(st, arg(1), el, x, e); dom = g.fresh_const('kept', m.dom.sort()); size = g.fresh_const('kept.size', A.isort); g.assume_len(st, size); g.assume_quant = True
                st.assume(z3.ForAll([x], z3.Select(dom, x) == And(z3.Select(m.dom, x), Not(p)), patterns=[z3.Select(dom, x)])); st.assume(size <= m.size); r = MapV(m.kty, m.vty, dom, m.val, size, m.ty); self.card(st, r); g.write(st, args[0], r); return [(st, UnitV() if f.r.deref().k == 'void' else m.size - size)]
        if s in ('make_unique', 'WrapUnique', 'make_shared'):
            t = f.r.deref(); out = []
            if s == 'WrapUnique':
                p = arg(0); return [(st, OptV(t.args[0], Not(p.null), g.read(st, p.lv), t))]
            for s2, v in self.emplace_value(st, t.args[0], args, e):
                if t.n == 'std::unique_ptr': out.append((s2, OptV(t.args[0], T, v, t)))
                else: out.append((s2, PtrV(t, F, g.new_root(s2, 'shared', v))))
            return out
        if s in ('make_pair', 'make_tuple', 'forward_as_tuple'): return [(st, self.make_tuple(st, f.r.deref(), args))]
        if s in ('make_optional',): return [(st, OptV(f.r.args[0], T, self.coerce(st, arg(0), f.r.args[0]), f.r))]
        if s == 'get' and ns == 'std::':
            v = arg(0)
            if isinstance(v, RecV):
                i = f.ta[0] if f.ta and isinstance(f.ta[0], int) else 0
                return [(st, g.lval(st, args[0]).f(g.rec_fields(v.ty)[i][0]))]
            if isinstance(v, VarV):
                i = self.alt(v, f.ta[0]); y, no = g.branch(st, Eq(v.idx, z3.IntVal(i)))
                if no is not None: g.aborts.append((no, e.get('l', 0), 'bad variant access'))
                return [(y, g.lval(y, args[0]).a(i))] if y is not None else []
            if isinstance(v, VecV): return [(st, g.lval(st, args[0]).i(A.idx(f.ta[0])))]
        if s == 'get_if':
            p = arg(0); v = g.read(st, p.lv); i = self.alt(v, f.ta[0]); return [(st, PtrV(f.r, Not(Eq(v.idx, z3.IntVal(i))), p.lv.a(i)))]
        if s == 'holds_alternative':
            v = arg(0); return [(st, Eq(v.idx, z3.IntVal(self.alt(v, f.ta[0]))))]
        if s in ('min', 'max') and ns == 'std::' and len(args) == 2:
            a, b = arg(0), arg(1); t = f.r.deref()
            if isinstance(a, TimeV):
                c = self.less(st, b, a, '<') if s == 'min' else self.less(st, a, b, '<')
                return [(st, TimeV(a.ty, z3.If(c, b.inf, a.inf), z3.If(c, b.ns, a.ns)))]
            c = A.cmp('<', b, a, t) if s == 'min' else A.cmp('<', a, b, t)
            return [(st, If(c, b, a))]
        if s in ('abs', 'labs', 'llabs') and len(args) == 1 and z3.is_expr(arg(0)):
            a = arg(0); return [(st, z3.If(a < 0, -a, a))]
        if s == 'swap' and len(args) == 2:
            a, b = arg(0), arg(1); g.write(st, args[0], b); g.write(st, args[1], a); return [(st, UnitV())]
        if s == 'exchange':
            a = arg(0); g.write(st, args[0], self.coerce(st, arg(1), f.r)); return [(st, a)]
        if s in ('begin', 'end', 'cbegin', 'cend') and len(args) == 1:
            v = arg(0); return [(st, self.begin(st, g.lval(st, args[0]), v, 'end' in s))]
        if s == 'size' and len(args) == 1 and isinstance(arg(0), (VecV,)): return [(st, arg(0).len)]
        # --- abseil status
        if s in _ERR and ns == 'absl::': return [(st, StatusV(z3.IntVal(_ERR[s]), arg(0)))]
        if s in _IS and ns == 'absl::': return [(st, Eq(arg(0).code, z3.IntVal(_IS[s])))]
        if s == 'OkStatus': return [(st, StatusV(z3.IntVal(0), g.strlit(b'')))]
        if n == 'fcp::internal::MakeStatusBuilder':
            self.used('a streamed status builder yields exactly the given code'); return [(st, StatusV(self.code_in(arg(0)), g.fresh_const('msg', g.str_sort())))]
        if n == 'fcp::internal::AsStatus':
            v = arg(0); return [(st, StatusV(v.code, v.msg))]
        # --- abseil time
        if ns == 'absl::' or ns == 'absl::time_internal::':
            r = self.absl_time(st, f, s, args, e)
            if r is not None: return r
            if s in ('StrCat', 'StrAppend', 'Substitute', 'StrFormat', 'StrJoin', 'CEscape', 'CHexEscape', 'BytesToHexString', 'SubstituteAndAppend', 'AsciiStrToLower', 'AsciiStrToUpper', 'Base64Escape', 'WebSafeBase64Escape', 'StatusCodeToString', 'StripAsciiWhitespace', 'FormatTime', 'FormatDuration', 'HexStringToBytes', 'StrReplaceAll', 'StripPrefix', 'StripSuffix'):
                return self.absl_str(st, f, s, args, e)
            if s in ('EqualsIgnoreCase', 'StartsWith', 'EndsWith', 'StrContains', 'StartsWithIgnoreCase', 'ConsumePrefix', 'ConsumeSuffix', 'SimpleAtoi'):
                return self.absl_strpred(st, f, s, args, e)
            if s.startswith('ascii_') and len(args) == 1 and z3.is_expr(arg(0)) and z3.is_int(arg(0)):
                r = self.ascii_class(st, s, arg(0))
                if r is not None: return r
            if s in ('StrSplit', 'MaxSplits', 'ByChar', 'ByString'): return self.split(st, s, args, e)
            if s in ('MakeSpan', 'MakeConstSpan'):
                v = arg(0)
                if isinstance(v, VecV): return [(st, ViewV(v.ety, g.lval(st, args[0]), A.idx(0), v.len))]
                if isinstance(v, ViewV): return [(st, v)]
                if isinstance(v, PtrV) and len(args) == 2: return [(st, ViewV(self.g.elem_ty(f.r.deref()), v.lv, v.off if v.off is not None else A.idx(0), A.to_idx(arg(1), f.p[1].deref())))]
        if s == 'to_string' and ns == 'std::': return [(st, self.to_str(st, arg(0)))]
        if s in ('ceil', 'floor', 'trunc', 'round') and len(args) == 1 and z3.is_expr(arg(0)):
            x = self.to_real(arg(0)); fl = z3.ToInt(x)
            r = {'floor': fl, 'ceil': z3.If(z3.ToReal(fl) == x, fl, fl + 1), 'trunc': z3.If(x >= 0, fl, -z3.ToInt(-x)), 'round': z3.If(x >= 0, z3.ToInt(x + z3.Q(1, 2)), -z3.ToInt(-x + z3.Q(1, 2)))}[s]
            self.used('floating-point arithmetic treated as exact real arithmetic')
            return [(st, z3.ToReal(r))]
        if s in ('Uniform',) and n.startswith('absl::'):
            a, b = arg(-2), arg(-1); r = g.fresh(st, f.r, 'uniform')
            st.assume(And(r >= a, r < b)); self.used('absl::Uniform(gen, lo, hi) returns a value in [lo, hi)'); return [(st, r)]
        if s == 'back_inserter': return [(st, ('back', args[0]))]
        if s == 'memcmp' and len(args) == 3: return self.memcmp(st, args, e)
        if s in ('__builtin_add_overflow', '__builtin_sub_overflow', '__builtin_mul_overflow') and g.A.mode == 'int':
            p = arg(2); t = g.pointee(e['args'][2]['t'].deref()).deref(); x = {'add': arg(0) + arg(1), 'sub': arg(0) - arg(1), 'mul': arg(0) * arg(1)}[s.split('_')[3]]
            g.write(st, g.deref(st, p, e), A.wrap(x, t)); return [(st, Not(A.in_range(x, t)))]
        if s == '__builtin_expect': return [(st, arg(0))]
        if s in ('abort', 'exit', 'terminate', '__builtin_unreachable', 'Unreachable'):
            g.aborts.append((st, e.get('l', 0), s)); return []
        if s in ('copy', 'fill', 'all_of', 'any_of', 'none_of', 'count_if', 'find_if', 'accumulate', 'sort', 'copy_n', 'fill_n', 'find', 'distance', 'equal', 'shuffle', 'transform', 'iota', 'count', 'reverse'):
            return self.algorithm(st, f, s, args, e)
        if s == 'Uint128Low64': return [(st, arg(0) % (1 << 64) if not (setattr(g, 'cur', st) or A.known(arg(0) < (1 << 64))) else arg(0))]
        if s == 'Uint128High64': return [(st, arg(0) / (1 << 64))]
        if ns in ('absl::big_endian::', 'absl::little_endian::') and s[:4] in ('Load', 'Stor'): return self.endian(st, f, args, e)
        if s in ('memcpy', 'memset', 'memmove'): return self.memfn(st, s, args, e)
        h = g.models.get(n) or g.models.get(s)
        if h: return h(g, st, args, e)
        return None
    def alt(self, v, ta):
        if isinstance(ta, int): return ta
        for i, t in enumerate(v.tys):
            if t.key == ta.key: return i
        raise Unsupported('variant alternative %s' % ta)
    def memcmp(self, st, args, e): raise Unsupported('memcmp')
    def union_member(self, st, lv, name):
        """integer member of a union whose storage was written as a byte array"""
        g = self.g
        try: v = g.read(st, lv)
        except Unsupported: return None
        if not isinstance(v, RecV): return None
        rd = g.p.records.get(v.ty.key)
        if not rd or not rd['union']: return None
        ft = {n: t for n, t, _ in rd['fields']}
        if name not in ft or g.A.mode != 'int': raise Unsupported('union member')
        arrs = [n for n, t in ft.items() if t.k == 'arr' and t.e.k == 'int' and t.e.w == 8]
        if name in arrs: return None
        if ft[name].k != 'int' or len(arrs) != 1: raise Unsupported('union member')
        p = PtrV(None, F, lv.f(arrs[0]), g.A.idx(0)); self.used('little-endian target')
        x = z3.Sum([self.byte_at(st, p, b) * (1 << 8 * b) for b in range(ft[name].w // 8)])
        if ft[name].s: x = z3.If(x >= 1 << (ft[name].w - 1), x - (1 << ft[name].w), x)
        return g.new_root(st, 'union.' + name, x)
    def byte_at(self, st, p, i):
        """i-th byte (0..255) of the storage a pointer designates"""
        g = self.g; base = g.read(st, p.lv); off = p.off if p.off is not None else g.A.idx(0)
        if z3.is_expr(base) and base.sort() == g.str_sort():
            b = g.str_at(st, base, g.add(off, g.A.idx(i))); return z3.If(b < 0, b + 256, b)
        if not isinstance(base, VecV): raise Unsupported('bytes of %s' % type(base).__name__)
        w = base.ety.w // 8
        if w > 1 and cint(off) is None: raise Unsupported('byte offset')
        if w == 1:
            b = z3.Select(base.arr, g.add(off, g.A.idx(i))); return z3.If(b < 0, b + 256, b) if base.ety.s else b
        x = z3.Select(base.arr, g.A.idx(cint(off) + i // w)); sh = i % w
        if base.ety.s: x = z3.If(x < 0, x + (1 << base.ety.w), x)
        if w == 8: return self.word_bytes(st, simp(x))[sh]
        return (x / (1 << 8 * sh)) % 256
    def word_bytes(self, st, x):
        """the eight bytes of a 64-bit word; words and byte 8-tuples correspond one to one"""
        I = z3.IntSort(); bs = [z3.Function('byte%d' % k, I, I)(x) for k in range(8)]
        for b in bs: st.assume(z3.And(b >= 0, b < 256))
        st.assume(z3.Function('word64', *[I] * 9)(*bs) == x)
        return bs
    def word_of(self, st, bs):
        I = z3.IntSort(); x = z3.Function('word64', *[I] * 9)(*bs)
        st.assume(z3.And(x >= 0, x < 2 ** 64))
        for k in range(8): st.assume(z3.Function('byte%d' % k, I, I)(x) == bs[k])
        return x
    def memcpy_bv(self, st, args, e):
        """memcpy of at most eight bytes between byte buffers and integers, little endian, length possibly unknown"""
        g = self.g; A = g.A; d, sp, n = [g.val(st, a) for a in args[:3]]; line = e.get('l', 0); self.used('little-endian target')
        if n.size() != 64: raise Unsupported('memcpy length')
        if cint(n) is None: g.oblige(st, z3.ULE(n, 8), 'memcpy of at most one word', line, kind='spec')
        elif cint(n) > 8: raise Unsupported('memcpy of %d bytes' % cint(n))
        def bytes_of(p):
            if not isinstance(p, PtrV) or p.lv is None: raise Unsupported('memcpy operand')
            v = g.read(st, p.lv); off = p.off if p.off is not None else A.idx(0)
            if isinstance(v, VecV) and v.ety.w == 8: return v, off, [z3.Select(v.arr, simp(off + i)) for i in range(8)]
            if z3.is_bv(v) and (p.off is None or cint(p.off) == 0): return v, None, [z3.Extract(8 * i + 7, 8 * i, v) for i in range(v.size() // 8)]
            raise Unsupported('memcpy operand %s' % type(v).__name__)
        sv, so, sb = bytes_of(sp); dv, do, db = bytes_of(d)
        for v, o, w in ((sv, so, 'source'), (dv, do, 'destination')):
            room = z3.ULE(n, len(sb if w == "source" else db)) if o is None else z3.Or(n == 0, z3.And(z3.ULE(o, v.len), z3.ULE(n, v.len - o)))
            g.safe(st, 'index', room, w + ' of memcpy is long enough', line)
        new = [z3.If(z3.UGT(n, i), a, b) if cint(n) is None else a if cint(n) > i else b for i, (a, b) in enumerate(zip(sb, db))]
        if do is None: g.write(st, d.lv, simp(z3.Concat(*reversed(new + db[len(new):]))))
        else:
            arr = dv.arr
            for i, x in enumerate(new):
                if cint(n) is None or cint(n) > i: arr = z3.Store(arr, simp(do + i), x)
            g.write(st, d.lv, VecV(dv.ety, dv.len, arr, dv.ty))
        return [(st, d)]
    def memfn(self, st, s, args, e):
        g = self.g; d = g.val(st, args[0]); n = cint(g.val(st, args[2]))
        if g.A.mode == 'bv' and s == 'memcpy': return self.memcpy_bv(st, args, e)
        if s == 'memset' and n is not None and n <= 64 and isinstance(d, PtrV) and g.A.mode == 'int':
            dst = g.read(st, d.lv); do = d.off if d.off is not None else g.A.idx(0); x = cint(g.val(st, args[1]))
            if not isinstance(dst, VecV) or dst.ety.w != 8 or x is None: raise Unsupported(s)
            g.safe(st, 'index', do + n <= dst.len, 'destination of memset is long enough', e.get('l', 0)); arr = dst.arr; x %= 256
            for k in range(n): arr = z3.Store(arr, do + k, z3.IntVal(x - 256 if dst.ety.s and x > 127 else x))
            g.write(st, d.lv, VecV(dst.ety, dst.len, arr, dst.ty)); return [(st, d)]
        if s == 'memset' or n is None or n > 64 or not isinstance(d, PtrV) or g.A.mode != 'int': raise Unsupported(s)
        sp = g.val(st, args[1])
        if isinstance(sp, LV): sp = PtrV(None, F, sp, g.A.idx(0))
        if z3.is_expr(sp): sp = PtrV(None, F, g.new_root(st, 'src', sp), g.A.idx(0))
        base = g.read(st, sp.lv); so = sp.off if sp.off is not None else g.A.idx(0)
        ln = g.strlen(base) if z3.is_expr(base) else g.A.idx(0) + base.len * (base.ety.w // 8) if isinstance(base, VecV) else None
        if ln is None: raise Unsupported(s)
        g.safe(st, 'index', (so if z3.is_expr(base) else so * (base.ety.w // 8)) + n <= ln, 'source of %s is long enough' % s, e.get('l', 0))
        dst = g.read(st, d.lv); do = d.off if d.off is not None else g.A.idx(0)
        if not isinstance(dst, VecV): raise Unsupported(s)
        w = dst.ety.w // 8
        if n % w: raise Unsupported(s)
        g.safe(st, 'index', do * w + n <= dst.len * w, 'destination of %s is long enough' % s, e.get('l', 0))
        same = isinstance(base, VecV) and base.ety.w == dst.ety.w
        arr = dst.arr
        for k in range(n // w):
            if same and base.ety.s == dst.ety.s: x = z3.Select(base.arr, so + k)
            else:
                x = self.word_of(st, [self.byte_at(st, sp, k * w + b) for b in range(8)]) if w == 8 else z3.Sum([self.byte_at(st, sp, k * w + b) * (1 << 8 * b) for b in range(w)]) if w > 1 else self.byte_at(st, sp, k)
                if dst.ety.s: x = z3.If(x >= 1 << (dst.ety.w - 1), x - (1 << dst.ety.w), x)
            arr = z3.Store(arr, do + k, x)
        self.used('little-endian target')
        g.write(st, d.lv, VecV(dst.ety, dst.len, arr, dst.ty)); return [(st, d)]
    def endian(self, st, f, args, e):
        """absl::big_endian / little_endian loads and stores, byte by byte"""
        g = self.g; big = 'big' in f.n; w = int(f.short.lstrip('LoadStore')) // 8
        p = g.val(st, args[0])
        if not isinstance(p, PtrV): raise Unsupported('endian access')
        off = p.off if p.off is not None else g.A.idx(0)
        at = lambda i: p.lv.i(g.add(off, g.A.idx(i)))
        base = g.read(st, p.lv)
        sg = base.ety.s if isinstance(base, VecV) else True
        if isinstance(base, VecV) and base.ety.w != 8: raise Unsupported('endian access to wider elements')
        ln = base.len if isinstance(base, VecV) else g.strlen(base)
        g.safe(st, 'index', g.add(off, g.A.idx(w)) <= ln, 'byte access inside its buffer', e.get('l', 0))
        if f.short.startswith('Store'):
            v = g.val(st, args[1])
            for i in range(w):
                sh = 8 * (w - 1 - i if big else i); b = (v / (1 << sh)) % 256
                g.write(st, at(i), z3.If(b >= 128, b - 256, b) if sg else b)
            return [(st, UnitV())]
        t = z3.IntVal(0)
        for i in range(w):
            b = g.read(st, at(i)); b = z3.If(b < 0, b + 256, b) if sg else b
            t = t + b * (1 << 8 * (w - 1 - i if big else i))
        return [(st, t)]
    def algorithm(self, st, f, s, args, e):
        g = self.g; arg = lambda i: g.val(st, args[i])
        if s == 'distance': return [(st, self.ptr_diff(arg(1), arg(0)))]
        if s not in ('find_if', 'find', 'any_of', 'all_of', 'none_of', 'find_if_not') and any(isinstance(arg(i), IterV) and arg(i).rev for i in range(len(args))): raise Unsupported('algorithm %s backwards' % s)
        if s == 'copy' and len(args) == 3:
            a, b, d = arg(0), arg(1), arg(2)
            if isinstance(d, tuple) and d[0] == 'back':
                v = g.read(st, d[1]); src = g.read(st, a.lv); n = simp(b.pos - a.pos); j = z3.Const('j!bk', g.A.isort)
                if not isinstance(src, VecV) or not isinstance(v, VecV): raise Unsupported('append to this container')
                arr = z3.Lambda([j], z3.If(g.A.lt(j, v.len), z3.Select(v.arr, j), z3.Select(src.arr, j - v.len + a.pos)))
                g.write(st, d[1], VecV(v.ety, v.len + n, arr, v.ty)); return [(st, d)]
            a, b, d = [x if isinstance(x, IterV) else IterV(x.lv, 'vec', x.off if x.off is not None else g.A.idx(0)) if isinstance(x, PtrV) else x for x in (a, b, d)]
            src, dst = g.read(st, a.lv), g.read(st, d.lv)
            if isinstance(src, ViewV): src = g.read(st, src.lv)
            if isinstance(src, VecV) and isinstance(dst, VecV):
                n = simp(b.pos - a.pos); g.safe(st, 'index', g.A.le(d.pos + n, dst.len), 'copy stays inside its destination', e.get('l', 0))
                j = z3.Const('j!cp', g.A.isort)
                inr = And(g.A.le(d.pos, j), g.A.lt(j, d.pos + n))
                arr = z3.Lambda([j], z3.If(inr, z3.Select(src.arr, j - d.pos + a.pos), z3.Select(dst.arr, j)))
                g.write(st, d.lv, VecV(dst.ety, dst.len, arr, dst.ty)); return [(st, IterV(d.lv, 'vec', d.pos + n))]
        if s == 'fill' and len(args) == 3:
            a, b = arg(0), arg(1); dst = g.read(st, a.lv); x = g.pack(st, arg(2), dst.ety)
            if cint(a.pos) == 0 and b.pos.eq(dst.len): g.write(st, a.lv, VecV(dst.ety, dst.len, z3.K(g.A.isort, x), dst.ty)); return [(st, UnitV())]
        if s in ('find_if', 'find', 'any_of', 'all_of', 'none_of', 'find_if_not') and len(args) == 3 and isinstance(arg(0), IterV) and arg(0).kind == 'vec':
            a, b = arg(0), arg(1); v = g.read(st, a.lv); v = g.view_vec(st, v) if isinstance(v, ViewV) else v
            if not isinstance(v, VecV): raise Unsupported('algorithm %s' % s)
            j = z3.Const('j!al', g.A.isort); el = g.new_root(st, 'elem', g.unpack(st, z3.Select(v.arr, j), v.ety))
            p = z3.Select(v.arr, j) == g.pack(st, arg(2), v.ety) if s == 'find' else self.pred_formula(st, arg(2), el, j, e)
            if s in ('all_of', 'find_if_not'): p = Not(p)
            inr = And(g.A.le(a.pos, j), g.A.lt(j, b.pos)); q = g.fresh_const('found', g.A.isort); at = z3.substitute(p, (j, q)); g.assume_quant = True
            if a.rev:       # position q of a reverse iterator stands for the element before q
                lo, hi = b.pos, a.pos; at = z3.substitute(p, (j, q - 1)); st.assume(And(g.A.le(lo, q), g.A.le(q, hi))); st.assume(z3.ForAll([j], z3.Implies(And(g.A.le(q, j), g.A.lt(j, hi)), Not(p)))); st.assume(z3.Implies(g.A.lt(lo, q), at))
                if s in ('find', 'find_if', 'find_if_not'): return [(st, IterV(a.lv, 'vec', q, None, True))]
                return [(st, Eq(q, lo) if s in ('all_of', 'none_of') else g.A.lt(lo, q))]
            st.assume(And(g.A.le(a.pos, q), g.A.le(q, b.pos))); st.assume(z3.ForAll([j], z3.Implies(And(inr, g.A.lt(j, q)), Not(p)))); st.assume(z3.Implies(g.A.lt(q, b.pos), at))
            if s in ('find', 'find_if', 'find_if_not'): return [(st, IterV(a.lv, 'vec', q))]
            return [(st, Eq(q, b.pos) if s in ('all_of', 'none_of') else g.A.lt(q, b.pos))]
        raise Unsupported('algorithm %s line %s' % (s, e.get('l')))
    def absl_time(self, st, f, s, args, e):
        g = self.g; arg = lambda i: g.val(st, args[i])
        if s in _UNITS and len(args) == 1:
            x = arg(0)
            if z3.is_expr(x) and z3.is_real(x): return [(st, self.t_from_real(st, DUR, x, _UNITS[s]))]
            return [(st, self.t_from_int(DUR, x, _UNITS[s]))]
        if s in _TOINT: return [(st, self.t_to_int(arg(0), _TOINT[s]))]
        if s in _TODBL:
            t = arg(0); r = z3.ToReal(t.ns) / _TODBL[s]
            if cint(t.inf) != 0:
                big = z3.Real('double.infinity'); st.assume(big > z3.RealVal(10) ** 40 if False else big >= z3.RealVal('1e60')); r = z3.If(t.inf > 0, big, z3.If(t.inf < 0, -big, r))
            return [(st, r)]
        if s in _FROMUNIX: return [(st, self.t_from_int(TIME, arg(0), _FROMUNIX[s]))]
        if s in _TOUNIX: return [(st, self.t_to_int(arg(0), _TOUNIX[s], floor=True))]
        if s == 'UnixEpoch': return [(st, TimeV(TIME, z3.IntVal(0), z3.IntVal(0)))]
        if s == 'ZeroDuration': return [(st, TimeV(DUR, z3.IntVal(0), z3.IntVal(0)))]
        if s == 'InfiniteDuration': return [(st, TimeV(DUR, z3.IntVal(1), z3.IntVal(0)))]
        if s == 'InfiniteFuture': return [(st, TimeV(TIME, z3.IntVal(1), z3.IntVal(0)))]
        if s == 'InfinitePast': return [(st, TimeV(TIME, z3.IntVal(-1), z3.IntVal(0)))]
        if s == 'Now':
            t = g.fresh(st, TIME, 'now'); st.assume(t.inf == 0); st.assume(And(t.ns >= 0, t.ns < TMAX)); return [(st, t)]
        if s in ('Trunc', 'Floor', 'Ceil') and len(args) == 2:
            d, u = arg(0), arg(1)
            q = {'Trunc': self.trunc_div(d.ns, u.ns), 'Floor': d.ns / u.ns, 'Ceil': -((-d.ns) / u.ns)}[s]
            return [(st, TimeV(d.ty, d.inf, q * u.ns))]
        if s == 'IDivDuration':
            n, d, rp = arg(0), arg(1), arg(2)
            if cint(d.ns) is not None and cint(d.ns) > 0:
                q = self.trunc_div(n.ns, d.ns)
                rem = n.ns - q * d.ns
                if cint(n.inf) != 0:
                    g.write(st, g.deref(st, rp), TimeV(DUR, n.inf, z3.If(n.inf == 0, rem, z3.IntVal(0))))
                    return [(st, z3.If(n.inf > 0, z3.IntVal(2**63 - 1), z3.If(n.inf < 0, z3.IntVal(-2**63), self.sat64(q))))]
                g.write(st, g.deref(st, rp), TimeV(DUR, z3.IntVal(0), rem)); return [(st, self.sat64(q))]
        if s == 'FDivDuration':
            n, d = arg(0), arg(1); return [(st, z3.ToReal(n.ns) / z3.ToReal(d.ns))]
        if s == 'AbsDuration':
            d = arg(0); return [(st, TimeV(DUR, z3.If(d.inf < 0, -d.inf, d.inf), z3.If(d.ns < 0, -d.ns, d.ns)))]
        if s == 'ToUnixDuration' or s == 'FromUnixDuration':
            d = arg(0); return [(st, TimeV(DUR if s[0] == 'T' else TIME, d.inf, d.ns))]
        return None
    def absl_str(self, st, f, s, args, e):
        g = self.g; vs = [g.val(st, a) for a in args]
        if s == 'StrCat':
            if not vs: return [(st, g.strlit(b''))]
            xs = [self.to_str(st, v) for v in vs]; r = xs[0]
            for x in xs[1:]:
                c = g.strcat(r, x)
                if g.strings != 'seq': st.assume(g.strlen(c) == g.strlen(r) + g.strlen(x))
                r = c
            return [(st, r)]
        if s in ('StrAppend',):
            p = vs[0]; lv = g.deref(st, p); r = g.read(st, lv)
            for v in vs[1:]:
                x = self.to_str(st, v); c = g.strcat(r, x)
                if g.strings != 'seq': st.assume(g.strlen(c) == g.strlen(r) + g.strlen(x))
                r = c
            g.write(st, lv, r); return [(st, UnitV())]
        if g.strings == 'seq' and s in ('StripPrefix', 'StripSuffix') and len(vs) == 2:
            x, y = vs; n = z3.Length(x) - z3.Length(y)
            return [(st, z3.If(z3.PrefixOf(y, x), z3.SubString(x, z3.Length(y), n), x) if s == 'StripPrefix' else z3.If(z3.SuffixOf(y, x), z3.SubString(x, 0, n), x))]
        if g.strings == 'seq' and s == 'StrFormat':
            r = self.format_str(st, vs)
            if r is not None: return [(st, r)]
        if g.strings == 'seq' and s == 'Substitute' and z3.is_string_value(z3.simplify(vs[0])):
            fmt = z3.simplify(vs[0]).as_string(); out = []; bits = re.split(r'(\$\d|\$\$)', fmt)
            for b in bits:
                if re.match(r'\$\d$', b) and int(b[1]) + 1 < len(vs): out.append(self.to_str(st, vs[int(b[1]) + 1]))
                elif b: out.append(z3.StringVal('$' if b == '$$' else b))
            return [(st, z3.Concat(*out) if len(out) > 1 else out[0] if out else z3.StringVal(''))]
        self.used('absl::%s returns some string determined by its arguments' % s)
        ts = [v for v in vs if isinstance(v, z3.ExprRef)]
        if len(ts) == len(vs) and ts:
            r = z3.Function('absl.' + s, *([t.sort() for t in ts] + [g.str_sort()]))(*ts)
        else: r = g.fresh_const(s, g.str_sort())
        if g.strings != 'seq': st.assume(g.strlen(r) >= 0)
        if f.r.deref() is STRING: return [(st, r)]
        return None
    def format_str(self, st, vs):
        """StrFormat with a literal format of %%, %s, %d and %02X conversions of a byte"""
        fmt = vs[0]
        if not z3.is_expr(fmt) or not z3.is_string_value(z3.simplify(fmt)): return None
        out = []; i = 1
        for b in re.split(r'(%%|%[0-9.]*[a-zA-Z])', z3.simplify(fmt).as_string()):
            if b == '%%': out.append(z3.StringVal('%'))
            elif b[:1] == '%':
                if i >= len(vs): return None
                v = vs[i]; i += 1
                if b in ('%s', '%d', '%u', '%i'): out.append(self.to_str(st, v))
                elif b in ('%02X', '%02x', '%X', '%x') and z3.is_int(v):
                    tab = z3.StringVal('0123456789ABCDEF' if b[-1] == 'X' else '0123456789abcdef'); d = lambda x: z3.SubString(tab, x, 1); two = z3.Concat(d(v / 16), d(v % 16)); big = z3.Function('hex.' + b, z3.IntSort(), z3.StringSort())(v)
                    if b[1] != '0': two = z3.If(v < 16, d(v), two)
                    out.append(z3.If(z3.And(v >= 0, v < 256), two, big))
                else: return None
            elif b: out.append(z3.StringVal(b))
        return z3.Concat(*out) if len(out) > 1 else out[0] if out else z3.StringVal('')
    def ascii_class(self, st, s, c):
        rg = lambda a, b: z3.And(c >= ord(a), c <= ord(b)); lo, up, di = rg('a', 'z'), rg('A', 'Z'), rg('0', '9')
        r = {'ascii_isalnum': Or(lo, up, di), 'ascii_isalpha': Or(lo, up), 'ascii_isdigit': di, 'ascii_islower': lo, 'ascii_isupper': up, 'ascii_isascii': z3.And(c >= 0, c < 128), 'ascii_isspace': Or(z3.And(c >= 9, c <= 13), c == 32), 'ascii_isxdigit': Or(di, rg('a', 'f'), rg('A', 'F')),
             'ascii_tolower': z3.If(up, c + 32, c), 'ascii_toupper': z3.If(lo, c - 32, c), 'ascii_iscntrl': Or(z3.And(c >= 0, c < 32), c == 127), 'ascii_isprint': z3.And(c >= 32, c < 127), 'ascii_isgraph': z3.And(c > 32, c < 127), 'ascii_isblank': Or(c == 9, c == 32), 'ascii_ispunct': z3.And(c > 32, c < 127, Not(Or(lo, up, di)))}.get(s)
        return None if r is None else [(st, r)]
    def pred_formula(self, st, fn, el, j, e):
        """the truth value of a predicate applied to an element at a bound position, as one formula"""
        g = self.g; s0 = st.copy(); n0 = len(s0.pc); out = []; before = len(g.aborts); tag = g.fresh_const('mark', z3.IntSort())
        for s2, v in g.call_fnv(s0, fn, [el], e.get("l", 0)):
            d = s2.pc[n0:]; f = And(*d, g.val(s2, v)); out.append(f)
            for x in z3util.get_vars(f):
                m = re.search(r'!(\d+)$', x.decl().name())
                if m and int(m.group(1)) > int(tag.decl().name().rsplit('!', 1)[1]): raise Unsupported('predicate with new values')
        if len(g.aborts) > before: raise Unsupported('predicate that may abort')
        return Or(*out)
    def split(self, st, s, args, e):
        g = self.g; vs = [g.val(st, a) for a in args]
        d = vs[0] if s != 'StrSplit' else vs[1]
        if isinstance(d, SplitV): mx, d = d.max, d.d
        else: mx = None
        if z3.is_expr(d) and z3.is_int(d): d = self.char_str(st, d)
        if not (z3.is_expr(d) and d.sort() == g.str_sort()) or (s == 'StrSplit' and len(vs) > 2): raise Unsupported('StrSplit with this separator')
        if s == 'MaxSplits': mx = cint(vs[1])
        if mx not in (None, 1): raise Unsupported('StrSplit with this limit')
        return [(st, SplitV(vs[0] if s == 'StrSplit' else None, d, mx))]
    def absl_strpred(self, st, f, s, args, e):
        g = self.g; vs = [g.val(st, a) for a in args]
        if g.strings == 'seq':
            if s == 'StartsWith': return [(st, z3.PrefixOf(vs[1], vs[0]))]
            if s == 'EndsWith': return [(st, z3.SuffixOf(vs[1], vs[0]))]
            if s == 'StrContains':
                b = vs[1] if vs[1].sort() == g.str_sort() else self.char_str(st, vs[1]); return [(st, z3.Contains(vs[0], b))]
        if s == 'SimpleAtoi':
            lv = g.deref(st, args[1], e); t = g.pointee(f.p[1]).deref() if f.p[1].k == 'ptr' else I32
            ok = z3.Function('atoi.ok', g.str_sort(), z3.BoolSort())(vs[0]); x = z3.Function('atoi.%d%s' % (t.w, t.s), g.str_sort(), z3.IntSort())(vs[0])
            self.used('absl::SimpleAtoi succeeds and yields a number depending only on the text')
            st.assume(g.A.in_range(x, t)); junk = g.fresh(st, t, 'atoi'); g.write(st, lv, z3.If(ok, x, junk)); return [(st, ok)]
        if s in ('ConsumePrefix', 'ConsumeSuffix') and g.strings == 'seq':
            lv = g.deref(st, args[0], e); x = g.read(st, lv); c = z3.PrefixOf(vs[1], x) if s == 'ConsumePrefix' else z3.SuffixOf(vs[1], x); n = z3.Length(x) - z3.Length(vs[1])
            g.write(st, lv, z3.If(c, z3.SubString(x, z3.Length(vs[1]) if s == 'ConsumePrefix' else z3.IntVal(0), n), x)); return [(st, c)]
        if s in ('ConsumePrefix', 'ConsumeSuffix'): return None
        self.used('absl::%s is a function of its arguments' % s)
        r = z3.Function('absl.' + s, *([t.sort() for t in vs] + [z3.BoolSort()]))(*vs)
        return [(st, r)]
