"""Loads the JSON written by lib/extract into a single program: interned types,
functions by id and by name, record layouts, globals."""
import json, re

class Unsupported(Exception):
    """The source left the fragment the verifier understands."""

class Ty:
    __slots__ = ('k', 'n', 'args', 'w', 's', 'e', 'key', 'const', 'rv', 'alen', 'u', 'params')
    def __init__(self, k, key):
        self.k = k; self.key = key; self.n = None; self.args = (); self.w = 0; self.s = False
        self.e = None; self.const = False; self.rv = False; self.alen = 0; self.u = None; self.params = ()
    def __repr__(self): return self.key
    def deref(self):
        t = self
        while t.k == 'ref': t = t.e
        return t

def norm_name(n):
    return n.replace('debian3::', '').replace('__cxx11::', '').replace('std::__1::', 'std::')

_INTERN = {}
def _mk(k, key):
    t = _INTERN.get(key)
    if t is None:
        t = Ty(k, key); _INTERN[key] = t
        return t, True
    return t, False

def int_ty(w, s):
    t, new = _mk('int', ('i' if s else 'u') + str(w))
    if new: t.w = w; t.s = s
    return t
BOOL = _mk('bool', 'bool')[0]; BOOL.w = 8
VOID = _mk('void', 'void')[0]
NULLPTR = _mk('nullptr', 'nullptr')[0]
I8 = int_ty(8, True)
I32, I64, U8, U32, U64 = int_ty(32, True), int_ty(64, True), int_ty(8, False), int_ty(32, False), int_ty(64, False)
def rec_ty(name, args=()):
    key = name + ('<' + ','.join(a.key if isinstance(a, Ty) else str(a) for a in args) + '>' if args else '')
    t, new = _mk('rec', key)
    if new: t.n = name; t.args = tuple(args)
    return t
def ptr_ty(e):
    t, new = _mk('ptr', e.key + '*')
    if new: t.e = e
    return t
def ref_ty(e, rv=False):
    t, new = _mk('ref', e.key + ('&&' if rv else '&'))
    if new: t.e = e; t.rv = rv
    return t
def arr_ty(e, n):
    t, new = _mk('arr', '%s[%d]' % (e.key, n))
    if new: t.e = e; t.alen = n
    return t
STRING = rec_ty('std::string')

STRING_NAMES = {'absl::strings_internal::ConvertibleToStringView', 'std::basic_string', 'absl::string_view', 'std::basic_string_view', 'absl::Cord', 're2::StringPiece', 'std::string',
                'absl::AlphaNum', 'absl::substitute_internal::Arg', 'fcp::secagg::__none'}

class Callee:
    __slots__ = ('id', 'n', 'cls', 'static', 'const', 'virt', 'pure', 'ctor', 'copy', 'move', 'dflt', 'p', 'r', 'ta',
                 'cassign', 'massign', 'defaulted', 'short')

class Fn:
    __slots__ = ('id', 'n', 'file', 'line', 'endline', 'r', 'ta', 'ps', 'cls', 'static', 'const', 'virt', 'over', 'ctor',
                 'implicit', 'inits', 'body', 'defaulted', 'tu', 'short', 'dtor')
    def __repr__(self): return '%s(%s)' % (self.n, ','.join(p[2].key for p in self.ps))

class Program:
    def __init__(self):
        self.fns = {}        # id -> Fn
        self.by_name = {}    # qualified name -> [Fn]
        self.records = {}    # type key -> dict(fields=[(name, Ty, init, tu)], bases=[Ty], poly)
        self.globals = {}    # (tu, id) -> dict
        self.globals_by_name = {}
        self.ntu = 0

    def load(self, path):
        d = json.load(open(path))
        tu = self.ntu; self.ntu += 1
        raw = d['types']; memo = {}
        def ty(i):
            if i is None or i == -1: return VOID
            if i in memo: return memo[i]
            o = raw[i]; k = o.get('k'); memo[i] = VOID
            if k == 'bool': t = BOOL
            elif k == 'void': t = VOID
            elif k == 'nullptr': t = NULLPTR
            elif k == 'int': t = int_ty(o['w'], bool(o['s']))
            elif k == 'enum':
                t, new = _mk('enum', 'enum ' + norm_name(o['n']))
                if new:
                    t.n = norm_name(o['n']); t.u = ty(o['u']); t.w = t.u.w; t.s = t.u.s
            elif k == 'float':
                t, new = _mk('float', 'f%d' % o['w']); t.w = o['w']
            elif k == 'ptr':
                e = ty(o['e']); t = ptr_ty(e)
            elif k == 'ref':
                e = ty(o['e']); t = ref_ty(e, bool(o.get('rv')))
            elif k == 'arr':
                e = ty(o['e']); t = arr_ty(e, o['n'])
            elif k == 'fn':
                r = ty(o['r']); ps = [ty(p) for p in o['p']]
                t, new = _mk('fn', 'fn(%s)->%s' % (','.join(p.key for p in ps), r.key))
                if new: t.e = r; t.params = tuple(ps)
            elif k == 'rec':
                n = norm_name(o['n'])
                if n.startswith('lambda#'): n = 'lambda#%d.%s' % (tu, n[7:])
                args = []
                for a in o.get('a', []):
                    if isinstance(a, dict):
                        args.append(int(a['i']) if 'i' in a else '?')
                    else:
                        args.append(ty(a))
                if n in STRING_NAMES: t = STRING
                elif n == 'absl::uint128': t = int_ty(128, False)
                elif n == 'absl::int128': t = int_ty(128, True)
                elif n in ('std::allocator', 'std::less', 'std::hash', 'std::equal_to', 'std::default_delete',
                           'std::char_traits') or n.startswith('absl::container_internal::StringHash'):
                    t = rec_ty(n)
                else: t = rec_ty(n, args)
            else:
                t, new = _mk('other', 'other ' + norm_name(o.get('n', '?')))
                t.n = norm_name(o.get('n', '?'))
            memo[i] = t
            return t
        for i in range(len(raw)): ty(i)
        # second pass: recursive types seen as VOID on the first pass
        memo.clear()
        for i in range(len(raw)): ty(i)
        callees = []
        for o in d['callees']:
            c = Callee()
            c.id = self._fid(o['id'], tu); c.n = norm_name(o['n']); c.cls = ty(o['cls']) if 'cls' in o else None
            for f in ('static', 'const', 'virt', 'pure', 'ctor', 'copy', 'move', 'dflt', 'cassign', 'massign', 'defaulted'):
                setattr(c, f, bool(o.get(f)))
            c.p = [ty(p) for p in o['p']]; c.r = ty(o['r'])
            c.ta = [ty(a) if not isinstance(a, dict) else (int(a['i']) if 'i' in a else '?') for a in o.get('ta', [])]
            c.short = c.n.rsplit('::', 1)[-1]
            if 'operator' in c.n: c.short = c.n[c.n.rindex('operator'):]
            callees.append(c)
        def fix(x):
            if isinstance(x, dict):
                for f in ('t', 'at', 'ct', 'crt'):
                    if f in x and isinstance(x[f], int): x[f] = ty(x[f])
                if 'f' in x and isinstance(x['f'], int) and x.get('k') in ('call', 'ctor', 'fnref', 'memfn', 'inhctor'):
                    x['f'] = callees[x['f']]
                if x.get('k') == 'lambda': x['fns'] = [callees[i] for i in x['fns']]
                if 'id' in x and isinstance(x['id'], int): x['id'] = (tu, x['id'])
                if x.get('k') == 'int': x['v'] = int(x['v'])
                for v in x.values():
                    if isinstance(v, (dict, list)): fix(v)
            elif isinstance(x, list):
                for v in x: fix(v)
        for o in d['functions']:
            f = Fn()
            f.id = self._fid(o['id'], tu); f.n = norm_name(o['n']); f.file = o['file']; f.line = o['l']; f.endline = o['el']
            f.r = ty(o['r']); f.tu = tu
            f.ta = [ty(a) if not isinstance(a, dict) else (int(a['i']) if 'i' in a else '?') for a in o.get('ta', [])]
            f.ps = [((tu, p['id']), p['n'], ty(p['t'])) for p in o['ps']]
            f.cls = ty(o['cls']) if 'cls' in o else None
            for a in ('static', 'const', 'virt', 'ctor', 'implicit', 'defaulted', 'dtor'): setattr(f, a, bool(o.get(a)))
            f.over = [self._fid(i, tu) for i in o.get('over', [])]
            f.short = f.n.rsplit('::', 1)[-1]
            if 'operator' in f.n: f.short = f.n[f.n.rindex('operator'):]
            if f.id in self.fns: continue
            f.inits = o.get('inits', [])
            for i in f.inits:
                if 'ft' in i: i['ft'] = ty(i['ft'])
                if 'base' in i: i['base'] = ty(i['base'])
            fix(f.inits); f.body = o['body']; fix(f.body)
            self.fns[f.id] = f
            self.by_name.setdefault(f.n, []).append(f)
        for o in d['records']:
            t = ty(o['t'])
            if t.key in self.records: continue
            fields = []
            for x in o['fields']:
                init = x.get('init')
                if init is not None: fix(init)
                fields.append((x['n'], ty(x['t']), init))
            self.records[t.key] = dict(t=t, fields=fields, bases=[ty(b) for b in o['bases']], poly=bool(o['poly']),
                                       union=bool(o['union']), file=o['file'], line=o['line'])
        for o in d['globals']:
            g = dict(n=norm_name(o['n']), t=ty(o['t']), init=o.get('init'), file=o['file'])
            if g['init'] is not None: fix(g['init'])
            self.globals[(tu, o['id'])] = g
            self.globals_by_name.setdefault(g['n'], g)
        return tu

    def _fid(self, i, tu):
        if i.startswith('lambda#') or i.endswith('@0') or '#' in i: return '%s@tu%d' % (i, tu)
        return i

    def find(self, name, **kw):
        """Functions with this qualified name, non-implicit, optionally filtered."""
        out = [f for f in self.by_name.get(name, []) if not f.implicit]
        if 'nparams' in kw: out = [f for f in out if len(f.ps) == kw['nparams']]
        if 'where' in kw: out = [f for f in out if kw['where'](f)]
        return out

    def overrider(self, cls, fid, short):
        """Definition of virtual function fid for an object of dynamic type cls."""
        seen = set()
        def anc(f):
            yield f.id
            for o in f.over:
                yield o
                if o in self.fns: yield from anc(self.fns[o])
        c = cls
        stack = [cls]
        while stack:
            c = stack.pop(0)
            if c.key in seen: continue
            seen.add(c.key)
            for f in self.fns.values():
                if f.cls is c and not f.ctor and fid in set(anc(f)): return f
            r = self.records.get(c.key)
            if r: stack += r['bases']
        return None

    def bases(self, t):
        out = []; r = self.records.get(t.key)
        if r:
            for b in r['bases']:
                out.append(b); out += self.bases(b)
        return out

    def container_base(self, t):
        """The library container a repository record derives from, if any."""
        from .values import kind_of
        for b in self.bases(t):
            if kind_of(b) in ('vec', 'map', 'set'): return b
        return None

    def all_fields(self, t):
        from .values import kind_of
        out = []; r = self.records.get(t.key)
        if r is None: return None
        for b in r['bases']:
            bf = self.all_fields(b)
            if bf: out += bf
            elif kind_of(b) in ('vec', 'map', 'set'): out.append(('$base', b, None))
        out += r['fields']
        return out
