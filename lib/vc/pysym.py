"""Symbolic execution of the repository's Python modules by the real interpreter.

The module source is loaded from /repo on every run and its own byte code is executed; inputs and shared state are
proxy objects standing for arbitrary values, every truth test on them forks, and all forks are explored. Operations a
proxy does not define stop the unit (undecided). Dropped: the modules imported by the target are replaced by empty
stand-ins unless listed; threads are modelled by havocking the shared state at every acquisition of its lock."""
import os, sys, types, time, builtins, z3
from .program import Unsupported
from .engine import Obligation

class Stop(BaseException): pass
class Halt(BaseException): pass
S = z3.StringSort()
OptB = z3.Datatype('OptBytes'); OptB.declare('none'); OptB.declare('some', ('get', S)); OptB = OptB.create()

class G:
    """what the driver reads from an engine"""
    def __init__(self): self.obs = []; self.assumptions = set(); self.inlined = set(); self.solver_time = 0.0; self.houdini_log = []; self.py_fns = set(); self.p = None
class Run:
    """one path: a prefix of decisions, then first-feasible choices"""
    def __init__(self, g, prefix): self.g = g; self.prefix = prefix; self.taken = []; self.alt = []; self.pc = []; self.n = 0; self.sections = []; self.depth = 0
    def sat(self, *cs):
        s = z3.Solver(); s.set('timeout', 5000); s.add(*self.pc, *cs); t = time.time(); r = s.check(); self.g.solver_time += time.time() - t; return r
    def fork(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = len(self.taken)
        if i < len(self.prefix): b = self.prefix[i]
        else:
            y = self.sat(c) != z3.unsat; n = self.sat(z3.Not(c)) != z3.unsat
            if not y and not n: raise Stop()
            b = y
            if y and n: self.alt.append(self.taken + [False])
        self.taken.append(b); self.pc.append(c if b else z3.Not(c)); return b
    def name(self, p): self.n += 1; return '%s!%d' % (p, self.n)
    def oblige(self, f, name):
        s = z3.Solver(); s.set('timeout', 8000); s.add(*self.pc, z3.Not(f)); t = time.time(); r = s.check(); d = time.time() - t; self.g.solver_time += d
        st = 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'timeout'
        self.g.obs.append(Obligation(name, self.g.cur, 0, st, d, s.model() if r == z3.sat else None))
R = None
def explore(g, fn, body):
    """body(run) on every path"""
    global R
    g.cur = fn; todo = [[]]; n = 0; done = 0
    while todo:
        n += 1
        if n > 400: raise Unsupported('too many paths in ' + fn)
        R = Run(g, todo.pop())
        try: body(R); done += 1
        except Stop: pass
        todo += R.alt
    g.obs.append(Obligation('cover: some path of %s completes' % fn, fn, 0, 'proved' if done else 'refuted', 0.0, kind='cover'))

class Sym:
    """an arbitrary string (or byte string)"""
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __hash__(self): return 0
    def __eq__(self, o):
        if isinstance(o, Sym): return R.fork(self.e == o.e)
        if isinstance(o, (str, bytes)): return R.fork(self.e == lift(o))
        return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o); return r if r is NotImplemented else not r
    def __bool__(self): return R.fork(z3.Length(self.e) > 0)
    def __add__(self, o): return Sym(z3.Concat(self.e, lift(o)))
    def __radd__(self, o): return Sym(z3.Concat(lift(o), self.e))
    def __format__(self, spec): return '<any>'
    def __str__(self): return '<any>'
    def __repr__(self): return '<any>'
    def __getattr__(self, n): raise Unsupported_('attribute %s of an arbitrary value' % n)
    def __len__(self): raise Unsupported_('length of an arbitrary value as a number')
    def __iter__(self): raise Unsupported_('iteration over an arbitrary value')
class Unsupported_(BaseException): pass
class SymInt:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __eq__(self, o): return R.fork(self.e == (o.e if isinstance(o, SymInt) else o))
    def __hash__(self): return 0
    def __str__(self): return '<any number>'
def lift(x):
    if isinstance(x, Sym): return x.e
    if isinstance(x, str): return z3.StringVal(x)
    if isinstance(x, bytes): return z3.StringVal(x.decode('latin1'))
    raise Unsupported_('value of type ' + type(x).__name__)
def symlen(x): return SymInt(z3.Length(x.e)) if isinstance(x, Sym) else builtins.len(x)

class World:
    """lock, sections and the rely condition"""
    def __init__(self, run, dicts, rely=lambda w: []): self.run = run; self.held = 0; self.dicts = dicts; self.sections = []; self.rely = rely
    def state(self): return [d.snap() for d in self.dicts]
    def enter(self):
        for d in self.dicts: d.havoc(self.run)
        for f in self.rely(self): self.run.pc.append(f)
        self.held += 1; self.sections.append([self.state(), None])
    def leave(self): self.held -= 1; self.sections[-1][1] = self.state()
class Lock:
    def __init__(self, w=None): self.w = w
    def __enter__(self):
        if self.w.held: raise Unsupported_('lock taken twice')
        self.w.enter(); return True
    def __exit__(self, *a): self.w.leave(); return False
    def acquire(self, *a, **k): self.__enter__(); return True
    def release(self): self.w.leave()
class Dict:
    """arbitrary dictionary; subclasses convert values"""
    def __init__(self, name, vs): self.nm = name; self.vs = vs; self.w = None; self.dom = None; self.val = None
    def havoc(self, run):
        self.dom = z3.Const(run.name(self.nm + '.dom'), z3.ArraySort(S, z3.BoolSort())); self.val = z3.Const(run.name(self.nm + '.val'), z3.ArraySort(S, self.vs))
    def snap(self): return (self.dom, self.val)
    def acc(self):
        """an access outside the lock is a critical section of its own"""
        d = self
        class A:
            def __enter__(s):
                s.own = not d.w.held
                if s.own: d.w.enter()
            def __exit__(s, *a):
                if s.own: d.w.leave()
        return A()
    def has(self, k): return self.dom[lift(k)]
    def __contains__(self, k):
        with self.acc(): return R.fork(self.has(k))
    def __getitem__(self, k):
        with self.acc():
            if not R.fork(self.has(k)): raise KeyError(k)
            return self.out(k, self.val[lift(k)])
    def get(self, k, d=None):
        with self.acc(): return self[k] if R.fork(self.has(k)) else d
    def __setitem__(self, k, v):
        with self.acc(): x = self.into(v); self.dom = z3.Store(self.dom, lift(k), True); self.val = z3.Store(self.val, lift(k), x)
    def __delitem__(self, k):
        with self.acc():
            if not R.fork(self.has(k)): raise KeyError(k)
            self.dom = z3.Store(self.dom, lift(k), False)
    _none = object()
    def pop(self, k, d=_none):
        with self.acc():
            if not R.fork(self.has(k)):
                if d is Dict._none: raise KeyError(k)
                return d
            r = self.detached(self.out(k, self.val[lift(k)])); self.dom = z3.Store(self.dom, lift(k), False); return r
    def setdefault(self, k, v=None):
        with self.acc():
            if not R.fork(self.has(k)): self[k] = v
            return self[k]
    def detached(self, x): return x
    def __getattr__(self, n): raise Unsupported_('dictionary method ' + n)
    def __iter__(self): raise Unsupported_('iteration over a shared dictionary')
    def __len__(self): raise Unsupported_('size of a shared dictionary')

def load(path, name, stubs, inject):
    """execute the module's source; names in `stubs` are what its imports yield"""
    saved = {}
    for n, m in stubs.items(): saved[n] = sys.modules.get(n); sys.modules[n] = m
    try:
        mod = types.ModuleType(name); mod.__file__ = path; sys.modules[name] = mod; saved.setdefault(name, None)
        exec(compile(open(path).read(), path, 'exec'), mod.__dict__)
    except SyntaxError as ex: raise Unsupported('cannot load %s: %s' % (path, ex))
    except Exception as ex: raise Unsupported('cannot load %s: %s: %s' % (path, type(ex).__name__, ex))
    finally:
        for n, m in saved.items():
            if m is None: sys.modules.pop(n, None)
            else: sys.modules[n] = m
    mod.__dict__.update(inject); return mod
class Stub(types.ModuleType):
    """an imported module of which nothing is needed while the target is loaded"""
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return Stub(self.__name__ + '.' + n)
    def __call__(self, *a, **k): return Stub(self.__name__ + '()')
    def __mro_entries__(self, bases): return (object,)
