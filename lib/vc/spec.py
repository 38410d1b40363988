"""Vocabulary of the contract files in props/."""
import os, z3
from .program import *
from .values import *
from .engine import Engine, State, has_quant
from .models import CODES, TICK, TIME, DUR
from .driver import CRYPTO
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

def start(g, fn=None):
    st = State(); st.fn = fn; return st
def call(g, st, f, args=(), this=None):
    """run a function; returns the surviving paths, remembers the aborting ones in g.last_aborts"""
    n = len(g.aborts)
    st.fn = f
    out = g.invoke(st, f, this, list(args))
    g.last_aborts = g.aborts[n:]
    return [(s, g.val(s, v)) for s, v in out]
def params(g, st, f, **given):
    """arbitrary arguments for the parameters of f (by position names p0, p1 … or source name)"""
    out = []
    for i, (pid, pn, pt) in enumerate(f.ps):
        if 'p%d' % i in given: out.append(given['p%d' % i])
        else:
            v = g.fresh(st, pt, 'arg%d' % i, exact_name=True)
            out.append(g.new_root(st, 'arg%d' % i, v) if pt.k == 'ref' else v)
    return out
def no_abort(g, name, pre=None):
    """on every aborting path of the last call the precondition is violated"""
    for s, line, kind in g.last_aborts: g.oblige(s, Not(pre) if pre is not None else F, name + ' (no %s)' % kind, line, kind='abort')
def cover(g, paths, what='some path returns'):
    """vacuity guard: at least one path is satisfiable"""
    ok = any(g.check(s.pc, 2000)[0] != z3.unsat for s, _ in paths)
    from .engine import Obligation
    g.obs.append(Obligation('cover: ' + what, '', 0, 'proved' if ok else 'refuted', 0.0, kind='cover', backend='z3'))
def forall_i(lo, hi, body, name='i!s'):
    i = z3.Int(name); return z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), body(i)))

def inverse_hints(L):
    """loop templates: a vector written by the loop inverts / copies / enumerates another one up to the counter"""
    g = L.eng; out = []; j = z3.Int('j!h')
    others = []
    for root, v in L.pre.cells.items():
        if isinstance(v, VecV) and v.arr.sort().range() == z3.IntSort(): others.append((root, LV(root)))
        if isinstance(v, RecV):
            for n, x in v.fields.items():
                if isinstance(x, VecV) and x.arr.sort().range() == z3.IntSort(): others.append((root + '.' + n, LV(root).f(n)))
    for lv in L.mods:
        v = g.read(L.st, lv)
        if not isinstance(v, VecV) or v.arr.sort().range() != z3.IntSort(): continue
        nm = repr(lv).split('!')[0] + '#%d' % L.mods.index(lv); dup = set()
        out.append((nm + ' enumerates', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), v.arr[j] == j))))
        for i, (on, ol) in enumerate(others):
            if any(ol.root == m.root and ol.path[:len(m.path)] == m.path for m in L.mods): continue
            w = g.read(L.st, ol)
            if w.arr.get_id() in dup or z3.is_K(w.arr): continue
            dup.add(w.arr.get_id())
            out.append(('%s inverts #%d' % (nm, i), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), v.arr[w.arr[j]] == j))))
            out.append(('%s copies #%d' % (nm, i), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), v.arr[j] == w.arr[j]))))
    return out

def lean_lemmas(c, name):
    """the lemma file is accepted by Lean, without sorry or axioms of its own"""
    import subprocess, re, resource
    def free(): resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)   # Lean maps its library files
    p = os.path.join(V, 'lemmas', name); src = open(p).read()
    if re.search(r'\b(sorry|axiom|admit|native_decide)\b', src): return False
    r = subprocess.run(['lean', p], capture_output=True, text=True, timeout=200, preexec_fn=free)
    ok = r.returncode == 0 and 'error' not in r.stdout and 'sorry' not in r.stdout
    if ok:
        from .engine import Obligation
        for t in re.findall(r'^theorem (\w+)', src, re.M): c.g.obs.append(Obligation('lemma ' + t, 'lemmas/' + name, 0, 'proved', 0.0, kind='lemma', backend='lean'))
    return ok
