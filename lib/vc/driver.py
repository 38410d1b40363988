"""Runs one property: extracts the real sources, discharges the contract obligations, runs the concrete harness, writes evidence."""
import os, sys, json, time, hashlib, subprocess, traceback, multiprocessing, glob, signal, shutil, threading, tempfile
import concurrent.futures.thread      # here, because it registers handlers for fork and must not do that while another thread forks
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
PYS = '/opt/fcp/pyvenv/lib/python3.12/site-packages'
FLAGS = ['-std=c++17', '-include', 'optional', '-w', '-I' + V + '/lib/stubs', '-I' + B + '/gen', '-I' + REPO, '-I/usr/include/android']
CLANG_RES = ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18']

def sh(cmd, **kw): return subprocess.run(cmd, capture_output=True, text=True, **kw)
def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]
class SetupError(Exception): pass

def repo_files(exts):
    out = []
    for root, ds, fs in os.walk(os.path.join(REPO, 'fcp')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts): out.append(os.path.join(root, f))
    return out

class lock:
    def __init__(self, name): self.p = os.path.join(B, name)
    def __enter__(self):
        import fcntl
        os.makedirs(B, exist_ok=True); self.f = open(self.p, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def ensure_extractor():
    src = os.path.join(V, 'lib/extract/extract.cc'); key = sha(open(src, 'rb').read()); out = os.path.join(B, 'extract'); st = out + '.key'
    with lock('lock.extract'):
        if os.path.exists(out) and os.path.exists(st) and open(st).read() == key: return out
        fl = sh(['llvm-config-18', '--cxxflags']).stdout.split()
        r = sh(['clang++-18'] + fl + ['-std=c++17', '-O1', '-fno-rtti', src, '-o', out + '.tmp', '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18'])
        if r.returncode: raise SetupError('extractor build failed: ' + r.stderr[-2000:])
        os.replace(out + '.tmp', out); open(st, 'w').write(key)
    return out

def ensure_gen():
    """protobuf and tracing-schema headers generated from the current tree"""
    protos = [p for p in repo_files(('.proto',)) if '/test/' not in p and '/jni' not in p and 'java' not in p.split('/fcp/')[1].split('/')[0]]
    fbs = ['fcp/secagg/server/tracing_schema.fbs', 'fcp/base/tracing_schema.fbs']
    stub = os.path.join(V, 'lib/stubs/proto_stubs')
    stubs = [os.path.join(r, f) for r, _, fs in os.walk(stub) for f in fs if f.endswith('.proto')]
    key = sha(*[p + ':' + open(p, errors='replace').read() for p in protos + stubs + [os.path.join(REPO, f) for f in fbs]], open(os.path.join(V, 'lib/gen_tracing_stub.py')).read(), 'v2')
    out = os.path.join(B, 'gen'); kf = os.path.join(B, 'gen.key')
    with lock('lock.gen'):
        if os.path.exists(kf) and open(kf).read() == key: return key
        tracked = set(sh(['git', '-C', REPO, 'ls-files', '*.proto']).stdout.split())
        if tracked: protos = [p for p in protos if os.path.relpath(p, REPO) in tracked]
        tmp = out + '.tmp'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        rel = [os.path.relpath(p, REPO) for p in protos] + [os.path.relpath(p, stub) for p in stubs] + \
            ['google/rpc/code.proto', 'google/rpc/status.proto', 'google/rpc/error_details.proto', 'google/longrunning/operations.proto'] + \
            ['google/api/%s.proto' % x for x in ('annotations', 'http', 'client', 'launch_stage', 'field_behavior')]
        inc = ['-I' + REPO, '-I' + PYS, '-I/usr/include', '-I' + stub]
        r = sh(['protoc'] + inc + ['--cpp_out=' + tmp, '--include_imports', '--descriptor_set_out=' + os.path.join(tmp, 'all.desc')] + rel)
        if r.returncode: raise SetupError('protoc failed: ' + r.stderr[-2000:])
        for f, g in zip(fbs, ('FCP_SECAGG_SERVER_TRACING_SCHEMA_STUB_H_', 'FCP_BASE_TRACING_SCHEMA_STUB_H_')):
            o = os.path.join(tmp, f[:-4] + '.h'); os.makedirs(os.path.dirname(o), exist_ok=True)
            r = sh(['python3', os.path.join(V, 'lib/gen_tracing_stub.py'), os.path.join(REPO, f), o, g, ''])
            if r.returncode: raise SetupError('tracing stub failed: ' + r.stderr[-2000:])
        shutil.rmtree(out, ignore_errors=True); os.replace(tmp, out); open(kf, 'w').write(key)
    return key

_TREE = None
def tree_key():
    global _TREE
    if _TREE is None:
        h = hashlib.sha256()
        for p in repo_files(('.h', '.cc', '.inc', '.proto', '.fbs')):
            h.update(p.encode()); h.update(open(p, 'rb').read())
        _TREE = h.hexdigest()[:24]
    return _TREE

def extract(src):
    """JSON of one translation unit (path relative to /repo, or absolute for instantiation files in /verif)"""
    ex = ensure_extractor()
    p = src if src.startswith('/') else os.path.join(REPO, src)
    if not os.path.exists(p): raise FileNotFoundError(src)
    key = sha(tree_key(), p, open(p, 'rb').read(), open(ex + '.key').read(), open(os.path.join(B, 'gen.key')).read(), ' '.join(FLAGS), 'p2')
    os.makedirs(os.path.join(B, 'json'), exist_ok=True)
    out = os.path.join(B, 'json', os.path.basename(p).replace('.', '_') + '-' + key + '.json')
    if not os.path.exists(out):
        for old in glob.glob(os.path.join(B, 'json', os.path.basename(p).replace('.', '_') + '-*.json')): 
            try: os.unlink(old)
            except OSError: pass
        r = sh([ex, out + '.%d' % os.getpid(), REPO + '/,' + V + '/props/', p, '--'] + FLAGS + CLANG_RES)
        if r.returncode or not os.path.exists(out + '.%d' % os.getpid()): raise SetupError('extraction of %s failed: %s' % (src, (r.stderr or r.stdout)[-1500:]))
        os.replace(out + '.%d' % os.getpid(), out)
    return out

# ---------------------------------------------------------------- harness objects
def compile_obj(src, extra=()):
    p = src if src.startswith('/') else os.path.join(REPO, src)
    base = ['g++'] + FLAGS + ['-I' + V + '/props', '-DVERIF_LOG_THROWS', '-fno-access-control', '-g0'] + list(extra)
    r = subprocess.run(base + ['-E', '-P', p], capture_output=True)
    if r.returncode: raise SetupError('preprocessing %s failed: %s' % (src, r.stderr[-1500:].decode(errors='replace')))
    key = sha(r.stdout, ' '.join(base), 'o1')
    os.makedirs(os.path.join(B, 'obj'), exist_ok=True)
    out = os.path.join(B, 'obj', os.path.basename(p).replace('.', '_') + '-' + key + '.o')
    if not os.path.exists(out):
        r = sh(base + ['-O1', '-c', p, '-o', out + '.%d' % os.getpid()])
        if r.returncode: raise SetupError('compiling %s failed: %s' % (src, r.stderr[-1500:]))
        os.replace(out + '.%d' % os.getpid(), out)
    return out
def gen_pb(names):
    """generated sources of the given .proto files and of everything they import (except protobuf's own)"""
    import re
    todo = list(names); seen = []
    while todo:
        n = todo.pop()
        if n in seen or n.startswith('google/protobuf/'): continue
        seen.append(n)
        for root in (REPO, os.path.join(V, 'lib/stubs/proto_stubs'), PYS):
            p = os.path.join(root, n)
            if os.path.exists(p): todo += re.findall(r'^\s*import\s+(?:public\s+)?"([^"]+)"', open(p, errors='replace').read(), re.M); break
    return [os.path.join(B, 'gen', n.replace('.proto', '.pb.cc')) for n in sorted(seen)]
_POOL = None
def build_harness(pid, srcs, libs=(), extra=()):
    ThreadPoolExecutor = concurrent.futures.ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: compile_obj(s, extra if s.startswith(V) else [x for x in extra if not x.startswith('-DPROP=')]), srcs))
    key = sha(*objs, *libs, *extra); os.makedirs(os.path.join(B, 'bin'), exist_ok=True)
    out = os.path.join(B, 'bin', pid + '-' + key)
    if not os.path.exists(out):
        for old in glob.glob(os.path.join(B, 'bin', pid + '-*')): os.unlink(old)
        r = sh(['g++'] + [x for x in extra if x.startswith('-fsan')] + objs + ['-o', out + '.tmp'] + list(libs) + ['-lpthread'])
        if r.returncode: raise SetupError('linking failed: ' + r.stderr[-3000:])
        os.replace(out + '.tmp', out)
    return out

ABSL = None
def absl_libs():
    global ABSL
    if ABSL is None:
        ls = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.so')) or sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a'))
        if ls and ls[0].endswith('.a'): ABSL = ['-Wl,--start-group'] + ls + ['-Wl,--end-group']
        else: ABSL = ['-Wl,--as-needed'] + ls + ['-Wl,--no-as-needed']
    return ABSL
PB = ['-lprotobuf']
BASE = ['fcp/base/monitoring.cc', 'fcp/base/base_name.cc']
CRYPTO = ['/usr/lib/x86_64-linux-gnu/android/libssl.so', '/usr/lib/x86_64-linux-gnu/android/libcrypto.so', '-Wl,-rpath,/usr/lib/x86_64-linux-gnu/android']

# ---------------------------------------------------------------- proof units
class Missing(Exception):
    """a function the contract is about is not there under its name"""

class Ctx:
    """What a proof unit works with."""
    def __init__(self, pid, deadline): self.pid = pid; self.deadline = deadline; self.progs = {}
    def program(self, tus):
        from .program import Program
        k = tuple(tus)
        if k not in self.progs:
            p = Program()
            for t in tus: p.load(extract(t))
            self.progs[k] = p
        return self.progs[k]
    def engine(self, tus, proto=True, **kw):
        from .engine import Engine
        from .proto import Proto
        pr = Proto(os.path.join(B, 'gen', 'all.desc')) if proto else None
        g = Engine(self.program(tus), proto=pr, **kw); g.deadline = self.deadline
        self.g = g
        return g
    def fn(self, name, **kw):
        fs = self.g.p.find(name, **kw)
        if not fs: raise Missing(name)
        return fs[0]
    def fns(self, name, **kw):
        fs = self.g.p.find(name, **kw)
        if not fs: raise Missing(name)
        return fs

def run_unit(args):
    modpath, pid, idx, deadline = args
    t0 = time.time()
    res = dict(name='?', status='error', obs=[], assumptions=[], inlined=[], note='', secs=0, solver=0)
    try:
        import importlib.util, z3
        spec = importlib.util.spec_from_file_location('prop_' + pid, modpath); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
        unit = mod.UNITS[idx]; res['name'] = unit.__name__; res['doc'] = (unit.__doc__ or '').strip()
        ctx = Ctx(pid, deadline)
        from .program import Unsupported
        try:
            sys.setrecursionlimit(20000)
            r = unit(ctx)
            res['status'] = 'done'
            if isinstance(r, str): res['note'] = r
        except Unsupported as ex: res['status'] = 'unsupported'; res['note'] = str(ex)
        except Missing as ex: res['status'] = 'missing'; res['note'] = 'function not found: %s' % ex
        except (SetupError, FileNotFoundError) as ex: res['status'] = 'setup'; res['note'] = str(ex)[-800:]
        except MemoryError: res['status'] = 'timeout'; res['note'] = 'memory limit'
        except z3.Z3Exception as ex: res['status'] = 'unsupported'; res['note'] = 'z3: %s' % str(ex)[:300] + traceback.format_exc()[-700:]
        g = getattr(ctx, 'g', None)
        if g is not None:
            for o in g.obs:
                d = dict(name=o.name, fn=o.fn, line=o.line, status=o.status, secs=round(o.secs, 3), backend=o.backend, exact=o.exact, kind=o.kind)
                if o.status in ('refuted', 'unknown') and o.model is not None:
                    try: d['model'] = {str(x): str(o.model[x])[:200] for x in o.model.decls() if o.model[x] is not None and '.arr' not in str(x)}
                    except Exception: pass
                res['obs'].append(d)
            res['assumptions'] = sorted(g.assumptions)
            res['inlined'] = sorted(getattr(g, 'py_fns', ())) + sorted({'%s (%s:%d)' % (g.p.fns[i].n, os.path.relpath(g.p.fns[i].file, REPO), g.p.fns[i].line) for i in g.inlined if i in g.p.fns and g.p.fns[i].file.startswith(REPO + '/')})
            res['solver'] = g.solver_time; res['houdini'] = [(a, b, len(c), len(d)) for a, b, c, d in g.houdini_log][:50]
    except Exception as ex:
        res['status'] = 'error'; res['note'] = '%s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-1500:])
    res['secs'] = time.time() - t0
    return res

def run_units(modpath, pid, n, limit, jobs=8):
    """each unit in its own process, killed at the time limit"""
    ctx = multiprocessing.get_context('fork'); pending = list(range(n)); running = {}; results = {}
    def child(i, conn, dl):
        import resource, z3
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1])); z3.set_param('memory_max_size', 3500)
        conn.send(run_unit((modpath, pid, i, dl))); conn.close()
    while pending or running:
        while pending and len(running) < jobs:
            i = pending.pop(0); a, b = ctx.Pipe(False); dl = time.time() + limit
            p = ctx.Process(target=child, args=(i, b, dl), daemon=True); p.start(); b.close(); running[i] = (p, a, dl)
        time.sleep(0.02)
        for i in list(running):
            p, a, dl = running[i]
            if a.poll():
                try: results[i] = a.recv()
                except EOFError: results[i] = dict(name='unit %d' % i, status='timeout', note='died (memory limit?)', obs=[], assumptions=[], inlined=[], secs=0, solver=0)
                p.join(2); del running[i]
            elif not p.is_alive() and not a.poll():
                results[i] = dict(name='unit %d' % i, status='timeout', note='died without result (memory limit?)', obs=[], assumptions=[], inlined=[], secs=0, solver=0); del running[i]
            elif time.time() > dl + 30:
                p.kill(); p.join(); results[i] = dict(name='unit %d' % i, status='timeout', note='time limit', obs=[], assumptions=[], inlined=[], secs=limit, solver=limit); del running[i]
    return [results[i] for i in range(n)]

# ---------------------------------------------------------------- findings
def known_findings(pid):
    """lines 'KNOWN property=<id> key=<key> text'; 'fixed:' lines suppress nothing"""
    p = os.path.join(V, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property=%s ' % pid):
                rest = l.strip().split(' ', 3); out.append((rest[2].split('=', 1)[1], rest[3] if len(rest) > 3 else ''))
    return out

def load_mod(pid):
    import importlib.util
    modpath = os.path.join(V, 'props', pid + '.py')
    spec = importlib.util.spec_from_file_location('prop_' + pid, modpath); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
    return mod
def run_harness(cmd, secs, scratch):
    """run a harness; on a time-out tell a process that is stuck (waits for ever, or computes without end) from one that is merely slow"""
    fo, fe = os.path.join(scratch, '.out'), os.path.join(scratch, '.err'); limit = secs * 4 + 60
    def cpu(pid):
        try: f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split(); return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
        except (OSError, IndexError, ValueError): return None
    with open(fo, 'w') as o, open(fe, 'w') as e: p = subprocess.Popen(cmd, stdout=o, stderr=e, stdin=subprocess.DEVNULL, cwd=scratch, env=dict(os.environ, TMPDIR=scratch, VERIF_REPO=REPO))
    text = lambda f: open(f, errors='replace').read()
    try:
        try: p.wait(limit)
        except subprocess.TimeoutExpired:
            c0 = cpu(p.pid)
            try: p.wait(20)
            except subprocess.TimeoutExpired:
                c1 = cpu(p.pid); why = None
                if c0 is not None and c1 is not None and cmd[0].startswith(V):
                    if c1 - c0 < 0.05: why = 'waiting for ever after %d s' % (limit + 20)
                    elif c1 > 2 * secs + 30: why = 'computing without end after %d s' % (limit + 20)
                p.kill(); p.wait(); raise subprocess.TimeoutExpired(cmd, limit, text(fo), why)
    except subprocess.TimeoutExpired: raise
    finally:
        if p.poll() is None: p.kill(); p.wait()
    return subprocess.CompletedProcess(cmd, p.returncode, text(fo), text(fe))
def harness_bin(pid, h):
    return build_harness(pid, [os.path.join(V, 'props', h['main'])] + list(dict.fromkeys(list(h.get('srcs', [])) + BASE)) + gen_pb(h.get('protos', [])), absl_libs() + h.get('libs', []) + PB, h.get('flags', []))

def setup():
    """extractor, generated headers, harness objects and extractions of every registered property"""
    sys.path.insert(0, os.path.join(V, 'lib'))
    ThreadPoolExecutor = concurrent.futures.ThreadPoolExecutor
    ensure_extractor(); ensure_gen()
    pids = [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]; mods = {p: load_mod(p) for p in pids}
    tus = sorted({t for m in mods.values() for t in getattr(m, 'TUS', [])} | {t for m in mods.values() for k in dir(m) if k.startswith('TUS_') for t in getattr(m, k)})
    def tr(f, *a):
        try: f(*a); return None
        except Exception as ex: return '%s: %s' % (a[:1], str(ex)[:300])
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda t: tr(extract, t), tus))
    for p, m in mods.items():
        h = getattr(m, 'HARNESS', None)
        if h and 'main' in h: rs.append(tr(harness_bin, p, h))
    for r in rs:
        if r: print('setup warning: ' + r)
    return 0

def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, os.path.join(V, 'lib'))
    import importlib.util
    modpath = os.path.join(V, 'props', pid + '.py')
    spec = importlib.util.spec_from_file_location('prop_' + pid, modpath); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
    rp_dir = os.path.join(V, 'replays'); os.makedirs(rp_dir, exist_ok=True); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    setup_err = None
    try: ensure_extractor(); ensure_gen()
    except SetupError as ex: setup_err = str(ex)
    # concrete harness: built in parallel with the proofs
    hres = {}
    def harness(again=False):
        if not getattr(mod, 'HARNESS', None): return
        try:
            h = mod.HARNESS
            if 'py' in h: cmd = h['py'] ; binp = None
            else:
                binp = harness_bin(pid, h)
                cmd = [binp]
            secs = h.get('secs', 20) * (4 if tier == 'thorough' else 1)
            tb = time.time()
            scratch = os.path.join(B, 'scratch', '%s-%d' % (pid, os.getpid())); os.makedirs(scratch)
            try:
                r = run_harness(cmd + [str(seed), str(secs)], secs, scratch)
            finally: shutil.rmtree(scratch, ignore_errors=True)
            hres.update(rc=None if r.returncode == 3 and 'py' in h else r.returncode, out=r.stdout, err=r.stderr[-3000:], cmd=cmd, secs=round(time.time() - tb, 2))
        except SetupError as ex: hres.update(rc=None, err=str(ex)[-2500:], out='')
        except subprocess.TimeoutExpired as ex: hres.update(rc='timeout', err=ex.stderr or 'timeout', stuck=ex.stderr, out=ex.stdout or '', cmd=cmd)
        except Exception as ex:
            hres.update(rc=None, err=traceback.format_exc()[-2500:], out='')
            if not again: harness(True)
    th = threading.Thread(target=harness); th.start()
    units = []
    limit = getattr(mod, 'LIMIT', 240)
    if not setup_err: units = run_units(modpath, pid, len(mod.UNITS), limit, jobs=getattr(mod, 'JOBS', 7))
    th.join()
    # ------------------------------------------------ verdict
    known = known_findings(pid); seen_known = []
    fails = []; hstats = {}; hcases = 0
    for l in hres.get('out', '').split('\n'):
        if l.startswith('FAIL '):
            key, _, desc = l[5:].partition(' '); fails.append((key, desc))
        elif l.startswith('STAT '):
            k, _, v = l[5:].partition(' ')
            try: hstats[k] = int(v)
            except ValueError: hstats[k] = v
    rc = hres.get('rc')
    if getattr(mod, 'HARNESS', None) and isinstance(rc, int) and rc not in (0, 1):
        # the code under test crashed the harness: the last 'CASE' line names the input
        last = [l[5:] for l in hres.get('out', '').split('\n') if l.startswith('CASE ')]
        if rc < 0 or rc >= 128 or rc == 77: fails.append(('crash', 'harness process ended with %s; last case: %s; %s' % (rc, last[-1] if last else '?', hres.get('err', '')[-600:])))
    if rc == 'timeout':
        last = [l[5:] for l in hres.get('out', '').split('\n') if l.startswith('CASE ')]
        if last: fails.append(('hang', 'no result within the time limit; last case: ' + last[-1]))
        elif hres.get('stuck'): fails.append(('hang', 'the code under test does not return: ' + hres['stuck']))
    for k, txt in known:
        if any(f[0] == k for f in fails):
            print('KNOWN-FINDING: property=%s %s' % (pid, txt)); seen_known.append(k)
    fails = [f for f in fails if f[0] not in [k for k, _ in known]]
    bad = []; open_units = []; nob = ndis = 0; timeouts = []
    for u in units:
        if u['status'] != 'done': open_units.append('%s: %s (%s)' % (u['name'], u['status'], u['note'][:600]))
        for o in u['obs']:
            nob += 1
            if o['status'] == 'proved': ndis += 1
            elif o['status'] in ('refuted', 'unknown'): bad.append((u, o))
            else: timeouts.append('%s: %s' % (u['name'], o['name']))
        if u['status'] == 'done' and not u['obs']: open_units.append('%s: no obligations generated' % u['name'])
    bad = [(u, o) for u, o in bad if not any(k == 'obligation:' + o['name'] for k, _ in known)]
    funcs = sorted({i for u in units for i in u['inlined']}); assum = sorted({a for u in units for a in u['assumptions']} | set(getattr(mod, 'ASSUMPTIONS', [])))
    violation = None; note = ''
    if fails or bad:
        rp = os.path.join(rp_dir, '%s.json' % pid)
        json.dump(dict(property=pid, failing_inputs=[dict(key=k, input=d) for k, d in fails[:20]], rerun=' '.join(hres.get('cmd', []) + [str(seed), '20']) if fails else None,
                       failed_obligations=[dict(unit=u['name'], contract=u.get('doc', ''), obligation=o['name'], function=o['fn'], line=o['line'], verdict=o['status'], backend=o['backend'], counterexample=o.get('model')) for u, o in bad[:20]]), open(rp, 'w'), indent=1)
        violation = rp
    if not getattr(mod, 'HARNESS', None): hst = 'none'
    elif rc is None: hst = 'not built: ' + hres.get('err', '')[-400:]
    else: hst = 'ran'
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof'),
              coverage=dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt run.py ' + pid,
                            trusted_base=['clang 18 front end and lib/extract (drops: comments, macros after expansion, destructor calls of locals, exception unwinding)', 'lib/vc verification-condition generator and library models', 'z3 5.3 / cvc5 1.1', 'Lean 4.33 for lemmas/'],
                            functions_under_contract=funcs, units=[dict(name=u['name'], contract=u.get('doc', ''), status=u['status'], obligations=len(u['obs']), proved=sum(o['status'] == 'proved' for o in u['obs']), secs=round(u['secs'], 1)) for u in units],
                            obligations_by_backend={b: sum(o['backend'] == b for u in units for o in u['obs'] if o['status'] == 'proved') for b in ('z3', 'cvc5', 'simplifier', 'trivial', 'lean')},
                            solver_seconds=round(sum(u['solver'] for u in units), 1), undecided=open_units + ['solver timeout: ' + t for t in timeouts],
                            bounded_harness=dict(status=hst, stats=hstats, secs=hres.get('secs'), label='bounded: random and enumerated inputs, not counted as proof'), failed=['%s / %s' % (u['name'], o['name']) for u, o in bad][:30]),
              assumptions=assum, violations=len(fails) + len(bad), wall_s=round(time.time() - t0, 2))
    if setup_err: ev['coverage']['undecided'].append('setup: ' + setup_err[-600:])
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged, %d functions executed, %d units undecided, harness %s %s, %.1fs' % (pid, ndis, nob, len(funcs), len(open_units), hst[:200], hstats, time.time() - t0))
    for x in open_units: print('  undecided: ' + x[:700])
    for x in timeouts: print('  solver timeout: ' + x)
    for k, d in fails[:5]: print('  failing input: %s %s' % (k, d[:600]))
    for u, o in bad[:12]: print('  failed obligation: %s / %s in %s:%s [%s%s]' % (u['name'], o['name'], o['fn'], o['line'], o['status'], '' if o['exact'] else ', after loop abstraction'), {k: v for k, v in list(o.get('model', {}).items())[:12]} if os.environ.get('VERIF_DEBUG') else '')
    if fails:
        print('VIOLATION property=%s replay=%s' % (pid, violation)); return 1
    if bad:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, violation)); return 1
    if setup_err or (rc is None and getattr(mod, 'HARNESS', None) and (open_units or not units)):
        print('ERROR: nothing decided: %s' % (setup_err or hres.get('err', '')[-1500:])); return 2
    return 0
